//! Stand-in for common/actor.rs: the same interface, no threads and no real time.  Tasks of all actors
//! wait in one queue and run in the order they were sent (the real actor keeps that order per actor);
//! delayed tasks run when the virtual clock reaches them.  The harness drives it with vx_run/vx_advance.
#![allow(dead_code)]
use std::{
    collections::VecDeque,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    thread,
    time::{Duration, Instant, SystemTime},
};

use crate::common::Result;

struct Job {
    stopped: Arc<AtomicBool>,
    run: Box<dyn FnOnce() + Send>,
}
static QUEUE: Mutex<VecDeque<Job>> = Mutex::new(VecDeque::new());
static LATER: Mutex<Vec<(u64, u64, Job)>> = Mutex::new(Vec::new());
static NOW_NS: AtomicU64 = AtomicU64::new(0);
static SEQ: AtomicU64 = AtomicU64::new(0);
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// the virtual clock
pub fn vx_now() -> Instant {
    *EPOCH.get_or_init(Instant::now) + Duration::from_nanos(NOW_NS.load(Ordering::SeqCst))
}
pub fn vx_sysnow() -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) + Duration::from_nanos(NOW_NS.load(Ordering::SeqCst))
}
pub fn vx_now_ns() -> u64 {
    NOW_NS.load(Ordering::SeqCst)
}
/// forget everything: for the next history
pub fn vx_reset() {
    // dropped outside the locks: what a job owns may send again while it is dropped
    for _ in 0..3 {
        let q = std::mem::take(&mut *QUEUE.lock().unwrap_or_else(|e| e.into_inner()));
        drop(q);
        let l = std::mem::take(&mut *LATER.lock().unwrap_or_else(|e| e.into_inner()));
        drop(l);
    }
    let t: Vec<_> = std::mem::take(&mut *FSMS.lock().unwrap());
    for s in &t {
        s.set(|s| s.kill = true);
    }
}
/// run what is due now, in order, until nothing is
pub fn vx_run() {
    let mut n = 0u64;
    loop {
        let job = QUEUE.lock().unwrap().pop_front();
        match job {
            Some(j) => {
                (j.run)();
                vx_fsms();
            }
            None => {
                if !vx_fsms() {
                    break;
                }
            }
        }
        n += 1;
        if n > 1_000_000 {
            panic!("the actors never come to rest");
        }
    }
}
/// when the next delayed task is due
pub fn vx_next_due() -> Option<u64> {
    LATER.lock().unwrap().iter().map(|t| (t.0, t.1)).min().map(|t| t.0)
}
/// let time pass, one due task at a time
pub fn vx_advance(d: Duration) {
    let end = vx_now_ns() + d.as_nanos() as u64;
    loop {
        vx_run();
        let next = {
            let mut l = LATER.lock().unwrap();
            let k = (0..l.len()).min_by_key(|&i| (l[i].0, l[i].1));
            match k {
                Some(k) if l[k].0 <= end => Some(l.swap_remove(k)),
                _ => None,
            }
        };
        match next {
            Some((at, _, job)) => {
                NOW_NS.store(at.max(vx_now_ns()), Ordering::SeqCst);
                (job.run)();
                vx_fsms();
            }
            None => break,
        }
    }
    NOW_NS.store(end, Ordering::SeqCst);
    vx_run();
}

struct Cell<State>(Mutex<Option<State>>);
// everything runs on the harness's one thread
unsafe impl<State> Send for Cell<State> {}
unsafe impl<State> Sync for Cell<State> {}

pub struct Actor<State> {
    cell: Arc<Cell<State>>,
    stopped: Arc<AtomicBool>,
    stopper: Stopper,
}

impl<State: 'static> Actor<State> {
    pub fn start(
        _name: impl Into<String>,
        stopper: Stopper,
        gen_state: impl FnOnce(Actor<State>) -> Result<State> + Send + 'static,
    ) -> Result<Self> {
        let stopped = Arc::new(AtomicBool::new(false));
        stopper.flags.lock().unwrap().push(stopped.clone());
        let actor = Self { cell: Arc::new(Cell(Mutex::new(None))), stopped, stopper };
        match gen_state(actor.clone()) {
            Ok(s) => *actor.cell.0.lock().unwrap() = Some(s),
            Err(_) => actor.stopped.store(true, Ordering::SeqCst),
        }
        Ok(actor)
    }

    fn job(&self, run: impl FnOnce(&mut State) + Send + 'static) -> Job {
        let (cell, stopped) = (self.cell.clone(), self.stopped.clone());
        let flag = stopped.clone();
        let run = Box::new(move || {
            if !stopped.load(Ordering::SeqCst) {
                let s = cell.0.lock().unwrap_or_else(|e| e.into_inner()).take();
                if let Some(mut s) = s {
                    run(&mut s);
                    *cell.0.lock().unwrap_or_else(|e| e.into_inner()) = Some(s);
                }
            }
        });
        Job { stopped: flag, run }
    }

    pub fn send(&self, run: impl FnOnce(&mut State) + Send + 'static) {
        let j = self.job(run);
        QUEUE.lock().unwrap().push_back(j);
    }

    pub fn send_delayed(&self, delay: Duration, run: impl FnOnce(&mut State) + Send + 'static) {
        let j = self.job(run);
        let at = vx_now_ns().saturating_add(delay.as_nanos().min(u64::MAX as u128) as u64);
        LATER.lock().unwrap().push((at, SEQ.fetch_add(1, Ordering::SeqCst), j));
    }

    pub fn stopper(&self) -> &Stopper {
        &self.stopper
    }

    /// look at the state from the harness
    pub fn vx_with<R>(&self, f: impl FnOnce(&mut State) -> R) -> Option<R> {
        self.cell.0.lock().unwrap_or_else(|e| e.into_inner()).as_mut().map(f)
    }
    pub fn vx_stopped(&self) -> bool {
        self.stopped.load(Ordering::SeqCst)
    }
    /// break the reference cycles of a finished history
    pub fn vx_drop(&self) {
        let s = self.cell.0.lock().unwrap_or_else(|e| e.into_inner()).take();
        drop(s);
    }
}

impl<State> Clone for Actor<State> {
    fn clone(&self) -> Self {
        Self { cell: self.cell.clone(), stopped: self.stopped.clone(), stopper: self.stopper.clone() }
    }
}

#[derive(Clone, Default)]
pub struct Stopper {
    flags: Arc<Mutex<Vec<Arc<AtomicBool>>>>,
    has_been_stopped: Arc<AtomicBool>,
}

impl Stopper {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn stop_all_without_joining(&self) -> Vec<thread::JoinHandle<()>> {
        self.has_been_stopped.store(true, Ordering::SeqCst);
        for f in self.flags.lock().unwrap().drain(..) {
            f.store(true, Ordering::SeqCst);
        }
        // the real actor's thread ends: what it still had to do is dropped
        let mut gone = vec![];
        let mut q = QUEUE.lock().unwrap();
        let (dead, alive) = q.drain(..).partition::<Vec<_>, _>(|j| j.stopped.load(Ordering::SeqCst));
        q.extend(alive);
        drop(q);
        gone.extend(dead);
        let mut l = LATER.lock().unwrap();
        let (dead, alive) = l.drain(..).partition::<Vec<_>, _>(|j| j.2.stopped.load(Ordering::SeqCst));
        l.extend(alive);
        drop(l);
        gone.extend(dead.into_iter().map(|j| j.2));
        drop(gone);
        vec![]
    }
    pub fn stop_all_and_join(&self) {
        self.stop_all_without_joining();
    }
    pub fn has_been_stopped(&self) -> bool {
        self.has_been_stopped.load(Ordering::SeqCst)
    }
}

// The threads of the state machines (core/call.rs, core/connection.rs) are real threads, but only one runs at a
// time: each waits for its turn before it looks at its queue, and the harness hands out the turns - after every
// actor task, oldest machine first, until none has anything left to do.
#[derive(Clone, Copy, PartialEq)]
enum At {
    Busy,
    Waiting,
    Dead,
}
struct Turn {
    at: At,
    go: bool,
    kill: bool,
    handled: bool,
}
struct Slot(Mutex<Turn>, std::sync::Condvar);
impl Slot {
    fn set(&self, f: impl FnOnce(&mut Turn)) {
        f(&mut self.0.lock().unwrap());
        self.1.notify_all();
    }
    fn until(&self, limit: Duration, f: impl Fn(&Turn) -> bool) -> Option<std::sync::MutexGuard<'_, Turn>> {
        let g = self.0.lock().unwrap();
        let (g, t) = self.1.wait_timeout_while(g, limit, |s| !f(s)).unwrap();
        (!t.timed_out()).then_some(g)
    }
}
static FSMS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
thread_local! {
    static ME: std::cell::RefCell<Option<Arc<Slot>>> = const { std::cell::RefCell::new(None) };
}
/// one turn for one machine: None if it did not give the turn back in time
fn turn(s: &Slot, limit: Duration) -> Option<bool> {
    let mut g = s.until(limit, |s| s.at != At::Busy && !s.go)?;
    if g.at == At::Dead {
        return Some(false);
    }
    g.go = true;
    g.handled = false;
    drop(g);
    s.1.notify_all();
    let g = s.until(limit, |s| s.at != At::Busy && !s.go)?;
    Some(g.handled)
}
fn alive() -> Vec<Arc<Slot>> {
    let mut l = FSMS.lock().unwrap();
    l.retain(|s| s.0.lock().unwrap().at != At::Dead);
    l.clone()
}
/// turns for all, until none has anything to do
pub fn vx_fsms() -> bool {
    let mut any = false;
    if ME.with(|m| m.borrow().is_some()) {
        return false;
    }
    let mut n = 0;
    loop {
        let mut again = false;
        for s in alive() {
            while turn(&s, Duration::from_secs(20)).unwrap_or_else(|| panic!("a state machine hangs")) {
                again = true;
                n += 1;
                if n > 100_000 {
                    panic!("the state machines never come to rest");
                }
            }
        }
        if !again {
            return any;
        }
        any = true;
    }
}

pub struct VxBuilder(thread::Builder);
impl VxBuilder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(thread::Builder::new())
    }
    pub fn name(self, n: String) -> Self {
        Self(self.0.name(n))
    }
    pub fn stack_size(self, n: usize) -> Self {
        Self(self.0.stack_size(n))
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(self, f: F) -> std::io::Result<thread::JoinHandle<()>> {
        let slot = Arc::new(Slot(Mutex::new(Turn { at: At::Busy, go: false, kill: false, handled: false }), Default::default()));
        FSMS.lock().unwrap().push(slot.clone());
        self.0.spawn(move || {
            struct Bye(Arc<Slot>);
            impl Drop for Bye {
                fn drop(&mut self) {
                    self.0.set(|s| (s.at, s.go) = (At::Dead, false));
                }
            }
            ME.with(|m| *m.borrow_mut() = Some(slot.clone()));
            let _bye = Bye(slot);
            f()
        })
    }
}

pub struct VxReceiver<T>(std::sync::mpsc::Receiver<T>);
pub fn vx_sync_channel<T>(n: usize) -> (std::sync::mpsc::SyncSender<T>, VxReceiver<T>) {
    let (a, b) = std::sync::mpsc::sync_channel(n);
    (a, VxReceiver(b))
}
impl<T> VxReceiver<T> {
    pub fn recv(&self) -> std::result::Result<T, std::sync::mpsc::RecvError> {
        let Some(me) = ME.with(|m| m.borrow().clone()) else { return self.0.recv() };
        loop {
            me.set(|s| s.at = At::Waiting);
            let mut g = me.0.lock().unwrap();
            while !g.go && !g.kill {
                g = me.1.wait(g).unwrap();
            }
            if g.kill {
                return Err(std::sync::mpsc::RecvError);
            }
            (g.go, g.at) = (false, At::Busy);
            drop(g);
            match self.0.try_recv() {
                Ok(e) => {
                    me.set(|s| s.handled = true);
                    return Ok(e);
                }
                Err(std::sync::mpsc::TryRecvError::Empty) => {}
                Err(_) => return Err(std::sync::mpsc::RecvError),
            }
        }
    }
    pub fn try_recv(&self) -> std::result::Result<T, std::sync::mpsc::TryRecvError> {
        self.0.try_recv()
    }
    pub fn recv_timeout(&self, d: Duration) -> std::result::Result<T, std::sync::mpsc::RecvTimeoutError> {
        self.0.recv_timeout(d)
    }
    pub fn try_iter(&self) -> std::sync::mpsc::TryIter<'_, T> {
        self.0.try_iter()
    }
}

/// Mutex and condition variable of those files: waiting hands out turns.
#[derive(Default)]
pub struct VxMutex<T>(Mutex<T>);
pub struct VxGuard<'a, T>(&'a VxMutex<T>, Option<std::sync::MutexGuard<'a, T>>);
impl<T> VxMutex<T> {
    pub fn new(t: T) -> Self {
        Self(Mutex::new(t))
    }
    pub fn lock(&self) -> std::result::Result<VxGuard<'_, T>, ()> {
        Ok(VxGuard(self, Some(self.0.lock().map_err(|_| ())?)))
    }
}
impl<T> std::ops::Deref for VxGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.1.as_ref().unwrap()
    }
}
impl<T> std::ops::DerefMut for VxGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.1.as_mut().unwrap()
    }
}
#[derive(Default)]
pub struct VxCondvar;
impl VxCondvar {
    pub fn new() -> Self {
        Self
    }
    pub fn notify_all(&self) {}
    pub fn notify_one(&self) {}
    /// the caller looks again: one turn for each machine in between (the waiting thread may hold locks a machine
    /// wants, so it does not wait for ever for the turn to end)
    pub fn wait<'a, T>(&self, g: VxGuard<'a, T>) -> std::result::Result<VxGuard<'a, T>, ()> {
        let m = g.0;
        drop(g);
        let t = std::time::Instant::now();
        if !ME.with(|m| m.borrow().is_some()) {
            for s in alive().iter().rev() {
                turn(s, Duration::from_millis(20));
            }
        } else {
            thread::sleep(Duration::from_millis(1));
        }
        static LONG: AtomicU64 = AtomicU64::new(0);
        if LONG.fetch_add(t.elapsed().as_micros() as u64, Ordering::SeqCst) > 300_000_000 {
            panic!("waits without end");
        }
        m.lock()
    }
}
