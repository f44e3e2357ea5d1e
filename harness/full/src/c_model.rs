//! What a call manager should do, step by step: the same histories, none of the code's types or threads.
use crate::c_rig::{Bad, Cand, Ev, Fault, Hang, Msg, Note, Op};
use ringrtc::protobuf::rtp_data as pb;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

type R = Result<(), ()>;
pub type Status = [Option<bool>; 3];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum CS {
    NotYetStarted,
    WaitingToProceed,
    ConnectingBefore,
    ConnectingAfter,
    ConnectedBefore,
    ConnectedAndAccepted,
    Reconnecting,
    Terminating,
    Terminated,
}
use CS::*;
impl CS {
    fn over(self) -> bool {
        self >= Terminating
    }
    fn in_call(self) -> bool {
        matches!(self, ConnectedAndAccepted | Reconnecting)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum KS {
    NotYetStarted,
    Starting,
    IceGathering,
    ConnectingBeforeAccepted,
    ConnectingAfterAccepted,
    ConnectedBeforeAccepted,
    ConnectedAndAccepted,
    ReconnectingAfterAccepted,
    IceFailed,
    Terminating,
    Terminated,
}
impl KS {
    fn over(self) -> bool {
        self >= KS::Terminating
    }
    /// connecting, connected or reconnecting
    fn talking(self) -> bool {
        self >= KS::ConnectingBeforeAccepted && self <= KS::ReconnectingAfterAccepted
    }
}

#[derive(Clone, Debug)]
enum CE {
    Start,
    Proceed(bool, Option<u64>),
    Accept,
    HangupToAll(Hang),
    Answer(u32, Option<u64>, Bad),
    Ice(u32, Vec<Cand>),
    Hangup(u32, Hang),
    State(u32, KS),
    Sender(u32, Status),
    Route(u32, (bool, bool)),
    Levels(u16),
    Low(bool),
    Nothing,
    Error,
    Timeout,
    Terminate,
}
#[derive(Clone, Debug)]
enum KE {
    Ice(Vec<Cand>),
    Hangup(u64, Hang),
    Accepted(u64),
    Sender(u64, Status, u64),
    Receiver(u64, u64, u64),
    Accept,
    SendHangup(Hang),
    UpdateSender(Status),
    Mode(bool),
    Local(Cand),
    Connected,
    Failed,
    Disconnected,
    Route((bool, bool)),
    Media,
    Error,
    Terminate,
}
#[derive(Clone, Debug)]
enum CW {
    Proceed(bool, Option<u64>),
    Answer(u32, Option<u64>, Bad),
    Ice(u32, Vec<Cand>),
    Hangup(Option<&'static str>),
    AcceptLocally,
    AcceptRemotely,
    HangupToAll(Hang),
    TellOthers(u32),
    IceFailed(u32),
    Error,
    Timeout,
}
#[derive(Clone, Debug)]
enum CN {
    App(&'static str),
    Route((bool, bool)),
    Levels(u16),
    Low(bool),
}
#[derive(Clone, Debug)]
enum KW {
    Accepted,
    Hangup(Hang),
    Sender(Status),
    Mode(bool),
    Local(Cand),
    Media,
}
#[derive(Clone, Debug)]
enum KN {
    Hangup(Hang),
    Nothing,
    Route((bool, bool)),
    Error,
}
#[derive(Clone, Debug)]
enum Job {
    Api(Box<Op>),
    End(usize, Option<Hang>),
    CallWork(usize, CW),
    CallNote(usize, CN),
    ConnWork(usize, KW),
    ConnNote(usize, KN),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bwe {
    Low(u64),
    Recovered(u64),
    Done,
}
#[derive(Clone, Debug)]
enum Later {
    Timeout(usize),
    Tick(usize, Bwe),
}
#[derive(Clone, Debug)]
enum What {
    Offer(usize, u64),
    Answer(usize, u32, u64),
    Ice(usize, bool),
    Hangup(Hang),
    Busy,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Offer,
    Answer,
    Ice,
    Hangup,
    Busy,
}
impl What {
    fn kind(&self) -> Kind {
        match self {
            What::Offer(..) => Kind::Offer,
            What::Answer(..) => Kind::Answer,
            What::Ice(..) => Kind::Ice,
            What::Hangup(..) => Kind::Hangup,
            What::Busy => Kind::Busy,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub id: u64,
    pub peer: u8,
    pub out: bool,
    video: bool,
    local: u32,
    pub state: CS,
    pub device: Option<u32>,
    pending: Option<(u32, Option<u64>, Bad, Vec<Cand>)>,
    ctx: Option<u64>,
    pub conns: BTreeMap<u32, usize>,
    pub parent: Option<usize>,
    offered: bool,
    rang: bool,
    inbox: VecDeque<CE>,
    dead: bool,
    concluded: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Side {
    Parent,
    Child,
    Incoming,
}
#[derive(Clone, Debug)]
pub struct Conn {
    pub call: usize,
    pub device: u32,
    pub side: Side,
    pub state: KS,
    pub gone: bool,
    low: bool,
    levels: Option<u64>,
    remote_max: Option<u64>,
    route: (bool, bool),
    buffer: Vec<String>,
    said: Msg,
    pub sent: u32,
    heard: u32,
    pub media: Option<u64>,
    sender: Option<(u64, Status)>,
    receiver: Option<(u64, u64)>,
    ticks: u64,
    inbox: VecDeque<KE>,
    dead: bool,
}
#[derive(Clone, Copy, Debug)]
enum Mach {
    Call(usize),
    Conn(usize),
}
#[derive(Clone, Debug, Default)]
enum Pending {
    #[default]
    None,
    Ice(u8, u64, Vec<(u32, Vec<Cand>)>),
    Hangup(u8, u64, (u32, Hang)),
}

#[derive(Default)]
pub struct M {
    now: u64,
    seq: u64,
    jobs: VecDeque<Job>,
    later: Vec<(u64, u64, Later)>,
    machines: Vec<Mach>,
    pub calls: Vec<Call>,
    pub conns: Vec<Conn>,
    pub busy: bool,
    pub active: Option<u64>,
    pub map: BTreeMap<u64, usize>,
    queue: VecDeque<(usize, What)>,
    pub in_flight: bool,
    last: Option<Kind>,
    pending: Pending,
    faults: BTreeSet<Fault>,
    assume: bool,
    bwe: u32,
    level: u16,
    media: u64,
    log: Vec<Ev>,
}

fn max_of(low: bool) -> u64 {
    if low { 300_000 } else { 2_000_000 }
}
fn shown(c: &Cand) -> String {
    match c {
        Cand::Add(s) => format!("+{s}"),
        Cand::Remove(a) => format!("-{a}"),
        Cand::Junk => "?".into(),
    }
}

impl M {
    fn say(&mut self, e: Ev, f: Fault) -> R {
        self.log.push(e);
        if self.faults.contains(&f) { Err(()) } else { Ok(()) }
    }
    fn pc(&mut self, n: usize, what: Note) {
        self.log.push(Ev::Pc { n, what });
    }
    // ---- the machines
    fn tell(&mut self, c: usize, e: CE) {
        if !self.calls[c].dead {
            self.calls[c].inbox.push_back(e);
        }
    }
    fn tell_conn(&mut self, k: usize, e: KE) {
        if !self.conns[k].dead {
            self.conns[k].inbox.push_back(e);
        }
    }
    fn turn(&mut self, m: Mach) -> bool {
        match m {
            Mach::Call(c) => match self.calls[c].inbox.pop_front() {
                Some(e) => {
                    self.on_call(c, e);
                    true
                }
                None => false,
            },
            Mach::Conn(k) => match self.conns[k].inbox.pop_front() {
                Some(e) => {
                    self.on_conn(k, e);
                    true
                }
                None => false,
            },
        }
    }
    fn alive(&mut self) -> Vec<Mach> {
        let (calls, conns) = (&self.calls, &self.conns);
        self.machines.retain(|m| match m {
            Mach::Call(c) => !calls[*c].dead,
            Mach::Conn(k) => !conns[*k].dead,
        });
        self.machines.clone()
    }
    fn turns(&mut self) -> bool {
        let mut any = false;
        loop {
            let mut again = false;
            for m in self.alive() {
                while self.turn(m) {
                    again = true;
                }
            }
            if !again {
                return any;
            }
            any = true;
        }
    }
    fn wait(&mut self, m: Mach) {
        loop {
            let done = match m {
                Mach::Call(c) => self.calls[c].dead,
                Mach::Conn(k) => self.conns[k].dead,
            };
            if done {
                return;
            }
            for m in self.alive().into_iter().rev() {
                self.turn(m);
            }
        }
    }
    fn run(&mut self) {
        loop {
            match self.jobs.pop_front() {
                Some(j) => {
                    self.job(j);
                    self.turns();
                }
                None => {
                    if !self.turns() {
                        return;
                    }
                }
            }
        }
    }
    fn pass(&mut self, ms: u64) {
        let end = self.now + ms;
        loop {
            self.run();
            let k = (0..self.later.len()).min_by_key(|&i| (self.later[i].0, self.later[i].1));
            match k {
                Some(k) if self.later[k].0 <= end => {
                    let (at, _, l) = self.later.swap_remove(k);
                    self.now = at;
                    match l {
                        Later::Timeout(c) => self.tell(c, CE::Timeout),
                        Later::Tick(k, b) => self.tick(k, b),
                    }
                    self.turns();
                }
                _ => break,
            }
        }
        self.now = end;
        self.run();
    }
    fn after(&mut self, ms: u64, l: Later) {
        self.seq += 1;
        self.later.push((self.now + ms, self.seq, l));
    }
    fn job(&mut self, j: Job) {
        match j {
            Job::Api(op) => self.api(*op),
            Job::End(c, hangup) => {
                let r = match hangup {
                    Some(h) if !self.calls[c].out || self.calls[c].offered => self.send(c, What::Hangup(h)),
                    _ => Ok(()),
                }
                .and_then(|_| match self.map.remove(&self.calls[c].id) {
                    Some(c) => {
                        self.end_call(c);
                        Ok(())
                    }
                    None => Err(()),
                });
                if r.is_err() {
                    self.ended(c, "InternalFailure");
                }
            }
            Job::CallWork(c, w) => self.call_work(c, w),
            Job::CallNote(c, n) => {
                if self.calls[c].state != Terminating && self.call_note(c, n).is_err() {
                    self.tell(c, CE::Error);
                }
            }
            Job::ConnWork(k, w) => {
                if self.conns[k].state == KS::Terminating && !matches!(w, KW::Hangup(_)) {
                    return;
                }
                let r = match w {
                    KW::Accepted => {
                        self.conns[k].said.accepted = Some(pb::Accepted { id: Some(self.calls[self.conns[k].call].id) });
                        self.say_rtp(k);
                        Ok(())
                    }
                    KW::Hangup(h) => {
                        let (t, d) = h.wire();
                        self.conns[k].said.hangup = Some(pb::Hangup { id: Some(self.calls[self.conns[k].call].id), r#type: Some(t), device_id: d });
                        self.say_rtp(k);
                        Ok(())
                    }
                    KW::Sender(s) => {
                        let id = Some(self.calls[self.conns[k].call].id);
                        let old = self.conns[k].said.sender_status.clone().unwrap_or_default();
                        self.conns[k].said.sender_status = Some(pb::SenderStatus {
                            id,
                            video_enabled: s[0].or(old.video_enabled),
                            sharing_screen: s[1].or(old.sharing_screen),
                            audio_enabled: s[2].or(old.audio_enabled),
                        });
                        self.say_rtp(k);
                        Ok(())
                    }
                    KW::Mode(low) => {
                        if self.conns[k].low != low {
                            self.conns[k].low = low;
                            self.rate(k);
                            let id = Some(self.calls[self.conns[k].call].id);
                            self.conns[k].said.receiver_status = Some(pb::ReceiverStatus { id, max_bitrate_bps: Some(max_of(low)) });
                            self.say_rtp(k);
                        }
                        Ok(())
                    }
                    KW::Local(c) => {
                        self.conns[k].buffer.push(shown(&c));
                        let call = self.conns[k].call;
                        if self.conns[k].buffer.len() == 1 && !self.calls[call].state.over() {
                            self.send(call, What::Ice(k, self.conns[k].side == Side::Parent))
                        } else {
                            Ok(())
                        }
                    }
                    KW::Media => {
                        self.media += 1;
                        let media = self.media;
                        self.say(Ev::NewMedia { n: k, media }, Fault::Media).and_then(|_| {
                            if self.conns[k].media.is_some() {
                                return Err(());
                            }
                            self.conns[k].media = Some(media);
                            Ok(())
                        })
                    }
                };
                if r.is_err() {
                    self.tell_conn(k, KE::Error);
                }
            }
            Job::ConnNote(k, n) => {
                if self.conns[k].state == KS::Terminating {
                    return;
                }
                let (c, d) = (self.conns[k].call, self.conns[k].device);
                self.tell(
                    c,
                    match n {
                        KN::Hangup(h) => CE::Hangup(d, h),
                        KN::Nothing => CE::Nothing,
                        KN::Route(r) => CE::Route(d, r),
                        KN::Error => CE::Error,
                    },
                );
            }
        }
    }
    // ---- the call manager
    fn active_call(&self) -> Option<usize> {
        self.active.and_then(|a| self.map.get(&a)).copied()
    }
    fn ended(&mut self, c: usize, why: &str) {
        let (peer, id) = (self.calls[c].peer, self.calls[c].id);
        self.log.push(Ev::Ended { peer, id, why: why.into() });
    }
    fn app(&mut self, c: usize, what: &str) -> R {
        let (peer, id) = (self.calls[c].peer, self.calls[c].id);
        self.say(Ev::App { peer, id, what: what.into() }, Fault::Event)
    }
    fn on_failure(&self, c: usize) -> bool {
        self.calls[c].out || self.calls[c].state == ConnectingAfter || self.calls[c].state.in_call()
    }
    fn trouble(&mut self, id: u64) -> R {
        if self.active == Some(id) {
            let c = self.active_call().ok_or(())?;
            self.end_active(self.on_failure(c), "InternalFailure")
        } else {
            Ok(())
        }
    }
    fn end(&mut self, c: usize, hangup: Option<Hang>, why: Option<&str>) {
        let id = self.calls[c].id;
        let calls = &self.calls;
        self.queue.retain(|(c, w)| calls[*c].id != id || matches!(w, What::Busy | What::Hangup(_)));
        if let Some(w) = why {
            self.ended(c, w);
        }
        if let Some(h) = hangup {
            self.calls[c].state = Terminating;
            self.tell(c, CE::HangupToAll(h));
        }
        self.jobs.push_back(Job::End(c, hangup));
    }
    fn end_active(&mut self, hangup: bool, why: &str) -> R {
        if self.active.is_none() {
            return Ok(());
        }
        let c = self.active_call().ok_or(())?;
        self.active = None;
        self.busy = false;
        self.end(c, hangup.then_some(Hang::Normal), Some(why));
        Ok(())
    }
    fn new_call(&mut self, peer: u8, id: u64, out: bool, video: bool, local: u32) -> usize {
        self.calls.push(Call {
            id,
            peer,
            out,
            video,
            local,
            state: CS::NotYetStarted,
            device: None,
            pending: None,
            ctx: None,
            conns: BTreeMap::new(),
            parent: None,
            offered: false,
            rang: false,
            inbox: VecDeque::new(),
            dead: false,
            concluded: false,
        });
        let c = self.calls.len() - 1;
        self.machines.push(Mach::Call(c));
        c
    }
    fn begin(&mut self, c: usize) {
        let id = self.calls[c].id;
        self.in_flight = false;
        self.map.insert(id, c);
        self.busy = true;
        self.active = Some(id);
        self.after(60_000, Later::Timeout(c));
    }
    fn cannot(&mut self, peer: u8, id: u64) {
        if let Some(a) = self.active_call()
            && self.calls[a].peer == peer
        {
            let _ = self.trouble(self.calls[a].id);
            return;
        }
        self.log.push(Ev::Ended { peer, id, why: "InternalFailure".into() });
        self.log.push(Ev::Concluded { peer, id });
    }
    /// the active call if it is this one
    fn this(&self, id: u64) -> Option<usize> {
        self.active_call().filter(|c| self.calls[*c].id == id)
    }
    fn api(&mut self, op: Op) {
        match op {
            Op::Call { peer, id, video, local } => {
                if self.busy || self.active.is_some() {
                    return self.cannot(peer, id);
                }
                let c = self.new_call(peer, id, true, video, local);
                self.begin(c);
                self.tell(c, CE::Start);
            }
            Op::Offer { peer, id, age, from, to, video, max, bad } => {
                if age > 60_000 {
                    self.log.push(Ev::Expired { peer, id, age });
                    self.log.push(Ev::Concluded { peer, id });
                    return;
                }
                let c = self.new_call(peer, id, false, video, to);
                if self.offered(c, from, max, bad).is_err() {
                    self.cannot(peer, id);
                }
            }
            Op::Sent { .. } => {
                self.in_flight = false;
                let r = self.next();
                self.checked(r);
            }
            Op::SendFailed { id } => {
                if let Some(c) = self.this(id) {
                    let s = self.calls[c].state;
                    if !((s == ConnectedBefore || s.in_call()) && self.last == Some(Kind::Ice)) {
                        let _ = self.end_active(self.on_failure(c), "SignalingFailure");
                    }
                } else if let Some(&c) = self.map.get(&id) {
                    let h = self.on_failure(c).then_some(Hang::Normal);
                    self.end(c, h, Some("SignalingFailure"));
                }
                self.in_flight = false;
                let r = self.next();
                self.checked(r);
            }
            Op::Accept { id } => {
                if let Some(c) = self.this(id) {
                    self.tell(c, CE::Accept);
                }
            }
            Op::Drop { id } => {
                if self.this(id).is_some() {
                    let _ = self.end_active(false, "AppDroppedCall");
                }
            }
            Op::HangUp => {
                let _ = self.active_call().map(|_| self.end_active(true, "LocalHangup"));
            }
            Op::Proceed { id, ctx, low, levels_ms } => {
                if let Some(c) = self.this(id) {
                    if self.calls[c].ctx.is_some() {
                        return self.checked(Err(()));
                    }
                    self.calls[c].ctx = Some(ctx);
                    self.tell(c, CE::Proceed(low, levels_ms));
                }
            }
            Op::Answer { peer, id, from, max, bad } => {
                if let Some(c) = self.this(id).filter(|c| self.calls[*c].peer == peer) {
                    self.tell(c, CE::Answer(from, max, bad));
                }
            }
            Op::Ice { peer, id, from, cands } => match self.active_call() {
                Some(c) if self.calls[c].id == id => {
                    if self.calls[c].peer == peer {
                        self.tell(c, CE::Ice(from, cands));
                    }
                }
                a => {
                    if a.is_some_and(|c| !self.calls[c].out) || (a.is_none() && self.busy) {
                        return;
                    }
                    match &mut self.pending {
                        Pending::Ice(_, i, v) if *i == id => {
                            if v.len() >= 30 {
                                v.remove(0);
                            }
                            v.push((from, cands));
                        }
                        Pending::Hangup(_, i, _) if *i == id => {}
                        p => *p = Pending::Ice(peer, id, vec![(from, cands)]),
                    }
                }
            },
            Op::Hangup { peer, id, from, what } => match self.active_call() {
                Some(c) if self.calls[c].id == id => {
                    if self.calls[c].peer == peer {
                        self.tell(c, CE::Hangup(from, what));
                    }
                }
                a => {
                    if a.is_some_and(|c| !self.calls[c].out) || (a.is_none() && self.busy) {
                        return;
                    }
                    self.pending = Pending::Hangup(peer, id, (from, what));
                }
            },
            Op::Busy { peer, id, from } => {
                if let Some(c) = self.this(id).filter(|c| self.calls[*c].peer == peer) {
                    let r = self.tell_others(c, Hang::Busy(from), from);
                    let r = r.and_then(|_| {
                        self.active = None;
                        self.busy = false;
                        self.end(c, None, Some("RemoteBusy"));
                        Ok(())
                    });
                    self.checked(r);
                }
            }
            Op::Reset => {
                let calls: Vec<usize> = self.map.values().copied().collect();
                for c in calls {
                    self.end(c, Some(Hang::Normal), None);
                }
                self.active = None;
                self.busy = false;
                self.queue.clear();
                self.in_flight = false;
            }
            op => panic!("{op:?} is no request"),
        }
    }
    fn checked(&mut self, r: R) {
        if r.is_err()
            && let Some(c) = self.active_call()
        {
            let _ = self.trouble(self.calls[c].id);
        }
    }
    fn offered(&mut self, c: usize, from: u32, max: Option<u64>, bad: Bad) -> R {
        let (peer, id) = (self.calls[c].peer, self.calls[c].id);
        // whether the call under way ends (and how), whether this one starts, or what the application hears
        enum Then {
            Start,
            Ignore,
            Refuse(&'static str),
        }
        let (end, then) = match (self.active, self.active_call()) {
            (None, _) if !self.busy => (None, Then::Start),
            (None, _) | (Some(_), None) => (None, Then::Refuse("ReceivedOfferWhileActive")),
            (_, Some(a)) => {
                let a = &self.calls[a];
                if a.peer != peer || a.device.is_some_and(|d| d != from) {
                    (None, Then::Refuse("ReceivedOfferWhileActive"))
                } else if a.id != id && a.device.is_some() && a.state >= ConnectedAndAccepted {
                    (Some((None, "RemoteReCall")), Then::Start)
                } else if a.id > id {
                    (None, Then::Ignore)
                } else if a.id < id {
                    (Some((Some(Hang::Normal), "RemoteGlare")), Then::Start)
                } else {
                    (Some((Some(Hang::Normal), "RemoteGlare")), Then::Refuse("GlareHandlingFailure"))
                }
            }
        };
        if let Some((hangup, why)) = end {
            let a = self.active_call().unwrap();
            self.active = None;
            self.busy = false;
            self.end(a, hangup, Some(why));
        }
        match then {
            Then::Ignore => self.app(c, "ReceivedOfferWithGlare"),
            Then::Refuse(what) => {
                self.app(c, what)?;
                self.send(c, What::Busy)
            }
            Then::Start => {
                self.begin(c);
                self.calls[c].pending = Some((from, max, bad, vec![]));
                self.tell(c, CE::Start);
                match std::mem::take(&mut self.pending) {
                    Pending::Ice(p, i, v) if i == id && p == peer => v.into_iter().for_each(|(d, c2)| self.tell(c, CE::Ice(d, c2))),
                    Pending::Hangup(p, i, (d, h)) if i == id && p == peer => self.tell(c, CE::Hangup(d, h)),
                    _ => {}
                }
                Ok(())
            }
        }
    }
    // ---- signalling: one message at a time
    fn send(&mut self, c: usize, w: What) -> R {
        self.queue.push_back((c, w));
        self.next()
    }
    fn next(&mut self) -> R {
        let assume = self.assume;
        while !self.in_flight {
            let Some((c, w)) = self.queue.pop_front() else { return Ok(()) };
            let (peer, id, kind) = (self.calls[c].peer, self.calls[c].id, w.kind());
            let sent = match w {
                What::Offer(k, _) | What::Answer(k, ..) if self.conns[k].state.over() => Ok(false),
                What::Offer(_, max) => {
                    let (video, max) = (self.calls[c].video, Some(max));
                    self.say(Ev::Offer { peer, id, video, max }, Fault::Offer).map(|_| true)
                }
                What::Answer(_, device, max) => {
                    let max = Some(max);
                    self.say(Ev::Answer { peer, id, device, max }, Fault::Answer).map(|_| true)
                }
                What::Ice(k, broadcast) => {
                    let cands = std::mem::take(&mut self.conns[k].buffer);
                    if cands.is_empty() {
                        Ok(false)
                    } else {
                        let device = (!broadcast).then_some(self.conns[k].device);
                        self.say(Ev::Ice { peer, id, device, cands }, Fault::Ice).map(|_| true)
                    }
                }
                What::Hangup(h) => self.say(Ev::Hangup { peer, id, what: format!("{h:?}") }, Fault::Hangup).map(|_| true),
                What::Busy => self.say(Ev::Busy { peer, id }, Fault::Busy).map(|_| true),
            };
            match sent {
                Ok(s) => {
                    self.in_flight = s && !assume;
                    self.last = Some(kind);
                }
                Err(()) => self.trouble(id)?,
            }
        }
        Ok(())
    }
    // ---- a call
    fn end_call(&mut self, c: usize) {
        self.calls[c].state = Terminating;
        self.tell(c, CE::Terminate);
        self.wait(Mach::Call(c));
        if let Some(ctx) = self.calls[c].ctx {
            self.log.push(Ev::Disconnect { ctx });
        }
        if let Some(k) = self.calls[c].parent.take() {
            self.end_conn(k);
        }
        for (_, k) in std::mem::take(&mut self.calls[c].conns) {
            self.end_conn(k);
        }
        self.later.retain(|l| !matches!(l.2, Later::Timeout(x) if x == c));
        self.calls[c].state = CS::Terminated;
    }
    fn rtp_hangup(&mut self, c: usize, h: Hang, except: Option<u32>) {
        let to: Vec<usize> = self.calls[c].conns.iter().filter(|(d, _)| except != Some(**d)).map(|(_, k)| *k).collect();
        for k in to {
            self.state(k, KS::Terminating);
            self.tell_conn(k, KE::SendHangup(h));
        }
    }
    fn tell_others(&mut self, c: usize, h: Hang, except: u32) -> R {
        self.rtp_hangup(c, h, Some(except));
        self.send(c, What::Hangup(h))
    }
    fn call_note(&mut self, c: usize, n: CN) -> R {
        let peer = self.calls[c].peer;
        match n {
            CN::App("RemoteRinging") if self.calls[c].rang => Ok(()),
            CN::App(what) => {
                self.calls[c].rang |= what == "RemoteRinging";
                self.app(c, what)
            }
            CN::Route(relayed) => {
                self.log.push(Ev::Route { peer, relayed });
                Ok(())
            }
            CN::Levels(captured) => {
                self.log.push(Ev::Levels { peer, captured, received: 0 });
                Ok(())
            }
            CN::Low(recovered) => {
                self.log.push(Ev::LowBandwidth { peer, recovered });
                Ok(())
            }
        }
    }
    fn work(&mut self, c: usize, w: CW) {
        self.jobs.push_back(Job::CallWork(c, w));
    }
    fn note(&mut self, c: usize, n: CN) {
        self.jobs.push_back(Job::CallNote(c, n));
    }
    fn accepted_by(&mut self, c: usize, d: u32) -> R {
        if self.calls[c].device.is_some() {
            return Err(());
        }
        self.calls[c].device = Some(d);
        self.rtp_hangup(c, Hang::Accepted(d), Some(d));
        self.work(c, CW::TellOthers(d));
        Ok(())
    }
    fn on_call(&mut self, c: usize, e: CE) {
        let s = self.calls[c].state;
        match e {
            CE::HangupToAll(h) => {
                if s != CS::NotYetStarted {
                    self.work(c, CW::HangupToAll(h));
                }
                return;
            }
            CE::Terminate => {
                self.calls[c].dead = true;
                self.calls[c].inbox.clear();
                self.jobs.retain(|j| !matches!(j, Job::CallWork(x, _) | Job::CallNote(x, _) if *x == c));
                self.calls[c].state = CS::Terminated;
                return;
            }
            _ => {}
        }
        if s.over() {
            return;
        }
        let (out, id, peer) = (self.calls[c].out, self.calls[c].id, self.calls[c].peer);
        match e {
            CE::Start => {
                if s == CS::NotYetStarted {
                    self.calls[c].state = WaitingToProceed;
                    let video = self.calls[c].video;
                    let _ = self.say(Ev::Start { peer, id, out, video }, Fault::Start);
                }
            }
            CE::Proceed(low, levels) => {
                if s == WaitingToProceed {
                    self.calls[c].state = ConnectingBefore;
                    self.work(c, CW::Proceed(low, levels));
                }
            }
            CE::Accept => {
                if s == ConnectedBefore {
                    self.calls[c].state = ConnectedAndAccepted;
                    self.work(c, CW::AcceptLocally);
                }
            }
            CE::Answer(d, max, bad) => {
                if matches!(s, ConnectingBefore | ConnectedBefore) {
                    self.work(c, CW::Answer(d, max, bad));
                }
            }
            CE::Ice(d, cands) => {
                if s != CS::NotYetStarted {
                    self.work(c, CW::Ice(d, cands));
                }
            }
            CE::Hangup(d, h) => {
                let other = match h {
                    Hang::Normal => None,
                    Hang::Accepted(x) | Hang::Declined(x) | Hang::Busy(x) => Some(x),
                    Hang::Permission(x) => x,
                };
                if !out && other == Some(self.calls[c].local) || self.calls[c].device.is_some_and(|a| a != d) {
                    return;
                }
                let (pass_on, why) = match (h, out) {
                    (Hang::Permission(_), true) => (Some(Hang::Permission(Some(d))), Some("RemoteHangupNeedPermission")),
                    (Hang::Normal, true) => (Some(Hang::Declined(d)), None),
                    (Hang::Accepted(_), false) => (None, Some("RemoteHangupAccepted")),
                    (Hang::Declined(_), false) => (None, Some("RemoteHangupDeclined")),
                    (Hang::Busy(_), false) => (None, Some("RemoteHangupBusy")),
                    _ => (None, None),
                };
                if s != CS::NotYetStarted {
                    self.calls[c].state = Terminating;
                }
                if let Some(h) = pass_on
                    && matches!(s, WaitingToProceed | ConnectingBefore | ConnectedBefore)
                    && self.tell_others(c, h, d).is_err()
                {
                    return;
                }
                self.work(c, CW::Hangup(why));
            }
            CE::State(d, k) => {
                let here = self.calls[c].device == Some(d);
                match (out, s, k) {
                    (_, ConnectingBefore, KS::ConnectedBeforeAccepted) => {
                        self.calls[c].state = ConnectedBefore;
                        self.note(c, CN::App(if out { "RemoteRinging" } else { "LocalRinging" }));
                    }
                    (true, ConnectingBefore | ConnectedBefore, KS::ConnectingAfterAccepted) => {
                        self.calls[c].state = ConnectingAfter;
                        let _ = self.accepted_by(c, d);
                    }
                    (true, ConnectingAfter, KS::ConnectedAndAccepted) if here => {
                        self.note(c, CN::App("RemoteRinging"));
                        self.calls[c].state = ConnectedAndAccepted;
                        self.work(c, CW::AcceptRemotely);
                    }
                    (true, ConnectedBefore, KS::ConnectedAndAccepted) => {
                        self.calls[c].state = ConnectedAndAccepted;
                        if self.accepted_by(c, d).is_ok() {
                            self.work(c, CW::AcceptRemotely);
                        }
                    }
                    (_, ConnectedAndAccepted, KS::ReconnectingAfterAccepted) if here => {
                        self.calls[c].state = Reconnecting;
                        if let Some(&k) = self.calls[c].conns.get(&d) {
                            self.pc(k, Note::Regather);
                        }
                        self.note(c, CN::App("Reconnecting"));
                    }
                    (_, Reconnecting, KS::ConnectedAndAccepted) if here => {
                        self.calls[c].state = ConnectedAndAccepted;
                        self.note(c, CN::App("Reconnected"));
                    }
                    (_, _, KS::IceFailed) => self.work(c, CW::IceFailed(d)),
                    _ => {}
                }
            }
            CE::Sender(d, st) => {
                if matches!(s, ConnectedAndAccepted | Reconnecting) && self.calls[c].device == Some(d) {
                    let names = [("RemoteVideoEnable", "RemoteVideoDisable"), ("RemoteSharingScreenEnable", "RemoteSharingScreenDisable"), ("RemoteAudioEnable", "RemoteAudioDisable")];
                    for (v, (on, off)) in st.iter().zip(names) {
                        if let Some(v) = v {
                            self.note(c, CN::App(if *v { on } else { off }));
                        }
                    }
                }
            }
            CE::Route(d, r) => {
                if self.calls[c].device == Some(d) {
                    self.note(c, CN::Route(r));
                }
            }
            CE::Levels(l) => self.note(c, CN::Levels(l)),
            CE::Low(r) => self.note(c, CN::Low(r)),
            CE::Error => self.work(c, CW::Error),
            CE::Timeout => {
                if !s.in_call() {
                    self.work(c, CW::Timeout);
                }
            }
            CE::Nothing | CE::HangupToAll(_) | CE::Terminate => {}
        }
    }
    fn call_work(&mut self, c: usize, w: CW) {
        if self.calls[c].state == Terminating && !matches!(w, CW::Hangup(_) | CW::HangupToAll(_) | CW::Error | CW::Timeout) {
            return;
        }
        let id = self.calls[c].id;
        let r = match w {
            CW::Error => {
                let _ = self.trouble(id);
                Ok(())
            }
            CW::Hangup(why) => {
                if self.active == Some(id) {
                    self.end_active(false, why.unwrap_or("RemoteHangup"))
                } else {
                    Ok(())
                }
            }
            CW::Timeout => {
                if self.active == Some(id) {
                    self.end_active(true, "Timeout")
                } else {
                    Ok(())
                }
            }
            CW::HangupToAll(h) => {
                self.rtp_hangup(c, h, None);
                Ok(())
            }
            CW::TellOthers(d) => self.send(c, What::Hangup(Hang::Accepted(d))).map(|_| {
                let others: Vec<u32> = self.calls[c].conns.keys().copied().filter(|x| *x != d).collect();
                for o in others {
                    let k = self.calls[c].conns[&o];
                    self.end_conn(k);
                    self.calls[c].conns.remove(&o);
                }
            }),
            CW::IceFailed(d) => {
                let lost = match self.calls[c].device {
                    Some(a) => a == d,
                    None => self.calls[c].conns.len() == 1,
                };
                if lost {
                    if self.active == Some(id) {
                        self.active_call().ok_or(()).and_then(|a| self.end_active(self.on_failure(a), "ConnectionFailure"))
                    } else {
                        Ok(())
                    }
                } else {
                    if self.calls[c].device.is_none()
                        && let Some(k) = self.calls[c].conns.remove(&d)
                    {
                        self.end_conn(k);
                    }
                    Ok(())
                }
            }
            CW::Proceed(low, levels) => self.proceed(c, low, levels),
            CW::Answer(d, max, bad) => self.answered(c, d, max, bad),
            CW::Ice(d, mut cands) => {
                if let Some(p) = self.calls[c].pending.as_mut() {
                    p.3.append(&mut cands);
                    Ok(())
                } else if let Some(&k) = self.calls[c].conns.get(&d) {
                    self.tell_conn(k, KE::Ice(cands));
                    Ok(())
                } else if self.calls[c].state.in_call() {
                    Ok(())
                } else {
                    Err(())
                }
            }
            CW::AcceptLocally => self.talk(c, true),
            CW::AcceptRemotely => self.talk(c, false),
        };
        if r.is_err() {
            self.tell(c, CE::Error);
        }
    }
    fn talk(&mut self, c: usize, locally: bool) -> R {
        let k = self.calls[c].device.and_then(|d| self.calls[c].conns.get(&d)).copied().ok_or(())?;
        if locally {
            self.tell_conn(k, KE::Accept);
        }
        self.pc(k, Note::Playout(true));
        self.pc(k, Note::Incoming(true));
        self.pc(k, Note::Outgoing(true));
        self.pc(k, Note::Recording(true));
        let media = self.conns[k].media.ok_or(())?;
        let ctx = self.calls[c].ctx.ok_or(())?;
        let peer = self.calls[c].peer;
        self.say(Ev::Connect { peer, ctx, media }, Fault::Connect)?;
        self.after(200, Later::Tick(k, Bwe::Low(0)));
        if locally {
            self.app(c, "LocalAccepted")
        } else {
            self.app(c, "RemoteAccepted")?;
            let relayed = self.conns[k].route;
            self.log.push(Ev::Route { peer, relayed });
            Ok(())
        }
    }
    fn new_conn(&mut self, c: usize, device: u32, side: Side, low: bool, levels: Option<u64>) -> Result<usize, ()> {
        if self.faults.contains(&Fault::Create) {
            return Err(());
        }
        let n = self.conns.len();
        let kind = match side {
            Side::Parent => "parent",
            Side::Child => "child",
            Side::Incoming => "incoming",
        };
        self.log.push(Ev::NewConnection { n, id: self.calls[c].id, device, kind });
        self.conns.push(Conn {
            call: c,
            device,
            side,
            state: KS::NotYetStarted,
            gone: false,
            low,
            levels,
            remote_max: None,
            route: (false, false),
            buffer: vec![],
            said: Msg::default(),
            sent: 0,
            heard: 0,
            media: None,
            sender: None,
            receiver: None,
            ticks: 0,
            inbox: VecDeque::new(),
            dead: false,
        });
        Ok(n)
    }
    /// what both sides do with the other's description
    fn described(&mut self, k: usize, max: Option<u64>, bad: Bad, cands: &[Cand]) -> R {
        let r = match bad {
            Bad::Empty => Err(()),
            Bad::ShortKey => Err(()),
            _ => {
                self.conns[k].remote_max = max;
                self.rate(k);
                self.candidates(k, cands);
                self.state(k, KS::ConnectingBeforeAccepted);
                Ok(())
            }
        };
        self.machines.push(Mach::Conn(k));
        r
    }
    fn proceed(&mut self, c: usize, low: bool, levels: Option<u64>) -> R {
        if self.calls[c].out {
            let k = self.new_conn(c, 0, Side::Parent, low, levels)?;
            self.state(k, KS::Starting);
            self.state(k, KS::IceGathering);
            self.machines.push(Mach::Conn(k));
            self.calls[c].parent = Some(k);
            self.send(c, What::Offer(k, max_of(low)))?;
            self.calls[c].offered = true;
        } else {
            let (from, max, bad, cands) = self.calls[c].pending.take().ok_or(())?;
            let k = self.new_conn(c, from, Side::Incoming, low, levels)?;
            self.state(k, KS::Starting);
            if self.described(k, max, bad, &cands).is_err() {
                self.end_conn(k);
                return Err(());
            }
            self.send(c, What::Answer(k, from, max_of(low)))?;
            self.calls[c].conns.insert(from, k);
            if self.calls[c].device.is_some() {
                return Err(());
            }
            self.calls[c].device = Some(from);
        }
        Ok(())
    }
    fn answered(&mut self, c: usize, d: u32, max: Option<u64>, bad: Bad) -> R {
        if self.calls[c].conns.contains_key(&d) || self.calls[c].state.in_call() {
            return Ok(());
        }
        let p = self.calls[c].parent.ok_or(())?;
        let (low, levels) = (self.conns[p].low, self.conns[p].levels);
        let k = self.new_conn(c, d, Side::Child, low, levels)?;
        self.state(k, KS::Starting);
        if self.described(k, max, bad, &[]).is_err() {
            self.end_conn(k);
            return Err(());
        }
        self.calls[c].conns.insert(d, k);
        Ok(())
    }
    // ---- a connection
    fn state(&mut self, k: usize, s: KS) {
        if self.conns[k].state != s {
            self.conns[k].state = s;
            let (c, d) = (self.conns[k].call, self.conns[k].device);
            self.tell(c, CE::State(d, s));
        }
    }
    fn end_conn(&mut self, k: usize) {
        self.state(k, KS::Terminating);
        self.tell_conn(k, KE::Terminate);
        self.wait(Mach::Conn(k));
        self.state(k, KS::Terminated);
        self.later.retain(|l| !matches!(l.2, Later::Tick(x, _) if x == k));
        self.pc(k, Note::Close);
        self.conns[k].media = None;
    }
    fn rate(&mut self, k: usize) {
        let c = &self.conns[k];
        let mut max = max_of(c.low);
        if let Some(r) = c.remote_max {
            max = max.min(r);
        }
        if c.route.0 || c.route.1 {
            max = max.min(1_000_000);
        }
        self.pc(k, Note::MaxRate(max.max(30_000) as i32));
    }
    fn remote_max(&mut self, k: usize, max: u64) {
        if self.conns[k].remote_max != Some(max) {
            self.conns[k].remote_max = Some(max);
            self.rate(k);
        }
    }
    fn candidates(&mut self, k: usize, cands: &[Cand]) {
        let mut removed = vec![];
        for c in cands {
            match c {
                Cand::Add(s) => self.pc(k, Note::AddIce(s.clone())),
                Cand::Remove(a) => removed.push(a.clone()),
                Cand::Junk => {}
            }
        }
        if !removed.is_empty() {
            self.pc(k, Note::RemoveIce(removed));
        }
    }
    fn say_rtp(&mut self, k: usize) {
        let c = &mut self.conns[k];
        c.said.seqnum = Some(c.said.seqnum.unwrap_or(0) + 1);
        self.repeat(k);
    }
    fn repeat(&mut self, k: usize) {
        let c = &mut self.conns[k];
        c.sent += 1;
        self.log.push(Ev::Rtp { n: k, timestamp: c.sent, message: Box::new(c.said.clone()) });
    }
    fn tick(&mut self, k: usize, b: Bwe) {
        let mut b = b;
        self.conns[k].ticks += 1;
        let t = self.conns[k].ticks;
        let c = self.conns[k].call;
        if t % 5 == 0 && self.conns[k].said != Msg::default() {
            self.repeat(k);
        }
        if let Some(ms) = self.conns[k].levels {
            let n = ms / 200;
            if n != 0 && t % n == 0 {
                self.tell(c, CE::Levels(self.level));
            }
        }
        if t % 5 == 0 {
            match b {
                Bwe::Low(delayed) => {
                    if self.conns[k].said.sender_status.as_ref().is_some_and(|s| s.video_enabled == Some(true)) {
                        if self.conns[k].state != KS::ConnectedAndAccepted {
                            b = Bwe::Low(t + 50);
                        } else if t > delayed && self.bwe < 60_000 {
                            self.tell(c, CE::Low(false));
                            b = Bwe::Recovered(t);
                        }
                    }
                }
                Bwe::Recovered(last) => {
                    if t >= last + 30 && self.bwe > 70_000 {
                        self.tell(c, CE::Low(true));
                        b = Bwe::Done;
                    }
                }
                Bwe::Done => {}
            }
        }
        self.after(200, Later::Tick(k, b));
    }
    fn conn_work(&mut self, k: usize, w: KW) {
        self.jobs.push_back(Job::ConnWork(k, w));
    }
    fn conn_note(&mut self, k: usize, n: KN) {
        self.jobs.push_back(Job::ConnNote(k, n));
    }
    fn first_accepted(&mut self, k: usize) {
        self.state(k, KS::ConnectedAndAccepted);
        if let Some((_, max)) = self.conns[k].receiver {
            self.remote_max(k, max);
        }
        if let Some((_, s)) = self.conns[k].sender {
            let (c, d) = (self.conns[k].call, self.conns[k].device);
            self.tell(c, CE::Sender(d, s));
        }
        if self.conns[k].side == Side::Incoming {
            self.conn_work(k, KW::Accepted);
        }
    }
    fn on_conn(&mut self, k: usize, e: KE) {
        let s = self.conns[k].state;
        match e {
            KE::SendHangup(h) => {
                if s != KS::NotYetStarted {
                    self.conn_work(k, KW::Hangup(h));
                }
                return;
            }
            KE::Terminate => {
                self.conns[k].dead = true;
                self.conns[k].inbox.clear();
                self.jobs.retain(|j| !matches!(j, Job::ConnWork(x, _) | Job::ConnNote(x, _) if *x == k));
                return;
            }
            _ => {}
        }
        if s.over() {
            return;
        }
        let (c, d) = (self.conns[k].call, self.conns[k].device);
        let mine = |m: &M, id: u64| m.calls[c].id == id;
        let live = matches!(s, KS::ConnectedAndAccepted | KS::ReconnectingAfterAccepted);
        match e {
            KE::Hangup(id, h) => {
                if mine(self, id) && s.talking() {
                    self.conn_note(k, KN::Hangup(h));
                }
            }
            KE::Accepted(id) => {
                if mine(self, id) {
                    match s {
                        KS::ConnectingBeforeAccepted => self.state(k, KS::ConnectingAfterAccepted),
                        KS::ConnectedBeforeAccepted => self.first_accepted(k),
                        _ => {}
                    }
                }
            }
            KE::Sender(id, st, seq) => {
                if mine(self, id) && self.conns[k].sender.is_none_or(|(l, _)| seq > l) {
                    let news = self.conns[k].sender.is_none_or(|(_, o)| o != st);
                    self.conns[k].sender = Some((seq, st));
                    if live && news {
                        self.tell(c, CE::Sender(d, st));
                    }
                }
            }
            KE::Receiver(id, max, seq) => {
                if mine(self, id) && self.conns[k].receiver.is_none_or(|(l, _)| seq > l) {
                    let news = self.conns[k].receiver.is_none_or(|(_, o)| o != max);
                    self.conns[k].receiver = Some((seq, max));
                    if live && news {
                        self.remote_max(k, max);
                    }
                }
            }
            KE::Ice(cands) => {
                if s.talking() {
                    self.candidates(k, &cands);
                }
            }
            KE::Accept => {
                if matches!(s, KS::ConnectingBeforeAccepted | KS::ConnectedBeforeAccepted | KS::ReconnectingAfterAccepted) {
                    self.first_accepted(k);
                }
            }
            KE::UpdateSender(st) => {
                if matches!(s, KS::ConnectedBeforeAccepted | KS::ConnectedAndAccepted | KS::ReconnectingAfterAccepted) {
                    self.conn_work(k, KW::Sender(st));
                }
            }
            KE::Mode(low) => {
                if s.talking() {
                    self.conn_work(k, KW::Mode(low));
                }
            }
            KE::Local(cand) => {
                if s != KS::NotYetStarted {
                    self.conn_work(k, KW::Local(cand));
                }
            }
            KE::Media => {
                if s.talking() {
                    self.conn_work(k, KW::Media);
                }
            }
            KE::Connected => {
                self.conn_note(k, KN::Nothing);
                match s {
                    KS::ConnectingBeforeAccepted => self.state(k, KS::ConnectedBeforeAccepted),
                    KS::ConnectingAfterAccepted => self.first_accepted(k),
                    KS::ReconnectingAfterAccepted => self.state(k, KS::ConnectedAndAccepted),
                    _ => {}
                }
            }
            KE::Failed => {
                if s.talking() {
                    self.state(k, KS::IceFailed);
                }
            }
            KE::Disconnected => {
                self.conn_note(k, KN::Nothing);
                match s {
                    KS::ConnectedBeforeAccepted => self.state(k, KS::ConnectingBeforeAccepted),
                    KS::ConnectedAndAccepted => self.state(k, KS::ReconnectingAfterAccepted),
                    _ => {}
                }
            }
            KE::Route(r) => {
                if self.conns[k].route != r {
                    self.conns[k].route = r;
                    self.rate(k);
                }
                self.conn_note(k, KN::Route(r));
            }
            KE::Error => self.conn_note(k, KN::Error),
            KE::SendHangup(_) | KE::Terminate => {}
        }
    }
    fn hear(&mut self, k: usize, pt: u8, ssrc: u32, timestamp: u32, payload: &[u8]) {
        if (pt, ssrc) != (101, 0xD) || timestamp < self.conns[k].heard {
            return;
        }
        self.conns[k].heard = timestamp;
        if payload.is_empty() || payload.len() > 2 * std::mem::size_of::<Msg>() {
            return;
        }
        let Ok(m) = <Msg as prost::Message>::decode(payload) else { return };
        if let Some(a) = m.accepted {
            if self.calls[self.conns[k].call].out {
                self.tell_conn(k, KE::Accepted(a.id.unwrap_or(0)));
            } else {
                self.tell_conn(k, KE::Error);
            }
        }
        if let Some(h) = m.hangup {
            let d = h.device_id.unwrap_or(0);
            let what = match h.r#type {
                Some(1) => Hang::Accepted(d),
                Some(2) => Hang::Declined(d),
                Some(3) => Hang::Busy(d),
                Some(4) => Hang::Permission(Some(d)),
                _ => Hang::Normal,
            };
            self.tell_conn(k, KE::Hangup(h.id.unwrap_or(0), what));
        }
        let Some(seq) = m.seqnum else { return };
        if let Some(s) = m.sender_status {
            self.tell_conn(k, KE::Sender(s.id.unwrap_or(0), [s.video_enabled, s.sharing_screen, s.audio_enabled], seq));
        }
        if let Some(r) = m.receiver_status {
            self.tell_conn(k, KE::Receiver(r.id.unwrap_or(0), r.max_bitrate_bps.unwrap_or(0), seq));
        }
    }
    // ---- the same interface as the real thing
    pub fn inject(&mut self, op: &Op) {
        let known = |m: &M, n: usize| m.conns.get(n).is_some_and(|c| !c.gone);
        match op {
            Op::IceState { n, what } if known(self, *n) => match what {
                1 | 2 => self.tell_conn(*n, KE::Connected),
                3 => self.tell_conn(*n, KE::Disconnected),
                4 => self.tell_conn(*n, KE::Failed),
                _ => {}
            },
            Op::LocalIce { n, cand } if known(self, *n) => {
                if self.conns[*n].side != Side::Child {
                    self.tell_conn(*n, KE::Local(cand.clone()));
                }
            }
            Op::Route { n, local, remote } if known(self, *n) => self.tell_conn(*n, KE::Route((*local, *remote))),
            Op::Rtp { n, pt, ssrc, timestamp, payload } if known(self, *n) => self.hear(*n, *pt, *ssrc, *timestamp, payload),
            Op::Media { n } if known(self, *n) => self.tell_conn(*n, KE::Media),
            Op::Sender { n, video, sharing, audio } if known(self, *n) => self.tell_conn(*n, KE::UpdateSender([*video, *sharing, *audio])),
            Op::Mode { n, low } if known(self, *n) => self.tell_conn(*n, KE::Mode(*low)),
            Op::IceState { .. } | Op::LocalIce { .. } | Op::Route { .. } | Op::Rtp { .. } | Op::Media { .. } | Op::Sender { .. } | Op::Mode { .. } => {}
            Op::Time(ms) => self.pass(*ms),
            Op::Bandwidth(b) => self.bwe = *b,
            Op::Level(l) => self.level = *l,
            Op::Assume(b) => self.assume = *b,
            Op::Fault(f, true) => {
                self.faults.insert(*f);
            }
            Op::Fault(f, false) => {
                self.faults.remove(f);
            }
            op => self.jobs.push_back(Job::Api(Box::new(op.clone()))),
        }
    }
    pub fn settle(&mut self) -> Vec<Ev> {
        self.run();
        for k in self.conns.iter_mut() {
            k.gone |= k.state == KS::Terminated;
        }
        for c in 0..self.calls.len() {
            let held = self.calls[c].concluded
                || self.map.get(&self.calls[c].id) == Some(&c)
                || self.queue.iter().any(|q| q.0 == c)
                || self.conns.iter().any(|k| k.call == c && k.state != KS::Terminated);
            if !held {
                self.calls[c].concluded = true;
                // its machine ends with it
                self.calls[c].dead = true;
                self.log.push(Ev::Concluded { peer: self.calls[c].peer, id: self.calls[c].id });
            }
        }
        std::mem::take(&mut self.log)
    }
}
