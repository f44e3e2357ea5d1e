use crate::core::crypto::*;
use crate::oracle as o;
use crate::support::*;
use std::collections::HashMap;

type S = [u8; 32];

#[derive(Clone, Debug)]
struct Frame {
    rc: u8,
    n: u64,
    ct: Vec<u8>,
    mac: [u8; 16],
    plain: Vec<u8>,
    steps: u64,
    epoch: usize,
}

fn secret(rng: &mut Rng) -> S {
    rng.bytes(32).try_into().unwrap()
}

/// a sender made from the description alone
#[derive(Clone)]
struct Sender {
    s: S,
    rc: u8,
    n: u64,
    steps: u64,
    epoch: usize,
}

impl Sender {
    fn new(s: S, rc: u8) -> Self {
        Sender { s, rc, n: 1, steps: 0, epoch: 0 }
    }
    fn step(&mut self, k: u64) {
        self.s = o::steps(&self.s, k);
        self.rc = self.rc.wrapping_add(k as u8);
        self.steps += k;
    }
    fn frame(&mut self, plain: Vec<u8>) -> Frame {
        let n = self.n;
        self.n += 1;
        self.frame_at(n, plain)
    }
    fn frame_at(&self, n: u64, plain: Vec<u8>) -> Frame {
        let ct = o::crypt(&self.s, n, &plain);
        let mac = o::mac(&self.s, n, &ct);
        Frame { rc: self.rc, n, ct, mac, plain, steps: self.steps, epoch: self.epoch }
    }
}

fn open(ctx: &mut Context, who: u32, f: &Frame) -> Result<Vec<u8>, ()> {
    let mut d = f.ct.clone();
    match ctx.decrypt(who, f.rc, f.n, &mut d, &f.mac) {
        Ok(()) => Ok(d),
        Err(_) => {
            assert_eq!(d, f.ct, "a refused frame was altered");
            Err(())
        }
    }
}

fn sizes(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => rng.below(3) as usize,
        1 => 15 + rng.below(3) as usize,
        2 => 250 + rng.below(12) as usize,
        3 if rng.chance(1, 40) => 65_530 + rng.below(5000) as usize,
        3 => 1 + rng.below(2000) as usize,
        _ => rng.below(64) as usize,
    }
}

/// the sender side produces exactly the described bytes; the receiver turns them back
pub fn f01(run: &mut Run) {
    run.suite("wire format and round trip");
    let mut rng = run.rng(1);
    for _ in 0..run.quick_or(3_000, 60_000) {
        let seed = rng.u64();
        run.case(
            || format!("random sender history, seed {seed}"),
            || {
                let mut rng = Rng::new(seed);
                let s0 = secret(&mut rng);
                let mut tx = Context::new(s0);
                let mut rx = Context::new([9; 32]);
                let mut m = Sender::new(s0, 0);
                let who = rng.below(3) as u32;
                rx.add_receive_secret(who, 0, s0);
                let mut log = vec![];
                // steps since the receiver last opened a frame under this secret
                let mut lag = 0;
                for _ in 0..1 + rng.below(24) {
                    match rng.below(10) {
                        0 => {
                            let k = 1 + rng.below(3);
                            for _ in 0..k {
                                let r = tx.advance_send_ratchet();
                                m.step(1);
                                same("secret after a step", r, (m.rc, m.s))?;
                            }
                            lag += k;
                            log.push(format!("step {k}"));
                        }
                        1 => {
                            let s = secret(&mut rng);
                            tx.reset_send_ratchet(s);
                            m.s = s;
                            m.rc = 0;
                            m.epoch += 1;
                            lag = 0;
                            rx.add_receive_secret(who, 0, s);
                            log.push("new secret".into());
                        }
                        2 => {
                            // the receiver learns the current state of the sender (joined late)
                            let (rc, s) = tx.send_state();
                            same("send state", (rc, s), (m.rc, m.s))?;
                            rx = Context::new([9; 32]);
                            rx.add_receive_secret(who, rc, s);
                            lag = 0;
                        }
                        3 if lag < 40 && rng.chance(1, 10) => {
                            let k = 200 - lag;
                            for _ in 0..k {
                                tx.advance_send_ratchet();
                            }
                            m.step(k);
                            lag += k;
                        }
                        _ => {
                            let len = sizes(&mut rng);
                            let plain = rng.bytes(len);
                            let want = m.frame(plain.clone());
                            let mut d = plain.clone();
                            let mut mac = [0xa5u8; 16];
                            let (rc, n) = tx.encrypt(&mut d, &mut mac).map_err(|e| format!("encrypt: {e:?}"))?;
                            same("ratchet counter", rc, want.rc)?;
                            same("frame counter", n, want.n)?;
                            same("ciphertext", &d, &want.ct)?;
                            same("authentication code", mac, want.mac)?;
                            if rng.chance(3, 4) {
                                same(&format!("opening frame {n} ({len} bytes) after {log:?}"), open(&mut rx, who, &want), Ok(plain))?;
                                lag = 0;
                            }
                        }
                    }
                }
                Ok(true)
            },
        );
    }
    run.suite("large frames");
    for len in [65_535usize, 65_536, 65_537, 200_000] {
        run.case(
            || format!("{len} bytes"),
            || {
                let mut rng = Rng::new(len as u64);
                let s0 = secret(&mut rng);
                let mut tx = Context::new(s0);
                let mut m = Sender::new(s0, 0);
                let plain = rng.bytes(len);
                let want = m.frame(plain.clone());
                let mut d = plain.clone();
                let mut mac = [0; 16];
                tx.encrypt(&mut d, &mut mac).map_err(|e| format!("{e:?}"))?;
                same("ciphertext equal", d == want.ct, true)?;
                same("mac", mac, want.mac)?;
                let mut rx = Context::new([0; 32]);
                rx.add_receive_secret(7, 0, s0);
                same("opens", open(&mut rx, 7, &want) == Ok(plain), true)?;
                Ok(true)
            },
        );
    }
}

/// anything not authentic is refused, and a refusal leaves no trace
pub fn f02(run: &mut Run) {
    run.suite("every single-bit corruption");
    let mut rng = run.rng(2);
    for _ in 0..run.quick_or(40, 1_000) {
        let seed = rng.u64();
        run.case(
            || format!("frame and receiver from seed {seed}, each bit of it flipped in turn"),
            || {
                let mut rng = Rng::new(seed);
                let s0 = secret(&mut rng);
                let mut m = Sender::new(s0, rng.below(256) as u8);
                let mut rx = Context::new([9; 32]);
                rx.add_receive_secret(5, m.rc, s0);
                m.n = 1 + rng.below(1000);
                if rng.chance(1, 2) {
                    let _ = open(&mut rx, 5, &m.frame(vec![1, 2, 3])).map_err(|_| "first frame refused")?;
                }
                m.step(rng.below(4));
                let len = rng.below(40) as usize;
                let good = m.frame(rng.bytes(len));
                let refused = |rx: &mut Context, who: u32, f: &Frame, what: String| -> Result<(), String> {
                    if open(rx, who, f).is_ok() { Err(format!("{what}: accepted")) } else { Ok(()) }
                };
                for bit in 0..8 * len {
                    let mut f = good.clone();
                    f.ct[bit / 8] ^= 1 << (bit % 8);
                    refused(&mut rx, 5, &f, format!("ciphertext bit {bit}"))?;
                }
                for bit in 0..128 {
                    let mut f = good.clone();
                    f.mac[bit / 8] ^= 1 << (bit % 8);
                    refused(&mut rx, 5, &f, format!("mac bit {bit}"))?;
                }
                for bit in 0..64 {
                    let mut f = good.clone();
                    f.n ^= 1 << bit;
                    refused(&mut rx, 5, &f, format!("frame counter bit {bit}"))?;
                }
                for bit in 0..8 {
                    let mut f = good.clone();
                    f.rc ^= 1 << bit;
                    refused(&mut rx, 5, &f, format!("ratchet counter bit {bit}"))?;
                }
                let mut f = good.clone();
                f.ct.push(0);
                refused(&mut rx, 5, &f, "one byte longer".into())?;
                if len > 0 {
                    let mut f = good.clone();
                    f.ct.pop();
                    refused(&mut rx, 5, &f, "one byte shorter".into())?;
                }
                refused(&mut rx, 6, &good, "another sender".into())?;
                // and after all of that the genuine ones still open
                same("genuine frame", open(&mut rx, 5, &good), Ok(good.plain.clone()))?;
                let next = m.frame(vec![4, 5]);
                same("next genuine frame", open(&mut rx, 5, &next), Ok(vec![4, 5]))?;
                Ok(true)
            },
        );
    }
    run.suite("forged frames among genuine ones");
    for _ in 0..run.quick_or(3_000, 50_000) {
        let seed = rng.u64();
        run.case(
            || format!("seed {seed}"),
            || {
                let mut rng = Rng::new(seed);
                let mut rx = Context::new([9; 32]);
                let mut clean = Context::new([9; 32]);
                let mut senders: Vec<Sender> = vec![];
                for id in 0..1 + rng.below(3) as u32 {
                    let s = Sender::new(secret(&mut rng), rng.below(256) as u8);
                    rx.add_receive_secret(id, s.rc, s.s);
                    clean.add_receive_secret(id, s.rc, s.s);
                    senders.push(s);
                }
                for i in 0..30 {
                    let id = rng.below(senders.len() as u64) as u32;
                    let s = &mut senders[id as usize];
                    if rng.chance(1, 5) {
                        s.step(1 + rng.below(2));
                    }
                    if rng.chance(1, 10) {
                        let n = s.n;
                        *s = Sender { n, epoch: s.epoch + 1, ..Sender::new(secret(&mut rng), 0) };
                        rx.add_receive_secret(id, 0, s.s);
                        clean.add_receive_secret(id, 0, s.s);
                    }
                    let len = rng.below(20) as usize;
                    let f = s.frame(rng.bytes(len));
                    // forgeries first: wrong mac, far counters, unknown sender
                    for _ in 0..rng.below(4) {
                        let mut b = f.clone();
                        b.mac[rng.below(16) as usize] ^= 1 + rng.below(255) as u8;
                        b.n = if rng.chance(1, 2) { b.n } else { rng.edgy() };
                        b.rc = if rng.chance(1, 2) { b.rc } else { rng.below(256) as u8 };
                        let who = if rng.chance(1, 5) { 1000 } else { id };
                        if open(&mut rx, who, &b).is_ok() {
                            return Err(format!("step {i}: forged frame {b:?} accepted"));
                        }
                    }
                    let a = open(&mut rx, id, &f);
                    same(&format!("step {i}: genuine frame"), &a, &Ok(f.plain.clone()))?;
                    same(&format!("step {i}: same as without the forgeries"), a, open(&mut clean, id, &f))?;
                }
                Ok(true)
            },
        );
    }
}

/// a (secret, frame counter) pair is used once
pub fn f03(run: &mut Run) {
    run.suite("frame counters");
    let mut rng = run.rng(3);
    for _ in 0..run.quick_or(2_000, 40_000) {
        let seed = rng.u64();
        run.case(
            || format!("seed {seed}"),
            || {
                let mut rng = Rng::new(seed);
                let mut tx = Context::new(secret(&mut rng));
                let mut last = 0u64;
                // now and then a long call: many key steps, few replacements
                let long = rng.chance(1, 40);
                let steps = if long { 3_000 } else { 1 + rng.below(60) };
                for i in 0..steps {
                    match rng.below(8) {
                        0 => {
                            for _ in 0..if long { 1 + rng.below(3) } else { 1 } {
                                let (rc, s) = tx.send_state();
                                let got = tx.advance_send_ratchet();
                                same("advance: (step, secret)", got, (rc.wrapping_add(1), o::steps(&s, 1)))?;
                                same("advance: state", tx.send_state(), got)?;
                            }
                        }
                        1 if !long || rng.chance(1, 300) => {
                            let s = secret(&mut rng);
                            tx.reset_send_ratchet(s);
                            same("replace: state", tx.send_state(), (0, s))?;
                        }
                        2 => tx.add_receive_secret(rng.below(3) as u32, rng.below(5) as u8, secret(&mut rng)),
                        3 => {
                            let mut d = rng.bytes(9);
                            let _ = tx.decrypt(rng.below(3) as u32, rng.below(5) as u8, rng.edgy(), &mut d, &[0; 16]);
                        }
                        _ => {
                            let (rc, s) = tx.send_state();
                            let len = sizes(&mut rng);
                            let mut d = rng.bytes(len);
                            let mut mac = [0; 16];
                            let (r, n) = tx.encrypt(&mut d, &mut mac).map_err(|e| format!("{e:?}"))?;
                            same(&format!("step {i}: frame counter"), n, last + 1)?;
                            same("ratchet counter", r, rc)?;
                            same("secret unchanged by encrypting", tx.send_state(), (rc, s))?;
                            same("code", mac, o::mac(&s, n, &d))?;
                            last = n;
                        }
                    }
                }
                Ok(last > 1)
            },
        );
    }
}

/// the five newest secrets of every sender are usable, older ones are gone, senders do not mix
pub fn f04(run: &mut Run) {
    run.suite("retained secrets");
    let mut rng = run.rng(4);
    for _ in 0..run.quick_or(400, 30_000) {
        let seed = rng.u64();
        run.case(
            || format!("seed {seed}"),
            || {
                let mut rng = Rng::new(seed);
                let mut rx = Context::new([9; 32]);
                let mut all: HashMap<u32, Vec<(S, u8)>> = HashMap::new();
                let ids: Vec<u32> = (0..1 + rng.below(4)).map(|i| if rng.chance(1, 4) { u32::MAX - i as u32 } else { i as u32 }).collect();
                let n = 1 + rng.below(20);
                let shared = secret(&mut rng);
                for i in 0..n {
                    let id = *rng.pick(&ids);
                    let s = if rng.chance(1, 12) { shared } else { secret(&mut rng) };
                    let rc = if rng.chance(1, 2) { 0 } else { rng.below(256) as u8 };
                    rx.add_receive_secret(id, rc, s);
                    all.entry(id).or_default().push((s, rc));
                    for &id in &ids {
                        let v = all.get(&id).cloned().unwrap_or_default();
                        let kept = v.len().saturating_sub(5);
                        for (k, (s, rc)) in v.iter().enumerate() {
                            // frame counter 0 moves nothing; only checks membership
                            let f = Sender::new(*s, *rc).frame_at(0, vec![k as u8; 3]);
                            let known = v[kept..].contains(&(*s, *rc));
                            let got = open(&mut rx, id, &f);
                            if known {
                                same(&format!("after {} secrets: secret {k} of {} of sender {id}", i + 1, v.len()), got, Ok(f.plain.clone()))?;
                            } else if !v[kept..].iter().any(|x| x.0 == *s) {
                                same(&format!("after {} secrets: dropped secret {k} of {} of sender {id}", i + 1, v.len()), got, Err(()))?;
                            }
                            for &other in &ids {
                                let ov = all.get(&other).cloned().unwrap_or_default();
                                if other != id && !ov.iter().any(|x| x.0 == *s) {
                                    same(&format!("secret of {id} used by {other}"), open(&mut rx, other, &f), Err(()))?;
                                }
                            }
                        }
                    }
                }
                Ok(n > 5)
            },
        );
    }
}

/// late frames within reach open, whatever arrived before; far older secrets are gone
fn late(seed: u64) -> Result<bool, String> {
    let mut rng = Rng::new(seed);
    let s0 = secret(&mut rng);
    let rc0 = rng.below(256) as u8;
    let mut rx = Context::new([9; 32]);
    rx.add_receive_secret(1, rc0, s0);
    // the sender's frames: step now and then
    let mut m = Sender::new(s0, rc0);
    let total = 1 + rng.below(900);
    let rate = 2 + rng.below(200);
    let big = rng.chance(1, 10);
    let mut frames = vec![];
    let spread = 1 + rng.below(330);
    for _ in 0..total {
        if rng.chance(1, rate) {
            m.step(if big { 1 + rng.below(60) } else { 1 + rng.below(2) });
        }
        if rng.chance(1, 40) {
            m.n += rng.below(400);
        }
        frames.push(m.frame(vec![m.n as u8, 1]));
    }
    // arrival order: a random displacement each, some lost
    let keep = 1 + rng.below(100);
    let mut order: Vec<(u64, usize)> = vec![];
    for (i, f) in frames.iter().enumerate() {
        if rng.below(100) < keep {
            order.push((f.n + rng.below(spread), i));
        }
    }
    order.sort();
    let (mut newest, mut newest_steps, mut at) = (0u64, 0u64, 0u64);
    let mut seen = vec![];
    let mut interesting = false;
    for (_, i) in order {
        let f = &frames[i];
        let got = open(&mut rx, 1, f);
        seen.push((f.n, f.steps));
        let legit = f.n + 300 >= newest && f.steps + 5 >= newest_steps && f.steps < at + 250;
        if legit {
            if got != Ok(f.plain.clone()) {
                return Err(format!(
                    "frame {} (key step {}) is within 300 frames and 5 steps of the newest opened ({newest}, {newest_steps}) but got {got:?}; \
                     frames and steps so far: {:?}",
                    f.n,
                    f.steps,
                    &seen[seen.len().saturating_sub(60)..]
                ));
            }
        } else if f.steps + 5 < at && got.is_ok() && f.steps + 5 < newest_steps {
            return Err(format!("frame {} opened with a key {} steps old", f.n, at - f.steps));
        }
        if got.is_ok() {
            interesting |= f.n < newest;
            if f.steps != at || at == 0 {
                at = f.steps;
            }
            newest = newest.max(f.n);
            newest_steps = newest_steps.max(f.steps);
        }
    }
    Ok(interesting)
}

/// all arrival orders of a few frames at the given (frame number, key step) points
fn orders(points: &[(u64, u64)], code: usize) -> Result<bool, String> {
    let s0 = [7u8; 32];
    let mut rx = Context::new([9; 32]);
    rx.add_receive_secret(1, 250, s0);
    let mut left: Vec<(u64, u64)> = points.to_vec();
    let mut c = code;
    let (mut newest, mut ns) = (0, 0);
    let mut seen = vec![];
    while !left.is_empty() {
        let (n, k) = left.remove(c % left.len());
        c /= left.len() + 1;
        let mut m = Sender::new(s0, 250);
        m.step(k);
        let f = m.frame_at(n, vec![1]);
        let got = open(&mut rx, 1, &f);
        seen.push((n, k));
        if n + 300 >= newest && k + 5 >= ns && got != Ok(vec![1]) {
            return Err(format!("arrival order (frame, key step) {seen:?}: frame {n} refused, newest opened was {newest} at step {ns}"));
        }
        if got.is_ok() {
            newest = newest.max(n);
            ns = ns.max(k);
        }
    }
    Ok(true)
}

pub fn f05(run: &mut Run) {
    run.suite("all arrival orders of a few frames");
    let sets: Vec<Vec<(u64, u64)>> = vec![
        vec![(5, 0), (15, 1), (20, 2), (21, 2), (22, 3)],
        vec![(1, 0), (2, 1), (3, 2), (4, 3), (5, 4), (6, 5)],
        vec![(1, 0), (300, 1), (301, 1), (302, 2), (600, 3)],
        vec![(1, 0), (150, 1), (301, 2), (450, 3), (601, 4), (602, 5)],
        vec![(10, 0), (200, 2), (310, 4), (311, 5), (500, 6)],
        vec![(100, 0), (400, 3), (401, 5), (700, 6), (701, 8)],
    ];
    for set in &sets {
        let total: usize = (1..=set.len()).product();
        for code in 0..total {
            run.case(|| format!("points {set:?}, order number {code}"), || orders(set, code));
        }
    }
    run.suite("long reordered histories");
    let mut rng = run.rng(5);
    for _ in 0..run.quick_or(500, 10_000) {
        let seed = rng.u64();
        run.case(|| format!("seed {seed}"), || late(seed));
    }
    run.suite("old secrets are dropped");
    for k in 6..=260u64 {
        run.case(
            || format!("one frame, then {k} key steps, then the old frame again"),
            || {
                let s0 = [3u8; 32];
                let mut rx = Context::new([9; 32]);
                rx.add_receive_secret(1, 0, s0);
                let mut m = Sender::new(s0, 0);
                let old = m.frame(vec![1]);
                same("first", open(&mut rx, 1, &old), Ok(vec![1]))?;
                if k > 250 {
                    return Ok(false);
                }
                m.step(k);
                let new = m.frame(vec![2]);
                same("after the steps", open(&mut rx, 1, &new), Ok(vec![2]))?;
                same("old frame again", open(&mut rx, 1, &old), Err(()))?;
                let again = m.frame(vec![3]);
                same("next", open(&mut rx, 1, &again), Ok(vec![3]))?;
                Ok(true)
            },
        );
    }
}

/// the error report
pub fn f07(run: &mut Run) {
    run.suite("decryption error report");
    let mut rng = run.rng(7);
    for _ in 0..run.quick_or(150, 3_000) {
        let seed = rng.u64();
        run.case(
            || format!("seed {seed}"),
            || {
                let mut rng = Rng::new(seed);
                let mut ctx = Context::new([1; 32]);
                let mut m: HashMap<u32, (u32, bool)> = HashMap::new(); // errors, any since the last report?
                let tick = || std::thread::sleep(std::time::Duration::from_micros(30));
                tick();
                for i in 0..40 {
                    tick();
                    if rng.chance(1, 5) {
                        let got = ctx.get_error_report();
                        let mut want: Vec<(u32, u32)> = m.iter().filter(|x| !x.1.1).map(|x| (*x.0, x.1.0)).collect();
                        want.sort();
                        m.retain(|_, v| v.1);
                        m.values_mut().for_each(|v| v.1 = false);
                        let mut have: Vec<(u32, u32)> = got.iter().flatten().map(|(k, v)| (*k, v.count)).collect();
                        have.sort();
                        same(&format!("step {i}: report"), (got.is_some(), have), (!want.is_empty(), want))?;
                        for s in got.iter().flatten() {
                            same("first error not after last", s.1.start_time <= s.1.last_time, true)?;
                            if s.1.count == 1 {
                                same("one error, one time", s.1.start_time, s.1.last_time)?;
                            }
                        }
                    } else {
                        let id = rng.below(5) as u32;
                        let mut d = [0u8; 4];
                        if rng.chance(1, 12) {
                            // a burst
                            for _ in 0..rng.below(120) {
                                let _ = ctx.decrypt(id, 0, 1, &mut d, &[0; 16]);
                                let e = m.entry(id).or_insert((0, false));
                                e.0 += 1;
                                e.1 = true;
                            }
                            tick();
                        }
                        let before = std::time::SystemTime::now();
                        if ctx.decrypt(id, 0, 1, &mut d, &[0; 16]).is_ok() {
                            return Err("accepted".into());
                        }
                        let e = m.entry(id).or_insert((0, false));
                        e.0 += 1;
                        e.1 = true;
                        let st = ctx.get_error_stats().get(&id).cloned().ok_or("no statistics")?;
                        same("time of last error", st.last_time >= before, true)?;
                        if st.count > 1 {
                            same("time of first error kept", st.start_time < before, true)?;
                        }
                    }
                    let mut have: Vec<(u32, u32)> = ctx.get_error_stats().iter().map(|(k, v)| (*k, v.count)).collect();
                    have.sort();
                    let mut want: Vec<(u32, u32)> = m.iter().map(|x| (*x.0, x.1.0)).collect();
                    want.sort();
                    same(&format!("step {i}: statistics"), have, want)?;
                }
                Ok(true)
            },
        );
    }
}
