// Random histories of a call manager with direct calls, compared operation by operation with the model.
use crate::c_model::{CS, Call, Conn, KS, M, Side};
use crate::c_rig::*;
use crate::support::*;
use prost::Message;
use ringrtc::protobuf::rtp_data as pb;
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
};

struct World {
    real: Real,
    m: M,
    ctx: u64,
    ids: u64,
    stamp: u32,
    seq: u64,
}

fn sdp(rng: &mut Rng) -> Cand {
    match rng.below(8) {
        0 => Cand::Junk,
        1 | 2 => Cand::Remove(format!("10.0.0.{}:{}", 1 + rng.below(9), 1000 + rng.below(9))),
        _ => Cand::Add(format!("candidate:{}", rng.below(1000))),
    }
}
fn cands(rng: &mut Rng) -> Vec<Cand> {
    (0..rng.below(4)).map(|_| sdp(rng)).collect()
}
fn some_max(rng: &mut Rng) -> Option<u64> {
    *rng.pick(&[None, None, Some(0), Some(10_000), Some(30_000), Some(299_999), Some(300_000), Some(900_000), Some(1_000_001), Some(5_000_000)])
}
fn bad(rng: &mut Rng) -> Bad {
    *rng.pick(&[Bad::No, Bad::No, Bad::No, Bad::No, Bad::No, Bad::No, Bad::No, Bad::NoKey, Bad::ShortKey, Bad::Empty])
}
fn hang(rng: &mut Rng) -> Hang {
    let d = 1 + rng.below(4) as u32;
    match rng.below(7) {
        0..=2 => Hang::Normal,
        3 => Hang::Accepted(d),
        4 => Hang::Declined(d),
        5 => Hang::Busy(d),
        _ => Hang::Permission(rng.chance(1, 2).then_some(d)),
    }
}
fn maybe(rng: &mut Rng) -> Option<bool> {
    *rng.pick(&[None, Some(false), Some(true), Some(true)])
}

impl World {
    fn new() -> World {
        World { real: Real::new(), m: M::default(), ctx: 0, ids: 100, stamp: 1, seq: 1 }
    }
    fn active(&self) -> Option<&Call> {
        self.m.active.and_then(|a| self.m.map.get(&a)).map(|c| &self.m.calls[*c])
    }
    fn new_id(&mut self, rng: &mut Rng) -> u64 {
        // above and below those already used
        self.ids += 1;
        if rng.chance(1, 2) { self.ids } else { 1_000_000 - self.ids }
    }
    fn some_id(&mut self, rng: &mut Rng) -> u64 {
        match (rng.below(10), self.m.active) {
            (0..=6, Some(a)) => a,
            (7 | 8, _) if !self.m.calls.is_empty() => self.m.calls[rng.below(self.m.calls.len() as u64) as usize].id,
            _ => self.new_id(rng),
        }
    }
    fn offer(&mut self, rng: &mut Rng) -> Op {
        let fresh = self.new_id(rng);
        let (mut peer, mut from, mut id) = (1 + rng.below(2) as u8, 1 + rng.below(3) as u32, fresh);
        let age = *rng.pick(&[0, 0, 0, 1000, 59_999, 60_000, 60_001, 100_000]);
        if let Some(a) = self.active() {
            if rng.chance(3, 4) {
                peer = a.peer;
            }
            if rng.chance(1, 2) {
                from = a.device.unwrap_or(from);
            }
            if rng.chance(1, 8) {
                id = a.id;
            }
        }
        let bad = bad(rng);
        Op::Offer { peer, id, age: if rng.chance(1, 4) { age } else { 0 }, from, to: 1 + rng.below(3) as u32, video: rng.chance(1, 2), max: some_max(rng), bad }
    }
    fn message(&mut self, rng: &mut Rng, id: u64, out: bool, focus: &str) -> Vec<u8> {
        let odd = rng.chance(1, 8);
        let some = |rng: &mut Rng| Some(if odd && rng.chance(1, 2) { id ^ 1 } else { id });
        let mut m = Msg::default();
        if rng.chance(7, 8) {
            self.seq += rng.below(3);
            m.seqnum = Some(if rng.chance(1, 6) { rng.below(self.seq + 1) } else { self.seq });
        }
        let w = rng.below(if focus == "C08" { 12 } else { 16 });
        if (w == 0 && out) || (odd && rng.chance(1, 4)) || (out && rng.chance(1, 4)) {
            m.accepted = Some(pb::Accepted { id: some(rng) });
        }
        if rng.chance(1, 14) {
            let (t, d) = hang(rng).wire();
            m.hangup = Some(pb::Hangup { id: some(rng), r#type: if rng.chance(1, 5) { Some(rng.below(9) as i32) } else { Some(t) }, device_id: d });
        }
        if rng.chance(1, 2) {
            m.sender_status = Some(pb::SenderStatus { id: some(rng), video_enabled: maybe(rng), sharing_screen: maybe(rng), audio_enabled: maybe(rng) });
        }
        if rng.chance(1, 2) {
            m.receiver_status = Some(pb::ReceiverStatus { id: some(rng), max_bitrate_bps: some_max(rng) });
        }
        match rng.below(24) {
            0 => rng.bytes(20),
            1 => vec![],
            2 => {
                let mut v = m.encode_to_vec();
                // a field nobody knows
                v.extend_from_slice(&[0xFA, 0x7F]);
                let n = rng.below(600) as usize;
                v.extend_from_slice(&[(n % 128) as u8 | 0x80, (n / 128) as u8]);
                v.extend(std::iter::repeat_n(7, n));
                v
            }
            _ => m.encode_to_vec(),
        }
    }
    fn on_conn(&mut self, rng: &mut Rng, n: usize, focus: &str) -> Op {
        let k: &Conn = &self.m.conns[n];
        let (id, out) = (self.m.calls[k.call].id, self.m.calls[k.call].out);
        match rng.below(14) {
            0 => Op::IceState { n, what: rng.below(5) as u8 },
            1 => Op::IceState { n, what: *rng.pick(&[1, 1, 3]) },
            2 | 3 => Op::LocalIce { n, cand: sdp(rng) },
            4 => Op::Route { n, local: rng.chance(1, 2), remote: rng.chance(1, 2) },
            5..=8 => {
                let payload = self.message(rng, id, out, focus);
                self.stamp += rng.below(3) as u32;
                let timestamp = if rng.chance(1, 8) { rng.below(self.stamp as u64 + 1) as u32 } else { self.stamp };
                Op::Rtp { n, pt: if rng.chance(1, 20) { 100 } else { 101 }, ssrc: if rng.chance(1, 20) { 0xE } else { 0xD }, timestamp, payload }
            }
            9 if rng.chance(1, 3) => Op::Media { n },
            10 | 11 => Op::Sender { n, video: maybe(rng), sharing: maybe(rng), audio: maybe(rng) },
            _ => Op::Mode { n, low: rng.chance(1, 2) },
        }
    }
    fn random(&mut self, rng: &mut Rng, focus: &str) -> Op {
        let id = self.some_id(rng);
        let from = match self.active().and_then(|a| a.device) {
            Some(d) if rng.chance(1, 2) => d,
            _ => 1 + rng.below(4) as u32,
        };
        let peer = match self.active() {
            Some(a) if rng.chance(7, 8) => a.peer,
            _ => 1 + rng.below(2) as u8,
        };
        match rng.below(26) {
            0 => Op::Call { peer: 1 + rng.below(2) as u8, id: self.new_id(rng), video: rng.chance(1, 2), local: 1 + rng.below(3) as u32 },
            1..=3 => self.offer(rng),
            4 => Op::Proceed { id, ctx: 900 + rng.below(9), low: rng.chance(1, 2), levels_ms: None },
            5 => Op::Accept { id },
            6 if rng.chance(1, 3) => Op::Drop { id },
            7 if rng.chance(1, 3) => Op::HangUp,
            8 if rng.chance(1, 4) => Op::Reset,
            9 => Op::Sent { id },
            10 | 11 if rng.chance(1, 2) => Op::SendFailed { id },
            12 | 13 => Op::Answer { peer, id, from, max: some_max(rng), bad: bad(rng) },
            14 | 15 => Op::Ice { peer, id, from, cands: cands(rng) },
            16 if rng.chance(1, 2) => Op::Hangup { peer, id, from, what: hang(rng) },
            17 if rng.chance(1, 3) => Op::Busy { peer, id, from },
            18 => Op::Time(*rng.pick(&[1, 200, 999, 1000, 5000, 59_000, 60_000])),
            19 => Op::Bandwidth(*rng.pick(&[0, 59_999, 60_000, 70_000, 70_001, 500_000])),
            20 => Op::Level(rng.below(1000) as u16),
            21 if rng.chance(1, 3) => Op::Assume(rng.chance(1, 2)),
            _ if !self.m.conns.is_empty() => {
                let n = self.m.conns.len() as u64;
                let n = n - 1 - rng.below(n.min(3));
                self.on_conn(rng, n as usize, focus)
            }
            _ => Op::Sent { id },
        }
    }
    /// what brings calls forward
    fn forward(&mut self, rng: &mut Rng, focus: &str) -> Op {
        if self.m.in_flight && rng.chance(2, 3) {
            return Op::Sent { id: self.m.active.unwrap_or(1) };
        }
        let Some(a) = self.active().cloned() else {
            let id = self.new_id(rng);
            return match rng.below(10) {
                0..=3 => Op::Call { peer: 1 + rng.below(2) as u8, id, video: rng.chance(1, 2), local: 1 + rng.below(3) as u32 },
                4 => {
                    // ahead of its offer
                    Op::Ice { peer: 1, id: 7, from: 1 + rng.below(2) as u32, cands: cands(rng) }
                }
                5 => {
                    if rng.chance(1, 4) {
                        Op::Hangup { peer: 1, id: 7, from: 1, what: hang(rng) }
                    } else {
                        Op::Offer { peer: 1 + rng.chance(1, 5) as u8, id: 7, age: 0, from: 1, to: 1, video: false, max: None, bad: Bad::No }
                    }
                }
                _ => self.offer(rng),
            };
        };
        let id = a.id;
        match a.state {
            CS::WaitingToProceed => {
                self.ctx += 1;
                let levels_ms = *rng.pick(&[None, None, Some(0), Some(100), Some(200), Some(400), Some(1000)]);
                Op::Proceed { id, ctx: self.ctx, low: rng.chance(1, 3), levels_ms }
            }
            s => {
                let conns: Vec<usize> = a.conns.values().copied().collect();
                if a.out && (conns.is_empty() || (conns.len() < 3 && rng.chance(1, 6))) && s < CS::ConnectedAndAccepted {
                    let bad = if rng.chance(1, 20) { bad(rng) } else { Bad::No };
                    return Op::Answer { peer: a.peer, id, from: 1 + rng.below(3) as u32, max: some_max(rng), bad };
                }
                if conns.is_empty() {
                    return Op::Sent { id };
                }
                let n = *rng.pick(&conns);
                let k = &self.m.conns[n];
                if k.media.is_none() && rng.chance(1, 2) {
                    return Op::Media { n };
                }
                if focus == "C08" && matches!(k.state, KS::ConnectedAndAccepted | KS::ConnectedBeforeAccepted) && rng.chance(1, 2) {
                    return self.status(rng, n, id);
                }
                match k.state {
                    KS::ConnectingBeforeAccepted | KS::ConnectingAfterAccepted => {
                        if a.out && rng.chance(1, 4) {
                            self.accepted(n, id)
                        } else {
                            Op::IceState { n, what: 1 + rng.below(2) as u8 }
                        }
                    }
                    KS::ConnectedBeforeAccepted if a.out => {
                        if rng.chance(1, 2) {
                            self.accepted(n, id)
                        } else {
                            Op::Sender { n, video: maybe(rng), sharing: maybe(rng), audio: maybe(rng) }
                        }
                    }
                    KS::ConnectedBeforeAccepted => Op::Accept { id },
                    KS::ReconnectingAfterAccepted => Op::IceState { n, what: 1 },
                    KS::ConnectedAndAccepted => match rng.below(4) {
                        0 => Op::IceState { n, what: 3 },
                        1 => Op::Sender { n, video: Some(true), sharing: maybe(rng), audio: maybe(rng) },
                        2 => Op::Bandwidth(*rng.pick(&[0, 59_999, 70_001])),
                        _ => Op::Time(*rng.pick(&[200, 1000, 3000, 7000, 12_000])),
                    },
                    _ => Op::Sent { id },
                }
            }
        }
    }
    /// a status, perhaps old, late or without a number
    fn status(&mut self, rng: &mut Rng, n: usize, id: u64) -> Op {
        let mut m = Msg::default();
        if rng.chance(3, 4) {
            m.sender_status = Some(pb::SenderStatus { id: Some(id), video_enabled: maybe(rng), sharing_screen: maybe(rng), audio_enabled: maybe(rng) });
        } else {
            m.receiver_status = Some(pb::ReceiverStatus { id: Some(id), max_bitrate_bps: some_max(rng) });
        }
        if rng.chance(2, 3) {
            self.seq += rng.below(3);
            m.seqnum = Some(if rng.chance(1, 5) { rng.below(self.seq + 1) } else { self.seq });
        }
        self.stamp += rng.below(3) as u32;
        let back = match rng.below(3) {
            0 => rng.below(6) as u32,
            1 if rng.chance(1, 4) => rng.below(self.stamp as u64 + 1) as u32,
            _ => 0,
        };
        Op::Rtp { n, pt: 101, ssrc: 0xD, timestamp: self.stamp.saturating_sub(back), payload: m.encode_to_vec() }
    }
    fn accepted(&mut self, n: usize, id: u64) -> Op {
        self.stamp += 1;
        self.seq += 1;
        let m = Msg { accepted: Some(pb::Accepted { id: Some(id) }), seqnum: Some(self.seq), ..Default::default() };
        Op::Rtp { n, pt: 101, ssrc: 0xD, timestamp: self.stamp, payload: m.encode_to_vec() }
    }
    fn step(&mut self, ops: &[Op]) -> (Vec<Ev>, Vec<Ev>) {
        for op in ops {
            self.real.inject(op);
            self.m.inject(op);
        }
        (self.real.settle(), self.m.settle())
    }
}

/// what the events are about: only within one of these is their order compared
fn subject(e: &Ev) -> (&'static str, usize) {
    match e {
        Ev::Start { .. } | Ev::App { .. } | Ev::Ended { .. } | Ev::Expired { .. } => ("C01", 0),
        Ev::Concluded { .. } => ("C01", 1),
        Ev::Route { .. } => ("C05", 1000),
        Ev::Levels { .. } | Ev::LowBandwidth { .. } => ("C07", 1000),
        Ev::Offer { .. } | Ev::Answer { .. } | Ev::Ice { .. } | Ev::Hangup { .. } | Ev::Busy { .. } => ("C02", 0),
        Ev::NewConnection { .. } => ("C04", 0),
        Ev::Pc { n, what: Note::Close } => ("C04", 1 + n),
        Ev::Connect { .. } | Ev::Disconnect { .. } => ("C05", 0),
        Ev::NewMedia { n, .. } => ("C05", 1 + n),
        Ev::Pc { n, what: Note::MaxRate(_) } => ("C07", *n),
        Ev::Pc { n, .. } => ("C05", 2000 + n),
        Ev::Rtp { n, .. } => ("C08", *n),
    }
}
fn sorted(v: Vec<Ev>) -> BTreeMap<(&'static str, usize), Vec<Ev>> {
    let mut m: BTreeMap<_, Vec<Ev>> = BTreeMap::new();
    for e in v {
        m.entry(subject(&e)).or_default().push(e);
    }
    for ((_, k), v) in m.iter_mut() {
        if matches!(v[0], Ev::Concluded { .. }) {
            v.sort_by_key(|e| format!("{e:?}"));
        }
        // media is switched on in any order
        if *k >= 2000 {
            let on = |e: &Ev| matches!(e, Ev::Pc { what: Note::Playout(_) | Note::Recording(_) | Note::Incoming(_) | Note::Outgoing(_), .. });
            let (mut a, b): (Vec<Ev>, Vec<Ev>) = v.drain(..).partition(on);
            a.sort_by_key(|e| format!("{e:?}"));
            v.extend(b);
            v.extend(a);
        }
    }
    m
}
/// the hangups that tell other devices
fn to_others(e: &Ev) -> bool {
    match e {
        Ev::Hangup { what, .. } => what != "Normal",
        Ev::Rtp { message, .. } => message.hangup.as_ref().is_some_and(|h| h.r#type.unwrap_or(0) != 0),
        _ => false,
    }
}
impl World {
    fn compare(&self, ops: &[Op], before: (bool, Option<u64>), real: Vec<Ev>, want: Vec<Ev>) -> BTreeMap<&'static str, String> {
        let mut out = BTreeMap::new();
        let (mut a, mut b) = (sorted(real), sorted(want));
        let keys: BTreeSet<_> = a.keys().chain(b.keys()).copied().collect();
        let collision = before.1.is_some() && ops.iter().any(|o| matches!(o, Op::Offer { .. }));
        // what a connection alone brought about; what the other end said over it
        let conn_only = ops.iter().all(|o| matches!(o, Op::IceState { .. } | Op::LocalIce { .. } | Op::Media { .. } | Op::Sender { .. } | Op::Rtp { .. }));
        let said_only = ops.iter().all(|o| matches!(o, Op::Rtp { .. }));
        for k in keys {
            let (x, y) = (a.remove(&k).unwrap_or_default(), b.remove(&k).unwrap_or_default());
            if x != y {
                let text = format!("{}: was {x:?}, should be {y:?}", k.0);
                let others = |v: &[Ev]| v.iter().filter(|e| to_others(e)).cloned().collect::<Vec<_>>();
                if others(&x) != others(&y) {
                    out.entry("C04").or_insert(text.clone());
                }
                if collision {
                    out.entry("C03").or_insert(text.clone());
                }
                if conn_only {
                    out.entry("C05").or_insert(text.clone());
                }
                if said_only {
                    out.entry("C08").or_insert(text.clone());
                }
                out.entry(k.0).or_insert(text);
            }
        }
        let real = self.real.busy();
        let want = (self.m.busy, self.m.active);
        if real != want {
            let text = format!("C01: busy and active call are {real:?}, should be {want:?}");
            if collision {
                out.entry("C03").or_insert(text.clone());
            }
            out.entry("C01").or_insert(text);
        }
        for (n, k) in self.m.conns.iter().enumerate() {
            if k.gone {
                continue;
            }
            let s = self.real.state(n);
            if s != Some(format!("{:?}", k.state)) {
                let text = format!("connection {n} is {s:?}, should be {:?}", k.state);
                if said_only {
                    out.entry("C08").or_insert(text.clone());
                }
                out.entry("C05").or_insert(text);
            }
        }
        out
    }
}

pub fn histories(run: &mut Run, prop: &'static str) {
    let mut rng = run.rng(0xCA11 + prop.bytes().map(|b| b as u64).sum::<u64>());
    run.suite("histories");
    for _ in 0..run.quick_or(1200, 25_000) {
        let seed = rng.u64();
        let trace = RefCell::new(vec![]);
        run.case(
            || trace.borrow().join("; "),
            || {
                let mut rng = Rng::new(seed);
                let mut w = World::new();
                let (len, wild, batches) = (20 + rng.below(60), 1 + rng.below(6), rng.chance(1, 3));
                let mut calls = 0;
                let first = Op::Assume(rng.chance(1, 3));
                w.step(&[first]);
                for _ in 0..len {
                    let mut ops = vec![];
                    let fault = rng.chance(1, 24).then(|| *rng.pick(&FAULTS));
                    if let Some(f) = fault {
                        ops.push(Op::Fault(f, true));
                    }
                    for _ in 0..if batches { 1 + rng.below(3) } else { 1 } {
                        let op = if rng.chance(wild, 10) { w.random(&mut rng, prop) } else { w.forward(&mut rng, prop) };
                        if ops.len() > fault.is_some() as usize && matches!(op, Op::Reset | Op::Time(_)) {
                            continue;
                        }
                        // an identifier is used again only once all that is left of its last call has been worked off
                        let again = match &op {
                            Op::Offer { id, .. } | Op::Call { id, .. } => w.m.calls.iter().any(|c| c.id == *id) || ops.iter().any(|o| matches!(o, Op::Offer { id: i, .. } | Op::Call { id: i, .. } if i == id)),
                            _ => false,
                        };
                        if again && ops.len() > fault.is_some() as usize {
                            continue;
                        }
                        let last = again || matches!(op, Op::Reset | Op::Time(_));
                        ops.push(op);
                        if last {
                            break;
                        }
                    }
                    trace.borrow_mut().push(ops.iter().map(|o| short(o)).collect::<Vec<_>>().join(" + "));
                    let before = (w.m.busy, w.m.active);
                    if std::env::var("VX_TRACE").is_ok() {
                        eprintln!("TRACE {seed:x} {}", trace.borrow().last().unwrap());
                    }
                    let (mut real, mut want) = w.step(&ops);
                    if let Some(f) = fault {
                        let (r, m) = w.step(&[Op::Fault(f, false)]);
                        real.extend(r);
                        want.extend(m);
                    }
                    calls += want.iter().any(|e| subject(e).0 == prop) as usize + (prop == "C03" && before.1.is_some()) as usize;
                    let bad = w.compare(&ops, before, real, want);
                    if let Some(b) = bad.get(prop) {
                        return Err(b.clone());
                    }
                    if !bad.is_empty() {
                        if std::env::var("VX_ALL").is_ok() {
                            return Err(format!("{bad:?}"));
                        }
                        return Ok(calls > 0);
                    }
                }
                Ok(calls > 0)
            },
        );
    }
}
fn short(op: &Op) -> String {
    match op {
        Op::Rtp { n, pt, ssrc, timestamp, payload } => match Msg::decode(&payload[..]) {
            Ok(m) => format!("Rtp {{ n: {n}, pt: {pt}, ssrc: {ssrc}, timestamp: {timestamp}, message: {m:?} ({} bytes) }}", payload.len()),
            Err(_) => format!("Rtp {{ n: {n}, pt: {pt}, ssrc: {ssrc}, timestamp: {timestamp}, payload: {} }}", hex::encode(payload)),
        },
        o => format!("{o:?}"),
    }
}
