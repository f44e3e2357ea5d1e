// MrpStream, through its public interface, against a model written from the property statements.
use crate::support::*;
use mrp::{MrpHeader, MrpReceiveError, MrpSendError, MrpStream};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct P(pub Vec<u32>);

impl Extend<P> for P {
    fn extend<I: IntoIterator<Item = P>>(&mut self, it: I) {
        for p in it {
            self.0.extend(p.0);
        }
    }
}

type Stream = MrpStream<(MrpHeader, P), P>;

#[derive(Clone, Debug)]
enum Op {
    Send(bool),                    // the transport accepts it?
    SendFragments(usize),
    Resend(u64, Vec<bool>),        // now, which transmissions succeed
    Ack(bool),
    Recv(Option<u64>, Option<u64>, Option<u32>, u32, bool), // seqnum, ack, num_packets, data, merge?
}

struct Pending {
    pkt: (MrpHeader, P),
    due: u64,
}

struct Model {
    cap: u64,
    tx_lo: u64,
    tx: BTreeMap<u64, Pending>,
    tx_next: u64,
    rx_lo: u64,
    rx: BTreeMap<u64, (MrpHeader, P)>,
    rx_hi: u64,
    should_ack: bool,
    parts: Option<(Vec<P>, u64)>,
    end: Option<u64>,
}

fn data_header(n: u64, k: Option<u32>) -> MrpHeader {
    MrpHeader { seqnum: Some(n), ack_num: None, num_packets: k }
}

fn run_ops(cap: Option<usize>, ops: &[Op]) -> Result<bool, String> {
    let base = Instant::now();
    let at = |t: u64| base + Duration::from_millis(t);
    let mut s: Stream = match cap {
        Some(c) => MrpStream::with_capacity_limit(c),
        None => MrpStream::default(),
    };
    let mut m = Model {
        cap: cap.map(|c| c as u64).unwrap_or(usize::MAX as u64),
        tx_lo: 1,
        tx: BTreeMap::new(),
        tx_next: 1,
        rx_lo: 1,
        rx: BTreeMap::new(),
        rx_hi: 1,
        should_ack: false,
        parts: None,
        end: None,
    };
    let mut clock = 0u64;
    let mut counter = 0u32;
    let mut busy = false;
    for (i, op) in ops.iter().enumerate() {
        let ctx = |e: String| format!("step {i}, {op:?}: {e}");
        clock += 1;
        match op {
            Op::Send(ok) => {
                counter += 1;
                let data = P(vec![counter]);
                let mut calls = vec![];
                let r = s.try_send(|h| {
                    calls.push(h.clone());
                    if *ok { Ok(((h, data.clone()), at(clock + 5))) } else { Err(anyhow::anyhow!("down")) }
                });
                if m.tx_next - m.tx_lo >= m.cap {
                    same("calls of the transport", calls.len(), 0).map_err(ctx)?;
                    if !matches!(r, Err(MrpSendError::SendWindowFull)) {
                        return Err(ctx(format!("window full, yet {r:?}")));
                    }
                } else {
                    same("header handed to the transport", calls, vec![data_header(m.tx_next, None)]).map_err(ctx)?;
                    if *ok {
                        if r.is_err() {
                            return Err(ctx(format!("sent, yet {r:?}")));
                        }
                        m.tx.insert(m.tx_next, Pending { pkt: (data_header(m.tx_next, None), data), due: clock + 5 });
                        m.tx_next += 1;
                    } else if !matches!(r, Err(MrpSendError::InnerSendFailed(_))) {
                        return Err(ctx(format!("transport failed, yet {r:?}")));
                    }
                }
            }
            Op::SendFragments(k) => {
                let frags: Vec<(MrpHeader, P)> = (0..*k)
                    .map(|j| {
                        counter += 1;
                        let _ = j;
                        (MrpHeader::default(), P(vec![counter]))
                    })
                    .collect();
                let mut calls = vec![];
                let r = s.try_send_fragmented(frags.clone(), |idx, h, f| {
                    calls.push((idx, h.clone(), f.1.clone()));
                    ((h, f.1), at(clock + 5 + idx as u64))
                });
                let used = m.tx_next - m.tx_lo;
                if r.is_err() {
                    // refused as a whole; allowed only when the group would not fit below the limit
                    if used + (*k as u64) < m.cap {
                        return Err(ctx(format!("{} of {} used, {k} fragments refused: {r:?}", used, m.cap)));
                    }
                    same("fragments transmitted although refused", calls.len(), 0).map_err(ctx)?;
                } else {
                    if used + *k as u64 > m.cap {
                        return Err(ctx("accepted more than fits".into()));
                    }
                    let want: Vec<(usize, MrpHeader, P)> = (0..*k)
                        .map(|j| {
                            let h = data_header(m.tx_next + j as u64, if j == 0 { Some(*k as u32) } else { None });
                            (j, h, frags[j].1.clone())
                        })
                        .collect();
                    same("fragments as handed to the transport", calls, want.clone()).map_err(ctx)?;
                    for (j, h, p) in want {
                        m.tx.insert(m.tx_next, Pending { pkt: (h, p), due: clock + 5 + j as u64 });
                        m.tx_next += 1;
                    }
                    busy |= *k > 1;
                }
            }
            Op::Resend(now, oks) => {
                let mut calls = vec![];
                let mut j = 0;
                let r = s.try_resend(at(*now), |d| {
                    calls.push(d.clone());
                    let ok = oks.get(j).copied().unwrap_or(true);
                    j += 1;
                    if ok { Ok(at(*now + 7)) } else { Err(anyhow::anyhow!("down")) }
                });
                let mut want = vec![];
                let mut failed = false;
                for p in m.tx.values_mut() {
                    if p.due <= *now {
                        want.push(p.pkt.clone());
                        if oks.get(want.len() - 1).copied().unwrap_or(true) {
                            p.due = *now + 7;
                        } else {
                            failed = true;
                            break;
                        }
                    }
                }
                same("retransmissions", calls, want).map_err(ctx)?;
                same("retransmission failed", r.is_err(), failed).map_err(ctx)?;
            }
            Op::Ack(ok) => {
                let mut calls = vec![];
                let r = s.try_send_ack(|h| {
                    calls.push(h);
                    if *ok { Ok(()) } else { Err(anyhow::anyhow!("down")) }
                });
                if m.should_ack {
                    same("acknowledgement", calls, vec![MrpHeader { seqnum: None, ack_num: Some(m.rx_lo), num_packets: None }])
                        .map_err(ctx)?;
                    if *ok {
                        same("acknowledged", r.ok(), Some(Some(m.rx_lo))).map_err(ctx)?;
                        m.should_ack = false;
                    } else if r.is_ok() {
                        return Err(ctx("failure of the acknowledgement not reported".into()));
                    }
                } else {
                    same("acknowledgements although none is owed", calls.len(), 0).map_err(ctx)?;
                    same("acknowledged", r.ok(), Some(None)).map_err(ctx)?;
                }
            }
            Op::Recv(seq, ack, k, d, merge) => {
                let h = MrpHeader { seqnum: *seq, ack_num: *ack, num_packets: *k };
                let p = P(vec![*d]);
                let r = if *merge { s.receive_and_merge(&h, p.clone()) } else { s.receive(&h, p.clone()) };
                if let Some(a) = ack {
                    same("acknowledgement received", r, Ok(vec![])).map_err(ctx)?;
                    if *a <= m.tx_next && *a > m.tx_lo {
                        m.tx.retain(|n, _| n >= a);
                        m.tx_lo = *a;
                    }
                } else if let Some(n) = seq {
                    if *n < m.rx_lo {
                        m.should_ack = true;
                        same("duplicate", r, Ok(vec![])).map_err(ctx)?;
                    } else if *n - m.rx_lo >= m.cap {
                        same("beyond the window", r, Err(MrpReceiveError::ReceiveWindowFull(*n))).map_err(ctx)?;
                    } else {
                        m.rx.insert(*n, (h, p));
                        m.rx_hi = m.rx_hi.max(*n + 1);
                        let mut out = vec![];
                        while let Some(x) = m.rx.remove(&m.rx_lo) {
                            m.rx_lo += 1;
                            out.push(x);
                        }
                        if !out.is_empty() {
                            m.should_ack = true;
                            busy |= out.len() > 1;
                        }
                        let want = if *merge { merge_model(&mut m, out) } else { Ok(out.into_iter().map(|x| x.1).collect()) };
                        same("delivered", r, want).map_err(ctx)?;
                    }
                } else {
                    same("not an MRP packet", r, Ok(vec![p])).map_err(ctx)?;
                }
            }
        }
        same("send_len", s.send_len() as u64, m.tx_next - m.tx_lo).map_err(ctx)?;
        same("receive_len", s.receive_len() as u64, m.rx_hi.max(m.rx_lo) - m.rx_lo).map_err(ctx)?;
        same("ack_seqnum", s.ack_seqnum(), m.rx_lo).map_err(ctx)?;
    }
    Ok(busy)
}

fn merge_model(m: &mut Model, packets: Vec<(MrpHeader, P)>) -> Result<Vec<P>, MrpReceiveError> {
    let mut out = vec![];
    for (h, p) in packets {
        let n = h.seqnum.unwrap();
        if m.parts.is_none() && m.end.is_some_and(|e| n <= e) {
            continue; // remainder of a group given up
        }
        match m.parts.as_mut() {
            Some((got, want)) => {
                if h.num_packets.unwrap_or(0) != 0 {
                    m.parts = None;
                    return Err(MrpReceiveError::PacketMergeConflict);
                }
                got.push(p);
                if got.len() as u64 == *want {
                    out.push(P(got.iter().flat_map(|p| p.0.clone()).collect()));
                    m.parts = None;
                }
            }
            None => match h.num_packets {
                Some(k) if k > 1 => {
                    if k as u64 > m.cap {
                        return Err(MrpReceiveError::InvalidNumPackets(k));
                    }
                    m.parts = Some((vec![p], k as u64));
                    m.end = Some(n + k as u64 - 1);
                }
                _ => out.push(p),
            },
        }
    }
    Ok(out)
}

fn weights(run: &mut Run, salt: u64, n: u64, w: [u64; 5]) {
    let mut rng = run.rng(salt);
    let total: u64 = w.iter().sum();
    for _ in 0..n {
        let cap = *rng.pick(&[Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(20), None]);
        let c = cap.unwrap_or(30) as u64;
        let len = 1 + rng.below(50);
        let merge_bias = rng.below(3);
        // a plausible peer: numbers its packets consecutively, groups some, loses and reorders
        let mut peer: Vec<(u64, Option<u32>)> = vec![];
        let mut seq = 1;
        while seq < 60 {
            let k = if rng.chance(1, 3) { 1 + rng.below(c.min(5)) as u32 } else { 1 };
            for j in 0..k {
                let np = if k > 1 && j == 0 { Some(k) } else if rng.chance(1, 10) { Some(rng.below(3) as u32) } else { None };
                peer.push((seq, np));
                seq += 1;
            }
        }
        let mut cursor = 0usize;
        let mut sent = 0u64;
        let mut clock = 0u64;
        let ops: Vec<Op> = (0..len)
            .map(|i| {
                clock += 1;
                let mut x = rng.below(total);
                let mut which = 0;
                while x >= w[which] {
                    x -= w[which];
                    which += 1;
                }
                match which {
                    0 => {
                        sent += 1;
                        Op::Send(!rng.chance(1, 6))
                    }
                    1 => {
                        let k = rng.below(c + 2) as usize;
                        sent += k as u64;
                        Op::SendFragments(k)
                    }
                    2 => Op::Resend(clock + rng.below(12), (0..rng.below(4)).map(|_| !rng.chance(1, 5)).collect()),
                    3 => Op::Ack(!rng.chance(1, 4)),
                    _ => {
                        let merge = if merge_bias == 0 { false } else { merge_bias == 2 || rng.chance(1, 2) };
                        match rng.below(12) {
                            0 | 1 => Op::Recv(
                                if rng.chance(1, 4) { Some(rng.below(9)) } else { None },
                                Some(if rng.chance(1, 6) { rng.edgy() } else { rng.below(sent + 3) }),
                                None,
                                i as u32,
                                merge,
                            ),
                            2 => Op::Recv(None, None, if rng.chance(1, 2) { Some(rng.below(4) as u32) } else { None }, i as u32, merge),
                            3 if cap.is_some() => Op::Recv(Some(rng.edgy().min(u64::MAX - 1)), None, Some(rng.edgy() as u32), i as u32, merge),
                            4 => Op::Recv(Some(cursor as u64 + rng.below(4)), None, Some(rng.below(c + 3) as u32), i as u32, merge),
                            _ => {
                                let j = if rng.chance(2, 3) {
                                    cursor
                                } else {
                                    (cursor + rng.below(c.min(8) + 2) as usize).saturating_sub(rng.below(3) as usize)
                                }
                                .min(peer.len() - 1);
                                if j == cursor {
                                    cursor = (cursor + 1).min(peer.len() - 1);
                                }
                                let (n, np) = peer[j];
                                Op::Recv(Some(n), None, np, 1000 + n as u32, merge)
                            }
                        }
                    }
                }
            })
            .collect();
        run.case(|| format!("capacity {cap:?}: {ops:?}"), || run_ops(cap, &ops));
    }
}

fn exhaustive(run: &mut Run, alphabet: &[Op], len: u32, caps: &[Option<usize>]) {
    let k = alphabet.len();
    for cap in caps {
        for code in 0..k.pow(len) {
            let mut c = code;
            let ops: Vec<Op> = (0..len)
                .map(|_| {
                    let op = alphabet[c % k].clone();
                    c /= k;
                    op
                })
                .collect();
            run.case(|| format!("capacity {cap:?}: {ops:?}"), || run_ops(*cap, &ops));
        }
    }
}

fn recv(n: u64, k: Option<u32>, merge: bool) -> Op {
    Op::Recv(Some(n), None, k, 100 + n as u32, merge)
}

fn ack(a: u64) -> Op {
    Op::Recv(None, Some(a), None, 0, false)
}

/// in-order, exactly-once delivery
pub fn r02(run: &mut Run) {
    long(run, 2);
    run.suite("delivery, all short arrival orders");
    let mut al: Vec<Op> = (0..=5).map(|n| recv(n, None, false)).collect();
    al.push(Op::Recv(None, None, None, 7, false));
    exhaustive(run, &al, if run.thorough { 6 } else { 5 }, &[Some(1), Some(2), Some(4), None]);
    run.suite("delivery, random histories");
    let n = run.quick_or(15_000, 300_000);
    weights(run, 2, n, [1, 1, 1, 2, 12]);
}

/// send numbering, flow control, acknowledgements received
pub fn r03(run: &mut Run) {
    long(run, 3);
    run.suite("sending, all short histories");
    let al = vec![Op::Send(true), Op::Send(false), Op::SendFragments(0), Op::SendFragments(2), ack(0), ack(1), ack(2), ack(3), ack(4)];
    exhaustive(run, &al, if run.thorough { 6 } else { 5 }, &[Some(1), Some(2), Some(3)]);
    run.suite("sending, random histories");
    let n = run.quick_or(15_000, 300_000);
    weights(run, 3, n, [6, 3, 2, 1, 4]);
}

/// fragmentation and reassembly
pub fn r04(run: &mut Run) {
    long(run, 4);
    run.suite("reassembly, all short arrival orders");
    let mut al: Vec<Op> = vec![];
    for n in 1..=4 {
        al.push(recv(n, None, true));
    }
    al.push(recv(1, Some(2), true));
    al.push(recv(1, Some(3), true));
    al.push(recv(2, Some(2), true));
    al.push(recv(3, Some(1), true));
    al.push(recv(2, Some(0), true));
    al.push(recv(1, Some(9), true));
    exhaustive(run, &al, if run.thorough { 6 } else { 5 }, &[Some(2), Some(4)]);
    run.suite("reassembly, random histories");
    let n = run.quick_or(15_000, 300_000);
    weights(run, 4, n, [1, 3, 1, 1, 14]);
    run.suite("fragment and reassemble between two streams");
    let mut rng = run.rng(5);
    for _ in 0..run.quick_or(5_000, 100_000) {
        let cap = 2 + rng.below(12) as usize;
        let groups: Vec<usize> = (0..1 + rng.below(6)).map(|_| 1 + rng.below(cap as u64 - 1) as usize).collect();
        let seed = rng.u64();
        run.case(|| format!("capacity {cap}, groups of {groups:?}, network seed {seed}"), || transfer(cap, &groups, seed));
    }
}

fn transfer(cap: usize, groups: &[usize], seed: u64) -> Result<bool, String> {
    let mut rng = Rng::new(seed);
    let base = Instant::now();
    let mut a: Stream = MrpStream::with_capacity_limit(cap);
    let mut b: Stream = MrpStream::with_capacity_limit(cap);
    let mut wire: Vec<(MrpHeader, P)> = vec![];
    let mut acks: Vec<MrpHeader> = vec![];
    let mut got: Vec<P> = vec![];
    let mut next = 0u32;
    let want: Vec<P> = groups
        .iter()
        .map(|&k| {
            let p = P((next..next + k as u32).collect());
            next += k as u32;
            p
        })
        .collect();
    let mut gi = 0;
    for t in 0..20_000u64 {
        if got.len() == want.len() {
            break;
        }
        let now = base + Duration::from_millis(t);
        if gi < want.len() {
            let frags: Vec<_> = want[gi].0.iter().map(|x| (MrpHeader::default(), P(vec![*x]))).collect();
            if a.try_send_fragmented(frags, |_, h, f| {
                if t > 3000 || !rng.chance(1, 4) {
                    wire.push((h.clone(), f.1.clone()));
                }
                ((h, f.1), now + Duration::from_millis(4))
            })
            .is_ok()
            {
                gi += 1;
            }
        }
        let _ = a.try_resend(now, |d| {
            if t > 3000 || !rng.chance(1, 4) {
                wire.push(d.clone());
            }
            Ok(now + Duration::from_millis(4))
        });
        for _ in 0..rng.below(4) {
            if wire.is_empty() {
                break;
            }
            let j = rng.below(wire.len() as u64) as usize;
            let (h, p) = if rng.chance(1, 6) { wire[j].clone() } else { wire.remove(j) };
            match b.receive_and_merge(&h, p) {
                Ok(v) => got.extend(v),
                Err(MrpReceiveError::ReceiveWindowFull(_)) => {}
                Err(e) => return Err(format!("honest packet {h:?} refused: {e:?}")),
            }
        }
        let _ = b.try_send_ack(|h| {
            acks.push(h);
            Ok(())
        });
        while !acks.is_empty() && rng.chance(1, 2) {
            let h = acks.remove(rng.below(acks.len() as u64) as usize);
            if t > 3000 || !rng.chance(1, 4) {
                a.receive(&h, P(vec![])).map_err(|e| format!("acknowledgement refused: {e:?}"))?;
            }
        }
    }
    same("messages delivered", got, want)?;
    Ok(groups.len() > 1)
}

/// retransmission and acknowledgement duty
pub fn r05(run: &mut Run) {
    long(run, 5);
    run.suite("retransmission, all short histories");
    let al = vec![
        Op::Send(true),
        Op::Resend(3, vec![]),
        Op::Resend(8, vec![]),
        Op::Resend(9, vec![true, false]),
        Op::Resend(20, vec![false]),
        ack(2),
        ack(3),
        Op::Ack(true),
        Op::Ack(false),
        recv(1, None, false),
        recv(2, None, false),
    ];
    exhaustive(run, &al, if run.thorough { 6 } else { 5 }, &[Some(3)]);
    run.suite("retransmission, random histories");
    let n = run.quick_or(15_000, 300_000);
    weights(run, 6, n, [5, 2, 6, 4, 6]);
    run.suite("one packet, many retransmissions");
    run.case(
        || "one packet sent once and retransmitted 70000 times".into(),
        || {
            let base = Instant::now();
            let mut s: Stream = MrpStream::with_capacity_limit(2);
            s.try_send(|h| Ok(((h, P(vec![1])), base))).map_err(|e| format!("{e:?}"))?;
            let mut n = 0u32;
            for _ in 0..70_000 {
                s.try_resend(base, |_| {
                    n += 1;
                    Ok(base)
                })
                .map_err(|e| format!("{e:?}"))?;
            }
            same("retransmissions", n, 70_000)?;
            Ok(true)
        },
    );
}

fn shuffle<T>(rng: &mut Rng, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
        xs.swap(i, rng.below(i as u64 + 1) as usize);
    }
}

/// the same contracts on histories far longer than a test's
fn long(run: &mut Run, salt: u64) {
    run.suite("long histories");
    let mut rng = run.rng(100 + salt);
    let mut sizes: Vec<u64> = vec![17, 33, 65, 100, 129, 257, 300, 520, 1030, 2050];
    if run.thorough {
        sizes.extend([4_100, 8_200, 20_000, 66_000]);
    }
    for n in sizes {
        for variant in 0..6u64 {
            let cap = *rng.pick(&[Some(n as usize), Some(n as usize + 1), Some(3 * n as usize), None]);
            let mut ops: Vec<Op> = vec![];
            let k = 1 + rng.below(n);
            match salt {
                2 => {
                    let mut xs: Vec<u64> = (1..=n).collect();
                    match variant {
                        0 => xs.reverse(),
                        1 => xs.rotate_left(1),
                        2 => xs.sort_by_key(|x| (x % 2, *x)),
                        3 => xs.rotate_left(k as usize % n as usize),
                        _ => shuffle(&mut rng, &mut xs),
                    }
                    ops.extend(xs.iter().map(|x| recv(*x, None, variant == 5)));
                    ops.push(Op::Ack(true));
                    ops.extend((1..=n).step_by(7).map(|x| recv(x, None, false)));
                    ops.extend((n + 1..n + 40).map(|x| recv(x, None, false)));
                }
                3 => {
                    let mut a = 1;
                    for i in 0..n {
                        ops.push(Op::Send(i % 13 != 7));
                    }
                    while a < n {
                        a += 1 + rng.below(k.min(90));
                        ops.push(ack(a));
                        ops.push(Op::Send(true));
                        if rng.chance(1, 3) {
                            ops.push(Op::SendFragments(rng.below(40) as usize));
                            ops.push(ack(rng.below(2 * n)));
                        }
                    }
                }
                4 => {
                    let mut np: Vec<(u64, Option<u32>)> = (1..=n).map(|x| (x, None)).collect();
                    let g = match variant {
                        0 => n,
                        1 => n - 1,
                        _ => 2 + rng.below(n - 2),
                    };
                    np[0].1 = Some(g as u32);
                    if g + 3 < n {
                        np[g as usize].1 = Some((n - g) as u32);
                    }
                    if variant >= 4 {
                        // a second announcement inside the group
                        np[(1 + rng.below(g - 1)) as usize].1 = Some(1 + rng.below(4) as u32);
                    }
                    match variant {
                        1 => np.reverse(),
                        0 | 4 => {}
                        _ => shuffle(&mut rng, &mut np),
                    }
                    ops.extend(np.iter().map(|(x, k)| recv(*x, *k, true)));
                    ops.extend((n + 1..n + 9).map(|x| recv(x, None, true)));
                    ops.push(Op::SendFragments(g as usize));
                    ops.push(Op::SendFragments(5));
                    ops.push(ack(g));
                    ops.push(Op::SendFragments((g - 2) as usize));
                }
                _ => {
                    for _ in 0..n {
                        ops.push(Op::Send(true));
                    }
                    let fail = rng.below(n) as usize;
                    ops.push(Op::Resend(k + 5, vec![]));
                    ops.push(Op::Resend(n + 9, (0..=fail).map(|i| i != fail).collect()));
                    ops.push(ack(k));
                    ops.push(Op::Resend(n + 400, vec![]));
                    ops.push(Op::Resend(n + 401, vec![]));
                    ops.push(Op::Resend(2 * n + 500, vec![]));
                    ops.extend((1..=n.min(300)).rev().map(|x| recv(x, None, false)));
                    ops.extend([Op::Ack(false), Op::Ack(true), Op::Ack(true)]);
                }
            }
            let what = format!("capacity {cap:?}, long history of {} operations, n = {n}, variant {variant}, k = {k}", ops.len());
            run.case(|| what.clone(), || run_ops(cap, &ops).map(|_| true));
        }
    }
}
