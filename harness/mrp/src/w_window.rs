// BufferWindow against a plain map from numbers to elements.
use crate::support::*;
use crate::window::{BufferWindow, WindowError};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Op {
    Put(u64, u32),
    GetMut(u64, Option<u32>),
    Drain,
    Drop(usize),
}

struct Model {
    lo: u64,
    hi: u64,
    cap: u64,
    m: BTreeMap<u64, u32>,
}

fn observe(w: &mut BufferWindow<u32>, m: &Model, probe: &[u64]) -> Result<(), String> {
    same("left_bounds", w.left_bounds(), m.lo)?;
    same("right_bounds", w.right_bounds(), m.lo.saturating_add(m.cap - 1))?;
    same("len", w.len() as u64, m.hi - m.lo)?;
    same("is_full", w.is_full(), m.hi - m.lo == m.cap)?;
    same("max_seen_seqnum", w.max_seen_seqnum(), m.hi - 1)?;
    same("capacity_limit", w.capacity_limit() as u64, m.cap)?;
    for &n in probe {
        same(&format!("element {n}"), w.get_mut(n).map(|x| *x), m.m.get(&n).copied())?;
    }
    Ok(())
}

fn run_ops(cap: u64, lo: u64, ops: &[Op]) -> Result<bool, String> {
    let mut w = if cap == usize::MAX as u64 {
        BufferWindow::new(lo)
    } else {
        BufferWindow::with_capacity_limit(cap as usize, lo)
    };
    let mut m = Model { lo, hi: lo, cap, m: BTreeMap::new() };
    let mut busy = false;
    for op in ops {
        match *op {
            Op::Put(n, x) => {
                let r = w.put(n, x);
                let want = if n < m.lo {
                    Err(WindowError::BeforeWindow)
                } else if n - m.lo >= m.cap {
                    Err(WindowError::AfterWindow)
                } else {
                    m.m.insert(n, x);
                    m.hi = m.hi.max(n + 1);
                    busy = true;
                    Ok(())
                };
                same(&format!("put {n}"), r, want)?;
            }
            Op::GetMut(n, set) => {
                let r = w.get_mut(n);
                same(&format!("get_mut {n}"), r.as_ref().map(|x| **x), m.m.get(&n).copied())?;
                if let (Some(x), Some(v)) = (r, set) {
                    *x = v;
                    m.m.insert(n, v);
                }
            }
            Op::Drain => {
                let r = w.drain_front();
                let mut out = vec![];
                while let Some(x) = m.m.remove(&m.lo) {
                    out.push(x);
                    m.lo += 1;
                }
                let want = if out.is_empty() { None } else { Some((m.lo, out)) };
                same("drain_front", r, want)?;
            }
            Op::Drop(k) => {
                let r = w.drop_front(k);
                for n in m.lo..m.lo + k as u64 {
                    m.m.remove(&n);
                }
                m.lo += k as u64;
                m.hi = m.hi.max(m.lo);
                same("drop_front", r, m.lo)?;
            }
        }
        let probe: Vec<u64> =
            (m.lo.saturating_sub(2)..=m.lo + 12).chain([0, m.hi - 1, m.hi, m.hi + 1, u64::MAX]).collect();
        observe(&mut w, &m, &probe).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    Ok(busy)
}

pub fn r01(run: &mut Run) {
    long_run(run);
    run.suite("window, all short histories");
    // all histories of length 4 over a small alphabet, caps 1..3
    let alphabet = |x: u32| {
        vec![Op::Put(4, x), Op::Put(5, x), Op::Put(6, x), Op::Put(7, x), Op::Put(8, x), Op::Drain, Op::Drop(1), Op::Drop(3), Op::GetMut(6, Some(99))]
    };
    let k = alphabet(0).len();
    let len = if run.thorough { 5 } else { 4 };
    for cap in [1u64, 2, 3] {
        for code in 0..k.pow(len) {
            let mut c = code;
            let ops: Vec<Op> = (0..len)
                .map(|i| {
                    let op = alphabet(i)[c % k].clone();
                    c /= k;
                    op
                })
                .collect();
            run.case(|| format!("capacity {cap}, left 5: {ops:?}"), || run_ops(cap, 5, &ops));
        }
    }
    run.suite("window, random histories");
    let mut rng = run.rng(1);
    for _ in 0..run.quick_or(20_000, 400_000) {
        let cap = *rng.pick(&[1, 2, 3, 4, 7, 16, 17, 100, usize::MAX as u64]);
        let lo = 1 + rng.below(5);
        let n = 1 + rng.below(40) as usize;
        let mut approx = lo;
        let ops: Vec<Op> = (0..n)
            .map(|i| match rng.below(10) {
                0..=5 => {
                    let d = rng.below(cap.min(20) + 2);
                    let s = if cap < 1000 && rng.chance(1, 12) {
                        rng.edgy().min(u64::MAX - 1)
                    } else {
                        (approx + d).saturating_sub(1)
                    };
                    Op::Put(s, i as u32)
                }
                6 => Op::GetMut(approx + rng.below(6), if rng.chance(1, 2) { Some(1000 + i as u32) } else { None }),
                7..=8 => {
                    approx += rng.below(2);
                    Op::Drain
                }
                _ => {
                    let k = rng.below(5) as usize;
                    approx += k as u64;
                    Op::Drop(k)
                }
            })
            .collect();
        run.case(|| format!("capacity {cap}, left {lo}: {ops:?}"), || run_ops(cap, lo, &ops));
    }
}

/// a run of `n` numbers behind one gap, arriving in one of several orders; sizes around powers of two
pub fn long_run(run: &mut Run) {
    run.suite("window, long runs");
    let mut rng = run.rng(11);
    let mut sizes: Vec<u64> = vec![];
    for b in [15u64, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2049, 4097] {
        sizes.push(b);
    }
    if run.thorough {
        sizes.extend([9000, 33_000, 66_000]);
    }
    for n in sizes {
        for order in 0..4 {
            for cap in [n, n + 1, 2 * n + 5, usize::MAX as u64] {
                let lo = 1 + rng.below(40);
                let mut xs: Vec<u64> = (1..n).map(|i| lo + i).collect();
                match order {
                    0 => {}
                    1 => xs.reverse(),
                    2 => xs.sort_by_key(|x| (x % 3, *x)),
                    _ => {
                        for i in (1..xs.len()).rev() {
                            xs.swap(i, rng.below(i as u64 + 1) as usize);
                        }
                    }
                }
                let cut = rng.below(n);
                let mut ops: Vec<Op> = xs.iter().map(|x| Op::Put(*x, *x as u32 ^ 5)).collect();
                ops.push(Op::Drain);
                if order == 2 {
                    // leave a second gap: the run stops there
                    ops.retain(|o| !matches!(o, Op::Put(x, _) if *x == lo + cut && cut > 0));
                }
                ops.push(Op::Put(lo, 77));
                if order == 3 {
                    ops.push(Op::Drop(cut as usize));
                }
                ops.push(Op::Drain);
                ops.push(Op::Put(lo + n, 78));
                ops.push(Op::Put(lo + n + 1, 79));
                ops.push(Op::Drain);
                ops.push(Op::Drop(n as usize));
                let what = format!("capacity {cap}, left {lo}: {n} numbers, arrival order {order}, second gap/drop at {cut}");
                run.case(|| what.clone(), || run_ops(cap, lo, &ops).map(|_| true));
            }
        }
    }
}
