// ---- consequences of the contracts above, over whole histories ------------------------------

// One call of receive() with a packet, and what came of it.
pub struct Step<D> {
    pub header: MrpHeader,
    pub packet: D,
    pub before: BufferWindow<BufferedPacket<D>>,
    pub after: BufferWindow<BufferedPacket<D>>,
    pub out: Seq<BufferedPacket<D>>,
}

// the step obeys the contract of update_receiver_window()
spec fn lawful<D>(s: Step<D>) -> bool {
    match s.header.seqnum {
        None => s.out.len() == 0 && s.after.same(s.before),
        Some(n) => if s.before.lo() <= n < s.before.lo() + s.before.cap() {
            accepted(s.before, s.after, n as int, PacketWrapper(s.header, s.packet), s.out)
        } else {
            s.out.len() == 0 && s.after.same(s.before)
        },
    }
}

// a run: each call starts where the one before ended
spec fn chained<D>(h: Seq<Step<D>>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> lawful(#[trigger] h[i])
    &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after
}

spec fn delivered<D>(h: Seq<Step<D>>) -> Seq<BufferedPacket<D>>
    decreases h.len(),
{
    if h.len() == 0 {
        Seq::empty()
    } else {
        delivered(h.drop_last()) + h.last().out
    }
}

// Whatever arrives, in whatever order, how often: what was delivered so far is one packet for
// every number from the initial left edge up to the current one, in order; each of them really
// arrived under that number; and everything still buffered did so, too.
proof fn delivery_in_order_exactly_once<D>(h: Seq<Step<D>>)
    requires
        h.len() > 0,
        chained(h),
        forall|n: int| !#[trigger] h[0].before.has(n),
    ensures
        delivered(h).len() == h.last().after.lo() - h[0].before.lo(),
        forall|i: int|
            #![trigger delivered(h)[i]]
            0 <= i < delivered(h).len() ==> arrived(h, h[0].before.lo() + i, delivered(h)[i]),
        forall|n: int|
            #![trigger h.last().after.at(n)]
            h.last().after.has(n) ==> arrived(h, n, h.last().after.at(n)),
    decreases h.len(),
{
    let p = h.drop_last();
    let s = h.last();
    let k = h.len() - 1;
    assert(lawful(h[k]));
    if h.len() == 1 {
        assert(delivered(p) =~= Seq::<BufferedPacket<D>>::empty());
        assert(delivered(h) =~= s.out);
        assert(h[0] == s);
        assert forall|n: int| #![trigger s.after.at(n)] s.after.has(n) implies arrived(h, n, s.after.at(n)) by {
            assert(!h[0].before.has(n));
            assert(arrives(h[0], n, s.after.at(n)));
        }
        assert forall|i: int|
            #![trigger delivered(h)[i]]
            0 <= i < delivered(h).len() implies arrived(h, h[0].before.lo() + i, delivered(h)[i]) by {
            assert(delivered(h)[i] == s.out[i]);
            assert(!h[0].before.has(h[0].before.lo() + i));
            assert(arrives(h[0], h[0].before.lo() + i, s.out[i]));
        }
    } else {
        assert forall|i: int| 0 <= i < p.len() implies lawful(#[trigger] p[i]) by {
            assert(p[i] == h[i]);
        }
        assert forall|i: int| 0 < i < p.len() implies (#[trigger] p[i]).before == p[i - 1].after by {
            assert(p[i] == h[i] && p[i - 1] == h[i - 1]);
        }
        assert(p[0] == h[0]);
        delivery_in_order_exactly_once(p);
        assert(h[k].before == h[k - 1].after);
        assert(p.last() == h[k - 1]);
        let w0 = p.last().after;
        let first = h[0].before.lo();
        assert forall|n: int| #![trigger s.after.at(n)] s.after.has(n) implies arrived(h, n, s.after.at(n)) by {
            if s.header.seqnum == Some(n as u64) && s.before.lo() <= n < s.before.lo() + s.before.cap()
                && n <= u64::MAX {
                assert(arrives(h[k], n, s.after.at(n)));
            } else {
                assert(w0.has(n) && s.after.at(n) == w0.at(n));
                arrived_before(h, n, w0.at(n));
            }
        }
        assert forall|i: int|
            #![trigger delivered(h)[i]]
            0 <= i < delivered(h).len() implies arrived(h, first + i, delivered(h)[i]) by {
            let d = delivered(p);
            if i < d.len() {
                assert(delivered(h)[i] == d[i]);
                arrived_before(h, first + i, d[i]);
            } else {
                let j = i - d.len();
                let n = first + i;
                assert(delivered(h)[i] == s.out[j]);
                assert(w0.lo() + j == n);
                if s.header.seqnum->0 == n {
                    assert(arrives(h[k], n, s.out[j]));
                } else {
                    assert(w0.has(n) && s.out[j] == w0.at(n));
                    arrived_before(h, n, w0.at(n));
                }
            }
        }
    }
}

spec fn arrives<D>(s: Step<D>, n: int, p: BufferedPacket<D>) -> bool {
    0 <= n <= u64::MAX && s.header.seqnum == Some(n as u64) && p == PacketWrapper(s.header, s.packet)
}

spec fn arrived<D>(h: Seq<Step<D>>, n: int, p: BufferedPacket<D>) -> bool {
    exists|i: int| 0 <= i < h.len() && #[trigger] arrives(h[i], n, p)
}

proof fn arrived_before<D>(h: Seq<Step<D>>, n: int, p: BufferedPacket<D>)
    requires
        h.len() > 0,
        arrived(h.drop_last(), n, p),
    ensures
        arrived(h, n, p),
{
    let i = choose|i: int| 0 <= i < h.drop_last().len() && #[trigger] arrives(h.drop_last()[i], n, p);
    assert(h.drop_last()[i] == h[i]);
    assert(arrives(h[i], n, p));
}

// Nothing deliverable is ever held back: as soon as the packets lo..n have all arrived (within the
// window), lo has moved past n.  (Together with the lemma above: all of them are delivered.)
proof fn nothing_held_back<D>(w: BufferWindow<BufferedPacket<D>>, s: Step<D>, n: int)
    requires
        s.before == w,
        lawful(s),
        s.header.seqnum is Some,
        w.lo() <= s.header.seqnum->0 < w.lo() + w.cap(),
        n >= w.lo(),
        // every number from lo to n is buffered or is the one arriving now
        forall|m: int| w.lo() <= m <= n && m != s.header.seqnum->0 ==> #[trigger] w.has(m),
        w.lo() <= s.header.seqnum->0 <= n,
    ensures
        s.after.lo() > n,
{
    let sn = s.header.seqnum->0;
    let l = s.after.lo();
    if l <= n {
        assert(l != sn ==> w.has(l));
        assert(s.after.has(l));
    }
}

// ---- what was fragmented comes out whole ----
// the packets try_send_fragmented() emits, as they leave the receive window
spec fn fragments_on_wire<D>(ps: Seq<BufferedPacket<D>>, ds: Seq<D>, first: int) -> bool {
    &&& ps.len() == ds.len()
    &&& forall|i: int|
        #![trigger ps[i]]
        0 <= i < ps.len() ==> ps[i].0 == fragment_header(first + i, i, ds.len() as int) && ps[i].1 == ds[i]
}

spec fn ready_for<D>(m: MState<D>, first: int) -> bool {
    m.parts is None && (m.end matches Some(e) ==> e < first)
}

proof fn fragments_so_far<D: Extend<D>>(
    m: MState<D>,
    ps: Seq<BufferedPacket<D>>,
    ds: Seq<D>,
    first: int,
    cap: int,
    k: int,
)
    requires
        ready_for(m, first),
        fragments_on_wire(ps, ds, first),
        0 <= first,
        first + ds.len() <= LIM,
        2 <= ds.len() <= cap,
        ds.len() <= u32::MAX,
        1 <= k < ds.len(),
    ensures
        mrun(m, ps.subrange(0, k), cap) == (
            MState { parts: Some((ds.subrange(0, k), ds.len() as int)), end: Some((first + ds.len() - 1) as u64) },
            Ok::<Seq<D>, MrpReceiveError>(Seq::empty()),
        ),
    decreases k,
{
    let q = ps.subrange(0, k);
    if k == 1 {
        assert(q.drop_last() =~= Seq::empty());
        assert(q.last() == ps[0]);
        assert(mrun(m, q.drop_last(), cap) == (m, Ok::<Seq<D>, MrpReceiveError>(Seq::empty())));
        assert(ds.subrange(0, 1) =~= seq![ds[0]]);
    } else {
        fragments_so_far(m, ps, ds, first, cap, k - 1);
        assert(q.drop_last() =~= ps.subrange(0, k - 1));
        assert(q.last() == ps[k - 1]);
        assert(ds.subrange(0, k) =~= ds.subrange(0, k - 1).push(ds[k - 1]));
    }
}

proof fn fragments_reassemble<D: Extend<D>>(
    m: MState<D>,
    ps: Seq<BufferedPacket<D>>,
    ds: Seq<D>,
    first: int,
    cap: int,
)
    requires
        ready_for(m, first),
        fragments_on_wire(ps, ds, first),
        0 <= first,
        first + ds.len() <= LIM,
        1 <= ds.len() <= cap,
        ds.len() <= u32::MAX,
    ensures
        // one message, made of all the fragments in order
        mrun(m, ps, cap).1 == Ok::<Seq<D>, MrpReceiveError>(
            seq![if ds.len() == 1 { ds[0] } else { merged(ds) }],
        ),
        // and the stream is ready for whatever comes next
        ready_for(mrun(m, ps, cap).0, first + ds.len()),
{
    let k = ds.len() as int;
    if k == 1 {
        assert(ps.drop_last() =~= Seq::empty());
        assert(ps.last() == ps[0]);
        assert(mrun(m, ps.drop_last(), cap) == (m, Ok::<Seq<D>, MrpReceiveError>(Seq::empty())));
        assert(Seq::<D>::empty().push(ds[0]) =~= seq![ds[0]]);
    } else {
        fragments_so_far(m, ps, ds, first, cap, k - 1);
        assert(ps.drop_last() =~= ps.subrange(0, k - 1));
        assert(ps.last() == ps[k - 1]);
        assert(ds.subrange(0, k - 1).push(ds[k - 1]) =~= ds);
        assert(Seq::<D>::empty().push(merged(ds)) =~= seq![merged(ds)]);
    }
}

// how the window hands the packets over (in one batch or in many) makes no difference
proof fn batches_do_not_matter<D: Extend<D>>(
    m: MState<D>,
    a: Seq<BufferedPacket<D>>,
    b: Seq<BufferedPacket<D>>,
    cap: int,
)
    requires
        mrun(m, a, cap).1 is Ok,
        mrun(mrun(m, a, cap).0, b, cap).1 is Ok,
    ensures
        mrun(m, a + b, cap).0 == mrun(mrun(m, a, cap).0, b, cap).0,
        mrun(m, a + b, cap).1 == Ok::<Seq<D>, MrpReceiveError>(
            mrun(m, a, cap).1->Ok_0 + mrun(mrun(m, a, cap).0, b, cap).1->Ok_0,
        ),
    decreases b.len(),
{
    let m1 = mrun(m, a, cap).0;
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(mrun(m1, b, cap) == (m1, Ok::<Seq<D>, MrpReceiveError>(Seq::empty())));
        assert(mrun(m, a, cap).1->Ok_0 + Seq::<D>::empty() =~= mrun(m, a, cap).1->Ok_0);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        if mrun(m1, b.drop_last(), cap).1 is Err {
            mrun_prefix(m1, b, b.len() - 1, cap);
            assert(b.drop_last() =~= b.subrange(0, b.len() - 1));
        }
        batches_do_not_matter(m, a, b.drop_last(), cap);
        let x = mrun(m, a, cap).1->Ok_0;
        let y = mrun(m1, b.drop_last(), cap).1->Ok_0;
        match mstep(mrun(m1, b.drop_last(), cap).0, b.last(), cap).1 {
            MOut::Emit(d) => {
                assert((x + y).push(d) =~= x + y.push(d));
            },
            _ => {},
        }
    }
}
