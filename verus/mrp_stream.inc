// ---- mrp/src/merge_buffer.rs ---------------------------------------------------------------
// std::iter::Extend, with the effect of extend() given by an uninterpreted function of the trait
pub trait Extend<A>: Sized {
    spec fn vx_extended(self, xs: Seq<A>) -> Self;

    fn extend(&mut self, it: VIter<A>)
        ensures
            *final(self) == old(self).vx_extended(it@),
    ;
}

// what merging the fragments means: the first, extended by the others in order
spec fn merged<T: Extend<T>>(s: Seq<T>) -> T
    recommends
        s.len() > 0,
{
    s[0].vx_extended(s.subrange(1, s.len() as int))
}

//% source mrp/src/merge_buffer.rs
//% item enum AssemblyError
//% item struct MergeBuffer

impl<T> MergeBuffer<T> {
    spec fn parts(self) -> Seq<T> {
        self.data@
    }

    spec fn want(self) -> int {
        self.content_length as int
    }
}

impl<T> MergeBuffer<T>
where
    T: Extend<T>,
{
    //% fn MergeBuffer::new
        ensures
            content_length == 0 ==> r is None,
            content_length > 0 ==> r is Some && (r->0).parts() =~= Seq::<T>::empty() && (r->0).want() == content_length,
    //% end

    //% fn MergeBuffer::merge
        requires
            self.parts().len() == self.want(),
            self.want() > 0,
        ensures
            r == merged(self.parts()),
    //% sub? \.into_iter\(\) ==> .vx_into_iter()
    //% closure 0
            $PRE let mut first = first0;
            |first0: T| -> (m: T)
                ensures
                    m == first0.vx_extended(iter@),
    //% end

    //% fn MergeBuffer::push
        requires
            old(self).parts().len() <= old(self).want(),
        ensures
            final(self).want() == old(self).want(),
            old(self).parts().len() == old(self).want() ==> r is Err && final(self).parts() == old(self).parts(),
            old(self).parts().len() < old(self).want() ==> final(self).parts() == old(self).parts().push(data)
                && r == Ok::<bool, AssemblyError>(final(self).parts().len() == final(self).want()),
    //% end
}

// ---- mrp/src/stream.rs ---------------------------------------------------------------------
mod anyhow {
    pub type Error = super::VxError;
    pub type Result<T> = std::result::Result<T, super::VxError>;
}


//% source mrp/src/stream.rs
//% item struct MrpHeader
//% item struct PacketWrapper
//% item type BufferedPacket
//% item struct PendingPacket
//% item struct MrpStream
//% item enum MrpReceiveError derive=Debug
//% item enum MrpSendError derive=Debug

// #[derive(Default)] and #[derive(Clone)] of MrpHeader
impl Default for MrpHeader {
    fn default() -> (r: MrpHeader)
        ensures
            r == (MrpHeader { seqnum: None, ack_num: None, num_packets: None }),
    {
        MrpHeader { seqnum: None, ack_num: None, num_packets: None }
    }
}

impl Clone for MrpHeader {
    fn clone(&self) -> (r: MrpHeader)
        ensures
            r == *self,
    {
        MrpHeader { seqnum: self.seqnum, ack_num: self.ack_num, num_packets: self.num_packets }
    }
}

impl<Data> PacketWrapper<Data> {
    //% fn PacketWrapper::new
        ensures
            r.0 == header,
            r.1 == data,
    //% end
}

impl<Data> PendingPacket<Data> {
    spec fn due(self, now: Instant) -> bool {
        self.transmit || now.ns >= self.next_send_at.ns
    }

    //% fn PendingPacket::should_transmit
        ensures
            r == self.due(now),
    //% end
}

// Far below 2^64: no statement here is about a stream that has used up its sequence numbers.
spec const LIM: int = 0x4000_0000_0000_0000;

// --- reassembly, as a function of the packets ---
struct MState<D> {
    parts: Option<(Seq<D>, int)>,  // fragments so far, fragments wanted
    end: Option<u64>,  // last sequence number of the latest group
}

enum MOut<D> {
    Nothing,
    Emit(D),
    Fail(MrpReceiveError),
}

spec fn mstep<D: Extend<D>>(m: MState<D>, p: BufferedPacket<D>, cap: int) -> (MState<D>, MOut<D>) {
    match p.0.seqnum {
        None => (m, MOut::Nothing),
        Some(n) => if m.parts is None && m.end is Some && n <= m.end->0 {
            // remainder of a group given up earlier
            (m, MOut::Nothing)
        } else {
            match m.parts {
                Some((got, want)) => if p.0.num_packets is Some && p.0.num_packets->0 != 0 {
                    // a group inside a group
                    (MState { parts: None, ..m }, MOut::Fail(MrpReceiveError::PacketMergeConflict))
                } else if got.len() + 1 == want {
                    (MState { parts: None, ..m }, MOut::Emit(merged(got.push(p.1))))
                } else {
                    (MState { parts: Some((got.push(p.1), want)), ..m }, MOut::Nothing)
                },
                None => match p.0.num_packets {
                    Some(k) if k > 1 => if k > cap {
                        (m, MOut::Fail(MrpReceiveError::InvalidNumPackets(k)))
                    } else {
                        (
                            MState {
                                parts: Some((seq![p.1], k as int)),
                                end: Some((n + k - 1) as u64),
                            },
                            MOut::Nothing,
                        )
                    },
                    _ => (m, MOut::Emit(p.1)),
                },
            }
        },
    }
}

// Ok(messages in order), or the first failure
spec fn mrun<D: Extend<D>>(m: MState<D>, ps: Seq<BufferedPacket<D>>, cap: int) -> (
    MState<D>,
    Result<Seq<D>, MrpReceiveError>,
)
    decreases ps.len(),
{
    if ps.len() == 0 {
        (m, Ok(Seq::empty()))
    } else {
        let (m1, o) = mrun(m, ps.drop_last(), cap);
        match o {
            Err(e) => (m1, Err(e)),
            Ok(outs) => {
                let (m2, o2) = mstep(m1, ps.last(), cap);
                match o2 {
                    MOut::Nothing => (m2, Ok(outs)),
                    MOut::Emit(d) => (m2, Ok(outs.push(d))),
                    MOut::Fail(e) => (m2, Err(e)),
                }
            },
        }
    }
}

proof fn mrun_prefix<D: Extend<D>>(m: MState<D>, ps: Seq<BufferedPacket<D>>, k: int, cap: int)
    requires
        0 <= k <= ps.len(),
        mrun(m, ps.subrange(0, k), cap).1 is Err,
    ensures
        mrun(m, ps, cap) == mrun(m, ps.subrange(0, k), cap),
    decreases ps.len() - k,
{
    if k < ps.len() {
        let q = ps.subrange(0, k + 1);
        assert(q.drop_last() =~= ps.subrange(0, k));
        mrun_prefix(m, ps, k + 1, cap);
    } else {
        assert(ps.subrange(0, k) =~= ps);
    }
}

impl<SendData, ReceiveData> MrpStream<SendData, ReceiveData> {
    // the send window is gapless; nothing deliverable waits at the front of the receive window;
    // a group being assembled is incomplete
    spec fn wf(self) -> bool {
        &&& self.send_buffer.wf()
        &&& self.send_buffer.hi() <= LIM
        &&& forall|i: int| 0 <= i < self.send_buffer.data@.len() ==> (#[trigger] self.send_buffer.data@[i]) is Some
        &&& self.receive_buffer.wf()
        &&& self.receive_buffer.hi() <= LIM
        &&& !self.receive_buffer.has(self.receive_buffer.lo())
        &&& self.rx_numbered()
        &&& self.merge_buffer is Some ==> {
            &&& self.merge_end_seqnum is Some
            &&& (self.merge_buffer->0).parts().len() < (self.merge_buffer->0).want()
        }
    }

    // every buffered packet carries the number it is buffered under
    spec fn rx_numbered(self) -> bool {
        forall|n: int|
            #![trigger self.receive_buffer.has(n)]
            #![trigger self.receive_buffer.at(n)]
            self.receive_buffer.has(n) ==> self.receive_buffer.at(n).0.seqnum == Some(n as u64)
    }

    spec fn mstate(self) -> MState<ReceiveData> {
        MState {
            parts: match self.merge_buffer {
                Some(b) => Some((b.parts(), b.want())),
                None => None,
            },
            end: self.merge_end_seqnum,
        }
    }

    spec fn next(self) -> int {
        self.send_buffer.hi()
    }

    spec fn same_tx(self, o: Self) -> bool {
        self.send_buffer.same(o.send_buffer)
    }

    spec fn same_rx(self, o: Self) -> bool {
        self.receive_buffer.same(o.receive_buffer)
    }

    spec fn same_merge(self, o: Self) -> bool {
        self.mstate() == o.mstate()
    }
}

spec fn data_header(n: int) -> MrpHeader {
    MrpHeader { seqnum: Some(n as u64), ack_num: None, num_packets: None }
}

spec fn fragment_header(n: int, i: int, k: int) -> MrpHeader {
    first_announces(data_header(n), i, k)
}

impl<SendData, ReceiveData> MrpStream<SendData, ReceiveData> {
    //% const MrpStream::INITIAL_SEQNUM
    //% const MrpStream::INITIAL_ACKNUM

    //% fn MrpStream::with_capacity_limit
        requires
            max_window_size > 0,
        ensures
            r.wf(),
            r.next() == 1,
            r.receive_buffer.lo() == 1,
            r.send_buffer.slots().len() == 0,
            r.receive_buffer.slots().len() == 0,
            r.send_buffer.cap() == max_window_size,
            r.receive_buffer.cap() == max_window_size,
            !r.should_ack,
            r.mstate() == (MState::<ReceiveData> { parts: None, end: None }),
    //% end

    //% fn Default for MrpStream::default as vx_default
        ensures
            r.wf(),
            r.next() == 1,
            r.receive_buffer.lo() == 1,
            r.send_buffer.slots().len() == 0,
            r.receive_buffer.slots().len() == 0,
            !r.should_ack,
            r.mstate() == (MState::<ReceiveData> { parts: None, end: None }),
    //% end

    //% fn MrpStream::ack_seqnum
        ensures
            r == self.receive_buffer.lo(),
    //% end

    //% fn MrpStream::next_seqnum
        requires
            self.wf(),
        ensures
            r == self.next(),
    //% end

    //% fn MrpStream::send_len
        ensures
            r == self.send_buffer.slots().len(),
    //% end

    //% fn MrpStream::receive_len
        ensures
            r == self.receive_buffer.slots().len(),
    //% end

    //% fn MrpStream::try_send
        requires
            old(self).wf(),
            old(self).next() < LIM,
            call_requires(send_data, (data_header(old(self).next()),)),
        ensures
            final(self).wf(),
            final(self).same_rx(*old(self)),
            final(self).same_merge(*old(self)),
            final(self).should_ack == old(self).should_ack,
            final(self).send_buffer.lo() == old(self).send_buffer.lo(),
            final(self).send_buffer.cap() == old(self).send_buffer.cap(),
            // window full: refused, nothing happens
            old(self).send_buffer.slots().len() == old(self).send_buffer.cap() ==> r matches Err(
                MrpSendError::SendWindowFull,
            ),
            // refused or not sent: nothing buffered, the number is not used up
            r is Err ==> final(self).send_buffer.slots() == old(self).send_buffer.slots(),
            r matches Err(MrpSendError::InnerSendFailed(_)) ==> old(self).send_buffer.slots().len() < old(
                self,
            ).send_buffer.cap(),
            r matches Err(MrpSendError::SendWindowFull) ==> old(self).send_buffer.slots().len() == old(
                self,
            ).send_buffer.cap(),
            // sent: with the next number, and kept for retransmission
            r is Ok ==> final(self).next() == old(self).next() + 1,
            r is Ok ==> exists|d: SendData, t: Instant| #[trigger]
                call_ensures(send_data, (data_header(old(self).next()),), Ok((d, t)))
                    && final(self).send_buffer.at(old(self).next()) == (PendingPacket {
                    packet: d,
                    next_send_at: t,
                    try_count: 1,
                    transmit: false,
                }),
            forall|n: int|
                old(self).send_buffer.lo() <= n < old(self).next() ==> #[trigger] final(self).send_buffer.at(n)
                    == old(self).send_buffer.at(n),
            r is Ok ==> final(self).send_buffer.slots().drop_last() =~= old(self).send_buffer.slots(),
            r is Err && old(self).send_buffer.slots().len() < old(self).send_buffer.cap() ==> exists|
                e: VxError,
            | #[trigger]
                call_ensures(send_data, (data_header(old(self).next()),), Err(e)),
    //% before match send_data
        assert(header == data_header(old(self).next()));
    //% end

    //% fn MrpStream::try_send_fragmented
        requires
            old(self).wf(),
            old(self).next() + fragments@.len() < LIM,
            fragments@.len() <= u32::MAX,
            forall|i: usize, h: MrpHeader, s: SendData| call_requires(send_data, (i, h, s)),
        ensures
            final(self).wf(),
            final(self).same_rx(*old(self)),
            final(self).same_merge(*old(self)),
            final(self).should_ack == old(self).should_ack,
            final(self).send_buffer.lo() == old(self).send_buffer.lo(),
            final(self).send_buffer.cap() == old(self).send_buffer.cap(),
            // all or nothing
            r is Err ==> (r matches Err(MrpSendError::SendWindowFull)) && final(self).send_buffer.slots() == old(
                self,
            ).send_buffer.slots() && old(self).send_buffer.slots().len() + fragments@.len() >= old(
                self,
            ).send_buffer.cap(),
            old(self).send_buffer.slots().len() + fragments@.len() > old(self).send_buffer.cap() ==> r is Err,
            // every fragment goes out once, in order, on consecutive numbers; the first announces
            // how many there are
            r is Ok ==> final(self).next() == old(self).next() + fragments@.len(),
            r is Ok ==> final(self).send_buffer.slots().subrange(
                0,
                old(self).send_buffer.slots().len() as int,
            ) == old(self).send_buffer.slots(),
            r is Ok ==> forall|i: int|
                0 <= i < fragments@.len() ==> #[trigger] sent_fragment(
                    send_data,
                    fragments@[i],
                    old(self).next(),
                    i,
                    fragments@.len() as int,
                    final(self).send_buffer.at(old(self).next() + i),
                ),
    //% sub? \.into_iter\(\) ==> .vx_into_iter()
    //% head
        let ghost fs = fragments@;
        let ghost s0 = *self;
    //% closure 0
            $PRE let mut header = header0;
            |header0: MrpHeader| -> (res: anyhow::Result<(SendData, Instant)>)
                ensures
                    res is Ok,
                    call_ensures(
                        send_data,
                        (idx, first_announces(header0, idx as int, num_packets as int), fragment),
                        res->Ok_0,
                    ),
    //% loop 0
            invariant
                self.wf(),
                s0 == *old(self),
                fs.len() <= u32::MAX,
                s0.next() + fs.len() < LIM,
                num_packets == fs.len(),
                forall|i: usize, h: MrpHeader, s: SendData| call_requires(send_data, (i, h, s)),
                vx_it_0@.len() <= fs.len(),
                forall|j: int|
                    0 <= j < vx_it_0@.len() ==> #[trigger] vx_it_0@[j] == (
                        (fs.len() - vx_it_0@.len() + j) as usize,
                        fs[fs.len() - vx_it_0@.len() + j],
                    ),
                self.same_rx(s0),
                self.same_merge(s0),
                self.should_ack == s0.should_ack,
                self.send_buffer.lo() == s0.send_buffer.lo(),
                self.send_buffer.cap() == s0.send_buffer.cap(),
                s0.send_buffer.slots().len() + fs.len() <= s0.send_buffer.cap(),
                self.next() == s0.next() + fs.len() - vx_it_0@.len(),
                self.send_buffer.slots().subrange(0, s0.send_buffer.slots().len() as int)
                    == s0.send_buffer.slots(),
                forall|i: int|
                    0 <= i < fs.len() - vx_it_0@.len() ==> #[trigger] sent_fragment(
                        send_data,
                        fs[i],
                        s0.next(),
                        i,
                        fs.len() as int,
                        self.send_buffer.at(s0.next() + i),
                    ),
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% end
}

spec fn first_announces(h: MrpHeader, i: int, k: int) -> MrpHeader {
    MrpHeader { num_packets: if i == 0 { Some(k as u32) } else { h.num_packets }, ..h }
}

spec fn sent_fragment<S, F: Fn(usize, MrpHeader, S) -> (S, Instant)>(
    f: F,
    fragment: S,
    first: int,
    i: int,
    k: int,
    p: PendingPacket<S>,
) -> bool {
    exists|d: S, t: Instant| #[trigger]
        call_ensures(f, (i as usize, fragment_header(first + i, i, k), fragment), (d, t)) && p == (
        PendingPacket { packet: d, next_send_at: t, try_count: 1, transmit: false })
}

spec fn ack_header(n: int) -> MrpHeader {
    MrpHeader { seqnum: None, ack_num: Some(n as u64), num_packets: None }
}

// what happens to one pending packet when it is looked at by a resend pass
spec fn resent<S, F: Fn(&S) -> anyhow::Result<Instant>>(
    f: F,
    old_p: PendingPacket<S>,
    p: PendingPacket<S>,
) -> bool {
    &&& p.packet == old_p.packet
    &&& p.transmit == old_p.transmit
    &&& exists|t: Instant| #[trigger] call_ensures(f, (&old_p.packet,), Ok(t)) && p.next_send_at == t
}

// the receive side after a packet numbered n was accepted
spec fn accepted<D>(
    w0: BufferWindow<BufferedPacket<D>>,
    w1: BufferWindow<BufferedPacket<D>>,
    n: int,
    p: BufferedPacket<D>,
    out: Seq<BufferedPacket<D>>,
) -> bool {
    &&& w0.lo() <= w1.lo()
    &&& w0.cap() == w1.cap()
    // delivered: exactly the numbers from lo up to the new lo, each once, in order
    &&& out.len() == w1.lo() - w0.lo()
    &&& forall|m: int| w0.lo() <= m < w1.lo() && m != n ==> #[trigger] w0.has(m)
    &&& forall|i: int|
        #![trigger out[i]]
        0 <= i < out.len() ==> out[i] == if w0.lo() + i == n {
            p
        } else {
            w0.at(w0.lo() + i)
        }
    // what stays: everything else, unchanged
    &&& forall|m: int|
        #![trigger w1.has(m)]
        #![trigger w0.has(m)]
        m >= w1.lo() ==> w1.has(m) == (w0.has(m) || m == n)
    &&& forall|m: int|
        #![trigger w1.at(m)]
        #![trigger w0.at(m)]
        m >= w1.lo() && w1.has(m) ==> w1.at(m) == if m == n {
            p
        } else {
            w0.at(m)
        }
    // nothing deliverable is held back
    &&& !w1.has(w1.lo())
}

impl<SendData, ReceiveData> MrpStream<SendData, ReceiveData> {
    //% fn MrpStream::try_send_ack
        requires
            old(self).wf(),
            call_requires(send_ack, (ack_header(old(self).receive_buffer.lo()),)),
        ensures
            final(self).wf(),
            final(self).same_tx(*old(self)),
            final(self).same_rx(*old(self)),
            final(self).same_merge(*old(self)),
            // nothing to acknowledge: nothing is sent
            !old(self).should_ack ==> (r matches Ok(None)) && !final(self).should_ack,
            // acknowledged: the next expected number, and the duty is discharged
            r matches Ok(Some(n)) ==> old(self).should_ack && !final(self).should_ack
                && n == old(self).receive_buffer.lo() && (exists|x: anyhow::Result<()>|
                x is Ok && #[trigger] call_ensures(
                    send_ack,
                    (ack_header(old(self).receive_buffer.lo()),),
                    x,
                )),
            old(self).should_ack ==> !(r matches Ok(None)),
            // a failed acknowledgement is still owed
            r is Err ==> final(self).should_ack,
    //% before match send_ack
                assert(header == ack_header(self.receive_buffer.lo()));
    //% end

    //% fn MrpStream::try_resend
        requires
            old(self).wf(),
            forall|d: &SendData| call_requires(send_data, (d,)),
        ensures
            final(self).wf(),
            final(self).same_rx(*old(self)),
            final(self).same_merge(*old(self)),
            final(self).should_ack == old(self).should_ack,
            final(self).send_buffer.lo() == old(self).send_buffer.lo(),
            final(self).send_buffer.hi() == old(self).send_buffer.hi(),
            final(self).send_buffer.cap() == old(self).send_buffer.cap(),
            // every packet is either exactly as before or was due and has been sent again
            forall|n: int|
                #![trigger final(self).send_buffer.at(n)]
                #![trigger old(self).send_buffer.at(n)]
                old(self).send_buffer.lo() <= n < old(self).next() ==> final(self).send_buffer.at(n) == old(
                    self,
                ).send_buffer.at(n) || (old(self).send_buffer.at(n).due(now) && resent(
                    send_data,
                    old(self).send_buffer.at(n),
                    final(self).send_buffer.at(n),
                )),
            // and if no transmission failed, every due packet was
            r is Ok ==> forall|n: int|
                old(self).send_buffer.lo() <= n < old(self).next() && old(self).send_buffer.at(n).due(
                    now,
                ) ==> resent(
                    send_data,
                    old(self).send_buffer.at(n),
                    #[trigger] final(self).send_buffer.at(n),
                ),
    //% loop 0
            invariant
                self.wf(),
                forall|d: &SendData| call_requires(send_data, (d,)),
                self.same_rx(*old(self)),
                self.same_merge(*old(self)),
                self.should_ack == old(self).should_ack,
                self.send_buffer.lo() == old(self).send_buffer.lo(),
                self.send_buffer.hi() == old(self).send_buffer.hi(),
                self.send_buffer.cap() == old(self).send_buffer.cap(),
                old(self).wf(),
                vx_it_0@.len() <= old(self).send_buffer.slots().len(),
                forall|j: int|
                    0 <= j < vx_it_0@.len() ==> #[trigger] vx_it_0@[j] == (old(self).next()
                        - vx_it_0@.len() + j) as u64,
                forall|n: int|
                    #![trigger self.send_buffer.at(n)]
                    #![trigger old(self).send_buffer.at(n)]
                    old(self).next() - vx_it_0@.len() <= n < old(self).next() ==> self.send_buffer.at(n)
                        == old(self).send_buffer.at(n),
                forall|n: int|
                    #![trigger self.send_buffer.at(n)]
                    #![trigger old(self).send_buffer.at(n)]
                    old(self).send_buffer.lo() <= n < old(self).next() - vx_it_0@.len() ==> if old(
                        self,
                    ).send_buffer.at(n).due(now) {
                        resent(send_data, old(self).send_buffer.at(n), self.send_buffer.at(n))
                    } else {
                        self.send_buffer.at(n) == old(self).send_buffer.at(n)
                    },
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% end

    //% fn MrpStream::update_send_window
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).same_rx(*old(self)),
            final(self).same_merge(*old(self)),
            final(self).should_ack == old(self).should_ack,
            r is Ok,
            final(self).send_buffer.cap() == old(self).send_buffer.cap(),
            // acknowledgements of numbers never sent, or already acknowledged, change nothing
            received_ack_num > old(self).next() || received_ack_num <= old(self).send_buffer.lo()
                ==> final(self).same_tx(*old(self)),
            // otherwise exactly the numbers below it are released, the rest is untouched
            old(self).send_buffer.lo() <= received_ack_num <= old(self).next() ==> {
                &&& final(self).send_buffer.lo() == received_ack_num
                &&& final(self).next() == old(self).next()
                &&& forall|n: int|
                    received_ack_num <= n < old(self).next() ==> #[trigger] final(self).send_buffer.at(n)
                        == old(self).send_buffer.at(n)
            },
    //% end

    //% fn MrpStream::update_receiver_window
        requires
            old(self).wf(),
            header.seqnum matches Some(n) ==> n < LIM || old(self).receive_buffer.lo() + old(
                self,
            ).receive_buffer.cap() <= LIM,
        ensures
            final(self).wf(),
            final(self).same_tx(*old(self)),
            final(self).same_merge(*old(self)),
            header.seqnum is None ==> r is Ok && r->Ok_0@.len() == 0 && final(self).same_rx(*old(self))
                && final(self).should_ack == old(self).should_ack,
            header.seqnum is Some ==> windowed(
                old(self).receive_buffer,
                final(self).receive_buffer,
                old(self).should_ack,
                final(self).should_ack,
                *header,
                packet,
                r,
            ),
            r is Ok ==> numbered(r->Ok_0@, old(self).receive_buffer.lo()),
            r is Ok ==> final(self).receive_buffer.lo() == old(self).receive_buffer.lo() + r->Ok_0@.len(),
    //% end

    //% fn MrpStream::receive
        requires
            old(self).wf(),
            header.seqnum matches Some(n) ==> n < LIM || old(self).receive_buffer.lo() + old(
                self,
            ).receive_buffer.cap() <= LIM,
        ensures
            final(self).wf(),
            final(self).same_merge(*old(self)),
            // a data packet never touches the send side, an acknowledgement never the receive side
            header.ack_num is Some ==> (r is Ok && r->Ok_0@.len() == 0 && final(self).same_rx(*old(self))
                && final(self).should_ack == old(self).should_ack),
            header.ack_num is None ==> final(self).same_tx(*old(self)),
            header.ack_num matches Some(a) ==> acked(old(self).send_buffer, final(self).send_buffer, a as int),
            // neither: handed straight back
            header.ack_num is None && header.seqnum is None ==> r is Ok && r->Ok_0@ =~= seq![packet]
                && final(self).same_rx(*old(self)) && final(self).should_ack == old(self).should_ack,
            header.ack_num is None && header.seqnum is Some ==> received(
                old(self).receive_buffer,
                final(self).receive_buffer,
                old(self).should_ack,
                final(self).should_ack,
                *header,
                packet,
                r,
            ),
    //% sub? \.into_iter\(\) ==> .vx_into_iter()
    //% closure 0
            |packet: BufferedPacket<ReceiveData>| -> (d: ReceiveData)
                ensures
                    d == packet.1,
    //% end
}

// what update_receiver_window() does with a numbered packet
spec fn windowed<D>(
    w0: BufferWindow<BufferedPacket<D>>,
    w1: BufferWindow<BufferedPacket<D>>,
    ack0: bool,
    ack1: bool,
    header: MrpHeader,
    packet: D,
    r: Result<Vec<BufferedPacket<D>>, MrpReceiveError>,
) -> bool {
    let n = header.seqnum->0;
    if n < w0.lo() {
        // already delivered: not delivered again, but acknowledged again
        r is Ok && r->Ok_0@.len() == 0 && ack1 && w1.same(w0)
    } else if n >= w0.lo() + w0.cap() {
        // beyond the window: refused without effect
        r is Err && r->Err_0 == MrpReceiveError::ReceiveWindowFull(n) && w1.same(w0) && ack1 == ack0
    } else {
        &&& r is Ok
        &&& accepted(w0, w1, n as int, PacketWrapper(header, packet), r->Ok_0@)
        &&& ack1 == (ack0 || w1.lo() > w0.lo())
        // and it is delivered at once exactly when it is the next one expected
        &&& (w1.lo() > w0.lo() <==> n == w0.lo())
    }
}

// the packets carry the numbers first, first + 1, ...
spec fn numbered<D>(ps: Seq<BufferedPacket<D>>, first: int) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0.seqnum == Some((first + i) as u64)
}

spec fn acked<S>(w0: BufferWindow<PendingPacket<S>>, w1: BufferWindow<PendingPacket<S>>, a: int) -> bool {
    &&& w0.cap() == w1.cap()
    &&& a > w0.hi() || a <= w0.lo() ==> w1.same(w0)
    &&& w0.lo() <= a <= w0.hi() ==> {
        &&& w1.lo() == a
        &&& w1.hi() == w0.hi()
        &&& forall|n: int| a <= n < w0.hi() ==> #[trigger] w1.at(n) == w0.at(n)
    }
}

spec fn datas<D>(ps: Seq<BufferedPacket<D>>) -> Seq<D> {
    ps.map_values(|p: BufferedPacket<D>| p.1)
}

// what receive() does with a data packet
spec fn received<D>(
    w0: BufferWindow<BufferedPacket<D>>,
    w1: BufferWindow<BufferedPacket<D>>,
    ack0: bool,
    ack1: bool,
    header: MrpHeader,
    packet: D,
    r: Result<Vec<D>, MrpReceiveError>,
) -> bool {
    let n = header.seqnum->0;
    if n < w0.lo() {
        r is Ok && r->Ok_0@.len() == 0 && ack1 && w1.same(w0)
    } else if n >= w0.lo() + w0.cap() {
        r is Err && r->Err_0 == MrpReceiveError::ReceiveWindowFull(n) && w1.same(w0) && ack1 == ack0
    } else {
        &&& r is Ok
        &&& exists|out: Seq<BufferedPacket<D>>| #[trigger]
            accepted(w0, w1, n as int, PacketWrapper(header, packet), out) && r->Ok_0@ =~= datas(out)
                && numbered(out, w0.lo())
        &&& ack1 == (ack0 || w1.lo() > w0.lo())
        &&& (w1.lo() > w0.lo() <==> n == w0.lo())
    }
}

// what receive_and_merge() does with a data packet: the window as in receive(), and what comes
// out of the window goes through reassembly
spec fn received_merged<D: Extend<D>>(
    w0: BufferWindow<BufferedPacket<D>>,
    w1: BufferWindow<BufferedPacket<D>>,
    m0: MState<D>,
    m1: MState<D>,
    header: MrpHeader,
    packet: D,
    r: Result<Vec<D>, MrpReceiveError>,
) -> bool {
    let n = header.seqnum->0;
    if n < w0.lo() {
        r is Ok && r->Ok_0@.len() == 0 && w1.same(w0) && m1 == m0
    } else if n >= w0.lo() + w0.cap() {
        r is Err && r->Err_0 == MrpReceiveError::ReceiveWindowFull(n) && w1.same(w0) && m1 == m0
    } else {
        exists|out: Seq<BufferedPacket<D>>| #[trigger]
            accepted(w0, w1, n as int, PacketWrapper(header, packet), out) && numbered(out, w0.lo())
                && merges(m0, m1, out, w0.cap(), r)
    }
}

spec fn merges<D: Extend<D>>(
    m0: MState<D>,
    m1: MState<D>,
    packets: Seq<BufferedPacket<D>>,
    cap: int,
    r: Result<Vec<D>, MrpReceiveError>,
) -> bool {
    let (m, o) = mrun(m0, packets, cap);
    m1 == m && match o {
        Ok(outs) => r is Ok && r->Ok_0@ == outs,
        Err(e) => r is Err && r->Err_0 == e,
    }
}

impl<SendData, ReceiveData> MrpStream<SendData, ReceiveData>
where
    ReceiveData: Extend<ReceiveData>,
{
    //% fn MrpStream::fail_merge
        ensures
            r is Err && r->Err_0 == reason,
            final(self).mstate() == (MState { parts: None, ..old(self).mstate() }),
            final(self).merge_buffer is None,
            final(self).merge_end_seqnum == old(self).merge_end_seqnum,
            final(self).same_tx(*old(self)),
            final(self).same_rx(*old(self)),
            final(self).send_buffer == old(self).send_buffer,
            final(self).receive_buffer == old(self).receive_buffer,
            final(self).should_ack == old(self).should_ack,
    //% end

    //% fn MrpStream::merge_packets
        requires
            old(self).wf(),
            exists|first: int| 0 <= first && #[trigger] numbered(packets@, first) && first + packets@.len() <= LIM,
        ensures
            final(self).wf(),
            final(self).same_tx(*old(self)),
            final(self).receive_buffer == old(self).receive_buffer,
            final(self).should_ack == old(self).should_ack,
            merges(old(self).mstate(), final(self).mstate(), packets@, old(self).receive_buffer.cap(), r),
    //% head
        let ghost ps = packets@;
        let ghost m0 = self.mstate();
        let ghost cap = self.receive_buffer.cap();
        let ghost first = choose|first: int|
            0 <= first && #[trigger] numbered(packets@, first) && first + packets@.len() <= LIM;
    //% closure 0
            |num_packets: usize| -> (b: bool)
                ensures
                    b == (num_packets > self.receive_buffer.cap()),
    //% loop 0
            invariant
                self.wf(),
                self.same_tx(*old(self)),
                self.receive_buffer == old(self).receive_buffer,
                self.should_ack == old(self).should_ack,
                cap == self.receive_buffer.cap(),
                cap == old(self).receive_buffer.cap(),
                m0 == old(self).mstate(),
                numbered(ps, first),
                0 <= first,
                first + ps.len() <= LIM,
                ps == packets@,
                ps.subrange(0, ps.len() as int) =~= ps,
                vx_it_0@.len() <= ps.len(),
                vx_it_0@ =~= ps.subrange(ps.len() - vx_it_0@.len(), ps.len() as int),
                mrun(m0, ps.subrange(0, ps.len() - vx_it_0@.len()), cap) == (
                    self.mstate(),
                    Ok::<Seq<ReceiveData>, MrpReceiveError>(result@),
                ),
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% loophead 0
            proof {
                let k = ps.len() - vx_it_0@.len();
                assert(ps.subrange(0, k).drop_last() =~= ps.subrange(0, k - 1));
                assert(ps.subrange(0, k).last() == ps[k - 1]);
                let (m2, o2) = mstep(self.mstate(), ps[k - 1], cap);
                if let MOut::Fail(e) = o2 {
                    mrun_prefix(m0, ps, k, cap);
                    assert(mrun(m0, ps, cap) == (m2, Err::<Seq<ReceiveData>, MrpReceiveError>(e)));
                }
            }
    //% end

    //% fn MrpStream::receive_and_merge
        requires
            old(self).wf(),
            header.seqnum matches Some(n) ==> n < LIM || old(self).receive_buffer.lo() + old(
                self,
            ).receive_buffer.cap() <= LIM,
        ensures
            final(self).wf(),
            header.ack_num is Some ==> (r is Ok && r->Ok_0@.len() == 0 && final(self).same_rx(*old(self))
                && final(self).same_merge(*old(self)) && final(self).should_ack == old(self).should_ack),
            header.ack_num is None ==> final(self).same_tx(*old(self)),
            header.ack_num matches Some(a) ==> acked(old(self).send_buffer, final(self).send_buffer, a as int),
            header.ack_num is None && header.seqnum is None ==> r is Ok && r->Ok_0@ =~= seq![packet]
                && final(self).same_rx(*old(self)) && final(self).same_merge(*old(self))
                && final(self).should_ack == old(self).should_ack,
            header.ack_num is None && header.seqnum is Some ==> received_merged(
                old(self).receive_buffer,
                final(self).receive_buffer,
                old(self).mstate(),
                final(self).mstate(),
                *header,
                packet,
                r,
            ) && final(self).should_ack == (old(self).should_ack || header.seqnum->0 <= old(
                self,
            ).receive_buffer.lo()),
    //% before self\.merge_packets\(
            assert(header.seqnum->0 < old(self).receive_buffer.lo() ==> ready@ =~= Seq::empty());
    //% end
}
