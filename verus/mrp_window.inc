// ---- mrp/src/window.rs -------------------------------------------------------------------
//% source mrp/src/window.rs
//% item enum WindowError derive=Debug
//% item struct BufferWindow

impl<T> BufferWindow<T> {
    //% const BufferWindow::DEFAULT_SIZE

    // The abstract window: a finite run of numbered slots starting at lo().
    spec fn lo(self) -> int {
        self.left as int
    }

    spec fn cap(self) -> int {
        self.capacity_limit as int
    }

    spec fn slots(self) -> Seq<Option<T>> {
        self.data@
    }

    // one past the last occupied-or-skipped number
    spec fn hi(self) -> int {
        self.lo() + self.slots().len()
    }

    spec fn has(self, n: int) -> bool {
        self.lo() <= n < self.hi() && self.slots()[n - self.lo()] is Some
    }

    spec fn at(self, n: int) -> T
        recommends
            self.has(n),
    {
        self.slots()[n - self.lo()]->0
    }

    // Sequence numbers are 64-bit; every statement below is about windows that have not used
    // them up (2^64 packets).
    spec fn wf(self) -> bool {
        &&& self.cap() > 0
        &&& self.lo() > 0
        &&& self.slots().len() <= self.cap()
        &&& self.hi() <= u64::MAX
        &&& self.slots().len() > 0 ==> self.slots().last() is Some
    }

    // same numbered contents, same capacity
    spec fn same(self, o: Self) -> bool {
        self.lo() == o.lo() && self.cap() == o.cap() && self.slots() =~= o.slots()
    }
}

// out is what the window holds at lo, lo + 1, ...
spec fn run<T>(w: BufferWindow<T>, out: Seq<T>) -> bool {
    &&& forall|n: int| w.lo() <= n < w.lo() + out.len() ==> #[trigger] w.has(n)
    &&& forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == w.at(w.lo() + i)
}

impl<T> BufferWindow<T> {
    //% fn BufferWindow::with_capacity_limit
        requires
            capacity_limit > 0,
            left_bounds > 0,
        ensures
            r.wf(),
            r.lo() == left_bounds,
            r.cap() == capacity_limit,
            r.slots() =~= Seq::<Option<T>>::empty(),
    //% end

    //% fn BufferWindow::new
        requires
            left_bounds > 0,
        ensures
            r.wf(),
            r.lo() == left_bounds,
            r.cap() == usize::MAX,
            r.slots() =~= Seq::<Option<T>>::empty(),
    //% end

    //% fn BufferWindow::get_pos
        requires
            self.wf(),
        ensures
            seqnum < self.lo() ==> r == Err::<usize, WindowError>(WindowError::BeforeWindow),
            seqnum >= self.lo() + self.cap() ==> r == Err::<usize, WindowError>(
                WindowError::AfterWindow,
            ),
            self.lo() <= seqnum < self.lo() + self.cap() ==> r == Ok::<usize, WindowError>(
                (seqnum - self.lo()) as usize,
            ),
    //% end

    //% fn BufferWindow::capacity_limit
        ensures
            r == self.cap(),
    //% end

    //% fn BufferWindow::len
        ensures
            r == self.slots().len(),
    //% end

    //% fn BufferWindow::is_full
        requires
            self.wf(),
        ensures
            r == (self.slots().len() == self.cap()),
    //% end

    //% fn BufferWindow::max_seen_seqnum
        requires
            self.wf(),
        ensures
            r == self.hi() - 1,
    //% end

    //% fn BufferWindow::left_bounds
        ensures
            r == self.lo(),
    //% end

    //% fn BufferWindow::right_bounds
        requires
            self.wf(),
        ensures
            self.lo() + self.cap() - 1 <= u64::MAX ==> r == self.lo() + self.cap() - 1,
            self.lo() + self.cap() - 1 > u64::MAX ==> r == u64::MAX,
    //% end

    //% fn BufferWindow::get_mut
        requires
            old(self).wf(),
        ensures
            old(self).has(seqnum as int) ==> r is Some && *r->0 == old(self).at(seqnum as int)
                && final(self).slots() == old(self).slots().update(
                seqnum - old(self).lo(),
                Some(*final(r->0)),
            ) && final(self).lo() == old(self).lo() && final(self).cap() == old(self).cap(),
            !old(self).has(seqnum as int) ==> r is None && final(self).same(*old(self)),
    //% end

    //% fn BufferWindow::put
        requires
            old(self).wf(),
            seqnum < u64::MAX || old(self).lo() + old(self).cap() <= u64::MAX,
        ensures
            final(self).wf(),
            final(self).lo() == old(self).lo(),
            final(self).cap() == old(self).cap(),
            // refused exactly outside [lo, lo + cap), and then nothing changes
            seqnum < old(self).lo() ==> r == Err::<(), WindowError>(WindowError::BeforeWindow),
            seqnum >= old(self).lo() + old(self).cap() ==> r == Err::<(), WindowError>(
                WindowError::AfterWindow,
            ),
            r is Err ==> final(self).slots() == old(self).slots(),
            // accepted: exactly that number now holds the element, every other number is as before
            old(self).lo() <= seqnum < old(self).lo() + old(self).cap() ==> r is Ok,
            forall|n: int|
                #![trigger final(self).has(n)]
                #![trigger old(self).has(n)]
                n != seqnum || r is Err ==> final(self).has(n) == old(self).has(n),
            forall|n: int|
                #![trigger final(self).at(n)]
                #![trigger old(self).at(n)]
                (n != seqnum || r is Err) && old(self).has(n) ==> final(self).at(n) == old(self).at(n),
            r is Ok ==> {
                &&& final(self).has(seqnum as int)
                &&& final(self).at(seqnum as int) == element
                &&& final(self).hi() == if seqnum < old(self).hi() {
                    old(self).hi()
                } else {
                    seqnum + 1
                }
                &&& seqnum == old(self).hi() ==> final(self).slots() =~= old(self).slots().push(
                    Some(element),
                )
            },
    //% loop 0
            invariant
                old(self).wf(),
                self.lo() == old(self).lo(),
                self.cap() == old(self).cap(),
                old(self).slots().len() <= self.slots().len(),
                self.slots().len() <= old(self).slots().len() || self.slots().len() <= pos + 1,
                self.slots().subrange(0, old(self).slots().len() as int) == old(self).slots(),
                forall|i: int|
                    old(self).slots().len() <= i < self.slots().len() ==> self.slots()[i] is None,
            decreases pos + 1 - self.slots().len(),
    //% end

    //% fn BufferWindow::drain_front
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).cap() == old(self).cap(),
            final(self).hi() == old(self).hi(),
            // nothing at the front: nothing happens
            !old(self).has(old(self).lo()) ==> r is None && final(self).same(*old(self)),
            // otherwise exactly the maximal run of present elements comes out, in order
            old(self).has(old(self).lo()) ==> {
                &&& r is Some
                &&& (r->0).0 == final(self).lo()
                &&& (r->0).1@.len() > 0
                &&& run(*old(self), (r->0).1@)
                &&& final(self).lo() == old(self).lo() + (r->0).1@.len()
                &&& !old(self).has(final(self).lo())
            },
            forall|n: int|
                #![trigger final(self).has(n)]
                #![trigger old(self).has(n)]
                n >= final(self).lo() ==> final(self).has(n) == old(self).has(n),
            forall|n: int|
                #![trigger final(self).at(n)]
                #![trigger old(self).at(n)]
                n >= final(self).lo() && old(self).has(n) ==> final(self).at(n) == old(self).at(n),
    //% sub? \.iter\(\) ==> .vx_iter()
    //% sub? \.drain\( ==> .vx_drain(
    //% closure 0
            |e: &Option<T>| -> (b: bool)
                ensures
                    b == ($BODY),
    //% closure 1
            |e: Option<T>| -> (x: T)
                requires
                    e is Some,
                ensures
                    e == Some(x),
    //% end

    //% fn BufferWindow::drop_front
        requires
            old(self).wf(),
            old(self).lo() + num_to_drop <= u64::MAX,
        ensures
            final(self).wf(),
            final(self).cap() == old(self).cap(),
            final(self).lo() == old(self).lo() + num_to_drop,
            r == final(self).lo(),
            final(self).slots() == if num_to_drop <= old(self).slots().len() {
                old(self).slots().subrange(num_to_drop as int, old(self).slots().len() as int)
            } else {
                Seq::<Option<T>>::empty()
            },
    //% sub? \.drain\( ==> .vx_drain(
    //% sub? std::cmp::min ==> min
    //% end
}
