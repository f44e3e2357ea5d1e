// ---- data sizes and rates -----------------------------------------------------------------------
//% source src/rust/src/common/units.rs
//% item struct DataRate derive=Copy,Clone,PartialEq,Eq,Structural
//% item struct DataSize derive=Copy,Clone,PartialEq,Eq,Structural

impl DataRate {
    pub open spec fn bps(self) -> int {
        self.size_per_second.bits as int
    }

    //% fn DataRate::per_second
        ensures
            r.bps() == size_per_second.bits,
            r.size_per_second == size_per_second,
    //% end

    //% fn DataRate::from_bps
        ensures
            r.bps() == bps,
    //% end

    //% fn DataRate::as_bps
        ensures
            r == self.bps(),
    //% end

    //% fn DataRate::from_kbps
        requires
            kbps * 1000 <= u64::MAX,
        ensures
            r.bps() == kbps * 1000,
    //% end

    //% fn DataRate::as_kbps
        ensures
            r == self.bps() / 1000,
    //% end

    //% fn DataRate::from_mbps
        requires
            mbps * 1000000 <= u64::MAX,
        ensures
            r.bps() == mbps * 1000000,
    //% end

    //% fn DataRate::as_mbps
        ensures
            r == self.bps() / 1000000,
    //% end

    //% fn DataRate::min_opt
        ensures
            r.bps() == match other {
                Some(o) => if self.bps() <= o.bps() { self.bps() } else { o.bps() },
                None => self.bps(),
            },
    //% sub? self\.min\( ==> self.vx_min(
    //% end

    // Ord::min of a type whose order is derived: by its only number
    #[verifier::external_body]
    fn vx_min(self, o: DataRate) -> (r: DataRate)
        ensures
            r == if self.bps() <= o.bps() { self } else { o },
    {
        unimplemented!()
    }
}

impl DataSize {
    //% fn DataSize::per_second
        ensures
            r.bps() == self.bits,
    //% end

    //% fn DataSize::from_bits
        ensures
            r.bits == bits,
    //% end

    //% fn DataSize::as_bits
        ensures
            r == self.bits,
    //% end

    //% fn DataSize::from_bytes
        requires
            bytes * 8 <= u64::MAX,
        ensures
            r.bits == bytes * 8,
    //% end

    //% fn DataSize::as_bytes
        ensures
            r == self.bits / 8,
    //% end

    //% fn DataSize::from_kilobits
        requires
            kbits * 1000 <= u64::MAX,
        ensures
            r.bits == kbits * 1000,
    //% end

    //% fn DataSize::as_kilobits
        ensures
            r == self.bits / 1000,
    //% end

    //% fn DataSize::from_kilobytes
        requires
            kbytes * 8000 <= u64::MAX,
        ensures
            r.bits == kbytes * 8000,
    //% end

    //% fn DataSize::as_kilobytes
        ensures
            r == self.bits / 8000,
    //% end

    //% fn DataSize::from_megabits
        requires
            mbits * 1000000 <= u64::MAX,
        ensures
            r.bits == mbits * 1000000,
    //% end

    //% fn DataSize::as_megabits
        ensures
            r == self.bits / 1000000,
    //% end

    //% fn DataSize::from_megabytes
        requires
            mbytes * 8000000 <= u64::MAX,
        ensures
            r.bits == mbytes * 8000000,
    //% end

    //% fn DataSize::as_megabytes
        ensures
            r == self.bits / 8000000,
    //% end

    //% fn Add<DataSize> for DataSize::add as plus
        requires
            self.bits + other.bits <= u64::MAX,
        ensures
            r.bits == self.bits + other.bits,
    //% end
}

// what was put in comes out
proof fn units_round_trip(n: u64)
    requires
        n * 8000000 <= u64::MAX,
    ensures
        (n * 8) / 8 == n,
        (n * 1000) / 1000 == n,
        (n * 8000) / 8000 == n,
        (n * 1000000) / 1000000 == n,
        (n * 8000000) / 8000000 == n,
{
}
