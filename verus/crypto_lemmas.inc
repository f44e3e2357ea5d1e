// ---- lemmas over the contracts -----------------------------------------------------------------
proof fn xor_twice(a: u8, k: u8)
    ensures
        (a ^ k) ^ k == a,
{
    assert((a ^ k) ^ k == a) by (bit_vector);
}

proof fn crypted_twice(s: Seq<u8>, n: u64, d: Seq<u8>)
    ensures
        crypted(s, n, crypted(s, n, d)) == d,
        crypted(s, n, d).len() == d.len(),
{
    assert forall|i: int| 0 <= i < d.len() implies crypted(s, n, crypted(s, n, d))[i] == d[i] by {
        xor_twice(d[i], stream(aes_key(s), iv_of(n), i));
    }
    assert(crypted(s, n, crypted(s, n, d)) =~= d);
}

proof fn chain_adds(s: Seq<u8>, a: nat, b: nat)
    ensures
        chain(chain(s, a), b) == chain(s, a + b),
    decreases b,
{
    if b > 0 {
        chain_adds(s, a, (b - 1) as nat);
    }
}

// the key this state would try for (rc, n) is `secret`
pub open spec fn reaches(s: RS, rc: u8, n: u64, secret: Seq<u8>) -> bool {
    (s.rc == rc && s.cur == secret) || advanced(s, rc, n).cur == secret
}

// no authentication code is forged: a code that fits under some key a receiver could try, fits only
// under the secret the frame was made with
pub open spec fn unforged(s: RS, rc: u8, n: u64, ct: Seq<u8>, mac: Seq<u8>, secret: Seq<u8>) -> bool {
    &&& s.rc == rc && fits(s, n, ct, mac) ==> s.cur == secret
    &&& fits(advanced(s, rc, n), n, ct, mac) ==> advanced(s, rc, n).cur == secret
}

// F01: what the encrypt contract produces, the decrypt contract turns back, for every state that can
// reach the secret
proof fn frame_round_trip(
    s: RS,
    rc: u8,
    n: u64,
    secret: Seq<u8>,
    plain: Seq<u8>,
    ct: Seq<u8>,
    mac: Seq<u8>,
)
    requires
        ct == crypted(secret, n, plain),
        mac == mac_of(secret, n, ct),
        reaches(s, rc, n, secret),
    ensures
        !refuses(s, rc, n, ct, mac),
        forall|p: Seq<u8>, s2: RS|
            unforged(s, rc, n, ct, mac, secret) && #[trigger] opens(s, rc, n, ct, mac, p, s2) ==> p == plain,
{
    crypted_twice(secret, n, plain);
}

// F01: also when the sender has stepped on since the receiver got its secret
proof fn steps_ahead_are_reached(s: RS, steps: nat, n: u64, base: Seq<u8>)
    requires
        steps < 256,
        n > s.frame,
    ensures
        reaches(s, ((s.rc + steps) % 256) as u8, n, chain(s.cur, steps)),
{
    assert(dist(s.rc, ((s.rc + steps) % 256) as u8) == steps);
}

// F02: opening means the authentication code verified under a key of this very state, and the
// plaintext comes from that key; refusing is the only alternative
proof fn opened_means_authentic(s: RS, rc: u8, n: u64, ct: Seq<u8>, mac: Seq<u8>, p: Seq<u8>, s2: RS)
    requires
        opens(s, rc, n, ct, mac, p, s2),
    ensures
        exists|k: Seq<u8>| (k == s.cur || k == advanced(s, rc, n).cur) && mac == mac_of(k, n, ct) && p == crypted(k, n, ct),
{
    if s.rc == rc && fits(s, n, ct, mac) && p == crypted(s.cur, n, ct) && s2 == s {
        assert(s.cur == s.cur && mac == mac_of(s.cur, n, ct));
    } else {
        let k = advanced(s, rc, n).cur;
        assert(mac == mac_of(k, n, ct));
    }
}

// ---- F05: which key steps a receiver can still reach ---------------------------------------------
// A sender starts from secret `base` under counter r0 and steps now and then; key(n) is how many steps
// it had made when it sent frame n.  key is monotone.
pub open spec fn monotone(key: spec_fn(int) -> nat) -> bool {
    forall|a: int, b: int| a <= b ==> #[trigger] key(a) <= #[trigger] key(b)
}

pub open spec fn ctr(r0: u8, k: nat) -> u8 {
    ((r0 + k) % 256) as u8
}

// state s sits at step c, its older secret at step o, newest frame opened so far m
pub open spec fn tracks(
    s: RS,
    base: Seq<u8>,
    r0: u8,
    key: spec_fn(int) -> nat,
    c: nat,
    o: nat,
    m: int,
) -> bool {
    &&& s.cur == chain(base, c) && s.rc == ctr(r0, c)
    &&& s.old == chain(base, o) && s.orc == ctr(r0, o)
    &&& o <= c <= o + 5
    &&& s.frame <= m
    &&& s.frame == 0 ==> c == 0
    &&& s.frame > 0 ==> c == key(s.frame as int)
    // enough is kept for everything that may still legitimately arrive
    &&& forall|g: int|
        0 < g && g + 300 >= m ==> o <= #[trigger] key(g) || o + 5 <= key(m) || m == 0
    &&& m == 0 ==> o == 0
    &&& m > 0 ==> c <= key(m)
}

// a frame that may legitimately arrive: not more than 300 frames or five steps behind the newest one
// opened, and fewer than 256 steps ahead of the receiver
pub open spec fn in_reach(key: spec_fn(int) -> nat, c: nat, m: int, n: int) -> bool {
    &&& n > 0
    &&& n + 300 >= m
    &&& m > 0 ==> key(n) + 5 >= key(m)
    &&& key(n) < c + 251
}

proof fn ctr_dist(r0: u8, a: nat, b: nat)
    requires
        a <= b < a + 256,
    ensures
        dist(ctr(r0, a), ctr(r0, b)) == b - a,
{
}

proof fn fresh_state_tracks(base: Seq<u8>, r0: u8, key: spec_fn(int) -> nat)
    ensures
        tracks(RS { cur: base, rc: r0, frame: 0, old: base, orc: r0 }, base, r0, key, 0, 0, 0),
{
    assert(chain(base, 0) == base);
}

// every frame in reach finds its key, however frames arrived before it
proof fn frame_in_reach_finds_its_key(
    s: RS,
    base: Seq<u8>,
    r0: u8,
    key: spec_fn(int) -> nat,
    c: nat,
    o: nat,
    m: int,
    n: u64,
)
    requires
        monotone(key),
        tracks(s, base, r0, key, c, o, m),
        in_reach(key, c, m, n as int),
    ensures
        advanced(s, ctr(r0, key(n as int)), n).cur == chain(base, key(n as int)),
        reaches(s, ctr(r0, key(n as int)), n, chain(base, key(n as int))),
        n > s.frame ==> c <= key(n as int),
        n <= s.frame ==> o <= key(n as int),
{
    let k = key(n as int);
    if n > s.frame {
        if s.frame > 0 {
            assert(key(s.frame as int) <= key(n as int));
        }
        ctr_dist(r0, c, k);
        chain_adds(base, c, (k - c) as nat);
    } else {
        assert(m > 0);
        assert(key(n as int) <= key(s.frame as int));
        assert(o <= key(n as int) || o + 5 <= key(m));
        ctr_dist(r0, o, k);
        chain_adds(base, o, (k - o) as nat);
    }
}

// and opening it (either way a state may open it) leaves a state that tracks the sender again, whose
// older secret is at most five steps behind
#[verifier::rlimit(100)]
proof fn opening_keeps_tracking(
    s: RS,
    base: Seq<u8>,
    r0: u8,
    key: spec_fn(int) -> nat,
    c: nat,
    o: nat,
    m: int,
    n: u64,
    ct: Seq<u8>,
    mac: Seq<u8>,
    p: Seq<u8>,
    s2: RS,
) -> (r: (nat, nat))
    requires
        monotone(key),
        tracks(s, base, r0, key, c, o, m),
        in_reach(key, c, m, n as int),
        opens(s, ctr(r0, key(n as int)), n, ct, mac, p, s2),
    ensures
        tracks(s2, base, r0, key, r.0, r.1, if n > m { n as int } else { m }),
{
    let k = key(n as int);
    let rc = ctr(r0, k);
    let m2 = if n > m { n as int } else { m };
    frame_in_reach_finds_its_key(s, base, r0, key, c, o, m, n);
    assert(key(m) <= key(m2));
    assert(key(n as int) <= key(m2));
    if s2 == s {
        // opened with the current secret
        assert forall|g: int| 0 < g && g + 300 >= m2 implies o <= #[trigger] key(g) || o + 5 <= key(m2)
            || m2 == 0 by {
            assert(o <= key(g) || o + 5 <= key(m) || m == 0);
        }
        if m == 0 {
            assert(c == 0);
        }
        return (c, o);
    }
    let far = n > s.frame + 300;
    let o1: nat = if far { c } else { o };
    assert(o1 <= k);
    ctr_dist(r0, o1, k);
    let d = (k - o1) as nat;
    if d >= 256 {
        assert(false);
    }
    let up: nat = if d > 5 { (d - 5) as nat } else { 0 };
    chain_adds(base, o1, up);
    assert(chain(base, 0) == base);
    let o2 = o1 + up;
    assert forall|g: int| 0 < g && g + 300 >= m2 implies o2 <= #[trigger] key(g) || o2 + 5 <= key(m2)
        || m2 == 0 by {
        if up > 0 {
            assert(o2 + 5 == k);
        } else if far {
            assert(g > s.frame);
            if s.frame > 0 {
                assert(key(s.frame as int) <= key(g));
            }
        } else {
            assert(o <= key(g) || o + 5 <= key(m) || m == 0);
        }
    }
    (k, o2)
}
