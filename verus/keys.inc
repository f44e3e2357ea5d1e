// ---- shims: strings as their UTF-8 bytes, fmt::Formatter as an output buffer -----------------
pub struct VStr {
    pub b: Ghost<Seq<u8>>,
}

impl VStr {
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures
            r == self.b@.len(),
    {
        unimplemented!()
    }

    // .as_bytes().iter()
    #[verifier::external_body]
    fn vx_bytes<'a>(&'a self) -> (r: VIter<&'a u8>)
        ensures
            r@.len() == self.b@.len(),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.b@[i],
    {
        unimplemented!()
    }

    // [position..].chars().next(), which panics unless `position` is the start of a character;
    // it is one when everything before it is ASCII
    #[verifier::external_body]
    fn vx_char_at(&self, position: usize) -> (r: char)
        requires
            position < self.b@.len(),
            forall|i: int| 0 <= i < position ==> #[trigger] self.b@[i] < 128,
    {
        unimplemented!()
    }
}

#[verifier::external_body]
fn vx_is_ascii(c: char) -> bool {
    c.is_ascii()
}

#[verifier::external_body]
fn vx_low_byte(c: char) -> u8 {
    c as u8
}

#[verifier::external_body]
fn vx_contains(s: &[u8], x: &u8) -> (r: bool)
    ensures
        r == s@.contains(*x),
{
    s.contains(x)
}

#[verifier::external_body]
fn vx_bytes_of(s: &[u8; 16]) -> (r: VIter<&u8>)
    ensures
        r@.len() == 16,
        forall|i: int|
            #![trigger r@[i]]
            #![trigger s@[i]]
            0 <= i < 16 ==> *(r@[i]) == s@[i],
{
    unimplemented!()
}

pub struct VFmtError {
    e: u8,
}

pub struct VFormatter {
    pub out: Ghost<Seq<u8>>,
    pub prec: Option<usize>,
    pub fill: char,
}

impl VFormatter {
    fn precision(&self) -> (r: Option<usize>)
        ensures
            r == self.prec,
    {
        self.prec
    }

    fn fill(&self) -> (r: char)
        ensures
            r == self.fill,
    {
        self.fill
    }

    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: Result<(), VFmtError>)
        ensures
            final(self).prec == old(self).prec,
            final(self).fill == old(self).fill,
            r is Ok && c == '-' ==> final(self).out@ == old(self).out@.push(b'-'),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn write_str(&mut self, s: &VStr) -> (r: Result<(), VFmtError>)
        ensures
            final(self).prec == old(self).prec,
            final(self).fill == old(self).fill,
            r is Ok ==> final(self).out@ == old(self).out@ + s.b@,
    {
        unimplemented!()
    }
}

// .chunks(n)
#[verifier::external_body]
fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: VIter<&'a [u8]>)
    requires
        n > 0,
    ensures
        s@.len() == 0 ==> r@.len() == 0,
        s@.len() > 0 ==> (r@.len() - 1) * n < s@.len() <= r@.len() * n,
        forall|i: int|
            0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(
                i * n,
                if (i + 1) * n <= s@.len() {
                    (i + 1) * n
                } else {
                    s@.len() as int
                },
            ),
{
    unimplemented!()
}

// std::str::from_utf8_unchecked on ASCII bytes
#[verifier::external_body]
fn vx_ascii_str(a: &[u8; 2]) -> (r: &VStr)
    requires
        a@[0] < 128 && a@[1] < 128,
    ensures
        r.b@ == a@,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_sizes<const N: usize>(a: [usize; N]) -> (r: VIter<usize>)
    ensures
        r@ == a@,
{
    unimplemented!()
}

// ---- the text form --------------------------------------------------------------------------
//% source src/rust/src/lite/call_links/base16.rs
//% item const ALPHABET sub=&[u8=>&'static{}[u8 bytes=1
//% item const SKIP_ALPHABET sub=&[u8=>&'static{}[u8 bytes=1
//% item enum DecodeError
//% item struct Base16Table
//% item struct ConsonantBase16

pub open spec fn alpha(x: int) -> u8 {
    seq![98u8, 99, 100, 102, 103, 104, 107, 109, 110, 112, 113, 114, 115, 116, 120, 122][x]
}

// the text of v, when `left` more bytes fit before the next dash and `rest` are the sizes of the
// groups after that
pub open spec fn text(v: Seq<u8>, left: int, rest: Seq<usize>) -> Option<Seq<u8>>
    decreases v.len(), rest.len(),
{
    if v.len() == 0 {
        Some(Seq::empty())
    } else if left <= 0 {
        if rest.len() == 0 {
            None
        } else {
            match text(v, rest[0] as int, rest.skip(1)) {
                Some(t) => Some(seq![45u8] + t),
                None => None,
            }
        }
    } else {
        match text(v.skip(1), left - 1, rest) {
            Some(t) => Some(seq![alpha(v[0] as int / 16), alpha(v[0] as int % 16)] + t),
            None => None,
        }
    }
}

proof fn text_not_empty(v: Seq<u8>, left: int, rest: Seq<usize>)
    ensures
        v.len() > 0 && left > 0 ==> (text(v, left, rest) matches Some(t) ==> t.len() >= 2),
        v.len() > 0 && left <= 0 ==> (text(v, left, rest) matches Some(t) ==> t.len() >= 2),
    decreases rest.len(),
{
    if v.len() > 0 && left <= 0 && rest.len() > 0 {
        text_not_empty(v, rest[0] as int, rest.skip(1));
    }
}

proof fn alphabet_facts()
    ensures
        forall|i: int| 0 <= i < 16 ==> 97 < #[trigger] alpha(i) < 128,
        forall|i: int, j: int| 0 <= i < j < 16 ==> #[trigger] alpha(i) != #[trigger] alpha(j),
{
}

// ---- decoding ---------------------------------------------------------------------------------
// what is left to read, `left` and `rest` stand for exactly the values whose text is all of `s`
pub open spec fn at_point(s: Seq<u8>, sizes: Seq<usize>, got: Seq<u8>, rem: Seq<&u8>, left: int, rest: Seq<usize>) -> bool {
    &&& sizes.len() > 0
    &&& rem.len() <= s.len()
    &&& forall|i: int| #![trigger rem[i]] 0 <= i < rem.len() ==> *rem[i] == s[s.len() - rem.len() + i]
    &&& forall|i: int| 0 <= i < s.len() - rem.len() ==> #[trigger] s[i] < 128
    &&& forall|w: Seq<u8>|
        #![trigger text(w, left, rest)]
        text(got + w, sizes[0] as int, sizes.skip(1)) == Some(s) <==> text(w, left, rest) == Some(
            deref(rem),
        )
    &&& forall|v: Seq<u8>|
        #![trigger text(v, sizes[0] as int, sizes.skip(1))]
        text(v, sizes[0] as int, sizes.skip(1)) == Some(s) ==> v.len() >= got.len() && v.take(
            got.len() as int,
        ) == got
}

pub open spec fn deref(r: Seq<&u8>) -> Seq<u8> {
    Seq::new(r.len(), |i: int| *r[i])
}

pub open spec fn decodes(s: Seq<u8>, sizes: Seq<usize>, v: Seq<u8>) -> bool {
    text(v, sizes[0] as int, sizes.skip(1)) == Some(s)
}

proof fn nothing_fits(s: Seq<u8>, sizes: Seq<usize>, got: Seq<u8>, rem: Seq<&u8>, left: int, rest: Seq<usize>)
    requires
        at_point(s, sizes, got, rem, left, rest),
        forall|w: Seq<u8>| text(w, left, rest) != Some(deref(rem)),
    ensures
        forall|v: Seq<u8>| !#[trigger] decodes(s, sizes, v),
{
    assert forall|v: Seq<u8>| !#[trigger] decodes(s, sizes, v) by {
        if text(v, sizes[0] as int, sizes.skip(1)) == Some(s) {
            let w = v.skip(got.len() as int);
            assert(v =~= got + w);
            assert(text(w, left, rest) != Some(deref(rem)));
        }
    }
}

pub open spec fn nothing(s: Seq<u8>, sizes: Seq<usize>) -> bool {
    forall|v: Seq<u8>| !#[trigger] decodes(s, sizes, v)
}

// one turn of the decoder: what the next one or two bytes mean
#[verifier::rlimit(200)]
#[verifier::spinoff_prover]
proof fn turn(s: Seq<u8>, sizes: Seq<usize>, got: Seq<u8>, first: &u8, tail: Seq<&u8>, left: int, rest: Seq<usize>)
    requires
        at_point(s, sizes, got, seq![first] + tail, left, rest),
    ensures
        left <= 0 && (rest.len() == 0 || *first != 45 || tail.len() == 0) ==> nothing(s, sizes),
        left <= 0 && rest.len() > 0 && *first == 45 && tail.len() > 0 ==> at_point(
            s,
            sizes,
            got,
            tail,
            rest[0] as int,
            rest.subrange(1, rest.len() as int),
        ),
        left > 0 && tail.len() == 0 ==> nothing(s, sizes),
        left > 0 && (forall|u: int| 0 <= u < 16 ==> #[trigger] alpha(u) != *first) ==> nothing(s, sizes),
        left > 0 && tail.len() > 0 && (forall|u: int| 0 <= u < 16 ==> #[trigger] alpha(u) != *(tail[0])) ==> nothing(
            s,
            sizes,
        ),
        forall|u: int, l: int|
            #![trigger alpha(u), alpha(l)]
            left > 0 && tail.len() > 0 && 0 <= u < 16 && 0 <= l < 16 && *first == alpha(u) && *(tail[0]) == alpha(l)
                ==> at_point(
                s,
                sizes,
                got.push((u * 16 + l) as u8),
                tail.subrange(1, tail.len() as int),
                left - 1,
                rest,
            ),
{
    alphabet_facts();
    let rem = seq![first] + tail;
    let d = deref(rem);
    assert(rem[0] == first);
    assert forall|i: int| #![trigger tail[i]] 0 <= i < tail.len() implies *tail[i] == d[i + 1] && rem[i + 1] == tail[i] by {
    }
    assert(text(Seq::empty(), left, rest) == Some(Seq::<u8>::empty()));
    if left <= 0 {
        if rest.len() == 0 || *first != 45 || tail.len() == 0 {
            assert forall|w: Seq<u8>| text(w, left, rest) != Some(d) by {
                if w.len() > 0 && rest.len() > 0 {
                    text_not_empty(w, left, rest);
                    if text(w, left, rest) == Some(d) {
                        assert(d[0] == 45);
                    }
                }
            }
            nothing_fits(s, sizes, got, rem, left, rest);
        } else {
            let r2 = rest.subrange(1, rest.len() as int);
            assert(r2 == rest.skip(1));
            assert forall|w: Seq<u8>|
                #![trigger text(w, rest[0] as int, r2)]
                text(got + w, sizes[0] as int, sizes.skip(1)) == Some(s) <==> text(w, rest[0] as int, r2) == Some(
                    deref(tail),
                ) by {
                assert(text(got + w, sizes[0] as int, sizes.skip(1)) == Some(s) <==> text(w, left, rest) == Some(d));
                if w.len() > 0 {
                    match text(w, rest[0] as int, r2) {
                        Some(t) => {
                            if t == deref(tail) {
                                assert(seq![45u8] + t =~= d);
                            }
                            if seq![45u8] + t == d {
                                assert(t =~= deref(tail)) by {
                                    assert forall|i: int| 0 <= i < t.len() implies t[i] == deref(tail)[i] by {
                                        assert(t[i] == (seq![45u8] + t)[i + 1]);
                                    }
                                }
                            }
                        },
                        None => {},
                    }
                } else {
                    assert(d.len() > 0 && deref(tail).len() > 0);
                }
            }
            assert(at_point(s, sizes, got, tail, rest[0] as int, r2)) by {
                assert(s[s.len() - rem.len()] == *rem[0]);
                assert forall|i: int| #![trigger tail[i]] 0 <= i < tail.len() implies *tail[i] == s[s.len() - tail.len() + i] by {
                    assert(*rem[i + 1] == s[s.len() - rem.len() + i + 1]);
                }
            }
        }
    } else {
        let known = forall|w: Seq<u8>| #![trigger text(w, left, rest)]
            w.len() > 0 && text(w, left, rest) == Some(d) ==> d.len() >= 2 && d[0] == alpha(w[0] as int / 16) && d[1] == alpha(
                w[0] as int % 16,
            ) && text(w.skip(1), left - 1, rest) == Some(d.skip(2));
        assert(known) by {
            assert forall|w: Seq<u8>| #![trigger text(w, left, rest)] w.len() > 0 && text(w, left, rest) == Some(d) implies
                d.len() >= 2 && d[0] == alpha(w[0] as int / 16) && d[1] == alpha(
                w[0] as int % 16,
            ) && text(w.skip(1), left - 1, rest) == Some(d.skip(2)) by {
                let t = text(w.skip(1), left - 1, rest)->0;
                assert(d == seq![alpha(w[0] as int / 16), alpha(w[0] as int % 16)] + t);
                assert(d.skip(2) =~= t);
            }
        }
        if tail.len() == 0 || (forall|u: int| 0 <= u < 16 ==> #[trigger] alpha(u) != *first) || (tail.len() > 0 && (
        forall|u: int| 0 <= u < 16 ==> #[trigger] alpha(u) != *(tail[0]))) {
            assert forall|w: Seq<u8>| text(w, left, rest) != Some(d) by {
                if w.len() > 0 && text(w, left, rest) == Some(d) {
                    assert(alpha(w[0] as int / 16) == d[0]);
                    assert(alpha(w[0] as int % 16) == d[1]);
                }
            }
            nothing_fits(s, sizes, got, rem, left, rest);
        }
        assert forall|u: int, l: int|
            #![trigger alpha(u), alpha(l)]
            left > 0 && tail.len() > 0 && 0 <= u < 16 && 0 <= l < 16 && *first == alpha(u) && *(tail[0]) == alpha(l)
            implies at_point(
            s,
            sizes,
            got.push((u * 16 + l) as u8),
            tail.subrange(1, tail.len() as int),
            left - 1,
            rest,
        ) by {
            let x = (u * 16 + l) as u8;
            let rem2 = tail.subrange(1, tail.len() as int);
            assert(x as int / 16 == u && x as int % 16 == l);
            assert(d.skip(2) =~= deref(rem2));
            assert forall|w: Seq<u8>|
                #![trigger text(w, left - 1, rest)]
                text(got.push(x) + w, sizes[0] as int, sizes.skip(1)) == Some(s) <==> text(w, left - 1, rest) == Some(
                    deref(rem2),
                ) by {
                let w1 = seq![x] + w;
                assert(got + w1 =~= got.push(x) + w);
                assert(w1.skip(1) =~= w);
                assert(text(got + w1, sizes[0] as int, sizes.skip(1)) == Some(s) <==> text(w1, left, rest) == Some(d));
                match text(w, left - 1, rest) {
                    Some(t) => {
                        if t == deref(rem2) {
                            assert(seq![alpha(u), alpha(l)] + t =~= d);
                        }
                    },
                    None => {},
                }
            }
            assert forall|v: Seq<u8>|
                #![trigger text(v, sizes[0] as int, sizes.skip(1))]
                text(v, sizes[0] as int, sizes.skip(1)) == Some(s) implies v.len() >= got.push(x).len() && v.take(
                got.push(x).len() as int,
            ) == got.push(x) by {
                let w = v.skip(got.len() as int);
                assert(got + w =~= v);
                assert(text(w, left, rest) == Some(d));
                assert(w.len() > 0);
                assert(alpha(w[0] as int / 16) == alpha(u));
                assert(alpha(w[0] as int % 16) == alpha(l));
                assert(w[0] == x);
                assert(v.take(got.len() as int + 1) =~= got.push(x));
            }
            assert(at_point(s, sizes, got.push(x), rem2, left - 1, rest)) by {
                assert(s[s.len() - rem.len()] == *rem[0]);
                assert(s[s.len() - rem.len() + 1] == *rem[1]);
                assert forall|i: int| #![trigger rem2[i]] 0 <= i < rem2.len() implies *rem2[i] == s[s.len() - rem2.len() + i] by {
                    assert(*rem[i + 2] == s[s.len() - rem.len() + i + 2]);
                }
            }
        }
    }
}

proof fn all_read(s: Seq<u8>, sizes: Seq<usize>, got: Seq<u8>, rem: Seq<&u8>, left: int, rest: Seq<usize>)
    requires
        at_point(s, sizes, got, rem, left, rest),
        rem.len() == 0,
    ensures
        decodes(s, sizes, got),
        forall|v: Seq<u8>| #[trigger] decodes(s, sizes, v) ==> v == got,
{
    let e = Seq::<u8>::empty();
    assert(deref(rem) =~= e);
    assert(got + e =~= got);
    assert(text(e, left, rest) == Some(e));
    assert forall|v: Seq<u8>| #[trigger] decodes(s, sizes, v) implies v == got by {
        let w = v.skip(got.len() as int);
        assert(got + w =~= v);
        assert(text(w, left, rest) == Some(deref(rem)));
        text_not_empty(w, left, rest);
        assert(w.len() == 0);
        assert(v =~= got);
    }
}

// ---- encoding -----------------------------------------------------------------------------------
impl Base16Table {
    spec fn right(&self) -> bool {
        forall|x: int|
            #![trigger self.0@[x]]
            0 <= x < 256 ==> self.0@[x]@ == seq![alpha(x / 16), alpha(x % 16)]
    }

    //% fn Base16Table::new
        requires
            forall|u: int| 0 <= u < 16 ==> #[trigger] alphabet@[u] == alpha(u),
        ensures
            r.right(),
    //% attr verifier::loop_isolation(false)
    //% sub? (alphabet\[i\])\.is_ascii\(\) ==> (\1 < 128)
    //% head
        proof {
            alphabet_facts();
        }
    //% loop 0
            invariant
                i <= 16,
                forall|x: int|
                    #![trigger table@[x]]
                    0 <= x < i * 16 ==> table@[x]@ == seq![alpha(x / 16), alpha(x % 16)],
            decreases 16 - i,
    //% loophead 0
            proof {
                assert(alpha(i as int) < 128);
            }
    //% loop 1
                invariant
                    i < 16,
                    j <= 16,
                    forall|x: int|
                        #![trigger table@[x]]
                        0 <= x < i * 16 + j ==> table@[x]@ == seq![alpha(x / 16), alpha(x % 16)],
                decreases 16 - j,
    //% loophead 1
                proof {
                    assert((i * 16 + j) / 16 == i && (i * 16 + j) % 16 == j);
                    assert([alphabet@[i as int], alphabet@[j as int]]@ =~= seq![alpha(i as int), alpha(j as int)]);
                }
    //% end

    //% fn Index<u8> for Base16Table::index
        requires
            self.right(),
        ensures
            r.b@ == seq![alpha(index as int / 16), alpha(index as int % 16)],
    //% sub? &Self::Output ==> &VStr
    //% sub? usize::from\(index\) ==> (index as usize)
    //% sub? debug_assert!\(ascii\.is_ascii\(\)\); ==> 
    //% sub? ascii\.is_ascii\(\) ==> (ascii[0] < 128 && ascii[1] < 128)
    //% sub unsafe \{ std::str::from_utf8_unchecked\(ascii\) \} ==> vx_ascii_str(ascii)
    //% head
        proof {
            alphabet_facts();
            assert(self.0@[index as int]@ == seq![alpha(index as int / 16), alpha(index as int % 16)]);
        }
    //% end
}

// static TABLE: Base16Table = Base16Table::new(ALPHABET)
#[verifier::external_body]
fn vx_table() -> (r: &'static Base16Table)
    ensures
        r.right(),
{
    unimplemented!()
}

pub open spec fn rep(p: int, n: int) -> Seq<usize> {
    Seq::new(n as nat, |i: int| p as usize)
}

// what is printed: a dash between every `p` bytes
pub open spec fn printed(v: Seq<u8>, p: int) -> Seq<u8> {
    text(v, p, rep(p, v.len() as int))->0
}

spec fn from(v: Seq<u8>, k: int) -> Seq<u8> {
    if k >= v.len() {
        Seq::empty()
    } else {
        v.skip(k)
    }
}

proof fn always_printed(v: Seq<u8>, left: int, p: int, n: int)
    requires
        0 < p <= usize::MAX,
        0 <= left <= p,
        n * p + left >= v.len(),
        n >= 0,
    ensures
        text(v, left, rep(p, n)) is Some,
    decreases v.len(), n,
{
    if v.len() == 0 {
    } else if left == 0 {
        assert(n > 0) by (nonlinear_arith)
            requires
                n * p + left >= v.len(),
                v.len() > 0,
                left == 0,
                n >= 0,
        ;
        assert(rep(p, n).skip(1) =~= rep(p, n - 1));
        assert((n - 1) * p + p == n * p) by (nonlinear_arith);
        always_printed(v, p, p, n - 1);
    } else {
        always_printed(v.skip(1), left - 1, p, n);
    }
}

impl ConsonantBase16<'_> {
    //% fn Display for ConsonantBase16::fmt
        requires
            old(f).prec != Some(0usize),
        ensures
            old(f).fill == '-' && r is Ok ==> final(f).out@ == old(f).out@ + printed(
                self.0@,
                if old(f).prec is Some {
                    old(f).prec->0 as int
                } else {
                    usize::MAX as int
                },
            ),
    //% attr verifier::loop_isolation(false)
    //% attr verifier::rlimit(200)
    //% attr verifier::spinoff_prover
    //% attr verifier::allow_complex_invariants
    //% sub? f: &mut std::fmt::Formatter<'_> ==> f: &mut VFormatter
    //% sub? std::fmt::Result ==> Result<(), VFmtError>
    //% sub self\.0\.chunks\( ==> vx_chunks(self.0, 
    //% sub? &TABLE\[\*byte\] ==> vx_table().index(*byte)
    //% head
        let ghost v = self.0@;
        let ghost p: int = if old(f).prec is Some { old(f).prec->0 as int } else { usize::MAX as int };
        let ghost n = v.len() as int;
        let ghost total = old(f).out@ + printed(v, p);
        let ghost mut c: int = 0;
        let ghost mut b: int = 0;
        let ghost fill = old(f).fill;
        proof {
            assert(v.skip(0) =~= v);
            assert(old(f).out@ + Seq::<u8>::empty() =~= old(f).out@);
        }
    //% loop 0
            invariant
                f.fill == fill,
                p > 0,
                c >= 0,
                is_first <==> c == 0,
                n == 0 ==> vx_it_0@.len() == 0 && c == 0,
                n > 0 ==> (vx_it_0@.len() + c - 1) * p < n <= (vx_it_0@.len() + c) * p,
                forall|i: int|
                    #![trigger vx_it_0@[i]]
                    0 <= i < vx_it_0@.len() ==> vx_it_0@[i]@ == v.subrange(
                        (c + i) * p,
                        if (c + i + 1) * p <= n {
                            (c + i + 1) * p
                        } else {
                            n
                        },
                    ),
                fill == '-' ==> f.out@ + (if c == 0 {
                    text(v, p, rep(p, n))->0
                } else {
                    text(from(v, c * p), 0, rep(p, n - c + 1))->0
                }) == total,
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% loophead 0
            proof {
                let w = from(v, c * p);
                let len = vx_it_0@.len() + 1;
                assert((c + len - 1) * p < n ==> c * p < n && c < n) by (nonlinear_arith)
                    requires
                        p > 0,
                        c >= 0,
                        len >= 1,
                ;
                if c > 0 {
                    assert((n - c + 1) * p == n * p - c * p + p) by (nonlinear_arith);
                    assert(n * p >= n) by (nonlinear_arith)
                        requires
                            n > 0,
                            p > 0,
                    ;
                    always_printed(w, 0, p, n - c + 1);
                    assert(rep(p, n - c + 1).skip(1) =~= rep(p, n - c));
                    assert(rep(p, n - c + 1)[0] == p);
                    let t = text(w, p, rep(p, n - c))->0;
                    assert(f.out@.push(45u8) + t =~= f.out@ + (seq![45u8] + t));
                }
                b = 0;
                c = c + 1;
                assert(c * p == (c - 1) * p + p) by (nonlinear_arith);
            }
    //% loop 1
                invariant
                    f.fill == fill,
                    !is_first,
                    c >= 1,
                    (c - 1) * p < n,
                    c <= n,
                    c * p == (c - 1) * p + p,
                    0 <= b <= p,
                    b + vx_it_1@.len() == if c * p <= n {
                        p
                    } else {
                        n - (c - 1) * p
                    },
                    forall|i: int|
                        #![trigger vx_it_1@[i]]
                        0 <= i < vx_it_1@.len() ==> *(vx_it_1@[i]) == v[(c - 1) * p + b + i],
                    fill == '-' ==> f.out@ + text(from(v, (c - 1) * p + b), p - b, rep(p, n - c + 1))->0 == total,
                ensures
                    vx_it_1@.len() == 0,
                decreases vx_it_1@.len(),
    //% loophead 1
                proof {
                    let w = from(v, (c - 1) * p + b);
                    assert((n - c + 1) * p == n * p - c * p + p) by (nonlinear_arith);
                    assert(n * p >= n) by (nonlinear_arith)
                        requires
                            n > 0,
                            p > 0,
                    ;
                    always_printed(w, p - b, p, n - c + 1);
                    assert(w[0] == *byte);
                    assert(w.skip(1) =~= from(v, (c - 1) * p + b + 1));
                    let t = text(w.skip(1), p - b - 1, rep(p, n - c + 1))->0;
                    let d = seq![alpha(*byte as int / 16), alpha(*byte as int % 16)];
                    assert((f.out@ + d) + t =~= f.out@ + (d + t));
                    b = b + 1;
                }
    //% before ^\s*Ok\(\(\)\)
        proof {
            if n > 0 {
                assert(from(v, c * p) =~= Seq::<u8>::empty());
            }
            assert(f.out@ + Seq::<u8>::empty() =~= f.out@);
        }
    //% end

    //% fn ConsonantBase16::parse
        ensures
            r matches Ok(v) ==> decodes(string.b@, seq![usize::MAX], v@),
            r is Err ==> forall|w: Seq<u8>| !#[trigger] decodes(string.b@, seq![usize::MAX], w),
    //% sub? string: &str ==> string: &VStr
    //% sub? parse_with_separators\(string, (\[[^\]]*\])\) ==> parse_with_separators(string, vx_sizes(\1))
    //% head
        proof {
            assert(seq![usize::MAX] =~= [usize::MAX]@);
        }
    //% end

    //% fn ConsonantBase16::parse_with_separators
        requires
            chunk_sizes@.len() > 0,
        ensures
            r matches Ok(v) ==> decodes(string.b@, chunk_sizes@, v@),
            r matches Ok(v) ==> forall|w: Seq<u8>| #[trigger]
                decodes(string.b@, chunk_sizes@, w) ==> w == v@,
            r is Err ==> forall|w: Seq<u8>| !#[trigger] decodes(string.b@, chunk_sizes@, w),
    //% attr verifier::loop_isolation(false)
    //% sub? string: &str ==> string: &VStr
    //% sub? chunk_sizes: impl IntoIterator<Item = usize> ==> chunk_sizes: VIter<usize>
    //% sub chunk_sizes\.into_iter\(\) ==> vx_iter(chunk_sizes)
    //% sub string\.as_bytes\(\)\.iter\(\) ==> string.vx_bytes()
    //% sub? string\[position\.\.\]\s*\.chars\(\)\s*\.next\(\)\s*\.expect\("[^"]*"\) ==> string.vx_char_at(position)
    //% sub? bad_char\.is_ascii\(\) ==> vx_is_ascii(bad_char)
    //% sub? \(bad_char as u8\) ==> vx_low_byte(bad_char)
    //% sub? SKIP_ALPHABET\.contains\( ==> vx_contains(SKIP_ALPHABET, 
    //% sub? ALPHABET\s*\.iter\(\) ==> vx_bytes_of(ALPHABET)
    //% sub? \|iter: &std::slice::Iter<'_, u8>\| ==> |iter: &VIter<&u8>|
    //% head
        let ghost s = string.b@;
        let ghost sizes = chunk_sizes@;
        proof {
            alphabet_facts();
            assert forall|u: int| 0 <= u < 16 implies ALPHABET@[u] == #[trigger] alpha(u) by {
            }
        }
    //% closure 0
            |iter: &VIter<&u8>| -> (e: DecodeError)
                requires
                    iter@.len() < string.b@.len(),
                    forall|i: int| 0 <= i < string.b@.len() - iter@.len() - 1 ==> #[trigger] string.b@[i] < 128,
    //% closure 1
            |b: &u8| -> (r: bool)
                ensures
                    r == (*b == *first),
    //% closure 2
            || -> (e: DecodeError)
    //% closure 3
            |b: &u8| -> (r: bool)
                ensures
                    r == (*b == *second),
    //% closure 4
            || -> (e: DecodeError)
    //% loop 0
            invariant
                at_point(s, sizes, result@, bytes@, count_until_separator as int, chunk_size_iter@),
            decreases bytes@.len(),
    //% loophead 0
            proof {
                turn(s, sizes, result@, first, bytes@, count_until_separator as int, chunk_size_iter@);
            }
    //% before result\.push
            proof {
                assert(upper < 16 ==> upper << 4 == upper * 16) by (bit_vector);
                assert(alpha(upper as int) == *first && alpha(lower as int) == *second);
            }
    //% before while let Some
        proof {
            assert(deref(bytes@) =~= s);
            assert forall|w: Seq<u8>| Seq::<u8>::empty() + w == w by {
                assert(Seq::<u8>::empty() + w =~= w);
            }
            assert forall|w: Seq<u8>| #[trigger] w.take(0) == Seq::<u8>::empty() by {
                assert(w.take(0) =~= Seq::<u8>::empty());
            }
        }
    //% before ^\s*Ok\(result\)
        proof {
            all_read(s, sizes, result@, bytes@, count_until_separator as int, chunk_size_iter@);
        }
    //% end
}
