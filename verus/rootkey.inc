// ---- shims ------------------------------------------------------------------------------------
pub uninterp spec fn kdf(ikm: Seq<u8>, info: Seq<u8>, n: int) -> Seq<u8>;

// AES-256-GCM-SIV without associated data: ciphertext and 16-byte tag
pub uninterp spec fn seal(key: Seq<u8>, nonce: Seq<u8>, m: Seq<u8>) -> (Seq<u8>, Seq<u8>);

pub uninterp spec fn open_sealed(key: Seq<u8>, nonce: Seq<u8>, ct: Seq<u8>) -> Option<Seq<u8>>;

// the cipher is correct: what was sealed opens to itself
pub axiom fn seal_opens(key: Seq<u8>, nonce: Seq<u8>, m: Seq<u8>)
    ensures
        open_sealed(key, nonce, seal(key, nonce, m).0 + seal(key, nonce, m).1) == Some(m),
        seal(key, nonce, m).0.len() == m.len(),
        seal(key, nonce, m).1.len() == 16,
;

#[derive(Debug)]
pub struct VxCryptoError {
    e: u8,
}

pub struct Hkdf {
    pub ikm: Ghost<Seq<u8>>,
}

impl Hkdf {
    #[verifier::external_body]
    fn new(salt: Option<&[u8]>, ikm: &[u8]) -> (r: Hkdf)
        requires
            salt is None,
        ensures
            r.ikm@ == ikm@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn expand(&self, info: &[u8], out: &mut [u8; 32]) -> (r: Result<(), VxCryptoError>)
        ensures
            r is Ok && final(out)@ == kdf(self.ikm@, info@, 32),
    {
        unimplemented!()
    }
}

pub struct Aes256GcmSiv {
    pub key: Ghost<Seq<u8>>,
}

impl Aes256GcmSiv {
    #[verifier::external_body]
    fn new(key: &[u8; 32]) -> (r: Aes256GcmSiv)
        ensures
            r.key@ == key@,
    {
        unimplemented!()
    }

    // encrypt_in_place_detached(nonce, [], &mut buffer[at..])
    #[verifier::external_body]
    fn vx_seal_in_place(&self, nonce: &[u8; 12], buffer: &mut Vec<u8>, at: usize) -> (r: Result<[u8; 16], VxCryptoError>)
        requires
            at <= old(buffer)@.len(),
        ensures
            r is Ok,
            final(buffer)@ == old(buffer)@.take(at as int) + seal(
                self.key@,
                nonce@,
                old(buffer)@.skip(at as int),
            ).0,
            r->Ok_0@ == seal(self.key@, nonce@, old(buffer)@.skip(at as int)).1,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_open(&self, nonce: &[u8], ct: &[u8]) -> (r: Result<Vec<u8>, VxCryptoError>)
        requires
            nonce@.len() == 12,
        ensures
            match r {
                Ok(p) => open_sealed(self.key@, nonce@, ct@) == Some(p@),
                Err(_) => open_sealed(self.key@, nonce@, ct@) is None,
            },
    {
        unimplemented!()
    }
}

#[verifier::external_body]
fn vx_rposition<F: Fn(u8) -> bool>(v: &Vec<u8>, f: F) -> (r: Option<usize>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
    ensures
        match r {
            Some(k) => k < v@.len() && call_ensures(f, (v@[k as int],), true) && forall|j: int|
                k < j < v@.len() ==> call_ensures(f, (#[trigger] v@[j],), false),
            None => forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (#[trigger] v@[j],), false),
        },
{
    unimplemented!()
}

pub trait VxBuf {
    spec fn vb(&self) -> Seq<u8>;

    fn vx_extend(&mut self, s: &[u8])
        ensures
            final(self).vb() == old(self).vb() + s@,
    ;

    fn vx_resize(&mut self, n: usize, x: u8)
        requires
            n >= old(self).vb().len(),
        ensures
            final(self).vb() == old(self).vb() + Seq::new((n - old(self).vb().len()) as nat, |i: int| x),
    ;
}

impl VxBuf for Vec<u8> {
    open spec fn vb(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_extend(&mut self, s: &[u8]) {
        self.extend_from_slice(s)
    }

    #[verifier::external_body]
    fn vx_resize(&mut self, n: usize, x: u8) {
        self.resize(n, x)
    }
}

#[verifier::external_body]
fn vx_split_at<'a>(s: &'a [u8], n: usize) -> (r: (&'a [u8], &'a [u8]))
    requires
        n <= s@.len(),
    ensures
        r.0@ == s@.take(n as int),
        r.1@ == s@.skip(n as int),
{
    s.split_at(n)
}

// a random generator: the n-th thing drawn from it is anything
pub uninterp spec fn drawn(n: int, len: int) -> Seq<u8>;

pub struct VRng {
    pub n: Ghost<int>,
}

impl VRng {
    #[verifier::external_body]
    fn fill_bytes<const N: usize>(&mut self, out: &mut [u8; N])
        ensures
            final(self).n@ == old(self).n@ + 1,
            final(out)@ == drawn(old(self).n@, N as int),
    {
        unimplemented!()
    }
}

// HTTP headers: name to value
pub enum VHeader {
    Number(u32),
    Hex(Seq<u8>),
}

pub struct VHeaders {
    pub m: Ghost<Map<Seq<char>, VHeader>>,
}

impl VHeaders {
    // insert(name.to_string(), x.to_string())
    #[verifier::external_body]
    fn vx_number(&mut self, name: &str, x: u32)
        ensures
            final(self).m@ == old(self).m@.insert(name@, VHeader::Number(x)),
    {
        unimplemented!()
    }

    // insert(name.to_string(), hex::encode(b))
    #[verifier::external_body]
    fn vx_hex(&mut self, name: &str, b: Vec<u8>)
        ensures
            final(self).m@ == old(self).m@.insert(name@, VHeader::Hex(b@)),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
fn vx_from_be32(b: [u8; 4]) -> (r: u32)
    ensures
        r == be_value(b@),
{
    u32::from_be_bytes(b)
}

// &a[from..to]
#[verifier::external_body]
fn vx_slice<'a>(a: &'a [u8], from: usize, to: usize) -> (r: &'a [u8])
    requires
        from <= to <= a@.len(),
    ensures
        r@ == a@.subrange(from as int, to as int),
{
    &a[from..to]
}

// value.try_into() to an array
#[verifier::external_body]
fn vx_to_array<const N: usize>(a: &[u8]) -> (r: Result<[u8; N], VxError>)
    ensures
        r is Ok <==> a@.len() == N,
        r matches Ok(x) ==> x@ == a@,
{
    unimplemented!()
}

// a[from..to].safe_copy_from_slice(src).unwrap()
#[verifier::external_body]
fn vx_copy_at<const N: usize>(a: &mut [u8; N], from: usize, to: usize, src: &[u8])
    requires
        from <= to <= N,
        src@.len() == to - from,
    ensures
        final(a)@ == old(a)@.take(from as int) + src@ + old(a)@.skip(to as int),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_copy_front<const N: usize, const M: usize>(src: &[u8; N], dest: &mut [u8; M])
    requires
        N <= M,
    ensures
        final(dest)@ == src@ + old(dest)@.skip(N as int),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_pairs<'a>(s: &'a [u8]) -> (r: VIter<&'a [u8]>)
    ensures
        r@.len() == s@.len() / 2,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == seq![s@[2 * i], s@[2 * i + 1]],
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_le16(p: &[u8]) -> (r: u16)
    requires
        p@.len() == 2,
    ensures
        r == p@[0] + 256 * p@[1],
{
    unimplemented!()
}

// format!("{:-^.P}", x)
fn vx_display(p: usize, x: ConsonantBase16) -> (r: VStr)
    requires
        p > 0,
    ensures
        r.b@ == printed(x.0@, p as int),
{
    let mut f = VFormatter { out: Ghost(Seq::empty()), prec: Some(p), fill: '-' };
    match x.fmt(&mut f) {
        Ok(()) => {
            proof {
                assert(Seq::<u8>::empty() + printed(x.0@, p as int) =~= printed(x.0@, p as int));
            }
            VStr { b: f.out }
        },
        Err(_) => vx_fmt_failed(),
    }
}

// formatting into a String does not fail
#[verifier::external_body]
fn vx_fmt_failed() -> (r: VStr)
    ensures
        false,
{
    unimplemented!()
}

// format!("{:-^.P}-{}-{}", a, b, c)
fn vx_display3(p: usize, a: ConsonantBase16, b: ConsonantBase16, c: ConsonantBase16) -> (r: VStr)
    requires
        p > 0,
    ensures
        r.b@ == printed(a.0@, p as int) + seq![45u8] + printed(b.0@, usize::MAX as int) + seq![45u8] + printed(
            c.0@,
            usize::MAX as int,
        ),
{
    let x = vx_display(p, a);
    let y = vx_display(usize::MAX, b);
    let z = vx_display(usize::MAX, c);
    VStr { b: Ghost(x.b@ + seq![45u8] + y.b@ + seq![45u8] + z.b@) }
}

#[verifier::external_body]
fn vx_to_vec<const N: usize>(a: &[u8; N]) -> (r: Vec<u8>)
    ensures
        r@ == a@,
{
    a.to_vec()
}

// ---- call link keys -------------------------------------------------------------------------
pub struct CallLinkSecretParams {
    p: u8,
}

impl CallLinkSecretParams {
    pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
}

//% source src/rust/src/lite/call_links/root_key.rs
//% item const CRN_LEN
//% item const VERSION_OFFSET
//% item struct CallLinkRootKeyV0 derive=Clone,Copy
//% item struct CallLinkRootKeyV1 derive=Clone,Copy sub=[u8;{}Self::LEN]=>[u8;{}21]
//% item enum CallLinkRootKey derive=Clone,Copy
//% item struct FailedToDecrypt
//% item enum CallLinkRootKeyError

pub struct CallLinkResponse {
    pub epoch: Option<u32>,
}

// two bytes that are four times the same hex digit, at an even position
pub open spec fn repeated(b: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < b.len() / 2 && #[trigger] b[2 * i] == b[2 * i + 1] && b[2 * i] % 17 == 0
}

pub open spec fn v0_ok(b: Seq<u8>) -> bool {
    b.len() == 16 && !repeated(b)
}

pub open spec fn v1_ok(b: Seq<u8>) -> bool {
    b.len() == 21 && !repeated(b.take(16)) && (b[16] == 1 || b[16] == 129)
}

pub open spec fn v0_text(b: Seq<u8>) -> Seq<u8> {
    printed(b, 2)
}

pub open spec fn v1_text(b: Seq<u8>) -> Seq<u8> {
    printed(b.take(16), 4) + seq![45u8] + printed(b.subrange(16, 17), usize::MAX as int) + seq![45u8] + printed(
        b.subrange(17, 21),
        usize::MAX as int,
    )
}

// more groups than needed change nothing
proof fn spare_groups(v: Seq<u8>, left: int, r: Seq<usize>, x: Seq<usize>)
    requires
        text(v, left, r) is Some,
    ensures
        text(v, left, r + x) == text(v, left, r),
    decreases v.len(), r.len(),
{
    if v.len() == 0 {
    } else if left <= 0 {
        assert((r + x).skip(1) =~= r.skip(1) + x);
        spare_groups(v, r[0] as int, r.skip(1), x);
    } else {
        spare_groups(v.skip(1), left - 1, r, x);
    }
}

proof fn one_group(v: Seq<u8>, a: int, b: int, r: Seq<usize>, x: Seq<usize>)
    requires
        a >= v.len(),
        b >= v.len(),
    ensures
        text(v, a, r) is Some,
        text(v, a, r) == text(v, b, x),
    decreases v.len(),
{
    if v.len() > 0 {
        one_group(v.skip(1), a - 1, b - 1, r, x);
    }
}

spec fn total(r: Seq<usize>) -> int
    decreases r.len(),
{
    if r.len() == 0 {
        0
    } else {
        r[0] as int + total(r.skip(1))
    }
}

proof fn join(u: Seq<u8>, w: Seq<u8>, left: int, r: Seq<usize>, g: usize, x: Seq<usize>)
    requires
        left >= 0,
        w.len() > 0,
        forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] > 0,
        left + total(r) == u.len(),
        text(w, g as int, x) is Some,
    ensures
        text(u, left, r) is Some,
        text(u + w, left, r + seq![g] + x) == Some(text(u, left, r)->0 + seq![45u8] + text(w, g as int, x)->0),
    decreases u.len(), r.len(),
{
    let rest = r + seq![g] + x;
    if u.len() == 0 {
        if r.len() > 0 {
            total_positive(r.skip(1));
            assert(r[0] > 0);
        }
        assert(u + w =~= w);
        assert(rest.skip(1) =~= x);
        assert(rest[0] == g);
        assert(Seq::<u8>::empty() + seq![45u8] =~= seq![45u8]);
    } else if left == 0 {
        if r.len() == 0 {
            assert(false);
        }
        assert(rest.skip(1) =~= r.skip(1) + seq![g] + x);
        assert(rest[0] == r[0]);
        join(u, w, r[0] as int, r.skip(1), g, x);
        let a = text(u, r[0] as int, r.skip(1))->0;
        let b = text(w, g as int, x)->0;
        assert(seq![45u8] + (a + seq![45u8] + b) =~= (seq![45u8] + a) + seq![45u8] + b);
    } else {
        join(u.skip(1), w, left - 1, r, g, x);
        assert((u + w).skip(1) =~= u.skip(1) + w);
        let d = seq![alpha(u[0] as int / 16), alpha(u[0] as int % 16)];
        let a = text(u.skip(1), left - 1, r)->0;
        let b = text(w, g as int, x)->0;
        assert(d + (a + seq![45u8] + b) =~= (d + a) + seq![45u8] + b);
    }
}

proof fn total_positive(r: Seq<usize>)
    ensures
        total(r) >= 0,
    decreases r.len(),
{
    if r.len() > 0 {
        total_positive(r.skip(1));
    }
}

// the text of a version 0 key is what the group sizes 2, 2, .. say
proof fn v0_groups(b: Seq<u8>, sizes: Seq<usize>)
    requires
        b.len() == 16,
        sizes =~= seq![2usize, 2, 2, 2, 2, 2, 2, 2],
    ensures
        text(b, sizes[0] as int, sizes.skip(1)) == Some(v0_text(b)),
{
    let r = rep(2, 7);
    always_printed(b, 2, 2, 7);
    assert(sizes.skip(1) =~= r);
    spare_groups(b, 2, r, rep(2, 9));
    assert(r + rep(2, 9) =~= rep(2, 16));
}

// and that of a version 1 key what 4, 4, 4, 4, 1, 4 say
proof fn v1_groups(b: Seq<u8>, sizes: Seq<usize>)
    requires
        b.len() == 21,
        sizes =~= seq![4usize, 4, 4, 4, 1, 4],
    ensures
        text(b, sizes[0] as int, sizes.skip(1)) == Some(v1_text(b)),
{
    let c = b.take(16);
    let v = b.subrange(16, 17);
    let e = b.subrange(17, 21);
    let none = Seq::<usize>::empty();
    let m = usize::MAX as int;
    one_group(v, 1, m, none, rep(m, 1));
    one_group(e, 4, m, none, rep(m, 4));
    reveal_with_fuel(total, 5);
    join(v, e, 1, none, 4usize, none);
    assert(none + seq![4usize] + none =~= seq![4usize]);
    assert(v + e =~= b.subrange(16, 21));
    let r = rep(4, 3);
    assert(r =~= seq![4usize, 4, 4]);
    assert(r.skip(1) =~= seq![4usize, 4]);
    assert(r.skip(1).skip(1) =~= seq![4usize]);
    assert(r.skip(1).skip(1).skip(1) =~= none);
    join(c, v + e, 4, r, 1usize, seq![4usize]);
    assert(c + (v + e) =~= b);
    assert(r + seq![1usize] + seq![4usize] =~= sizes.skip(1));
    always_printed(c, 4, 4, 3);
    spare_groups(c, 4, r, rep(4, 13));
    assert(r + rep(4, 13) =~= rep(4, 16));
    let d = seq![45u8];
    assert(printed(c, 4) + d + (printed(v, m) + d + printed(e, m)) =~= v1_text(b));
}

// a text is that of at most one key
proof fn one_key_per_text(a: CallLinkRootKey, b: CallLinkRootKey)
    requires
        a is V0 ==> a.bytes_of().len() == 16,
        a is V1 ==> a.bytes_of().len() == 21,
        b is V0 ==> b.bytes_of().len() == 16,
        b is V1 ==> b.bytes_of().len() == 21,
        a.text_of() == b.text_of(),
    ensures
        a.bytes_of() == b.bytes_of() && (a is V0 <==> b is V0),
{
    let s0 = seq![2usize, 2, 2, 2, 2, 2, 2, 2];
    let s1 = seq![4usize, 4, 4, 4, 1, 4];
    if a is V0 {
        v0_groups(a.bytes_of(), s0);
    } else {
        v1_groups(a.bytes_of(), s1);
    }
    if b is V0 {
        v0_groups(b.bytes_of(), s0);
    } else {
        v1_groups(b.bytes_of(), s1);
    }
    if a is V0 && b is V0 {
        unique(a.bytes_of(), b.bytes_of(), 2, s0.skip(1));
    } else if a is V1 && b is V1 {
        unique(a.bytes_of(), b.bytes_of(), 4, s1.skip(1));
    } else if a is V0 {
        mixed(a.bytes_of(), b.bytes_of());
    } else {
        mixed(b.bytes_of(), a.bytes_of());
    }
}

proof fn unique(v: Seq<u8>, w: Seq<u8>, left: int, r: Seq<usize>)
    requires
        text(v, left, r) is Some,
        text(v, left, r) == text(w, left, r),
        forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] > 0,
    ensures
        v == w,
    decreases v.len(), r.len(),
{
    alphabet_facts();
    text_not_empty(v, left, r);
    text_not_empty(w, left, r);
    if v.len() == 0 || w.len() == 0 {
        assert(v =~= w);
    } else if left <= 0 {
        let a = text(v, r[0] as int, r.skip(1))->0;
        let b = text(w, r[0] as int, r.skip(1))->0;
        assert(a =~= (seq![45u8] + a).skip(1));
        assert(b =~= (seq![45u8] + b).skip(1));
        unique(v, w, r[0] as int, r.skip(1));
    } else {
        let a = text(v.skip(1), left - 1, r)->0;
        let b = text(w.skip(1), left - 1, r)->0;
        let da = seq![alpha(v[0] as int / 16), alpha(v[0] as int % 16)];
        let db = seq![alpha(w[0] as int / 16), alpha(w[0] as int % 16)];
        assert((da + a)[0] == (db + b)[0]);
        assert((da + a)[1] == (db + b)[1]);
        assert(v[0] == w[0]);
        assert(a =~= (da + a).skip(2));
        assert(b =~= (db + b).skip(2));
        unique(v.skip(1), w.skip(1), left - 1, r);
        assert(v =~= seq![v[0]] + v.skip(1));
        assert(w =~= seq![w[0]] + w.skip(1));
    }
}

// a version 0 text has a dash after two bytes, a version 1 text has not
proof fn mixed(v: Seq<u8>, w: Seq<u8>)
    requires
        v.len() == 16,
        w.len() == 21,
    ensures
        v0_text(v) != v1_text(w),
{
    let s0 = seq![2usize, 2, 2, 2, 2, 2, 2, 2];
    let s1 = seq![4usize, 4, 4, 4, 1, 4];
    alphabet_facts();
    v0_groups(v, s0);
    v1_groups(w, s1);
    let a2 = text(v.skip(1), 1, s0.skip(1))->0;
    let a3 = text(v.skip(1).skip(1), 0, s0.skip(1))->0;
    let b2 = text(w.skip(1), 3, s1.skip(1))->0;
    let b3 = text(w.skip(1).skip(1), 2, s1.skip(1))->0;
    assert(a3[0] == 45);
    assert(a2[2] == a3[0]);
    assert(v0_text(v)[4] == a2[2]);
    assert(b3[0] != 45);
    assert(b2[2] == b3[0]);
    assert(v1_text(w)[4] == b2[2]);
}

//% fn has_repeated_chunk
    ensures
        r == repeated(bytes@),
    //% sub bytes\.chunks_exact\(2\) ==> vx_pairs(bytes)
    //% sub? u16::from_le_bytes\(pair\.try_into\(\)\.unwrap\(\)\) ==> vx_le16(pair)
    //% head
        let ghost mut n: int = 0;
    //% loop 0
            invariant
                0 <= n,
                n + vx_it_0@.len() == bytes@.len() / 2,
                forall|i: int|
                    0 <= i < vx_it_0@.len() ==> (#[trigger] vx_it_0@[i])@ == seq![
                        bytes@[2 * (n + i)],
                        bytes@[2 * (n + i) + 1],
                    ],
                forall|i: int|
                    0 <= i < n ==> !(#[trigger] bytes@[2 * i] == bytes@[2 * i + 1] && bytes@[2 * i] % 17 == 0),
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% loophead 0
            proof {
                let a = pair@[0];
                let b = pair@[1];
                same_digit(a, b);
                assert(a == bytes@[2 * n] && b == bytes@[2 * n + 1]);
                n = n + 1;
            }
//% end

proof fn same_digit(a: u8, b: u8)
    ensures
        (a + 256 * b) % 0x1111 == 0 <==> a == b && a % 17 == 0,
{
    let x = (a as u16) + 256 * (b as u16);
    assert(add(a as u16, mul(256u16, b as u16)) % 0x1111 == 0 <==> a == b && a % 17 == 0) by (bit_vector);
}

impl<'a> ConsonantBase16<'a> {
    //% source src/rust/src/lite/call_links/base16.rs
    //% fn From<&'a[u8]> for ConsonantBase16::from as from
        ensures
            r.0@ == bytes@,
    //% end
    //% source src/rust/src/lite/call_links/root_key.rs
}

impl CallLinkRootKeyV0 {
    //% fn CallLinkRootKeyOps for CallLinkRootKeyV0::process_server_response
        ensures
            r matches Ok(None),
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV0::prepare_http_headers
        ensures
            final(_headers).m@ == old(_headers).m@,
    //% sub? &mut HashMap<String, String> ==> &mut VHeaders
    //% end

    //% const CallLinkRootKeyV0::LEN
    //% const CallLinkRootKeyV0::HKDF_INFO_CIPHER

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV0::is_valid
        ensures
            r,
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV0::as_slice
        ensures
            r@ == self.crn@,
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV0::make_cipher
        ensures
            r.key@ == kdf(self.crn@, Self::HKDF_INFO_CIPHER@, 32),
    //% sub? Key::<Aes256GcmSiv>::default\(\) ==> [0u8; 32]
    //% sub? Hkdf::<Sha256> ==> Hkdf
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV0::to_formatted_string
        ensures
            r.b@ == v0_text(self.crn@),
    //% sub? format!\(\s*"\{:-\^\.(\d+)\}", ==> vx_display(\1, 
    //% sub? base16::ConsonantBase16 ==> ConsonantBase16
    //% sub? String ==> VStr
    //% end

    //% fn TryFrom<&[u8]> for CallLinkRootKeyV0::try_from as try_from_bytes
        ensures
            r is Ok <==> v0_ok(value@),
            r matches Ok(k) ==> k.crn@ == value@,
    //% sub? std::result::Result<Self, Self::Error> ==> Result<CallLinkRootKeyV0, VxError>
    //% sub value\.try_into\(\) ==> vx_to_array::<16>(value)
    //% end

    //% fn TryFrom<&str> for CallLinkRootKeyV0::try_from as try_from_text
        ensures
            r matches Ok(k) ==> v0_ok(k.crn@) && value.b@ == v0_text(k.crn@),
            r is Err ==> forall|b: Seq<u8>| v0_ok(b) ==> value.b@ != #[trigger] v0_text(b),
    //% before let bytes
        proof {
            assert forall|b: Seq<u8>| v0_ok(b) implies (value.b@ == #[trigger] v0_text(b) <==> decodes(value.b@, SEPARATORS@, b)) by {
                v0_groups(b, SEPARATORS@);
            }
        }
    //% sub? value: &str ==> value: &VStr
    //% sub? std::result::Result<Self, Self::Error> ==> Result<CallLinkRootKeyV0, VxError>
    //% sub? base16::ConsonantBase16::parse_with_separators\(value, (\w+)\) ==> ConsonantBase16::parse_with_separators(value, vx_sizes(\1))
    //% sub? Self::try_from\( ==> Self::try_from_bytes(
    //% closure 0
        |e: DecodeError| -> (o: VxError)
    //% end
}

impl CallLinkRootKeyV1 {
    //% const CallLinkRootKeyV1::VERSION
    //% const CallLinkRootKeyV1::LEN
    //% const CallLinkRootKeyV1::EPOCH_OFFSET
    //% const CallLinkRootKeyV1::EPOCH_LEN
    //% const CallLinkRootKeyV1::VERSION_MASK
    //% const CallLinkRootKeyV1::INVALID_BIT
    //% const CallLinkRootKeyV1::HKDF_INFO_CIPHER
    //% const CallLinkRootKeyV1::HTTP_EPOCH_HEADER

    //% fn CallLinkRootKeyV1::without_epoch
        ensures
            r.bytes@ == crn@ + seq![129u8, 0, 0, 0, 0],
    //% sub? safe_copy_array\(crn, &mut bytes\) ==> vx_copy_front(crn, &mut bytes)
    //% head
        proof {
            consts_v1();
        }
    //% end

    //% fn CallLinkRootKeyV1::with_epoch
        ensures
            r.bytes@ == crn@ + seq![1u8] + be32(epoch),
    //% sub? safe_copy_array\(crn, &mut bytes\) ==> vx_copy_front(crn, &mut bytes)
    //% sub? bytes\[([^\]]*?)\.\.([^\]]*?)\]\s*\.safe_copy_from_slice\(&epoch\.to_be_bytes\(\)\)\s*\.unwrap\(\) ==> vx_copy_at(&mut bytes, \1, \2, &epoch.vx_to_be_bytes())
    //% head
        proof {
            consts_v1();
        }
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV1::is_valid
        ensures
            r == (self.bytes@[16] < 128),
    //% head
        proof {
            consts_v1();
        }
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV1::as_slice
        ensures
            r@ == self.bytes@,
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV1::make_cipher
        ensures
            r.key@ == kdf(self.bytes@.take(16), Self::HKDF_INFO_CIPHER@, 32),
    //% sub? Key::<Aes256GcmSiv>::default\(\) ==> [0u8; 32]
    //% sub? Hkdf::<Sha256> ==> Hkdf
    //% sub? &self\.bytes\[\.\.(\w+)\] ==> vx_slice(&self.bytes, 0, \1)
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV1::prepare_http_headers
        ensures
            self.bytes@[16] >= 128 ==> final(headers).m@ == old(headers).m@,
            self.bytes@[16] < 128 ==> exists|e: u32|
                e == be_value(self.bytes@.subrange(17, 21)) && #[trigger] old(headers).m@.insert(
                    Self::HTTP_EPOCH_HEADER@,
                    VHeader::Number(e),
                ) == final(headers).m@,
    //% sub? &mut HashMap<String, String> ==> &mut VHeaders
    //% sub? &self\.bytes\[([^\]]*?)\.\.([^\]]*?)\] ==> vx_slice(&self.bytes, \1, \2)
    //% sub? u32::from_be_bytes\((\w+)\.try_into\(\)\.unwrap\(\)\) ==> vx_from_be32(vx_to_array::<4>(\1).unwrap())
    //% sub? headers\.insert\(([\w:]+)\.to_string\(\), (\w+)\.to_string\(\)\) ==> headers.vx_number(\1, \2)
    //% head
        proof {
            consts_v1();
        }
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV1::process_server_response
        ensures
            self.bytes@[16] < 128 ==> r matches Ok(None),
            self.bytes@[16] >= 128 ==> match response.epoch {
                None => r matches Ok(Some(k)) && k.bytes_of() == self.bytes@.take(16) && k is V0,
                Some(e) => r matches Ok(Some(k)) && k is V1 && k.bytes_of() == self.bytes@.take(16) + seq![1u8] + be32(e),
            },
    //% sub? ((?:\w+\.)*\w+)\.map_or_else\( ==> vx_map_or_else(\1, 
    //% closure 0
        || -> (o: CallLinkRootKey)
            ensures o == ($BODY)
    //% closure 1
        |epoch: u32| -> (o: CallLinkRootKey)
            ensures o is V1 && o.bytes_of() == crn@ + seq![1u8] + be32(epoch)
    //% sub? self\.bytes\[\.\.(\w+)\]\.try_into\(\) ==> vx_to_array::<16>(vx_slice(&self.bytes, 0, \1))
    //% end

    //% fn CallLinkRootKeyOps for CallLinkRootKeyV1::to_formatted_string
        ensures
            r.b@ == v1_text(self.bytes@),
    //% sub? format!\(\s*"\{:-\^\.(\d+)\}-\{\}-\{\}", ==> vx_display3(\1, 
    //% sub? base16::ConsonantBase16 ==> ConsonantBase16
    //% sub? String ==> VStr
    //% sub? &self\.bytes\[\.\.(\w+)\] ==> vx_slice(&self.bytes, 0, \1)
    //% sub? &self\.bytes\[([^\]]*?)\.\.([^\]]*?)\] ==> vx_slice(&self.bytes, \1, \2)
    //% end

    //% fn TryFrom<&[u8]> for CallLinkRootKeyV1::try_from as try_from_bytes
        ensures
            r is Ok <==> v1_ok(value@),
            r matches Ok(k) ==> k.bytes@ == value@,
    //% sub? std::result::Result<Self, Self::Error> ==> Result<CallLinkRootKeyV1, VxError>
    //% sub value\.try_into\(\) ==> vx_to_array::<21>(value)
    //% sub? Self::LEN\] ==> 21]
    //% sub? &bytes\[\.\.(\w+)\] ==> vx_slice(&bytes, 0, \1)
    //% head
        proof {
            consts_v1();
        }
    //% end

    //% fn TryFrom<&str> for CallLinkRootKeyV1::try_from as try_from_text
        ensures
            r matches Ok(k) ==> v1_ok(k.bytes@) && value.b@ == v1_text(k.bytes@),
            r is Err ==> forall|b: Seq<u8>| v1_ok(b) ==> value.b@ != #[trigger] v1_text(b),
    //% before let bytes
        proof {
            assert forall|b: Seq<u8>| v1_ok(b) implies (value.b@ == #[trigger] v1_text(b) <==> decodes(value.b@, SEPARATORS@, b)) by {
                v1_groups(b, SEPARATORS@);
            }
        }
    //% sub? value: &str ==> value: &VStr
    //% sub? std::result::Result<Self, Self::Error> ==> Result<CallLinkRootKeyV1, VxError>
    //% sub? base16::ConsonantBase16::parse_with_separators\(value, (\w+)\) ==> ConsonantBase16::parse_with_separators(value, vx_sizes(\1))
    //% sub? Self::try_from\( ==> Self::try_from_bytes(
    //% closure 0
        |e: DecodeError| -> (o: VxError)
    //% end
}

impl CallLinkRootKey {
    //% const CallLinkRootKey::HKDF_INFO_ROOM_ID
    //% const CallLinkRootKey::HTTP_ROOM_ID_HEADER
    //% const CallLinkRootKey::ENCRYPTION_PADDING_MARKER
    //% const CallLinkRootKey::ENCRYPTION_BLOCK_SIZE

    pub open spec fn bytes_of(self) -> Seq<u8> {
        match self {
            CallLinkRootKey::V0(k) => k.crn@,
            CallLinkRootKey::V1(k) => k.bytes@,
        }
    }

    pub open spec fn label(self) -> Seq<u8> {
        match self {
            CallLinkRootKey::V0(k) => CallLinkRootKeyV0::HKDF_INFO_CIPHER@,
            CallLinkRootKey::V1(k) => CallLinkRootKeyV1::HKDF_INFO_CIPHER@,
        }
    }

    pub open spec fn cipher_key(self) -> Seq<u8> {
        kdf(self.bytes_of().take(16), self.label(), 32)
    }

    pub open spec fn text_of(self) -> Seq<u8> {
        match self {
            CallLinkRootKey::V0(k) => v0_text(k.crn@),
            CallLinkRootKey::V1(k) => v1_text(k.bytes@),
        }
    }

    // Deref to the trait object of the variant, and the call through it
    fn vx_make_cipher(&self) -> (r: Aes256GcmSiv)
        ensures
            r.key@ == self.cipher_key(),
    {
        match self {
            CallLinkRootKey::V0(k) => {
                assert(k.crn@.take(16) =~= k.crn@);
                k.make_cipher()
            },
            CallLinkRootKey::V1(k) => k.make_cipher(),
        }
    }

    fn vx_is_valid(&self) -> (r: bool)
        ensures
            r == (self is V0 || self.bytes_of()[16] < 128),
    {
        match self {
            CallLinkRootKey::V0(k) => k.is_valid(),
            CallLinkRootKey::V1(k) => k.is_valid(),
        }
    }

    fn vx_as_slice(&self) -> (r: &[u8])
        ensures
            r@ == self.bytes_of(),
    {
        match self {
            CallLinkRootKey::V0(k) => k.as_slice(),
            CallLinkRootKey::V1(k) => k.as_slice(),
        }
    }

    fn vx_to_formatted_string(&self) -> (r: VStr)
        ensures
            r.b@ == self.text_of(),
    {
        match self {
            CallLinkRootKey::V0(k) => k.to_formatted_string(),
            CallLinkRootKey::V1(k) => k.to_formatted_string(),
        }
    }

    fn vx_process_server_response(&self, response: &CallLinkResponse) -> (r: Result<Option<CallLinkRootKey>, CallLinkRootKeyError>)
        ensures
            self is V0 || self.bytes_of()[16] < 128 ==> r matches Ok(None),
            self is V1 && self.bytes_of()[16] >= 128 ==> match response.epoch {
                None => r matches Ok(Some(k)) && k.bytes_of() == self.bytes_of().take(16) && k is V0,
                Some(e) => r matches Ok(Some(k)) && k is V1 && k.bytes_of() == self.bytes_of().take(16) + seq![1u8] + be32(e),
            },
    {
        match self {
            CallLinkRootKey::V0(k) => k.process_server_response(response),
            CallLinkRootKey::V1(k) => k.process_server_response(response),
        }
    }

    //% fn CallLinkRootKey::process_server_response
        ensures
            self is V0 || self.bytes_of()[16] < 128 ==> r matches Ok(None),
            self is V1 && self.bytes_of()[16] >= 128 ==> match response.epoch {
                None => r matches Ok(Some(k)) && k.bytes_of() == self.bytes_of().take(16) && k is V0,
                Some(e) => r matches Ok(Some(k)) && k is V1 && k.bytes_of() == self.bytes_of().take(16) + seq![1u8] + be32(e),
            },
    //% sub? \(\*\*self\)\.process_server_response ==> self.vx_process_server_response
    //% end

    //% fn CallLinkRootKey::as_slice
        ensures
            r@ == self.bytes_of(),
    //% sub? \(\*\*self\)\.as_slice ==> self.vx_as_slice
    //% end

    //% fn CallLinkRootKey::is_valid
        ensures
            r == (self is V0 || self.bytes_of()[16] < 128),
    //% sub? \(\*\*self\)\.is_valid ==> self.vx_is_valid
    //% end

    //% fn CallLinkRootKey::to_formatted_string
        ensures
            r.b@ == self.text_of(),
    //% sub? \(\*\*self\)\.to_formatted_string ==> self.vx_to_formatted_string
    //% sub? String ==> VStr
    //% end

    fn vx_prepare_http_headers(&self, headers: &mut VHeaders)
        ensures
            self is V0 || self.bytes_of()[16] >= 128 ==> final(headers).m@ == old(headers).m@,
            !(self is V0 || self.bytes_of()[16] >= 128) ==> exists|e: u32|
                e == be_value(self.bytes_of().subrange(17, 21)) && #[trigger] old(headers).m@.insert(
                    CallLinkRootKeyV1::HTTP_EPOCH_HEADER@,
                    VHeader::Number(e),
                ) == final(headers).m@,
    {
        match self {
            CallLinkRootKey::V0(k) => k.prepare_http_headers(headers),
            CallLinkRootKey::V1(k) => k.prepare_http_headers(headers),
        }
    }

    pub open spec fn room_id(self) -> Seq<u8> {
        kdf(self.bytes_of().take(16), Self::HKDF_INFO_ROOM_ID@, 32)
    }

    //% fn CallLinkRootKey::prepare_http_headers
        ensures
            ({
                let with_room = old(headers).m@.insert(Self::HTTP_ROOM_ID_HEADER@, VHeader::Hex(self.room_id()));
                if self is V0 || self.bytes_of()[16] >= 128 {
                    final(headers).m@ == with_room
                } else {
                    exists|e: u32|
                        e == be_value(self.bytes_of().subrange(17, 21)) && #[trigger] with_room.insert(
                            CallLinkRootKeyV1::HTTP_EPOCH_HEADER@,
                            VHeader::Number(e),
                        ) == final(headers).m@
                }
            }),
    //% sub? &mut HashMap<String, String> ==> &mut VHeaders
    //% sub? \(\*\*self\)\.prepare_http_headers ==> self.vx_prepare_http_headers
    //% sub? headers\.insert\(([\w:]+)\.to_string\(\), hex::encode\((\w+)\)\) ==> headers.vx_hex(\1, \2)
    //% end

    //% fn CallLinkRootKey::generate_admin_passkey
        ensures
            r@ == drawn(old(rng).n@, 16),
    //% sub? mut rng: impl RngCore \+ CryptoRng ==> rng: &mut VRng
    //% sub? \[0; 16\] ==> [0u8; 16]
    //% sub? result\.to_vec\(\) ==> vx_to_vec(&result)
    //% end

    //% fn CallLinkRootKey::generate
        ensures
            r is V1,
            v1_ok(r.bytes_of()),
            !(r.bytes_of()[16] < 128),
            exists|n: int| r.bytes_of().take(16) == #[trigger] drawn(n, 16),
    //% attr verifier::exec_allows_no_decreases_clause
    //% sub? mut rng: impl RngCore \+ CryptoRng ==> rng: &mut VRng
    //% sub? rng\.fill_bytes\(&mut crn\[\.\.CRN_LEN\]\) ==> rng.fill_bytes(&mut crn)
    //% sub? &crn\[\.\.CRN_LEN\] ==> &crn
    //% loop 0
            invariant
                crn@ == drawn(rng.n@ - 1, 16),
            ensures
                !repeated(crn@),
    //% before Self::V1
        proof {
            let b = crn@ + seq![129u8, 0, 0, 0, 0];
            assert(b.take(16) =~= crn@);
        }
    //% end

    //% fn CallLinkRootKey::derive_room_id
        ensures
            r@ == self.room_id(),
    //% sub? Hkdf::<Sha256> ==> Hkdf
    //% sub? &self\.as_slice\(\)\[\.\.(\w+)\] ==> vx_slice(self.as_slice(), 0, \1)
    //% sub? room_id_bytes\.to_vec\(\) ==> vx_to_vec(&room_id_bytes)
    //% end

    //% fn CallLinkRootKey::encrypt
        requires
            plaintext@.len() < 0x7fff_ff00,
        ensures
            name_box(self.cipher_key(), plaintext@, r@),
            r@.take(12) == drawn(old(rng).n@, 12),
    //% sub? mut rng: impl RngCore \+ CryptoRng ==> rng: &mut VRng
    //% sub? \[0; <Aes256GcmSiv as AeadCore>::NonceSize::USIZE\] ==> [0u8; 12]
    //% sub? \.extend_from_slice\( ==> .vx_extend(
    //% sub? \.resize\( ==> .vx_resize(
    //% sub? \(\*\*self\)\s*\.make_cipher ==> self.vx_make_cipher
    //% sub? \.encrypt_in_place_detached\(&nonce\.into\(\), &\[\], &mut buffer\[(.*?)\.\.\]\) ==> .vx_seal_in_place(&nonce, &mut buffer, \1)
    //% before let tag
        let ghost before = buffer@;
        proof {
            assert(before.skip(12) =~= padded(plaintext@));
            assert(before.take(12) =~= nonce@);
        }
    //% after buffer\.vx_extend\(&tag\)
        proof {
            let c = buffer@;
            assert(c.take(12) =~= nonce@);
            assert(c =~= nonce@ + seal(self.cipher_key(), nonce@, padded(plaintext@)).0 + tag@);
        }
    //% end

    //% fn CallLinkRootKey::decrypt
        ensures
            match r {
                Ok(m) => encrypted@.len() >= 12 && match open_sealed(
                    self.cipher_key(),
                    encrypted@.take(12),
                    encrypted@.skip(12),
                ) {
                    None => false,
                    Some(p) => unpads(p, m@),
                },
                Err(_) => encrypted@.len() < 12 || match open_sealed(
                    self.cipher_key(),
                    encrypted@.take(12),
                    encrypted@.skip(12),
                ) {
                    None => true,
                    Some(p) => !p.contains(128u8),
                },
            },
    //% before plaintext\.truncate
        let ghost whole = plaintext@;
    //% before ^\s*Ok\(plaintext\)
        proof {
            assert(unpads(whole, plaintext@));
        }
    //% sub? <Aes256GcmSiv as AeadCore>::NonceSize::USIZE ==> 12usize
    //% sub? encrypted\.split_at\((\w+)\) ==> vx_split_at(encrypted, \1)
    //% sub? \(\*\*self\)\s*\.make_cipher ==> self.vx_make_cipher
    //% sub? \.decrypt\(nonce\.into\(\), ==> .vx_open(nonce, 
    //% sub? plaintext\s*\.iter\(\)\s*\.rposition\(\|&(\w+)\| ==> vx_rposition(&plaintext, |\1|
    //% closure 0
        |e: VxCryptoError| -> (o: FailedToDecrypt)
    //% closure 1
        |b: u8| -> (o: bool)
            ensures o == ($BODY)
    //% end

    //% fn TryFrom<&[u8]> for CallLinkRootKey::try_from as try_from_bytes
        ensures
            r is Ok <==> v0_ok(value@) || v1_ok(value@),
            r matches Ok(k) ==> k.bytes_of() == value@ && (k is V0 <==> value@.len() == 16),
    //% sub? std::result::Result<Self, Self::Error> ==> Result<CallLinkRootKey, VxError>
    //% sub? ::try_from\( ==> ::try_from_bytes(
    //% end

    //% fn TryFrom<&str> for CallLinkRootKey::try_from as try_from_text
        ensures
            r matches Ok(k) ==> value.b@ == k.text_of() && (k is V0 ==> v0_ok(k.bytes_of())) && (k is V1 ==> v1_ok(k.bytes_of())),
            r is Err ==> forall|b: Seq<u8>| v0_ok(b) ==> value.b@ != #[trigger] v0_text(b),
            r is Err ==> forall|b: Seq<u8>| v1_ok(b) ==> value.b@ != #[trigger] v1_text(b),
    //% sub? value: &str ==> value: &VStr
    //% sub? std::result::Result<Self, Self::Error> ==> Result<CallLinkRootKey, VxError>
    //% sub? ::try_from\( ==> ::try_from_text(
    //% end
}

// ---- names under a root key -----------------------------------------------------------------
pub open spec fn padded(m: Seq<u8>) -> Seq<u8> {
    m + seq![128u8] + Seq::new(((32 - (m.len() + 13) % 32) % 32) as nat, |i: int| 0u8)
}

pub open spec fn name_box(key: Seq<u8>, m: Seq<u8>, c: Seq<u8>) -> bool {
    &&& c.len() >= 12
    &&& c == c.take(12) + seal(key, c.take(12), padded(m)).0 + seal(key, c.take(12), padded(m)).1
}

// p is m, the marker, and something without a marker
pub open spec fn unpads(p: Seq<u8>, m: Seq<u8>) -> bool {
    &&& m.len() < p.len()
    &&& p.take(m.len() as int) == m
    &&& p[m.len() as int] == 128
    &&& forall|j: int| m.len() < j < p.len() ==> #[trigger] p[j] != 128
}

// what one side encrypts, the other side with the same 16 key bytes reads, and the length of the
// box says only how many 32-byte blocks there are
proof fn names_round_trip(a: CallLinkRootKey, b: CallLinkRootKey, m: Seq<u8>, c: Seq<u8>)
    requires
        a.cipher_key() == b.cipher_key(),
        name_box(a.cipher_key(), m, c),
    ensures
        open_sealed(b.cipher_key(), c.take(12), c.skip(12)) == Some(padded(m)),
        padded(m).contains(128u8),
        forall|x: Seq<u8>| #[trigger] unpads(padded(m), x) ==> x == m,
        (c.len() - 16) % 32 == 0,
{
    let k = a.cipher_key();
    seal_opens(k, c.take(12), padded(m));
    let s = seal(k, c.take(12), padded(m));
    assert(c.skip(12) =~= s.0 + s.1);
    assert(padded(m)[m.len() as int] == 128);
    assert forall|x: Seq<u8>| #[trigger] unpads(padded(m), x) implies x == m by {
        let p = padded(m);
        assert(x.len() == m.len()) by {
            if x.len() < m.len() {
                assert(p[m.len() as int] != 128);
            }
            if x.len() > m.len() {
                assert(p[x.len() as int] == 0);
            }
        }
        assert(x =~= m) by {
            assert(p.take(x.len() as int) =~= m);
        }
    }
}

proof fn consts_v1()
    ensures
        CRN_LEN == 16,
        CallLinkRootKeyV1::LEN == 21,
        CallLinkRootKeyV1::EPOCH_OFFSET == 17,
        CallLinkRootKeyV1::EPOCH_LEN == 4,
        VERSION_OFFSET == 16,
        1u8 | 0x80u8 == 129,
        0x80u8 ^ 0xffu8 == 0x7f,
        forall|x: u8| #[trigger] (x & 0x80u8) == 0 <==> x < 128,
        forall|x: u8| #[trigger] (x & 0x7fu8) == 1 <==> x == 1 || x == 129,
{
    assert(1u8 | 0x80u8 == 129) by (bit_vector);
    assert(0x80u8 ^ 0xffu8 == 0x7f) by (bit_vector);
    assert forall|x: u8| #[trigger] (x & 0x80u8) == 0 <==> x < 128 by {
        assert((x & 0x80u8) == 0 <==> x < 128) by (bit_vector);
    }
    assert forall|x: u8| #[trigger] (x & 0x7fu8) == 1 <==> x == 1 || x == 129 by {
        assert((x & 0x7fu8) == 1 <==> x == 1 || x == 129) by (bit_vector);
    }
}
