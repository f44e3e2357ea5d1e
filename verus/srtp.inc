// ---- x25519 and HKDF-SHA256: uninterpreted, their contracts are trusted --------------------------
pub uninterp spec fn dh(secret: Seq<u8>, public: Seq<u8>) -> Seq<u8>;

// the shared point is not the identity
pub uninterp spec fn shared_well(shared: Seq<u8>) -> bool;

pub uninterp spec fn kdf_salted(salt: Seq<u8>, ikm: Seq<u8>, info: Seq<u8>, n: int) -> Seq<u8>;

// the bytes of a text literal
pub uninterp spec fn label(s: Seq<char>) -> Seq<u8>;

#[verifier::external_body]
fn vx_label(s: &str) -> (r: &[u8])
    ensures
        r@ == label(s@),
{
    s.as_bytes()
}

pub struct PublicKey {
    pub b: [u8; 32],
}

impl PublicKey {
    fn from(b: [u8; 32]) -> (r: PublicKey)
        ensures
            r.b == b,
    {
        PublicKey { b }
    }
}

pub struct SharedSecret {
    pub b: [u8; 32],
}

impl SharedSecret {
    #[verifier::external_body]
    fn was_contributory(&self) -> (r: bool)
        ensures
            r == shared_well(self.b@),
    {
        unimplemented!()
    }

    fn as_bytes(&self) -> (r: &[u8; 32])
        ensures
            r@ == self.b@,
    {
        &self.b
    }
}

pub struct StaticSecret {
    pub b: [u8; 32],
}

impl StaticSecret {
    #[verifier::external_body]
    fn diffie_hellman(&self, public: &PublicKey) -> (r: SharedSecret)
        ensures
            r.b@ == dh(self.b@, public.b@),
    {
        unimplemented!()
    }
}

pub struct EphemeralSecret {
    pub b: [u8; 32],
}

impl EphemeralSecret {
    #[verifier::external_body]
    fn diffie_hellman(self, public: &PublicKey) -> (r: SharedSecret)
        ensures
            r.b@ == dh(self.b@, public.b@),
    {
        unimplemented!()
    }
}

pub struct KdfSalted {
    pub salt: Ghost<Seq<u8>>,
    pub ikm: Ghost<Seq<u8>>,
}

impl KdfSalted {
    #[verifier::external_body]
    fn new(salt: Option<&[u8]>, ikm: &[u8; 32]) -> (r: KdfSalted)
        requires
            salt is Some,
        ensures
            r.salt@ == salt.unwrap()@,
            r.ikm@ == ikm@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn expand(&self, info: &[u8], out: &mut [u8]) -> (r: Result<(), VxError>)
        ensures
            final(out)@.len() == old(out)@.len(),
            old(out)@.len() <= 255 * 32 ==> r is Ok && final(out)@ == kdf_salted(
                self.salt@,
                self.ikm@,
                info@,
                old(out)@.len() as int,
            ),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn expand_two(&self, a: &[u8], b: &[u8], out: &mut [u8]) -> (r: Result<(), VxError>)
        ensures
            final(out)@.len() == old(out)@.len(),
            old(out)@.len() <= 255 * 32 ==> r is Ok && final(out)@ == kdf_salted(
                self.salt@,
                self.ikm@,
                a@ + b@,
                old(out)@.len() as int,
            ),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
fn vx_whole<const N: usize>(a: &mut [u8; N]) -> (r: &mut [u8])
    ensures
        r@ == old(a)@,
        final(r)@.len() == N ==> final(a)@ == final(r)@,
{
    &mut a[..]
}

#[verifier::external_body]
fn vx_whole_vec(a: &mut Vec<u8>) -> (r: &mut [u8])
    ensures
        r@ == old(a)@,
        final(r)@.len() == old(a)@.len() ==> final(a)@ == final(r)@,
{
    &mut a[..]
}

#[verifier::external_body]
fn vx_as_slice<const N: usize>(a: &[u8; N]) -> (r: &[u8])
    ensures
        r@ == a@,
{
    &a[..]
}

#[verifier::external_body]
fn vx_vec_slice(a: &Vec<u8>) -> (r: &[u8])
    ensures
        r@ == a@,
{
    &a[..]
}

#[verifier::external_body]
fn vx_zeros(n: usize) -> (r: Vec<u8>)
    ensures
        r@ == Seq::new(n as nat, |i: int| 0u8),
{
    vec![0u8; n]
}

#[verifier::external_body]
fn vx_put(v: &mut Vec<u8>, b: &[u8])
    ensures
        final(v)@ == old(v)@ + b@,
{
    v.extend_from_slice(b)
}

// ranges of a slice
pub trait VxRange {
    spec fn vx_bytes(&self) -> Seq<u8>;

    fn vx_from(&self, i: usize) -> (r: &[u8])
        requires
            i <= self.vx_bytes().len(),
        ensures
            r@ == self.vx_bytes().subrange(i as int, self.vx_bytes().len() as int),
    ;

    fn vx_upto(&self, i: usize) -> (r: &[u8])
        requires
            i <= self.vx_bytes().len(),
        ensures
            r@ == self.vx_bytes().subrange(0, i as int),
    ;

    fn vx_split_at(&self, i: usize) -> (r: (&[u8], &[u8]))
        requires
            i <= self.vx_bytes().len(),
        ensures
            r.0@ == self.vx_bytes().subrange(0, i as int),
            r.1@ == self.vx_bytes().subrange(i as int, self.vx_bytes().len() as int),
    ;

    fn vx_to_vec(&self) -> (r: Vec<u8>)
        ensures
            r@ == self.vx_bytes(),
    ;
}

impl VxRange for [u8] {
    open spec fn vx_bytes(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_from(&self, i: usize) -> (r: &[u8]) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_upto(&self, i: usize) -> (r: &[u8]) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_split_at(&self, i: usize) -> (r: (&[u8], &[u8])) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }
}

// ---- the keys -----------------------------------------------------------------------------------
//% source src/rust/src/webrtc/sdp_observer.rs
//% item enum SrtpCryptoSuite derive=Clone,Copy
//% item struct SrtpKey

pub open spec fn key_bytes(s: SrtpCryptoSuite) -> int {
    match s {
        SrtpCryptoSuite::AeadAes256Gcm => 32,
        _ => 16,
    }
}

pub open spec fn salt_bytes(s: SrtpCryptoSuite) -> int {
    match s {
        SrtpCryptoSuite::Aes128CmSha1 => 14,
        _ => 12,
    }
}

impl SrtpCryptoSuite {
    //% fn SrtpCryptoSuite::key_size
        ensures
            r == key_bytes(self),
    //% end

    //% fn SrtpCryptoSuite::salt_size
        ensures
            r == salt_bytes(self),
    //% end
}

// a key and its salt, from bytes in that order
pub open spec fn key_of(k: SrtpKey, suite: SrtpCryptoSuite, b: Seq<u8>) -> bool {
    &&& k.suite == suite
    &&& b.len() == key_bytes(suite) + salt_bytes(suite)
    &&& k.key@ == b.subrange(0, key_bytes(suite))
    &&& k.salt@ == b.subrange(key_bytes(suite), b.len() as int)
}

// two keys after one another
pub open spec fn keys_of(first: SrtpKey, second: SrtpKey, suite: SrtpCryptoSuite, b: Seq<u8>) -> bool {
    let n = key_bytes(suite) + salt_bytes(suite);
    b.len() == 2 * n && key_of(first, suite, b.subrange(0, n)) && key_of(second, suite, b.subrange(n, 2 * n))
}

proof fn key_parts(b: Seq<u8>, k: int, s: int)
    requires
        b.len() == 2 * (k + s),
        0 <= k,
        0 <= s,
    ensures
        b.subrange(0, k + s).subrange(0, k) == b.subrange(0, k),
        b.subrange(0, k + s).subrange(k, k + s) == b.subrange(k, k + s),
        b.subrange(k + s, 2 * (k + s)).subrange(0, k) == b.subrange(k + s, k + s + k),
        b.subrange(k + s, 2 * (k + s)).subrange(k, k + s) == b.subrange(k + s + k, 2 * (k + s)),
        b.subrange(0, k + s).len() == k + s,
        b.subrange(k + s, 2 * (k + s)).len() == k + s,
        // as the code cuts
        b.subrange(k, b.len() as int).subrange(0, s) == b.subrange(k, k + s),
        b.subrange(k, b.len() as int).subrange(s, b.len() - k) == b.subrange(k + s, b.len() as int),
        b.subrange(k + s, b.len() as int).subrange(0, k) == b.subrange(k + s, k + s + k),
        b.subrange(k + s, b.len() as int).subrange(k, b.len() - k - s) == b.subrange(k + s + k, b.len() as int),
        b.subrange(k + s + k, b.len() as int).subrange(0, s) == b.subrange(k + s + k, b.len() as int),
{
    assert(b.subrange(0, k + s).subrange(0, k) =~= b.subrange(0, k));
    assert(b.subrange(0, k + s).subrange(k, k + s) =~= b.subrange(k, k + s));
    assert(b.subrange(k + s, 2 * (k + s)).subrange(0, k) =~= b.subrange(k + s, k + s + k));
    assert(b.subrange(k + s, 2 * (k + s)).subrange(k, k + s) =~= b.subrange(k + s + k, 2 * (k + s)));
    assert(b.subrange(k, b.len() as int).subrange(0, s) =~= b.subrange(k, k + s));
    assert(b.subrange(k, b.len() as int).subrange(s, b.len() - k) =~= b.subrange(k + s, b.len() as int));
    assert(b.subrange(k + s, b.len() as int).subrange(0, k) =~= b.subrange(k + s, k + s + k));
    assert(b.subrange(k + s, b.len() as int).subrange(k, b.len() - k - s) =~= b.subrange(k + s + k, b.len() as int));
    assert(b.subrange(k + s + k, b.len() as int).subrange(0, s) =~= b.subrange(k + s + k, b.len() as int));
}

pub open spec fn no_salt() -> Seq<u8> {
    Seq::new(32, |i: int| 0u8)
}

// ---- group calls --------------------------------------------------------------------------------
//% source src/rust/src/core/group_call.rs
//% item struct SrtpKeys

impl SrtpKeys {
    //% const SrtpKeys::SUITE
    //% const SrtpKeys::KEY_LEN ensures=SrtpKeys::KEY_LEN{}=={}key_bytes(SrtpKeys::SUITE)
    //% const SrtpKeys::SALT_LEN ensures=SrtpKeys::SALT_LEN{}=={}salt_bytes(SrtpKeys::SUITE)
    //% const SrtpKeys::MASTER_KEY_MATERIAL_LEN ensures=SrtpKeys::MASTER_KEY_MATERIAL_LEN{}=={}56

    //% fn SrtpKeys::from_master_key_material
        ensures
            keys_of(r.client, r.server, SrtpCryptoSuite::AeadAes128Gcm, master_key_material@),
    //% head
        proof {
            key_parts(master_key_material@, 16, 12);
        }
        let master_key_material = vx_as_slice(master_key_material);
    //% sub? \[u8; Self::MASTER_KEY_MATERIAL_LEN\] ==> [u8; 56]
    //% sub? \[(Self::\w+)\.\.\] ==> .vx_from(\1)
    //% sub? \[\.\.(Self::\w+)\] ==> .vx_upto(\1)
    //% sub? \.to_vec\(\) ==> .vx_to_vec()
    //% end
}

//% item enum DheState

// what the two sides of a group call agree on
pub open spec fn group_keys(secret: Seq<u8>, public: Seq<u8>, extra: Seq<u8>, keys: SrtpKeys) -> bool {
    keys_of(
        keys.client,
        keys.server,
        SrtpCryptoSuite::AeadAes128Gcm,
        kdf_salted(
            no_salt(),
            dh(secret, public),
            label("Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF"@) + extra,
            56,
        ),
    )
}

pub open spec fn negotiated(before: DheState, public: Seq<u8>, extra: Seq<u8>, after: DheState) -> bool {
    match before {
        DheState::WaitingForServerPublicKey { client_secret } => if shared_well(dh(client_secret.b@, public)) {
            after matches DheState::Negotiated { srtp_keys } && group_keys(client_secret.b@, public, extra, srtp_keys)
        } else {
            after is FailedToNegotiate
        },
        _ => after == before,
    }
}

#[verifier::external_body]
fn vx_take_dhe(s: &mut DheState) -> (r: DheState)
    ensures
        r == *old(s),
        *final(s) is NotYetStarted,
{
    unimplemented!()
}

impl DheState {
    //% fn DheState::start
        ensures
            r == (DheState::WaitingForServerPublicKey { client_secret }),
    //% end

    //% fn DheState::negotiate
        ensures
            negotiated(self, server_pub_key.b@, hkdf_extra_info@, r),
    //% head
        broadcast use vx_zero_salt;
    //% sub? \bHkdf::<Sha256>:: ==> KdfSalted::
    //% sub? \[0u8; SrtpKeys::MASTER_KEY_MATERIAL_LEN\] ==> [0u8; 56]
    //% sub? Some\(&\[0u8; 32\]\) ==> Some(vx_as_slice(&[0u8; 32]))
    //% sub \.expand_multi_info\(\s*&\[\s*b("[^"]*"),\s*hkdf_extra_info,\s*\],\s*&mut master_key_material,\s*\) ==> .expand_two(vx_label(\1), hkdf_extra_info, vx_whole(&mut master_key_material))
    //% end

    //% fn DheState::negotiate_in_place
        ensures
            negotiated(*old(self), server_pub_key.b@, hkdf_extra_info@, *final(self)),
    //% sub? std::mem::take\(self\) ==> vx_take_dhe(self)
    //% end
}

pub broadcast proof fn vx_zero_salt(a: [u8; 32])
    requires
        forall|i: int| 0 <= i < 32 ==> a@[i] == 0,
    ensures
        #[trigger] a@ == no_salt(),
{
    assert(a@ =~= no_salt());
}

// ---- 1:1 calls ----------------------------------------------------------------------------------
pub enum RingRtcError {
    InvalidRemoteSrtpKey,
    SrtpKeyNegotiationFailure,
    GroupCallFull,
}

impl RingRtcError {
    fn into(self) -> (r: RingRtcError)
        ensures
            r == self,
    {
        self
    }
}

//% source src/rust/src/common/slice.rs
//% item enum SliceError

// slice.copy_from_slice, which panics unless the lengths are equal
#[verifier::external_body]
fn vx_copy<T: Copy>(dest: &mut [T], src: &[T])
    requires
        old(dest)@.len() == src@.len(),
    ensures
        final(dest)@ == src@,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_copy_array<T: Copy, const N: usize>(dest: &mut [T; N], src: &[T])
    requires
        N == src@.len(),
    ensures
        final(dest)@ == src@,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_copy_vec<T: Copy>(dest: &mut Vec<T>, src: &[T])
    requires
        old(dest)@.len() == src@.len(),
    ensures
        final(dest)@ == src@,
{
    unimplemented!()
}

// &mut dest[..n]
#[verifier::external_body]
fn vx_front<T, const M: usize>(dest: &mut [T; M], n: usize) -> (r: &mut [T])
    requires
        n <= M,
    ensures
        r@ == old(dest)@.subrange(0, n as int),
        final(r)@.len() == n ==> final(dest)@ == final(r)@ + old(dest)@.subrange(n as int, M as int),
{
    unimplemented!()
}

//% fn safe_copy_array as safe_copy_values
    requires
        N <= M,
    ensures
        final(dest)@ == src@ + old(dest)@.subrange(N as int, M as int),
//% sub? const \{ assert!\(N <= M\) \} ==> assert!(N <= M);
//% sub? (\w+)\[\.\.N\]\.copy_from_slice\(src\) ==> vx_copy(vx_front(\1, N), vx_slice_of(src))
//% end

#[verifier::external_body]
fn vx_slice_of<T, const N: usize>(a: &[T; N]) -> (r: &[T])
    ensures
        r@ == a@,
{
    &a[..]
}

//% fn SafeSlicing<T> for [T;N]::safe_copy_from_slice as copy_to_array
    ensures
        r is Ok == (N == src@.len()),
        r is Ok ==> final(vx_self)@ == src@,
        r is Err ==> final(vx_self)@ == old(vx_self)@,
//% sig fn copy_to_array<T: Copy, const N: usize>(vx_self: &mut [T; N], src: &[T])
//% sub? self\.copy_from_slice\(src\) ==> vx_copy_array(vx_self, src)
//% sub? \bself\b ==> vx_self
//% end

//% fn SafeSlicing<T> for Vec::safe_copy_from_slice as copy_to_vec
    ensures
        r is Ok == (old(vx_self)@.len() == src@.len()),
        r is Ok ==> final(vx_self)@ == src@,
        r is Err ==> final(vx_self)@ == old(vx_self)@,
//% sig fn copy_to_vec<T: Copy>(vx_self: &mut Vec<T>, src: &[T])
//% sub? self\.copy_from_slice\(src\) ==> vx_copy_vec(vx_self, src)
//% sub? \bself\b ==> vx_self
//% end

//% fn SafeSlicing<T> for &mut[T]::safe_copy_from_slice as copy_to_slice_ref
    ensures
        r is Ok == (old(vx_self)@.len() == src@.len()),
        r is Ok ==> final(vx_self)@ == src@,
        r is Err ==> final(vx_self)@ == old(vx_self)@,
//% sig fn copy_to_slice_ref<T: Copy>(vx_self: &mut [T], src: &[T])
//% sub? self\.copy_from_slice\(src\) ==> vx_copy(vx_self, src)
//% sub? \bself\b ==> vx_self
//% end

//% fn SafeSlicing<T> for [T]::safe_copy_from_slice as copy_to_slice
    ensures
        r is Ok == (old(vx_self)@.len() == src@.len()),
        r is Ok ==> final(vx_self)@ == src@,
        r is Err ==> final(vx_self)@ == old(vx_self)@,
//% sig fn copy_to_slice<T: Copy>(vx_self: &mut [T], src: &[T])
//% sub? self\.copy_from_slice\(src\) ==> vx_copy(vx_self, src)
//% sub? \bself\b ==> vx_self
//% end

//% source src/rust/src/core/connection.rs
//% item struct NegotiatedSrtpKeys

//% fn negotiate_srtp_keys as negotiate_srtp_keys
    ensures
        ({
            let shared = dh(local_secret.b@, remote_public_key@);
            if remote_public_key@.len() != 32 || !shared_well(shared) {
                r == Err::<NegotiatedSrtpKeys, RingRtcError>(RingRtcError::InvalidRemoteSrtpKey)
            } else {
                r matches Ok(keys) && keys_of(
                    keys.offer_key,
                    keys.answer_key,
                    SrtpCryptoSuite::AeadAes256Gcm,
                    kdf_salted(
                        no_salt(),
                        shared,
                        label("Signal_Calling_20200807_SignallingDH_SRTPKey_KDF"@) + caller_identity_key@
                            + callee_identity_key@,
                        88,
                    ),
                )
            }
        }),
//% head
    let ghost vx_label_of = label("Signal_Calling_20200807_SignallingDH_SRTPKey_KDF"@);
    broadcast use vx_empty_start;
    let ghost vx_public = remote_public_key@;
//% sub? Result<NegotiatedSrtpKeys> ==> Result<NegotiatedSrtpKeys, RingRtcError>
//% sub array\s*\.safe_copy_from_slice\(remote_public_key\)\s*\.map\(\|_\| PublicKey::from\(array\)\) ==> match copy_to_array(&mut array, remote_public_key) { Ok(_) => Ok(PublicKey::from(array)), Err(e) => Err(e) }
//% sub vec!\[0u8; 32\] ==> vx_zeros(32)
//% sub Some\(&hkdf_salt\) ==> Some(vx_vec_slice(&hkdf_salt))
//% sub? Vec::with_capacity\([^;]*\); ==> Vec::new();
//% sub hkdf_info\.extend_from_slice\(hkdf_info_prefix\.as_bytes\(\)\) ==> vx_put(&mut hkdf_info, vx_label(hkdf_info_prefix))
//% sub? hkdf_info\.extend_from_slice\((\w+)\) ==> vx_put(&mut hkdf_info, \1)
//% sub? \bHkdf::<Sha256>:: ==> KdfSalted::
//% sub hkdf\.expand\(&hkdf_info, &mut okm\) ==> hkdf.expand(vx_vec_slice(&hkdf_info), vx_whole_vec(&mut okm))
//% sub const SUITE: ==> let SUITE:
//% sub const KEY_SIZE: ==> let KEY_SIZE:
//% sub const SALT_SIZE: ==> let SALT_SIZE:
//% sub vec!\[0; ([^\]]*)\] ==> vx_zeros(\1)
//% sub let \(offer_key, okm\) ==> proof { key_parts(okm@, 32, 12); } let okm = vx_vec_slice(&okm); let (offer_key, okm)
//% sub \.split_at\( ==> .vx_split_at(
//% sub \.to_vec\(\) ==> .vx_to_vec()
//% closure 0
    |e: SliceError| -> (v: RingRtcError)
        ensures
            v == RingRtcError::InvalidRemoteSrtpKey,
//% closure 1
    |e: VxError| -> (v: RingRtcError)
        ensures
            v == RingRtcError::SrtpKeyNegotiationFailure,
//% end

pub broadcast proof fn vx_empty_start(s: Seq<u8>)
    ensures
        #[trigger] (Seq::<u8>::empty() + s) == s,
{
    assert(Seq::<u8>::empty() + s =~= s);
}
