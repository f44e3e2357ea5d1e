// ---- the primitives: uninterpreted, their contracts are trusted -----------------------------
// HKDF-SHA256 without salt, expanded to n bytes
pub uninterp spec fn kdf(ikm: Seq<u8>, info: Seq<u8>, n: int) -> Seq<u8>;

// HMAC-SHA256, 32 bytes
pub uninterp spec fn hmac256(key: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;

// AES-256 in counter mode with a 64-bit big-endian counter: byte i of the key stream
pub uninterp spec fn stream(key: Seq<u8>, iv: Seq<u8>, i: int) -> u8;

#[verifier::external_body]
#[derive(Debug)]
pub struct VxCryptoError {
    e: u8,
}

pub struct Hkdf {
    pub ikm: Ghost<Seq<u8>>,
}

impl Hkdf {
    #[verifier::external_body]
    fn new(salt: Option<&[u8]>, ikm: &[u8]) -> (r: Hkdf)
        requires
            salt is None,
        ensures
            r.ikm@ == ikm@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn expand(&self, info: &[u8], out: &mut [u8]) -> (r: Result<(), VxCryptoError>)
        ensures
            final(out)@.len() == old(out)@.len(),
            old(out)@.len() <= 255 * 32 ==> r is Ok && final(out)@ == kdf(
                self.ikm@,
                info@,
                old(out)@.len() as int,
            ),
    {
        unimplemented!()
    }
}

pub struct HmacSha256 {
    pub key: Ghost<Seq<u8>>,
    pub msg: Ghost<Seq<u8>>,
}

impl HmacSha256 {
    #[verifier::external_body]
    fn new_from_slice(key: &[u8]) -> (r: Result<HmacSha256, VxCryptoError>)
        ensures
            r matches Ok(h) && h.key@ == key@ && h.msg@ == Seq::<u8>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn update(&mut self, data: &[u8])
        ensures
            final(self).key@ == old(self).key@,
            final(self).msg@ == old(self).msg@ + data@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn finalize(self) -> (r: VxMacOut)
        ensures
            r.bytes@ == hmac256(self.key@, self.msg@),
    {
        unimplemented!()
    }
}

pub struct VxMacOut {
    pub bytes: Ghost<Seq<u8>>,
}

impl VxMacOut {
    #[verifier::external_body]
    fn into_bytes(self) -> (r: [u8; 32])
        ensures
            r@ == self.bytes@,
    {
        unimplemented!()
    }
}

pub struct Choice {
    pub b: bool,
}

// &a[..n]
#[verifier::external_body]
fn vx_take(a: &[u8], n: usize) -> (r: &[u8])
    requires
        n <= a@.len(),
    ensures
        r@ == a@.subrange(0, n as int),
{
    &a[..n]
}

// subtle::ConstantTimeEq on byte slices
#[verifier::external_body]
fn vx_ct_eq(a: &[u8], b: &[u8]) -> (r: Choice)
    ensures
        r.b == (a@ == b@),
{
    unimplemented!()
}

fn vx_choice(c: Choice) -> (r: bool)
    ensures
        r == c.b,
{
    c.b
}

pub struct Aes256Ctr {
    pub key: Ghost<Seq<u8>>,
    pub iv: Ghost<Seq<u8>>,
    pub pos: Ghost<int>,
}

impl Aes256Ctr {
    #[verifier::external_body]
    fn new(key: &[u8; 32], iv: &[u8; 16]) -> (r: Aes256Ctr)
        ensures
            r.key@ == key@,
            r.iv@ == iv@,
            r.pos@ == 0,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn apply_keystream(&mut self, data: &mut [u8])
        ensures
            final(self).key@ == old(self).key@,
            final(self).iv@ == old(self).iv@,
            final(self).pos@ == old(self).pos@ + old(data)@.len(),
            final(data)@ == xored(old(data)@, old(self).key@, old(self).iv@, old(self).pos@),
    {
        unimplemented!()
    }
}

pub open spec fn xored(d: Seq<u8>, key: Seq<u8>, iv: Seq<u8>, pos: int) -> Seq<u8> {
    Seq::new(d.len(), |i: int| d[i] ^ stream(key, iv, pos + i))
}

#[verifier::external_body]
fn vx_full_mut<const N: usize>(a: &mut [u8; N]) -> (r: &mut [u8])
    ensures
        r@ == old(a)@,
        final(r)@.len() == N ==> final(a)@ == final(r)@,
{
    &mut a[..]
}

#[verifier::external_body]
fn vx_full<const N: usize>(a: &[u8; N]) -> (r: &[u8])
    ensures
        r@ == a@,
{
    &a[..]
}

#[verifier::external_body]
fn vx_copy_into<const N: usize>(dest: &mut [u8; N], src: &[u8]) -> (r: Result<(), VxCryptoError>)
    ensures
        src@.len() == N ==> r is Ok && final(dest)@ == src@,
        src@.len() != N ==> r is Err && final(dest)@ == old(dest)@,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_copy_front<const N: usize, const M: usize>(src: &[u8; N], dest: &mut [u8; M])
    requires
        N <= M,
    ensures
        final(dest)@ == src@ + old(dest)@.subrange(N as int, M as int),
{
    unimplemented!()
}

// &mut v[i]
#[verifier::external_body]
fn vx_elem_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires
        i < old(v)@.len(),
    ensures
        *r == old(v)@[i as int],
        final(v)@ == old(v)@.update(i as int, *final(r)),
{
    unimplemented!()
}

// std::time::SystemTime: a point on a line
pub struct SystemTime {
    pub t: u64,
}

impl SystemTime {
    // the functions below are proved for every value the clock may show (one reading per call)
    #[verifier::external_body]
    fn vx_now(Ghost(clock): Ghost<SystemTime>) -> (r: SystemTime)
        ensures
            r == clock,
    {
        unimplemented!()
    }
}

impl PartialEq for SystemTime {
    fn eq(&self, o: &Self) -> (r: bool) {
        self.t == o.t
    }
}

impl PartialEqSpecImpl for SystemTime {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &Self) -> bool {
        self.t == o.t
    }
}

impl PartialOrd for SystemTime {
    fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) {
        if self.t < o.t {
            Some(Ordering::Less)
        } else if self.t == o.t {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
}

impl PartialOrdSpecImpl for SystemTime {
    open spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {
        if self.t < o.t {
            Some(Ordering::Less)
        } else if self.t == o.t {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
}

impl Clone for SystemTime {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        SystemTime { t: self.t }
    }
}

impl Copy for SystemTime {

}

// ---- what the properties are about -------------------------------------------------------------
pub open spec fn next_secret(s: Seq<u8>) -> Seq<u8> {
    kdf(s, b"RingRTC Ratchet"@, 32)
}

// the secret n ratchet steps later
pub open spec fn chain(s: Seq<u8>, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 {
        s
    } else {
        next_secret(chain(s, (n - 1) as nat))
    }
}

pub open spec fn aes_key(s: Seq<u8>) -> Seq<u8> {
    kdf(s, b"RingRTC AES Key"@, 32)
}

pub open spec fn hmac_key(s: Seq<u8>) -> Seq<u8> {
    kdf(s, b"RingRTC HMAC Key"@, 32)
}

pub open spec fn iv_of(n: u64) -> Seq<u8> {
    be64(n) + Seq::new(8, |i: int| 0u8)
}

// the frame format: 16 bytes of HMAC over iv, length, ciphertext and a zero length
pub open spec fn mac_of(secret: Seq<u8>, n: u64, ct: Seq<u8>) -> Seq<u8> {
    hmac256(
        hmac_key(secret),
        iv_of(n) + be32(ct.len() as u32) + ct + be32(0u32),
    ).subrange(0, 16)
}

pub open spec fn crypted(secret: Seq<u8>, n: u64, d: Seq<u8>) -> Seq<u8> {
    xored(d, aes_key(secret), iv_of(n), 0)
}

// steps from one 8-bit ratchet counter to another
pub open spec fn dist(from: u8, to: u8) -> nat {
    if to >= from {
        (to - from) as nat
    } else {
        (256 + to - from) as nat
    }
}

//% source src/rust/src/core/crypto.rs
//% item type AesKey
//% item type HmacKey
//% item type Iv
//% item type Secret
//% item type RatchetCounter
//% item type SenderId
//% item type FrameCounter
//% item const MAC_SIZE_BYTES
//% item type Mac
//% item const RATCHET_INFO_STRING sub=&[u8=>&'static{}[u8
//% item const MAX_RECEIVER_STATES_TO_RETAIN
//% item const MAX_OOO_FRAMES
//% item const MAX_OOO_RATCHETS
//% item enum Error
//% item struct SenderState derive=Clone,Copy
//% item struct ReceiverState derive=Clone,Copy

impl SenderState {
    spec fn wf(&self) -> bool {
        &&& self.current_aes_key@ == aes_key(self.current_secret@)
        &&& self.current_hmac_key@ == hmac_key(self.current_secret@)
    }
}

// what a receiver knows: the current secret and an older one, each with its counter, and the frame
// at which it last moved
pub struct RS {
    pub cur: Seq<u8>,
    pub rc: u8,
    pub frame: u64,
    pub old: Seq<u8>,
    pub orc: u8,
}

impl ReceiverState {
    spec fn wf(&self) -> bool {
        self.sender_state.wf()
    }

    spec fn v(&self) -> RS {
        RS {
            cur: self.sender_state.current_secret@,
            rc: self.sender_state.ratchet_counter,
            frame: self.ratchet_frame,
            old: self.old_secret@,
            orc: self.old_ratchet_counter,
        }
    }
}

// moved to counter `goal` by frame n: forwards from the current secret for a newer frame, from the
// older secret otherwise; the current secret becomes the older one only when n is more than
// 300 frames ahead
pub open spec fn advanced(s: RS, goal: u8, n: u64) -> RS {
    let far = n > s.frame + 300;
    RS {
        cur: if n > s.frame { chain(s.cur, dist(s.rc, goal)) } else { chain(s.old, dist(s.orc, goal)) },
        rc: goal,
        frame: n,
        old: if far { s.cur } else { s.old },
        orc: if far { s.rc } else { s.orc },
    }
}

// the older secret is never more than five steps behind
pub open spec fn limited(s: RS) -> RS {
    let d = dist(s.orc, s.rc);
    let k = if d > 5 { (d - 5) as nat } else { 0nat };
    RS { old: chain(s.old, k), orc: ((s.orc + k) % 256) as u8, ..s }
}

pub open spec fn fits(s: RS, n: u64, ct: Seq<u8>, mac: Seq<u8>) -> bool {
    mac_of(s.cur, n, ct) == mac
}

// state s accepts the frame, yields plaintext p and becomes s2
pub open spec fn opens(s: RS, rc: u8, n: u64, ct: Seq<u8>, mac: Seq<u8>, p: Seq<u8>, s2: RS) -> bool {
    ||| s.rc == rc && fits(s, n, ct, mac) && p == crypted(s.cur, n, ct) && s2 == s
    ||| {
        &&& fits(advanced(s, rc, n), n, ct, mac)
        &&& p == crypted(advanced(s, rc, n).cur, n, ct)
        &&& s2 == limited(advanced(s, rc, n))
    }
}

pub open spec fn refuses(s: RS, rc: u8, n: u64, ct: Seq<u8>, mac: Seq<u8>) -> bool {
    &&& !(s.rc == rc && fits(s, n, ct, mac))
    &&& !fits(advanced(s, rc, n), n, ct, mac)
}

impl SenderState {
    //% fn SenderState::new
        ensures
            r.wf(),
            r.current_secret@ == secret@,
            r.ratchet_counter == ratchet_counter,
    //% end

    //% fn SenderState::mut_advance_ratchet
        ensures
            final(self).wf(),
            final(self).current_secret@ == next_secret(old(self).current_secret@),
            final(self).ratchet_counter == (old(self).ratchet_counter + 1) % 256,
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? Hkdf::<Sha256>:: ==> Hkdf::
    //% closure 0
            |_e: VxCryptoError| -> (u: ())
                requires false,
    //% end

    //% fn SenderState::derive_aes_key
        ensures
            final(self).current_aes_key@ == aes_key(old(self).current_secret@),
            final(self).current_hmac_key == old(self).current_hmac_key,
            final(self).current_secret == old(self).current_secret,
            final(self).ratchet_counter == old(self).ratchet_counter,
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? Hkdf::<Sha256>:: ==> Hkdf::
    //% closure 0
            |_e: VxCryptoError| -> (u: ())
                requires false,
    //% end

    //% fn SenderState::derive_hmac_key
        ensures
            final(self).current_hmac_key@ == hmac_key(old(self).current_secret@),
            final(self).current_aes_key == old(self).current_aes_key,
            final(self).current_secret == old(self).current_secret,
            final(self).ratchet_counter == old(self).ratchet_counter,
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? Hkdf::<Sha256>:: ==> Hkdf::
    //% closure 0
            |_e: VxCryptoError| -> (u: ())
                requires false,
    //% end
}

impl ReceiverState {
    //% fn ReceiverState::new
        ensures
            r.wf(),
            r.v() == (RS { cur: secret@, rc: ratchet_counter, frame: 0, old: secret@, orc: ratchet_counter }),
    //% end

    //% fn ReceiverState::try_advance_ratchet
        ensures
            r.wf(),
            r.v() == advanced(self.v(), ratchet_counter_goal, frame_counter),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? Hkdf::<Sha256>:: ==> Hkdf::
    //% sub? new\(None, &(\w+)\) ==> new(None, vx_full(&\1))
    //% closure 0
            |_e: VxCryptoError| -> (u: ())
                requires false,
    //% before while cur != ratchet_counter_goal
        let ghost start = secret@;
        let ghost from = cur;
    //% loop 0
            invariant
                dist(cur, ratchet_counter_goal) <= dist(from, ratchet_counter_goal),
                secret@ == chain(
                    start,
                    (dist(from, ratchet_counter_goal) - dist(cur, ratchet_counter_goal)) as nat,
                ),
            decreases dist(cur, ratchet_counter_goal),
    //% end

    //% fn ReceiverState::limit_ooo
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).v() == limited(old(self).v()),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? Hkdf::<Sha256>:: ==> Hkdf::
    //% sub? new\(None, &([\w.]+)\) ==> new(None, vx_full(&\1))
    //% closure 0
            |_e: VxCryptoError| -> (u: ())
                requires false,
    //% loop 0
            invariant
                self.wf(),
                self.sender_state == old(self).sender_state,
                self.ratchet_frame == old(self).ratchet_frame,
                ({
                    let d0 = dist(old(self).old_ratchet_counter, self.sender_state.ratchet_counter);
                    let d = dist(self.old_ratchet_counter, self.sender_state.ratchet_counter);
                    &&& d <= d0
                    &&& d0 > 5 ==> d >= 5
                    &&& d0 <= 5 ==> d == d0
                    &&& self.old_ratchet_counter == (old(self).old_ratchet_counter + (d0 - d)) % 256
                    &&& self.old_secret@ == chain(old(self).old_secret@, (d0 - d) as nat)
                }),
            decreases dist(self.old_ratchet_counter, self.sender_state.ratchet_counter),
    //% end
}

//% source src/rust/src/common/slice.rs
//% fn safe_copy_array
    requires
        N <= M,
    ensures
        final(dest)@ == src@ + old(dest)@.subrange(N as int, M as int),
//% sub? <const N: usize, const M: usize, T: Copy>\(src: &\[T; N\], dest: &mut \[T; M\]\) ==> <const N: usize, const M: usize>(src: &[u8; N], dest: &mut [u8; M])
//% sub? const \{ assert!\(N <= M\) \} ==>
//% sub? dest\[\.\.N\]\.copy_from_slice\(src\) ==> vx_copy_front(src, dest)
//% end

//% source src/rust/src/core/crypto.rs
//% fn convert_frame_counter_to_iv
    ensures
        r@ == iv_of(frame_counter),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? \.to_be_bytes\(\) ==> .vx_to_be_bytes()
    //% sub? &(len_as_u32_be_bytes\(\w+\))\[\.\.\] ==> vx_full(&\1)
    //% sub? update\(&(0_u32\.vx_to_be_bytes\(\))\) ==> update(vx_full(&\1))
    //% sub? const_assert!\(.*?\);\n ==> 
//% end

//% fn len_as_u32_be_bytes
    ensures
        r@ == be32(slice@.len() as u32),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? \.to_be_bytes\(\) ==> .vx_to_be_bytes()
    //% sub? &(len_as_u32_be_bytes\(\w+\))\[\.\.\] ==> vx_full(&\1)
    //% sub? update\(&(0_u32\.vx_to_be_bytes\(\))\) ==> update(vx_full(&\1))
    //% sub? const_assert!\(.*?\);\n ==> 
//% end

//% fn check_mac
    requires
        state.wf(),
    ensures
        r == fits(state.v(), frame_counter, data@, mac@),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? \.to_be_bytes\(\) ==> .vx_to_be_bytes()
    //% sub? &(len_as_u32_be_bytes\(\w+\))\[\.\.\] ==> vx_full(&\1)
    //% sub? update\(&(0_u32\.vx_to_be_bytes\(\))\) ==> update(vx_full(&\1))
    //% sub? const_assert!\(.*?\);\n ==> 
    //% sub? (\w+)\[\.\.MAC_SIZE_BYTES\]\.ct_eq\((\w+)\) ==> vx_ct_eq(vx_take(&\1, MAC_SIZE_BYTES), vx_full(\2))
    //% sub? bool::from\( ==> vx_choice(
//% end

//% fn decrypt_internal
    requires
        state.wf(),
    ensures
        final(data)@ == crypted(state.v().cur, frame_counter, old(data)@),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? \.to_be_bytes\(\) ==> .vx_to_be_bytes()
    //% sub? &(len_as_u32_be_bytes\(\w+\))\[\.\.\] ==> vx_full(&\1)
    //% sub? update\(&(0_u32\.vx_to_be_bytes\(\))\) ==> update(vx_full(&\1))
    //% sub? const_assert!\(.*?\);\n ==> 
    //% sub? \(frame_counter\)\[\.\.\]\.into\(\) ==> (frame_counter)
    //% sub? (\s)convert_frame_counter_to_iv\(frame_counter\),\n ==> \1&convert_frame_counter_to_iv(frame_counter),\n
    //% sub? \.into\(\) ==>
//% end

// ---- decryption error statistics ------------------------------------------------------------
//% item struct DecryptionErrorStats
//% item struct DecryptionErrorTracker sub=HashMap=>VMap

pub type VxStats = Map<SenderId, DecryptionErrorStats>;

spec fn fresh_stats(clock: SystemTime) -> DecryptionErrorStats {
    DecryptionErrorStats { start_time: clock, last_time: clock, count: 0 }
}

// one more error, seen at `clock`
spec fn bumped(s: DecryptionErrorStats, clock: SystemTime) -> DecryptionErrorStats {
    DecryptionErrorStats {
        start_time: if s.count == 0 {
            clock
        } else {
            s.start_time
        },
        last_time: clock,
        count: (s.count + 1) as u32,
    }
}

spec fn stats_or_fresh(m: VxStats, id: SenderId, clock: SystemTime) -> DecryptionErrorStats {
    if m.dom().contains(id) {
        m[id]
    } else {
        fresh_stats(clock)
    }
}

// no error since the last check
spec fn quiet(m: VxStats, since: SystemTime, id: SenderId) -> bool {
    m.dom().contains(id) && m[id].last_time.t < since.t
}

spec fn reported(
    o: DecryptionErrorTracker,
    n: DecryptionErrorTracker,
    r: Option<VMap<SenderId, DecryptionErrorStats>>,
    clock: SystemTime,
) -> bool {
    &&& n.last_checked_time == clock
    &&& forall|id: SenderId|
        #![trigger n.error_stats@.dom().contains(id)]
        n.error_stats@.dom().contains(id) <==> o.error_stats@.dom().contains(id) && !quiet(
            o.error_stats@,
            o.last_checked_time,
            id,
        )
    &&& forall|id: SenderId|
        #![trigger n.error_stats@[id]]
        n.error_stats@.dom().contains(id) ==> n.error_stats@[id] == o.error_stats@[id]
    &&& r is None <==> forall|id: SenderId| !#[trigger] quiet(o.error_stats@, o.last_checked_time, id)
    &&& r matches Some(m) ==> {
        &&& forall|id: SenderId|
            #![trigger m@.dom().contains(id)]
            m@.dom().contains(id) <==> quiet(o.error_stats@, o.last_checked_time, id)
        &&& forall|id: SenderId|
            #![trigger m@[id]]
            m@.dom().contains(id) ==> m@[id] == o.error_stats@[id]
    }
}

impl DecryptionErrorStats {
    //% fn Default for DecryptionErrorStats::default as default
        ensures
            r == fresh_stats(vx_clock),
    //% sub? fn default\(\) ==> fn default(Ghost(vx_clock): Ghost<SystemTime>)
    //% sub SystemTime::now\(\) ==> SystemTime::vx_now(Ghost(vx_clock))
    //% end

    //% fn DecryptionErrorStats::increment
        requires
            old(self).count < u32::MAX,
        ensures
            *final(self) == bumped(*old(self), vx_clock),
    //% sub? fn increment\(&mut self\) ==> fn increment(&mut self, Ghost(vx_clock): Ghost<SystemTime>)
    //% sub SystemTime::now\(\) ==> SystemTime::vx_now(Ghost(vx_clock))
    //% end

    //% fn DecryptionErrorStats::reset
        ensures
            final(self).count == 0,
            final(self).start_time == old(self).start_time,
            final(self).last_time == old(self).last_time,
    //% end
}

impl DecryptionErrorTracker {
    //% fn Default for DecryptionErrorTracker::default as default
        ensures
            r.error_stats@ == Map::<SenderId, DecryptionErrorStats>::empty(),
            r.last_checked_time == vx_clock,
    //% sub? fn default\(\) ==> fn default(Ghost(vx_clock): Ghost<SystemTime>)
    //% sub SystemTime::now\(\) ==> SystemTime::vx_now(Ghost(vx_clock))
    //% sub? HashMap::new ==> VMap::new
    //% end

    //% fn DecryptionErrorTracker::increment_decryption_error
        requires
            old(self).error_stats@.dom().contains(sender_id) ==> old(self).error_stats@[sender_id].count < u32::MAX,
        ensures
            final(self).last_checked_time == old(self).last_checked_time,
            final(self).error_stats@ == old(self).error_stats@.insert(
                sender_id,
                bumped(stats_or_fresh(old(self).error_stats@, sender_id, vx_clock), vx_clock),
            ),
    //% sub? sender_id: SenderId\) ==> sender_id: SenderId, Ghost(vx_clock): Ghost<SystemTime>)
    //% sub \.entry\(sender_id\)\s*\.or_default\(\) ==> .vx_entry_or_insert_with(sender_id, || -> (v: DecryptionErrorStats) ensures v == fresh_stats(vx_clock) { DecryptionErrorStats::default(Ghost(vx_clock)) })
    //% sub \.increment\(\) ==> .increment(Ghost(vx_clock))
    //% end

    //% fn DecryptionErrorTracker::get_report
        ensures
            reported(*old(self), *final(self), r, vx_clock),
    //% sub? fn get_report\(&mut self\) ==> fn get_report(&mut self, Ghost(vx_clock): Ghost<SystemTime>)
    //% sub? HashMap< ==> VMap<
    //% sub SystemTime::now\(\) ==> SystemTime::vx_now(Ghost(vx_clock))
    //% sub? HashMap::new ==> VMap::new
    //% sub? error_stats\s*\.iter\(\) ==> error_stats.vx_entries()
    //% sub? \|\(sender_id, stats\)\| \{ ==> |vx_e: (&SenderId, &DecryptionErrorStats)| -> (o: Option<SenderId>) ensures o == (if (vx_e.1).last_time.t < self.last_checked_time.t { Some(*(vx_e.0)) } else { None::<SenderId> }) { let (sender_id, stats) = vx_e;
    //% head
        let ghost st = old(self).error_stats@;
        let ghost since = old(self).last_checked_time;
    //% loop 0
            invariant
                st == old(self).error_stats@,
                since == old(self).last_checked_time,
                self.last_checked_time == vx_clock,
                forall|i: int| 0 <= i < vx_it_0@.len() ==> quiet(st, since, #[trigger] vx_it_0@[i]),
                vx_it_0@.no_duplicates(),
                exists|id: SenderId| #[trigger] quiet(st, since, id),
                forall|id: SenderId|
                    #![trigger report@.dom().contains(id)]
                    report@.dom().contains(id) <==> quiet(st, since, id) && !vx_it_0@.contains(id),
                forall|id: SenderId|
                    #![trigger report@[id]]
                    report@.dom().contains(id) ==> report@[id] == st[id],
                forall|id: SenderId|
                    #![trigger self.error_stats@.dom().contains(id)]
                    self.error_stats@.dom().contains(id) <==> st.dom().contains(id) && (!quiet(st, since, id)
                        || vx_it_0@.contains(id)),
                forall|id: SenderId|
                    #![trigger self.error_stats@[id]]
                    self.error_stats@.dom().contains(id) ==> self.error_stats@[id] == st[id],
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% loophead 0
            broadcast use vx_head_or_tail;
    //% before let mut report
        proof {
            assert(ready_for_report@.len() > 0);
            assert(quiet(st, since, ready_for_report@[0]));
        }
    //% end

    //% fn DecryptionErrorTracker::get_stats
        ensures
            r == &self.error_stats,
    //% sub? HashMap ==> VMap
    //% end
}

//% item struct Context sub=HashMap=>VMap

spec fn states_wf(v: Seq<ReceiverState>) -> bool {
    v.len() <= 5 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf()
}

spec fn only_changed(a: Seq<ReceiverState>, b: Seq<ReceiverState>, i: int) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] a[j] == b[j]
}

impl Context {
    spec fn of(&self, id: SenderId) -> Seq<ReceiverState> {
        if self.remote_states_by_id@.dom().contains(id) {
            self.remote_states_by_id@[id]@
        } else {
            Seq::empty()
        }
    }

    spec fn wf(&self) -> bool {
        &&& self.sender_state.wf()
        &&& forall|id: SenderId|
            #![trigger self.remote_states_by_id@[id]]
            self.remote_states_by_id@.dom().contains(id) ==> states_wf(self.remote_states_by_id@[id]@)
    }

    spec fn errors(&self) -> VxStats {
        self.decryption_error_tracker.error_stats@
    }

    // nothing but the receiver states of `id` (and the error statistics) may differ
    spec fn but(&self, o: Self, id: SenderId) -> bool {
        &&& self.sender_state == o.sender_state
        &&& self.next_frame_counter == o.next_frame_counter
        &&& forall|k: SenderId| k != id ==> #[trigger] self.of(k) == o.of(k)
    }

    //% fn Context::new
        ensures
            r.wf(),
            r.sender_state.ratchet_counter == 0,
            r.sender_state.current_secret@ == initial_send_secret@,
            r.next_frame_counter == 1,
            r.errors() == Map::<SenderId, DecryptionErrorStats>::empty(),
            forall|id: SenderId| #[trigger] r.of(id) == Seq::<ReceiverState>::empty(),
    //% sub? HashMap::new ==> VMap::new
    //% sub? Default::default\(\) ==> DecryptionErrorTracker::default(Ghost(arbitrary()))
    //% end

    //% fn Context::encrypt
        requires
            old(self).wf(),
            old(self).next_frame_counter < u64::MAX,
        ensures
            final(self).wf(),
            r == Ok::<(RatchetCounter, FrameCounter), Error>(
                (old(self).sender_state.ratchet_counter, old(self).next_frame_counter),
            ),
            final(self).next_frame_counter == old(self).next_frame_counter + 1,
            final(self).sender_state == old(self).sender_state,
            final(self).remote_states_by_id == old(self).remote_states_by_id,
            final(self).decryption_error_tracker == old(self).decryption_error_tracker,
            final(data)@ == crypted(
                old(self).sender_state.current_secret@,
                old(self).next_frame_counter,
                old(data)@,
            ),
            final(mac)@ == mac_of(
                old(self).sender_state.current_secret@,
                old(self).next_frame_counter,
                final(data)@,
            ),
    //% sub? &mut ([\w.]+)\[\.\.\] ==> vx_full_mut(&mut \1)
    //% sub? &([\w.]+)\[\.\.\] ==> vx_full(&\1)
    //% sub? \.to_be_bytes\(\) ==> .vx_to_be_bytes()
    //% sub? &(len_as_u32_be_bytes\(\w+\))\[\.\.\] ==> vx_full(&\1)
    //% sub? update\(&(0_u32\.vx_to_be_bytes\(\))\) ==> update(vx_full(&\1))
    //% sub? const_assert!\(.*?\);\n ==> 
    //% sub? &iv\.into\(\) ==> &iv
    //% sub? \.into\(\), ==> ,
    //% sub? mac\.safe_copy_from_slice\(&hmac_result\[\.\.MAC_SIZE_BYTES\]\) ==> vx_copy_into(mac, vx_take(&hmac_result, MAC_SIZE_BYTES))
    //% end

    //% fn Context::get_mut_ref_state_vec_by_id
        requires
            old(self).wf(),
        ensures
            r@ == old(self).of(sender_id),
            final(self).sender_state == old(self).sender_state,
            final(self).next_frame_counter == old(self).next_frame_counter,
            final(self).decryption_error_tracker == old(self).decryption_error_tracker,
            final(self).remote_states_by_id@ == old(self).remote_states_by_id@.insert(
                sender_id,
                *final(r),
            ),
    //% sub? \.entry\(sender_id\)\s*\.or_insert_with\( ==> .vx_entry_or_insert_with(sender_id, 
    //% closure 0
            || -> (v: Vec<ReceiverState>)
                ensures
                    v@ == Seq::<ReceiverState>::empty(),
    //% end

    //% fn Context::decrypt
        requires
            old(self).wf(),
            old(self).errors().dom().contains(sender_id) ==> old(self).errors()[sender_id].count < u32::MAX,
        ensures
            final(self).wf(),
            final(self).but(*old(self), sender_id),
            r is Ok ==> final(self).decryption_error_tracker == old(self).decryption_error_tracker,
            r is Err ==> {
                &&& final(self).decryption_error_tracker.last_checked_time == old(
                    self,
                ).decryption_error_tracker.last_checked_time
                &&& final(self).errors() == old(self).errors().insert(
                    sender_id,
                    bumped(stats_or_fresh(old(self).errors(), sender_id, vx_clock), vx_clock),
                )
            },
            r is Ok ==> exists|i: int|
                #![trigger old(self).of(sender_id)[i]]
                0 <= i < old(self).of(sender_id).len() && only_changed(
                    old(self).of(sender_id),
                    final(self).of(sender_id),
                    i,
                ) && opens(
                    old(self).of(sender_id)[i].v(),
                    ratchet_counter,
                    frame_counter,
                    old(data)@,
                    mac@,
                    final(data)@,
                    final(self).of(sender_id)[i].v(),
                ),
            r is Err ==> {
                &&& r == Err::<(), Error>(Error::NoMatchingReceiverState)
                &&& final(data)@ == old(data)@
                &&& final(self).of(sender_id) == old(self).of(sender_id)
                &&& forall|i: int|
                    0 <= i < old(self).of(sender_id).len() ==> refuses(
                        (#[trigger] old(self).of(sender_id)[i]).v(),
                        ratchet_counter,
                        frame_counter,
                        old(data)@,
                        mac@,
                    )
            },
    //% attr verifier::loop_isolation(false)
    //% attr verifier::allow_complex_invariants
    //% sub? mac: &Mac,?\s*\) ==> mac: &Mac, Ghost(vx_clock): Ghost<SystemTime>)
    //% sub? increment_decryption_error\(sender_id\) ==> increment_decryption_error(sender_id, Ghost(vx_clock))
    //% sub? for state in states\.iter_mut\(\) \{ ==> for vx_i in 0..states.len() { let state = vx_elem_mut(states, vx_i);
    //% sub? \.iter\(\) ==> .vx_iter()
    //% head
        let ghost st = old(self).of(sender_id);
    //% loop 0
            invariant
                data@ == old(data)@,
                vx_it_0@.len() <= st.len(),
                forall|j: int|
                    0 <= j < vx_it_0@.len() ==> *(#[trigger] vx_it_0@[j]) == st[st.len() - vx_it_0@.len() + j],
                forall|j: int|
                    0 <= j < st.len() - vx_it_0@.len() ==> !((#[trigger] st[j]).v().rc == ratchet_counter
                        && fits(st[j].v(), frame_counter, data@, mac@)),
            ensures
                vx_it_0@.len() == 0,
            decreases vx_it_0@.len(),
    //% loop 1
            invariant
                data@ == old(data)@,
                states@ == st,
                vx_it_1@.len() <= st.len(),
                forall|j: int|
                    0 <= j < vx_it_1@.len() ==> #[trigger] vx_it_1@[j] == st.len() - vx_it_1@.len() + j,
                forall|j: int|
                    0 <= j < st.len() - vx_it_1@.len() ==> refuses(
                        (#[trigger] st[j]).v(),
                        ratchet_counter,
                        frame_counter,
                        data@,
                        mac@,
                    ),
            ensures
                vx_it_1@.len() == 0,
            decreases vx_it_1@.len(),
    //% end

    //% fn Context::send_state
        ensures
            r.0 == self.sender_state.ratchet_counter,
            r.1 == self.sender_state.current_secret,
    //% end

    //% fn Context::advance_send_ratchet
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).sender_state.current_secret@ == next_secret(
                old(self).sender_state.current_secret@,
            ),
            final(self).sender_state.ratchet_counter == (old(self).sender_state.ratchet_counter + 1)
                % 256,
            r.0 == final(self).sender_state.ratchet_counter,
            r.1 == final(self).sender_state.current_secret,
            final(self).next_frame_counter == old(self).next_frame_counter,
            final(self).remote_states_by_id == old(self).remote_states_by_id,
            final(self).decryption_error_tracker == old(self).decryption_error_tracker,
    //% end

    //% fn Context::reset_send_ratchet
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).sender_state.current_secret@ == secret@,
            final(self).sender_state.ratchet_counter == 0,
            final(self).next_frame_counter == old(self).next_frame_counter,
            final(self).remote_states_by_id == old(self).remote_states_by_id,
            final(self).decryption_error_tracker == old(self).decryption_error_tracker,
    //% end

    //% fn Context::add_receive_secret
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).but(*old(self), sender_id),
            final(self).decryption_error_tracker == old(self).decryption_error_tracker,
            ({
                let was = old(self).of(sender_id);
                let now = final(self).of(sender_id);
                &&& now.len() == if was.len() < 5 { was.len() + 1 } else { 5 }
                &&& now[0].v() == (RS {
                    cur: secret@,
                    rc: ratchet_counter,
                    frame: 0,
                    old: secret@,
                    orc: ratchet_counter,
                })
                &&& forall|i: int|
                    #![trigger now[i]]
                    1 <= i < now.len() ==> now[i] == was[i - 1]
            }),
    //% end

    //% fn Context::get_error_report
        ensures
            final(self).but(*old(self), 0),
            final(self).of(0) == old(self).of(0),
            reported(
                old(self).decryption_error_tracker,
                final(self).decryption_error_tracker,
                r,
                vx_clock,
            ),
    //% sub? fn get_error_report\(&mut self\) ==> fn get_error_report(&mut self, Ghost(vx_clock): Ghost<SystemTime>)
    //% sub? get_report\(\) ==> get_report(Ghost(vx_clock))
    //% sub? HashMap< ==> VMap<
    //% end

    //% fn Context::get_error_stats
        ensures
            r@ == old(self).errors(),
            *final(self) == *old(self),
    //% sub? HashMap< ==> VMap<
    //% end
}
