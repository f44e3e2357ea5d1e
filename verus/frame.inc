// ---- the footer of an encrypted frame (group_call.rs) -------------------------------------------
// size_of of the three types concerned; the aliases are fixed by the conversions below
pub const SIZE_OF_U8: usize = 1;

pub const SIZE_OF_U32: usize = 4;

pub const SIZE_OF_MAC: usize = 16;

fn vx_sizes_are(r: RatchetCounter, m: Mac) -> (o: (u8, [u8; 16]))
{
    (r, m)
}

pub enum RingRtcError {
    BufferTooSmall,
    FrameCounterTooBig,
}

impl RingRtcError {
    #[verifier::external_body]
    fn vx_into(self) -> VxError {
        unimplemented!()
    }
}

#[verifier::external_body]
fn vx_crypto_error(e: Error) -> VxError {
    unimplemented!()
}

// &mut b[s..e]
#[verifier::external_body]
fn vx_sub_mut<'a>(b: &'a mut [u8], s: usize, e: usize) -> (r: &'a mut [u8])
    requires
        s <= e <= old(b)@.len(),
    ensures
        r@ == old(b)@.subrange(s as int, e as int),
        final(r)@.len() == e - s ==> final(b)@ == old(b)@.take(s as int) + final(r)@ + old(b)@.skip(e as int),
{
    &mut b[s..e]
}

// copy_from_slice, and memmove with the same lengths
#[verifier::external_body]
fn vx_copy(o: &mut [u8], i: &[u8])
    requires
        old(o)@.len() == i@.len(),
    ensures
        final(o)@ == i@,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_set(o: &mut [u8], i: usize, x: u8)
    requires
        i < old(o)@.len(),
    ensures
        final(o)@ == old(o)@.update(i as int, x),
{
    o[i] = x;
}

#[verifier::external_body]
fn vx_split_last(s: &[u8]) -> (r: Option<(&u8, &[u8])>)
    ensures
        r is None <==> s@.len() == 0,
        r matches Some(p) ==> *p.0 == s@.last() && p.1@ == s@.drop_last(),
{
    s.split_last()
}

#[verifier::external_body]
fn vx_split_at<'a>(s: &'a [u8], n: usize) -> (r: (&'a [u8], &'a [u8]))
    requires
        n <= s@.len(),
    ensures
        r.0@ == s@.take(n as int),
        r.1@ == s@.skip(n as int),
{
    s.split_at(n)
}

#[verifier::external_body]
fn vx_to_array<const N: usize>(a: &[u8]) -> (r: Result<[u8; N], VxError>)
    ensures
        r is Ok <==> a@.len() == N,
        r matches Ok(x) ==> x@ == a@,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_from_be32(b: [u8; 4]) -> (r: u32)
    ensures
        r == be_value(b@),
{
    u32::from_be_bytes(b)
}

#[verifier::external_body]
fn vx_zeroes(n: usize) -> (r: Vec<u8>)
    ensures
        r@ == Seq::new(n as nat, |i: int| 0u8),
{
    vec![0; n]
}

#[verifier::external_body]
fn vx_mac_zero() -> (r: Mac)
{
    Mac::default()
}

//% source src/rust/src/core/group_call.rs
//% item struct Writer
//% item struct Reader

impl<'buf> Writer<'buf> {
    spec fn wf(self) -> bool {
        self.offset <= self.buf@.len()
    }

    //% fn Writer::new
        ensures
            r.buf@ == old(buf)@,
            r.offset == 0,
            final(r.buf)@ == final(buf)@,
    //% end

    //% fn Writer::remaining_len
        requires
            self.offset <= old(self.buf)@.len(),
        ensures
            r == old(self.buf)@.len() - self.offset,
            old(self.buf)@.len() <= usize::MAX,
    //% end

    //% fn Writer::write_u8
        requires
            old(self).wf(),
        ensures
            final(final(self).buf)@ == final(old(self).buf)@,
            final(self).wf(),
            r is Ok <==> old(self).offset < old(self).buf@.len(),
            r is Ok ==> final(self).offset == old(self).offset + 1 && final(self).buf@ == old(self).buf@.take(
                old(self).offset as int,
            ) + seq![input] + old(self).buf@.skip(old(self).offset + 1),
            r is Err ==> final(self).offset == old(self).offset && final(self).buf@ == old(self).buf@,
    //% sub? Result<\(\)> ==> Result<(), VxError>
    //% sub? (RingRtcError::\w+)\.into\(\) ==> \1.vx_into()
    //% sub? self\.buf\[self\.offset\] = input; ==> vx_set(self.buf, self.offset, input);
    //% head
        let ghost b0 = self.buf@;
        let ghost o0 = self.offset as int;
    //% before ^\s*Ok\(\(\)\)
        proof {
            assert(b0.update(o0, input) =~= b0.take(o0) + seq![input] + b0.skip(o0 + 1));
        }
    //% end

    //% fn Writer::write_slice
        requires
            old(self).wf(),
        ensures
            final(final(self).buf)@ == final(old(self).buf)@,
            final(self).wf() || r is Ok,
            r is Ok <==> old(self).offset + input@.len() <= old(self).buf@.len(),
            r matches Ok(o) ==> o@ == input@ && final(self).offset == old(self).offset + input@.len() && (final(o)@.len() == input@.len() ==>
                final(self).buf@ == old(self).buf@.take(old(self).offset as int) + final(o)@ + old(self).buf@.skip(
                    old(self).offset + input@.len(),
                )),
            r is Err ==> final(self).offset == old(self).offset && final(self).buf@ == old(self).buf@,
    //% sub? Result<&mut \[u8\]> ==> Result<&mut [u8], VxError>
    //% sub? (RingRtcError::\w+)\.into\(\) ==> \1.vx_into()
    //% sub? &mut self\.buf\[(\w+)\.\.(\w+)\] ==> vx_sub_mut(self.buf, \1, \2)
    //% sub? output\.copy_from_slice\(input\) ==> vx_copy(output, input)
    //% end

    //% fn Writer::write_u32
        requires
            old(self).wf(),
        ensures
            final(final(self).buf)@ == final(old(self).buf)@,
            final(self).wf(),
            r is Ok <==> old(self).offset + 4 <= old(self).buf@.len(),
            r is Ok ==> final(self).offset == old(self).offset + 4 && final(self).buf@ == old(self).buf@.take(
                old(self).offset as int,
            ) + be32(input) + old(self).buf@.skip(old(self).offset + 4),
            r is Err ==> final(self).offset == old(self).offset && final(self).buf@ == old(self).buf@,
    //% sub? Result<\(\)> ==> Result<(), VxError>
    //% sub? &input\.to_be_bytes\(\) ==> vx_full(&input.vx_to_be_bytes())
    //% end

    //% fn Writer::write_slice_overlapping
        requires
            old(self).wf(),
        ensures
            final(final(self).buf)@ == final(old(self).buf)@,
            r is Ok <==> old(self).offset + input@.len() <= old(self).buf@.len(),
            r matches Ok(o) ==> o@ == input@ && final(self).offset == old(self).offset + input@.len() && (final(o)@.len() == input@.len() ==>
                final(self).buf@ == old(self).buf@.take(old(self).offset as int) + final(o)@ + old(self).buf@.skip(
                    old(self).offset + input@.len(),
                )),
            r is Err ==> final(self).offset == old(self).offset && final(self).buf@ == old(self).buf@,
    //% sub? Result<&mut \[u8\]> ==> Result<&mut [u8], VxError>
    //% sub? (RingRtcError::\w+)\.into\(\) ==> \1.vx_into()
    //% sub? &mut self\.buf\[(\w+)\.\.(\w+)\] ==> vx_sub_mut(self.buf, \1, \2)
    //% sub unsafe \{\s*std::ptr::copy\(input\.as_ptr\(\), output\.as_mut_ptr\(\), input\.len\(\)\);\s*\} ==> vx_copy(output, input);
    //% end
}

impl<'data> Reader<'data> {
    //% fn Reader::new
        ensures
            r.data@ == data@,
    //% end

    //% fn Reader::remaining
        ensures
            r@ == self.data@,
    //% end

    //% fn Reader::read_u8_from_end
        ensures
            r is Ok <==> old(self).data@.len() > 0,
            r matches Ok(b) ==> b == old(self).data@.last() && final(self).data@ == old(self).data@.drop_last(),
            r is Err ==> final(self).data@ == old(self).data@,
    //% sub? Result<u8> ==> Result<u8, VxError>
    //% sub? self\.data\.split_last\(\)\.ok_or\((RingRtcError::\w+)\) ==> vx_split_last(self.data).ok_or(\1.vx_into())
    //% end

    //% fn Reader::read_slice_from_end
        ensures
            r is Ok <==> len <= old(self).data@.len(),
            r matches Ok(b) ==> b@ == old(self).data@.skip(old(self).data@.len() - len) && final(self).data@ == old(self).data@.take(old(self).data@.len() - len),
            r is Err ==> final(self).data@ == old(self).data@,
    //% sub? Result<&'data \[u8\]> ==> Result<&'data [u8], VxError>
    //% sub? (RingRtcError::\w+)\.into\(\) ==> \1.vx_into()
    //% sub? self\.data\.split_at\( ==> vx_split_at(self.data, 
    //% end

    //% fn Reader::read_u32_from_end
        ensures
            r is Ok <==> 4 <= old(self).data@.len(),
            r matches Ok(b) ==> b == be_value(old(self).data@.skip(old(self).data@.len() - 4)) && final(self).data@ == old(self).data@.take(old(self).data@.len() - 4),
            r is Err ==> final(self).data@ == old(self).data@,
    //% sub? Result<u32> ==> Result<u32, VxError>
    //% sub? size_of::<u32>\(\) ==> SIZE_OF_U32
    //% sub? u32::from_be_bytes\(\s*(self\.read_slice_from_end\(\w+\)\?)\.try_into\(\)\?,?\s*\) ==> vx_from_be32(vx_to_array::<4>(\1)?)
    //% end
}

// payload, key step, counter, authentication code
pub open spec fn framed(secret: Seq<u8>, rc: u8, n: u32, plain: Seq<u8>) -> Seq<u8> {
    let ct = crypted(secret, n as u64, plain);
    ct + seq![rc] + be32(n) + mac_of(secret, n as u64, ct)
}

// the context behind its mutex, read as exclusive access for the length of the call
pub struct State {
    pub frame_crypto_context: Context,
}

pub struct Client {
    pub frame_crypto_context: Context,
}

pub open spec fn footer_rc(c: Seq<u8>) -> u8 {
    c[c.len() - 21]
}

pub open spec fn footer_counter(c: Seq<u8>) -> int {
    be_value(c.subrange(c.len() - 20, c.len() - 16))
}

pub open spec fn footer_mac(c: Seq<u8>) -> Seq<u8> {
    c.skip(c.len() - 16)
}

pub open spec fn payload(c: Seq<u8>) -> Seq<u8> {
    c.take(c.len() - 21)
}

// the payload opened to p with the footer's numbers, by one of the sender's retained secrets
spec fn frame_opens(before: Context, after: Context, id: SenderId, c: Seq<u8>, p: Seq<u8>) -> bool {
    &&& after.decryption_error_tracker == before.decryption_error_tracker
    &&& exists|i: int|
        #![trigger before.of(id)[i]]
        0 <= i < before.of(id).len() && only_changed(before.of(id), after.of(id), i) && opens(
            before.of(id)[i].v(),
            footer_rc(c),
            footer_counter(c) as u64,
            payload(c),
            footer_mac(c),
            p,
            after.of(id)[i].v(),
        )
}

spec fn frame_refused(before: Context, id: SenderId, c: Seq<u8>) -> bool {
    forall|i: int|
        0 <= i < before.of(id).len() ==> refuses(
            (#[trigger] before.of(id)[i]).v(),
            footer_rc(c),
            footer_counter(c) as u64,
            payload(c),
            footer_mac(c),
        )
}

impl Client {
    //% const Client::FRAME_ENCRYPTION_FOOTER_LEN sub=frame_crypto::=> sub=size_of::<RatchetCounter>()=>SIZE_OF_U8 sub=size_of::<u32>()=>SIZE_OF_U32 sub=size_of::<Mac>()=>SIZE_OF_MAC

    //% fn Client::get_ciphertext_buffer_size
        ensures
            r == if plaintext_size + 21 > usize::MAX {
                usize::MAX as int
            } else {
                plaintext_size + 21
            },
    //% end

    //% fn Client::get_plaintext_buffer_size
        ensures
            r == if ciphertext_size >= 21 {
                ciphertext_size - 21
            } else {
                0
            },
    //% end

    //% fn Client::encrypt
        requires
            old(frame_crypto_context).wf(),
            old(frame_crypto_context).next_frame_counter < u64::MAX,
        ensures
            final(frame_crypto_context).wf(),
            final(frame_crypto_context).next_frame_counter == old(frame_crypto_context).next_frame_counter || final(frame_crypto_context).next_frame_counter == old(frame_crypto_context).next_frame_counter + 1,
            final(frame_crypto_context).sender_state == old(frame_crypto_context).sender_state,
            final(frame_crypto_context).remote_states_by_id == old(frame_crypto_context).remote_states_by_id,
            r is Ok <==> plaintext@.len() + 21 <= old(ciphertext_buffer)@.len() && old(frame_crypto_context).next_frame_counter <= u32::MAX,
            r matches Ok(n) ==> n == plaintext@.len() + 21 && final(frame_crypto_context).next_frame_counter == old(frame_crypto_context).next_frame_counter + 1 && final(ciphertext_buffer)@ == framed(
                old(frame_crypto_context).sender_state.current_secret@,
                old(frame_crypto_context).sender_state.ratchet_counter,
                old(frame_crypto_context).next_frame_counter as u32,
                plaintext@,
            ) + old(ciphertext_buffer)@.skip(n as int),
    //% sub? frame_crypto::Context ==> Context
    //% sub? frame_crypto:: ==> 
    //% sub? Result<usize> ==> Result<usize, VxError>
    //% sub? (RingRtcError::\w+)\.into\(\) ==> \1.vx_into()
    //% sub? Mac::default\(\) ==> vx_mac_zero()
    //% sub? &mac\)\? ==> vx_full(&mac))?
    //% sub? (frame_crypto_context\.encrypt\(\w+, &mut \w+\))\? ==> (match \1 { Ok(vx_p) => vx_p, Err(vx_e) => return Err(vx_crypto_error(vx_e)) })
    //% end

    //% fn Client::decrypt
        requires
            old(frame_crypto_context).wf(),
            old(frame_crypto_context).errors().dom().contains(remote_demux_id) ==> old(
                frame_crypto_context).errors()[remote_demux_id].count < u32::MAX,
        ensures
            final(frame_crypto_context).wf(),
            final(frame_crypto_context).but(*old(frame_crypto_context), remote_demux_id),
            final(plaintext_buffer)@.len() == old(plaintext_buffer)@.len(),
            r matches Ok(n) ==> {
                &&& n + 21 == ciphertext@.len()
                &&& n <= old(plaintext_buffer)@.len()
                &&& final(plaintext_buffer)@.skip(n as int) == old(plaintext_buffer)@.skip(n as int)
                &&& frame_opens(
                    *old(frame_crypto_context),
                    *final(frame_crypto_context),
                    remote_demux_id,
                    ciphertext@,
                    final(plaintext_buffer)@.take(n as int),
                )
            },
            r is Err ==> {
                &&& final(frame_crypto_context).of(remote_demux_id) == old(frame_crypto_context).of(remote_demux_id)
                &&& ciphertext@.len() < 21 || ciphertext@.len() - 21 > old(plaintext_buffer)@.len() || (frame_refused(
                    *old(frame_crypto_context),
                    remote_demux_id,
                    ciphertext@,
                ) && final(plaintext_buffer)@ == payload(ciphertext@) + old(plaintext_buffer)@.skip(
                    ciphertext@.len() - 21,
                ))
            },
    //% attr verifier::rlimit(100)
    //% sub? frame_crypto::Context ==> Context
    //% sub? frame_crypto:: ==> 
    //% sub? DemuxId ==> SenderId
    //% sub? plaintext_buffer: &mut \[u8\],?\s*\) ==> plaintext_buffer: &mut [u8], Ghost(vx_clock): Ghost<SystemTime>)
    //% sub? Result<usize> ==> Result<usize, VxError>
    //% sub? (ciphertext\s*\.read_slice_from_end\(size_of::<Mac>\(\)\)\?)\s*\.try_into\(\)\?; ==> vx_to_array::<16>(\1)?;
    //% sub? size_of::<Mac>\(\) ==> SIZE_OF_MAC
    //% sub? (frame_crypto_context\.decrypt\(.*?&mac),?\s*\)\?; ==> (match \1, Ghost(vx_clock)) { Ok(vx_p) => vx_p, Err(vx_e) => return Err(vx_crypto_error(vx_e)) });
    //% head
        let ghost c = ciphertext@;
        let ghost b0 = plaintext_buffer@;
    //% before let encrypted_payload
        proof {
            let n = c.len() as int;
            assert(mac@ =~= footer_mac(c));
            assert(c.take(n - 16).skip(n - 20) =~= c.subrange(n - 20, n - 16));
            assert(c.take(n - 16).take(n - 20).last() == c[n - 21]);
            assert(c.take(n - 16).take(n - 20).drop_last() =~= payload(c));
            let k = n - 21;
            if k <= b0.len() {
                assert forall|x: Seq<u8>| x.len() == k implies ({
                    let w = #[trigger] (b0.take(0) + x + b0.skip(k));
                    w.take(k) == x && w.skip(k) == b0.skip(k) && w == x + b0.skip(k) && w.len() == b0.len()
                }) by {
                    let w = b0.take(0) + x + b0.skip(k);
                    assert(w =~= x + b0.skip(k));
                    assert(w.take(k) =~= x);
                    assert(w.skip(k) =~= b0.skip(k));
                }
            }
        }
    //% end

    //% fn Client::encrypt_media
        requires
            old(self).frame_crypto_context.wf(),
            old(self).frame_crypto_context.next_frame_counter < u64::MAX,
        ensures
            final(self).frame_crypto_context.wf(),
            r is Ok <==> plaintext@.len() + 21 <= old(ciphertext_buffer)@.len() && old(
                self).frame_crypto_context.next_frame_counter <= u32::MAX,
            r matches Ok(n) ==> n == plaintext@.len() + 21 && final(ciphertext_buffer)@ == framed(
                old(self).frame_crypto_context.sender_state.current_secret@,
                old(self).frame_crypto_context.sender_state.ratchet_counter,
                old(self).frame_crypto_context.next_frame_counter as u32,
                plaintext@,
            ) + old(ciphertext_buffer)@.skip(n as int),
    //% sub? &self, ==> &mut self,
    //% sub? Result<usize> ==> Result<usize, VxError>
    //% sub? let mut frame_crypto_context = self\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\("[^"]*"\); ==> 
    //% sub? &mut frame_crypto_context, ==> &mut self.frame_crypto_context,
    //% end

    //% fn Client::decrypt_media
        requires
            old(self).frame_crypto_context.wf(),
            old(self).frame_crypto_context.errors().dom().contains(remote_demux_id) ==> old(
                self).frame_crypto_context.errors()[remote_demux_id].count < u32::MAX,
        ensures
            final(plaintext_buffer)@.len() == old(plaintext_buffer)@.len(),
            r matches Ok(n) ==> {
                &&& n + 21 == ciphertext@.len()
                &&& n <= old(plaintext_buffer)@.len()
                &&& final(plaintext_buffer)@.skip(n as int) == old(plaintext_buffer)@.skip(n as int)
                &&& frame_opens(
                    old(self).frame_crypto_context,
                    final(self).frame_crypto_context,
                    remote_demux_id,
                    ciphertext@,
                    final(plaintext_buffer)@.take(n as int),
                )
            },
            r is Err ==> ciphertext@.len() < 21 || ciphertext@.len() - 21 > old(plaintext_buffer)@.len() || frame_refused(
                old(self).frame_crypto_context,
                remote_demux_id,
                ciphertext@,
            ),
    //% sub? &self, ==> &mut self,
    //% sub? DemuxId ==> SenderId
    //% sub? plaintext_buffer: &mut \[u8\],?\s*\) ==> plaintext_buffer: &mut [u8], Ghost(vx_clock): Ghost<SystemTime>)
    //% sub? Result<usize> ==> Result<usize, VxError>
    //% sub? let mut frame_crypto_context = self\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\("[^"]*"\); ==> 
    //% sub? &mut frame_crypto_context,(.*?),?\s*\) ==> &mut self.frame_crypto_context,\1, Ghost(vx_clock))
    //% end

    //% fn Client::encrypt_data
        requires
            old(state).frame_crypto_context.wf(),
            old(state).frame_crypto_context.next_frame_counter < u64::MAX,
        ensures
            final(state).frame_crypto_context.wf(),
            plaintext@.len() + 21 <= usize::MAX ==> (r is Ok <==> old(state).frame_crypto_context.next_frame_counter <= u32::MAX),
            plaintext@.len() + 21 <= usize::MAX ==> (r matches Ok(c) ==> c@ == framed(
                old(state).frame_crypto_context.sender_state.current_secret@,
                old(state).frame_crypto_context.sender_state.ratchet_counter,
                old(state).frame_crypto_context.next_frame_counter as u32,
                plaintext@,
            )),
    //% sub? Result<Vec<u8>> ==> Result<Vec<u8>, VxError>
    //% sub? let mut frame_crypto_context = state\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\("[^"]*"\); ==> 
    //% sub? &mut frame_crypto_context, ==> &mut state.frame_crypto_context,
    //% sub? vec!\[0; (.*?)\]; ==> vx_zeroes(\1);
    //% before ^\s*Ok\(ciphertext\)
        proof {
            let n = plaintext@.len() + 21;
            if n <= usize::MAX {
                let z = Seq::new(n as nat, |i: int| 0u8);
                assert(z.skip(n as int) =~= Seq::<u8>::empty());
                assert forall|x: Seq<u8>| #[trigger] (x + z.skip(n as int)) == x by {
                    assert(x + z.skip(n as int) =~= x);
                }
            }
        }
    //% end

    //% fn Client::decrypt_data
        requires
            old(self).frame_crypto_context.wf(),
            old(self).frame_crypto_context.errors().dom().contains(remote_demux_id) ==> old(
                self).frame_crypto_context.errors()[remote_demux_id].count < u32::MAX,
        ensures
            r matches Ok(p) ==> p@.len() + 21 == ciphertext@.len() && frame_opens(
                old(self).frame_crypto_context,
                final(self).frame_crypto_context,
                remote_demux_id,
                ciphertext@,
                p@,
            ),
            r is Err ==> ciphertext@.len() < 21 || frame_refused(
                old(self).frame_crypto_context,
                remote_demux_id,
                ciphertext@,
            ),
    //% sub? &self, ==> &mut self,
    //% sub? DemuxId ==> SenderId
    //% sub? ciphertext: &\[u8\]\) ==> ciphertext: &[u8], Ghost(vx_clock): Ghost<SystemTime>)
    //% sub? Result<Vec<u8>> ==> Result<Vec<u8>, VxError>
    //% sub? let mut frame_crypto_context = self\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\("[^"]*"\); ==> 
    //% sub? &mut frame_crypto_context,(.*?),?\s*\)\? ==> &mut self.frame_crypto_context,\1, Ghost(vx_clock))?
    //% sub? vec!\[0; (.*?)\]; ==> vx_zeroes(\1);
    //% before ^\s*Ok\(plaintext\)
        proof {
            assert(plaintext@.take(plaintext@.len() as int) =~= plaintext@);
        }
    //% end
}

// HMAC-SHA256 is 32 bytes long
pub axiom fn hmac_length(key: Seq<u8>, msg: Seq<u8>)
    ensures
        hmac256(key, msg).len() == 32,
;

// what was framed is read back: key step, counter, code and payload
proof fn footer_reads_back(secret: Seq<u8>, rc: u8, n: u32, plain: Seq<u8>)
    ensures
        ({
            let c = framed(secret, rc, n, plain);
            &&& c.len() == plain.len() + 21
            &&& footer_rc(c) == rc
            &&& footer_counter(c) == n
            &&& payload(c) == crypted(secret, n as u64, plain)
            &&& footer_mac(c) == mac_of(secret, n as u64, crypted(secret, n as u64, plain))
        }),
{
    let ct = crypted(secret, n as u64, plain);
    let m = mac_of(secret, n as u64, ct);
    let c = framed(secret, rc, n, plain);
    assert(ct.len() == plain.len());
    hmac_length(hmac_key(secret), iv_of(n as u64) + be32(ct.len() as u32) + ct + be32(0u32));
    let k = plain.len() as int;
    be_reads_back(n, 0);
    assert(c.subrange(k + 1, k + 5) =~= be32(n));
    assert(c.skip(k + 5) =~= m);
    assert(c.take(k) =~= ct);
}

// so the frame opens, to the payload sent, with any retained secret that reaches the sender's key
proof fn framed_round_trip(s: RS, rc: u8, n: u32, secret: Seq<u8>, plain: Seq<u8>)
    requires
        reaches(s, rc, n as u64, secret),
    ensures
        ({
            let c = framed(secret, rc, n, plain);
            let k = footer_counter(c) as u64;
            &&& !refuses(s, footer_rc(c), k, payload(c), footer_mac(c))
            &&& forall|p: Seq<u8>, s2: RS|
                unforged(s, rc, k, payload(c), footer_mac(c), secret) && #[trigger] opens(
                    s,
                    footer_rc(c),
                    k,
                    payload(c),
                    footer_mac(c),
                    p,
                    s2,
                ) ==> p == plain
        }),
{
    footer_reads_back(secret, rc, n, plain);
    let ct = crypted(secret, n as u64, plain);
    frame_round_trip(s, rc, n as u64, secret, plain, ct, mac_of(secret, n as u64, ct));
}
