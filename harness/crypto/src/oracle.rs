// The frame format, written from its description: HKDF-SHA256 labels, AES-256-CTR, truncated HMAC-SHA256.
use aes::cipher::{KeyIvInit, StreamCipher};
use hmac::Mac;

pub type S = [u8; 32];

fn kdf(s: &S, label: &[u8]) -> S {
    let mut o = [0u8; 32];
    hkdf::Hkdf::<sha2::Sha256>::new(None, s).expand(label, &mut o).unwrap();
    o
}

pub fn next(s: &S) -> S {
    kdf(s, b"RingRTC Ratchet")
}

pub fn steps(s: &S, n: u64) -> S {
    let mut s = *s;
    for _ in 0..n {
        s = next(&s);
    }
    s
}

fn iv(n: u64) -> [u8; 16] {
    let mut v = [0u8; 16];
    v[..8].copy_from_slice(&n.to_be_bytes());
    v
}

pub fn crypt(secret: &S, n: u64, data: &[u8]) -> Vec<u8> {
    let key = kdf(secret, b"RingRTC AES Key");
    let mut d = data.to_vec();
    // counter mode by hand: 64-bit big-endian counter in the second half of the block
    use aes::cipher::{BlockEncrypt, KeyInit};
    let aes = aes::Aes256::new(&key.into());
    for (i, ch) in d.chunks_mut(16).enumerate() {
        let mut block = iv(n);
        block[8..].copy_from_slice(&(i as u64).to_be_bytes());
        let mut b = block.into();
        aes.encrypt_block(&mut b);
        for (x, y) in ch.iter_mut().zip(b.iter()) {
            *x ^= *y;
        }
    }
    d
}

pub fn mac(secret: &S, n: u64, ct: &[u8]) -> [u8; 16] {
    let key = kdf(secret, b"RingRTC HMAC Key");
    let mut h = <hmac::Hmac<sha2::Sha256> as Mac>::new_from_slice(&key).unwrap();
    let mut msg = iv(n).to_vec();
    msg.extend((ct.len() as u32).to_be_bytes());
    msg.extend(ct);
    msg.extend([0u8; 4]);
    h.update(&msg);
    h.finalize().into_bytes()[..16].try_into().unwrap()
}
