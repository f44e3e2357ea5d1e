//! Stand-in for x25519-dalek, which is not available here: both sides get the same secret, and a
//! public key of zero is not contributory.  It is no cryptography.
use rand::{CryptoRng, RngCore};

const P: u128 = (1 << 61) - 1;

fn power(mut b: u128, mut e: u128) -> u128 {
    let mut r = 1;
    b %= P;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}

fn wide(x: u128) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[..16].copy_from_slice(&x.to_le_bytes());
    o
}

pub struct EphemeralSecret(u64);
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct PublicKey([u8; 32]);
pub struct SharedSecret([u8; 32]);

impl EphemeralSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut rng: T) -> Self {
        EphemeralSecret(rng.next_u64() | 1)
    }
    pub fn diffie_hellman(self, k: &PublicKey) -> SharedSecret {
        SharedSecret(wide(power(u128::from_le_bytes(k.0[..16].try_into().unwrap()), self.0 as u128)))
    }
}
impl From<&EphemeralSecret> for PublicKey {
    fn from(s: &EphemeralSecret) -> Self {
        PublicKey(wide(power(3, s.0 as u128)))
    }
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        PublicKey(b)
    }
}
impl PublicKey {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl SharedSecret {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn was_contributory(&self) -> bool {
        self.0 != [0u8; 32]
    }
}

#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
impl StaticSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut rng: T) -> Self {
        let mut s = [0u8; 32];
        rng.fill_bytes(&mut s);
        s[0] |= 1;
        StaticSecret(s)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn diffie_hellman(&self, k: &PublicKey) -> SharedSecret {
        let e = u64::from_le_bytes(self.0[..8].try_into().unwrap());
        SharedSecret(wide(power(u128::from_le_bytes(k.0[..16].try_into().unwrap()), e as u128)))
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        StaticSecret(b)
    }
}
impl From<&StaticSecret> for PublicKey {
    fn from(s: &StaticSecret) -> Self {
        PublicKey(wide(power(3, u64::from_le_bytes(s.0[..8].try_into().unwrap()) as u128)))
    }
}
