//! Stand-in for libsignal's zkgroup, which is not available here.  It has the shape ringrtc uses and
//! keeps the facts ringrtc relies on: serialisation round-trips, endorsements are only accepted from
//! the right key and for the ciphertexts they were issued for, ids decrypt only with the right
//! parameters.  It is no cryptography.
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::time::{Duration, SystemTime};

#[derive(Debug)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "zkgroup deserialization failure")
    }
}
impl std::error::Error for ZkGroupDeserializationFailure {}

#[derive(Debug)]
pub struct ZkGroupVerificationFailure;

pub fn serialize<T: Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).unwrap()
}

pub fn deserialize<T: DeserializeOwned>(b: &[u8]) -> Result<T, ZkGroupDeserializationFailure> {
    use bincode::Options;
    bincode::DefaultOptions::new()
        .with_fixint_encoding()
        .reject_trailing_bytes()
        .deserialize(b)
        .map_err(|_| ZkGroupDeserializationFailure)
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self {
        Timestamp(s)
    }
    pub const fn epoch_seconds(&self) -> u64 {
        self.0
    }
    pub const fn add_seconds(&self, s: u64) -> Self {
        Timestamp(self.0 + s)
    }
}
impl From<Timestamp> for SystemTime {
    fn from(t: Timestamp) -> SystemTime {
        SystemTime::UNIX_EPOCH + Duration::from_secs(t.0)
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EndorsementPublicKey(pub [u8; 16]);

pub struct Uid(pub Vec<u8>);
impl Uid {
    pub fn service_id_binary(&self) -> Vec<u8> {
        self.0.clone()
    }
}

pub mod call_links {
    use super::*;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct CallLinkSecretParams(pub [u8; 16]);
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(k: &[u8]) -> Self {
            let mut p = [0u8; 16];
            for (i, b) in k.iter().take(16).enumerate() {
                p[i] = *b;
            }
            CallLinkSecretParams(p)
        }
        pub fn encrypt_uid(&self, id: [u8; 16]) -> groups::UuidCiphertext {
            let mut c = id;
            for i in 0..16 {
                c[i] ^= self.0[i];
            }
            groups::UuidCiphertext { c, k: self.0 }
        }
        pub fn decrypt_uid(&self, c: groups::UuidCiphertext) -> Result<Uid, ZkGroupVerificationFailure> {
            if c.k != self.0 {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(Uid((0..16).map(|i| c.c[i] ^ self.0[i]).collect()))
        }
    }
}

pub mod groups {
    use super::*;
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct UuidCiphertext {
        pub c: [u8; 16],
        pub k: [u8; 16],
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsement(pub Vec<UuidCiphertext>);
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendFullToken(pub Vec<UuidCiphertext>, pub [u8; 16], pub Timestamp);
    pub struct GroupSendToken(Vec<UuidCiphertext>, [u8; 16]);
    impl GroupSendEndorsement {
        pub fn combine<I: IntoIterator<Item = GroupSendEndorsement>>(it: I) -> Self {
            GroupSendEndorsement(it.into_iter().flat_map(|e| e.0).collect())
        }
        pub fn to_token<T: Into<call_links::CallLinkSecretParams>>(&self, p: T) -> GroupSendToken {
            GroupSendToken(self.0.clone(), p.into().0)
        }
    }
    impl GroupSendToken {
        pub fn into_full_token(self, t: Timestamp) -> GroupSendFullToken {
            GroupSendFullToken(self.0, self.1, t)
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse {
        pub key: [u8; 16],
        pub expiration: Timestamp,
        pub members: Vec<UuidCiphertext>,
    }
    pub struct ReceivedEndorsement {
        pub decompressed: GroupSendEndorsement,
    }
    impl GroupSendEndorsementsResponse {
        pub fn issue(members: Vec<UuidCiphertext>, key: [u8; 16], expiration: Timestamp) -> Self {
            GroupSendEndorsementsResponse { key, expiration, members }
        }
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
        pub fn receive_with_ciphertexts<I: IntoIterator<Item = UuidCiphertext>>(
            self,
            members: I,
            now: Timestamp,
            key: &EndorsementPublicKey,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            let members: Vec<_> = members.into_iter().collect();
            if key.0 != self.key || members != self.members || self.expiration < now {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(members.into_iter().map(|m| ReceivedEndorsement { decompressed: GroupSendEndorsement(vec![m]) }).collect())
        }
    }
}
