// Access to private items of the parent module; decides nothing.
use super::*;

/// both keys with their salts, offer first
pub fn srtp_keys(own: [u8; 32], remote: &[u8], caller: &[u8], callee: &[u8]) -> Option<[Vec<u8>; 4]> {
    let k = negotiate_srtp_keys(&StaticSecret::from(own), remote, caller, callee).ok()?;
    assert!(matches!(k.offer_key.suite, SrtpCryptoSuite::AeadAes256Gcm) && matches!(k.answer_key.suite, SrtpCryptoSuite::AeadAes256Gcm));
    Some([k.offer_key.key, k.offer_key.salt, k.answer_key.key, k.answer_key.salt])
}
