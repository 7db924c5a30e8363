//! Stand-in for pqcrypto-dilithium: a signed message is signature || message, opening it checks both.
pub mod dilithium5 {
    use pqcrypto_traits::model::{expand, fresh};
    use pqcrypto_traits::sign as t;
    pqcrypto_traits::fixed!(PublicKey, 2592, t::PublicKey);
    pqcrypto_traits::fixed!(SecretKey, 4864, t::SecretKey);
    pqcrypto_traits::fixed!(DetachedSignature, 4595, t::DetachedSignature);
    #[derive(Clone, PartialEq, Eq)]
    pub struct SignedMessage(Vec<u8>);
    impl t::SignedMessage for SignedMessage {
        fn as_bytes(&self) -> &[u8] { &self.0 }
        fn from_bytes(b: &[u8]) -> pqcrypto_traits::Result<Self> { Ok(SignedMessage(b.to_vec())) }
    }
    pub const fn public_key_bytes() -> usize { 2592 }
    pub const fn secret_key_bytes() -> usize { 4864 }
    pub const fn signature_bytes() -> usize { 4595 }
    fn pk_of(sk: &[u8]) -> Vec<u8> { expand(b"dpk", sk, 2592) }
    fn sig_of(pk: &[u8], m: &[u8]) -> Vec<u8> { expand(b"sig", &[pk, m].concat(), 4595) }
    pub fn keypair() -> (PublicKey, SecretKey) {
        let s = expand(b"dsk", &fresh(b"d"), 4864);
        (t::PublicKey::from_bytes(&pk_of(&s)).unwrap(), t::SecretKey::from_bytes(&s).unwrap())
    }
    pub fn sign(msg: &[u8], sk: &SecretKey) -> SignedMessage {
        let mut v = sig_of(&pk_of(t::SecretKey::as_bytes(sk)), msg);
        v.extend_from_slice(msg);
        SignedMessage(v)
    }
    pub fn open(sm: &SignedMessage, pk: &PublicKey) -> Result<Vec<u8>, t::VerificationError> {
        if sm.0.len() < 4595 || sig_of(t::PublicKey::as_bytes(pk), &sm.0[4595..])[..] != sm.0[..4595] { return Err(t::VerificationError::InvalidSignature); }
        Ok(sm.0[4595..].to_vec())
    }
    pub fn detached_sign(msg: &[u8], sk: &SecretKey) -> DetachedSignature { t::DetachedSignature::from_bytes(&sig_of(&pk_of(t::SecretKey::as_bytes(sk)), msg)).unwrap() }
    pub fn verify_detached_signature(sig: &DetachedSignature, msg: &[u8], pk: &PublicKey) -> Result<(), t::VerificationError> {
        if sig_of(t::PublicKey::as_bytes(pk), msg)[..] == *t::DetachedSignature::as_bytes(sig) { Ok(()) } else { Err(t::VerificationError::InvalidSignature) }
    }
}
