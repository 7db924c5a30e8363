//! Stand-in for pqcrypto-traits (not available offline): the same traits and error types.
use std::fmt;
#[derive(Debug, Copy, Clone)]
pub enum Error {
    BadLength { name: &'static str, actual: usize, expected: usize },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::BadLength { name, actual, expected } => write!(f, "error: {} expected {} bytes, got {}", name, expected, actual),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
macro_rules! trait_of {
    ($($t:ident),*) => { $(pub trait $t { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> crate::Result<Self> where Self: Sized; })* };
}
pub mod kem { trait_of!(PublicKey, SecretKey, Ciphertext, SharedSecret); }
pub mod sign {
    trait_of!(PublicKey, SecretKey, SignedMessage, DetachedSignature);
    #[derive(Clone, Copy, Eq, PartialEq, Debug)]
    #[non_exhaustive]
    pub enum VerificationError { InvalidSignature, UnknownVerificationError }
    impl std::fmt::Display for VerificationError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "verification failed") }
    }
    impl std::error::Error for VerificationError {}
}
/// What the models of the primitives are made of (SHAKE-128 of the harness) and their randomness.
pub mod model {
    extern "C" {
        fn qr_expand(dom: *const u8, domlen: usize, inp: *const u8, inlen: usize, out: *mut u8, outlen: usize);
        fn qr_counter() -> u64;
    }
    pub fn expand(dom: &[u8], inp: &[u8], n: usize) -> Vec<u8> {
        let mut o = vec![0u8; n];
        unsafe { qr_expand(dom.as_ptr(), dom.len(), inp.as_ptr(), inp.len(), o.as_mut_ptr(), n) };
        o
    }
    pub fn fresh(dom: &[u8]) -> Vec<u8> {
        let c = unsafe { qr_counter() };
        expand(dom, &c.to_le_bytes(), 32)
    }
    #[macro_export]
    macro_rules! fixed {
        ($t:ident, $n:expr, $tr:path) => {
            #[derive(Clone, Copy)]
            pub struct $t([u8; $n]);
            impl $tr for $t {
                fn as_bytes(&self) -> &[u8] { &self.0 }
                fn from_bytes(b: &[u8]) -> pqcrypto_traits::Result<Self> {
                    if b.len() != $n { return Err(pqcrypto_traits::Error::BadLength { name: stringify!($t), actual: b.len(), expected: $n }); }
                    let mut a = [0u8; $n];
                    a.copy_from_slice(b);
                    Ok($t(a))
                }
            }
            impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.0[..] == o.0[..] } }
            impl Eq for $t {}
        };
    }
}
