//! Stand-in for pqcrypto-kyber with implicit rejection.
pub mod kyber768 {
    use pqcrypto_traits::kem as t;
    use pqcrypto_traits::model::{expand, fresh};
    pqcrypto_traits::fixed!(PublicKey, 1184, t::PublicKey);
    pqcrypto_traits::fixed!(SecretKey, 2400, t::SecretKey);
    pqcrypto_traits::fixed!(Ciphertext, 1088, t::Ciphertext);
    pqcrypto_traits::fixed!(SharedSecret, 32, t::SharedSecret);
    pub const fn public_key_bytes() -> usize { 1184 }
    pub const fn secret_key_bytes() -> usize { 2400 }
    pub const fn ciphertext_bytes() -> usize { 1088 }
    pub const fn shared_secret_bytes() -> usize { 32 }
    fn pk_of(sk: &[u8]) -> Vec<u8> { expand(b"kpk", sk, 1184) }
    fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() }
    pub fn keypair() -> (PublicKey, SecretKey) {
        let s = expand(b"ksk", &fresh(b"k"), 2400);
        (t::PublicKey::from_bytes(&pk_of(&s)).unwrap(), t::SecretKey::from_bytes(&s).unwrap())
    }
    pub fn encapsulate(pk: &PublicKey) -> (SharedSecret, Ciphertext) {
        let p = t::PublicKey::as_bytes(pk);
        let m = fresh(b"m");
        let mut c = xor(&m, &expand(b"pad", p, 32));
        c.extend(expand(b"tag", &[p, &m[..]].concat(), 1088 - 32));
        let k = expand(b"key", &[&m[..], &c[..]].concat(), 32);
        (t::SharedSecret::from_bytes(&k).unwrap(), t::Ciphertext::from_bytes(&c).unwrap())
    }
    pub fn decapsulate(ct: &Ciphertext, sk: &SecretKey) -> SharedSecret {
        let s = t::SecretKey::as_bytes(sk);
        let p = pk_of(s);
        let c = t::Ciphertext::as_bytes(ct);
        let m = xor(&c[..32], &expand(b"pad", &p, 32));
        let ok = expand(b"tag", &[&p[..], &m[..]].concat(), 1088 - 32)[..] == c[32..];
        let k = expand(b"key", &[if ok { &m[..] } else { s }, c].concat(), 32);
        t::SharedSecret::from_bytes(&k).unwrap()
    }
}
