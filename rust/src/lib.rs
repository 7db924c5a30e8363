//! A C interface to the Rust implementation: one entry point, arguments and results as length-prefixed items.
#[path = "@REPO@/src/rust_wrapper/mod.rs"]
pub mod rust_wrapper;
use pqcrypto_traits::sign::{PublicKey as _, SecretKey as _, SignedMessage as _};
use rust_wrapper::dilithium::dilithium::Dilithium;
use rust_wrapper::kyber::kyber::{self as kyb, CiphertextTrait, Kyber, PublicKeyTrait, SecretKeyTrait, SharedSecretTrait};
use rust_wrapper::qrl::{hashing, misc, qrl_address_format::AddrFormatType, qrl_descriptor::*, qrl_helper, xmss_base::*, xmss_basic::XMSSBasic, xmss_fast::XMSSFast, xmss_pool::XMSSPool};
use rust_wrapper::xmss_alt::hash_functions::HashFunction;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

enum Obj { #[cfg(feature = "base")] Base(XMSSBase), #[cfg(feature = "giant")] Giant(Giant), Fast(XMSSFast), Basic(XMSSBasic), Pool(XMSSPool), Dil(Dilithium), Kyb(Kyber) }
#[cfg(feature = "giant")]
use rust_wrapper::xmss_alt::{algsxmss::xmss_sign_msg, algsxmss_fast::{xmss_fast_sign_msg, xmss_fast_update, BDSState, TreeHashInst}, xmss_common::XMSSParams};
#[cfg(feature = "giant")]
struct Giant { hash: HashFunction, params: XMSSParams, sk: Vec<u8>, state: BDSState, size: usize } // a signer in an empty state
static OBJS: Mutex<Option<HashMap<u64, Arc<Mutex<Obj>>>>> = Mutex::new(None);
static NEXT: Mutex<u64> = Mutex::new(1);
fn put(o: Obj) -> u64 {
    let mut n = NEXT.lock().unwrap();
    *n += 1;
    OBJS.lock().unwrap().get_or_insert_with(HashMap::new).insert(*n, Arc::new(Mutex::new(o)));
    *n
}
fn obj(h: u64) -> Arc<Mutex<Obj>> { OBJS.lock().unwrap().as_ref().unwrap()[&h].clone() }

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn int(&mut self) -> u64 { let v = u64::from_le_bytes(self.0[..8].try_into().unwrap()); self.0 = &self.0[8..]; v }
    fn bytes(&mut self) -> Vec<u8> { let n = self.int() as usize; let v = self.0[..n].to_vec(); self.0 = &self.0[n..]; v }
    fn text(&mut self) -> String { String::from_utf8(self.bytes()).expect("harness: text is not UTF-8") }
    fn w(&mut self) -> Option<u32> { let v = self.int(); if v == u64::MAX { None } else { Some(v as u32) } }
    fn hash(&mut self) -> HashFunction { match self.int() { 0 => HashFunction::SHA2_256, 1 => HashFunction::Shake128, _ => HashFunction::Shake256 } }
}
#[derive(Default)]
struct Out(Vec<u8>);
impl Out {
    fn int(&mut self, v: u64) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    fn bytes(&mut self, b: &[u8]) -> &mut Self { self.int(b.len() as u64); self.0.extend_from_slice(b); self }
}
type R = Result<Out, String>;
fn e<E: std::fmt::Debug>(x: E) -> String { format!("{:?}", x) }
fn one(b: &[u8]) -> R { let mut o = Out::default(); o.bytes(b); Ok(o) }
fn num(v: u64) -> R { let mut o = Out::default(); o.int(v); Ok(o) }
fn hash_num(h: &HashFunction) -> u64 { match h { HashFunction::SHA2_256 => 0, HashFunction::Shake128 => 1, HashFunction::Shake256 => 2 } }
fn descr(d: QRLDescriptor) -> R {
    let mut o = Out::default();
    o.int(hash_num(d.get_hash_function())).int(if *d.get_signature_type() == SignatureType::XMSS { 0 } else { 9 }).int(d.get_height() as u64);
    o.int(if *d.get_addr_format_type() == AddrFormatType::SHA256_2X { 0 } else { 9 }).bytes(&d.get_bytes());
    Ok(o)
}
fn info<W: XMSSBaseTrait>(w: &W) -> R {
    let mut o = Out::default();
    let n = w.get_number_signatures();
    o.int(w.get_index() as u64).int(w.get_height() as u64).int(n as u64).int(if w.get_index() <= n { w.get_remaining_signatures() as u64 } else { u64::MAX });
    o.bytes(&w.get_pk()).bytes(w.get_sk()).bytes(&w.get_address().map_err(e)?).bytes(&w.get_extended_seed()).bytes(w.get_seed());
    o.bytes(&w.get_root()).bytes(&w.get_pk_seed()).bytes(&w.get_sk_seed()).bytes(&w.get_sk_prf()).bytes(&w.get_descriptor_bytes());
    Ok(o)
}
fn lcg(n: usize, mut k: u64) -> Vec<u8> {
    (0..n).map(|_| { k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (k >> 56) as u8 }).collect()
}
fn call(op: u32, a: &mut In) -> R {
    match op {
        1 => { let b = a.bytes(); one(misc::bin2hstr(&b, a.int() as u32).as_bytes()) }
        2 => one(&misc::hstr2bin(&a.text()).map_err(e)?),
        3 => one(misc::bin2mnemonic(&a.bytes()).map_err(e)?.as_bytes()),
        4 => one(&misc::mnemonic2bin(&a.text()).map_err(e)?),
        5 => { let n = a.int(); one(&hashing::shake128(n as usize, &a.bytes())) }
        6 => { let n = a.int(); one(&hashing::shake256(n as usize, &a.bytes())) }
        7 => one(&hashing::sha2_256(&a.bytes())),
        8 => { let n = a.int(); one(&hashing::sha2_256_n(&a.bytes(), n as usize).map_err(e)?) }
        9 => { let n = a.int(); one(&misc::get_random_seed(n as u32, &a.text())) }
        10 => {
            let (s, sh, n) = (a.bytes(), a.int() as u32, a.int() as u32);
            let v = misc::get_hash_chain_seed(&s, sh, n);
            let mut o = Out::default();
            o.int(v.len() as u64);
            for x in v { o.bytes(&x); }
            Ok(o)
        }
        11 => descr(QRLDescriptor::from_bytes(&a.bytes()).map_err(e)?),
        12 => descr(QRLDescriptor::from_extended_pk(&a.bytes()).map_err(e)?),
        13 => descr(QRLDescriptor::from_extended_seed(&a.bytes()).map_err(e)?),
        14 => one(&qrl_helper::get_address(&a.bytes()).map_err(e)?),
        15 => num(qrl_helper::address_is_valid(&a.bytes()) as u64),
        16 => { let h = a.hash(); descr(QRLDescriptor::new(h, SignatureType::XMSS, a.int() as u8, AddrFormatType::SHA256_2X)) }
        17 => { let s = a.text(); one(misc::binstr2hstr(&s, a.int() as u32).as_bytes()) }
        18 => one(&misc::str2bin(&a.text())),
        19 => { // a block of descriptors: hash of all results
            let (hi, mut o) = (a.int() as u8, Vec::new());
            for lo in 0..65536u32 {
                match QRLDescriptor::from_bytes(&vec![lo as u8, (lo >> 8) as u8, hi]) {
                    Ok(d) => { o.push(1); o.push(hash_num(d.get_hash_function()) as u8); o.push(d.get_height()); o.extend(d.get_bytes()); }
                    Err(_) => o.push(0),
                }
            }
            one(&o)
        }
        20 => {
            let (m, s, p, w) = (a.bytes(), a.bytes(), a.bytes(), a.w());
            let mut m2 = m.clone();
            let r = if a.int() == 0 { XMSSFast::verify(&mut m2, &s, &p, w) } else { XMSSBasic::verify(&mut m2, &s, &p, w) };
            if m != m2 { return Err("MESSAGE CHANGED".into()); }
            r.map_err(e)?;
            num(1)
        }
        21 => { let n = a.int(); num(XMSSFast::get_height_from_sig_size(n as usize, a.w()).map_err(e)? as u64) }
        22 => num(XMSSFast::calculate_signature_base_size(a.w()) as u64),
        23 => { let mut o = Out::default(); o.int(XMSSFast::get_public_key_size() as u64).int(XMSSFast::get_secret_key_size() as u64).int(QRLDescriptor::get_size() as u64); Ok(o) }
        30 => { let (s, h, f, w) = (a.bytes(), a.int() as u8, a.hash(), a.w()); num(put(Obj::Fast(XMSSFast::new(s, h, Some(f), Some(AddrFormatType::SHA256_2X), w).map_err(e)?))) }
        31 => num(put(Obj::Fast(XMSSFast::from_extended_seed(&a.bytes()).map_err(e)?))),
        32 => { let (s, h, f, w) = (a.bytes(), a.int() as u8, a.hash(), a.w()); num(put(Obj::Basic(XMSSBasic::new(s, h, f, AddrFormatType::SHA256_2X, w).map_err(e)?))) }
        #[cfg(feature = "base")]
        40 => { // what wallets of any height share, without a tree
            let (s, h, f, sk) = (a.bytes(), a.int() as u8, a.hash(), a.bytes());
            num(put(Obj::Base(XMSSBase::new(f, AddrFormatType::SHA256_2X, h, sk, s).map_err(e)?)))
        }
        #[cfg(feature = "base")]
        41 => { let s = a.bytes(); num(put(Obj::Base(XMSSBase::from_extended_seed(&s, a.bytes()).map_err(e)?))) }
        #[cfg(feature = "giant")]
        44 => {
            let (h, hash, w, sk, size) = (a.int() as usize, a.hash(), a.int() as u32, a.bytes(), a.int() as usize);
            let mut t = vec![TreeHashInst::default(); h - 2];
            for i in t.iter_mut() { i.node = vec![0; 32]; }
            let state = BDSState { stack: vec![0; (h + 1) * 32], stackoffset: 0, stacklevels: vec![0; h + 1], auth: vec![0; h * 32], keep: vec![0; h / 2 * 32], treehash: t, retain: vec![0; 32], next_leaf: 0 };
            num(put(Obj::Giant(Giant { hash, params: XMSSParams::new(32, h as u32, w, 2).map_err(e)?, sk, state, size })))
        }
        #[cfg(not(feature = "giant"))]
        44 => Err("left out".to_string()),
        #[cfg(feature = "giant")]
        45 => { // one signature of a basic wallet
            let (h, hash, w, mut sk, size, m) = (a.int() as u32, a.hash(), a.int() as u32, a.bytes(), a.int() as usize, a.bytes());
            let mut s = vec![0; size];
            xmss_sign_msg(&hash, &XMSSParams::new(32, h, w, 2).map_err(e)?, &mut sk, &mut s, &m, m.len());
            let mut o = Out::default();
            o.bytes(&s).bytes(&sk);
            Ok(o)
        }
        #[cfg(not(feature = "giant"))]
        45 => Err("left out".to_string()),
        47 => { // a wallet signs and verifies a message made here
            let (seed, f, n, k, i) = (a.bytes(), a.hash(), a.int() as usize, a.int(), a.int() as u32);
            let mut m = lcg(n, k);
            let mut w = XMSSFast::new(seed, 4, Some(f), Some(AddrFormatType::SHA256_2X), None).map_err(e)?;
            w.set_index(i).map_err(e)?;
            let (s, pk) = (w.sign(&m).map_err(e)?, w.get_pk());
            let mut o = Out::default();
            o.bytes(&s).int(XMSSFast::verify(&mut m, &s, &pk, None).is_ok() as u64);
            m[n - 1] ^= 1;
            o.int(XMSSFast::verify(&mut m, &s, &pk, None).is_ok() as u64);
            m[n - 1] ^= 1;
            m.truncate(n - (1 << 32));
            o.int(XMSSFast::verify(&mut m, &s, &pk, None).is_ok() as u64);
            Ok(o)
        }
        48 => {
            let n = a.int() as usize;
            let m = lcg(n, a.int());
            let mut o = Out::default();
            o.bytes(&hashing::shake128(40, &m)).bytes(&hashing::shake256(40, &m)).bytes(&hashing::sha2_256(&m));
            Ok(o)
        }
        43 => num(cfg!(feature = "base") as u64),
        42 => { let (s, h) = (a.bytes(), a.int() as u8); num(put(Obj::Fast(XMSSFast::new(s, h, None, None, None).map_err(e)?))) }
        38 => { let o = { let mut g = OBJS.lock().unwrap(); match g.as_mut() { Some(m) => m.remove(&a.int()), None => None } }; drop(o); num(0) }
        33 | 34 | 36 | 37 | 39 => {
            let h = obj(a.int());
            let mut g = h.lock().unwrap_or_else(|p| p.into_inner());
            match (op, &mut *g) {
                (33, Obj::Fast(w)) => one(&w.sign(&a.bytes()).map_err(e)?),
                (33, Obj::Basic(w)) => one(&w.sign(&a.bytes()).map_err(e)?),
                (34, Obj::Fast(w)) => num(w.set_index(a.int() as u32).map_err(e)? as u64),
                (34, Obj::Basic(w)) => num(w.set_index(a.int() as u32).map_err(e)? as u64),
                #[cfg(feature = "base")]
                (34, Obj::Base(w)) => num(w.set_index(a.int() as u32).map_err(e)? as u64),
                #[cfg(feature = "base")]
                (36, Obj::Base(w)) => info(w),
                #[cfg(feature = "base")]
                (39, Obj::Base(w)) => num(w.get_signature_size(a.w()) as u64),
                (36, Obj::Fast(w)) => info(w),
                (36, Obj::Basic(w)) => info(w),
                (37, Obj::Fast(w)) => { w.initialize_tree(a.w()).map_err(e)?; num(0) }
                (39, Obj::Fast(w)) => num(w.get_signature_size(a.w()) as u64),
                (39, Obj::Basic(w)) => num(w.get_signature_size(a.w()) as u64),
                #[cfg(feature = "giant")]
                (33, Obj::Giant(w)) => {
                    let (m, mut s) = (a.bytes(), vec![0; w.size]);
                    xmss_fast_sign_msg(&w.hash, &w.params, &mut w.sk, &mut w.state, &mut s, &m, m.len());
                    one(&s)
                }
                #[cfg(feature = "giant")]
                (34, Obj::Giant(w)) => num(xmss_fast_update(&w.hash, &w.params, &mut w.sk, &mut w.state, a.int() as u32).map_err(e)? as u64),
                #[cfg(feature = "giant")]
                (36, Obj::Giant(w)) => one(&w.sk),
                _ => panic!("harness: wrong object"),
            }
        }
        50 => { let (s, h, i, c) = (a.bytes(), a.int() as u8, a.int() as usize, a.int() as usize); num(put(Obj::Pool(XMSSPool::new(s, h, i, c).map_err(e)?))) }
        51 | 52 | 53 => {
            let h = obj(a.int());
            let mut g = h.lock().unwrap_or_else(|p| p.into_inner());
            let Obj::Pool(p) = &mut *g else { panic!("harness: wrong object") };
            match op {
                51 => { let t = p.get_next_tree().map_err(e)?; num(put(Obj::Fast(t))) }
                52 => num(p.is_available() as u64),
                _ => num(p.get_current_index() as u64),
            }
        }
        60 => { let d = Dilithium::default(); num(put(Obj::Dil(d))) }
        61 => { let (p, s) = (a.bytes(), a.bytes()); num(put(Obj::Dil(Dilithium::new(&p, &s).map_err(e)?))) }
        62 | 63 => {
            let h = obj(a.int());
            let g = h.lock().unwrap_or_else(|p| p.into_inner());
            let Obj::Dil(d) = &*g else { panic!("harness: wrong object") };
            if op == 62 { let mut o = Out::default(); o.bytes(d.get_pk().as_bytes()).bytes(d.get_sk().as_bytes()).int(Dilithium::get_public_key_size() as u64).int(Dilithium::get_secret_key_size() as u64); return Ok(o); }
            one(d.sign(&a.bytes()).as_bytes())
        }
        64 => {
            let (s, p) = (a.bytes(), a.bytes());
            let sm = pqcrypto_dilithium::dilithium5::SignedMessage::from_bytes(&s).map_err(e)?;
            let pk = pqcrypto_dilithium::dilithium5::PublicKey::from_bytes(&p).map_err(e)?;
            one(&Dilithium::sign_open(&sm, &pk).map_err(e)?)
        }
        65 => one(&Dilithium::extract_message(&a.bytes()).map_err(e)?),
        66 => one(&Dilithium::extract_signature(&a.bytes()).map_err(e)?),
        70 => num(put(Obj::Kyb(Kyber::default()))),
        71 => { let (p, s) = (a.bytes(), a.bytes()); num(put(Obj::Kyb(Kyber::new(&p, &s).map_err(e)?))) }
        72 | 73 | 74 => {
            let h = obj(a.int());
            let mut g = h.lock().unwrap_or_else(|p| p.into_inner());
            let Obj::Kyb(k) = &mut *g else { panic!("harness: wrong object") };
            match op {
                73 => k.kem_encode(kyb::PublicKey::from_bytes(&a.bytes()).map_err(e)?),
                74 => k.kem_decode(kyb::Ciphertext::from_bytes(&a.bytes()).map_err(e)?),
                _ => {}
            }
            let mut o = Out::default();
            o.bytes(k.get_pk().as_bytes()).bytes(k.get_sk().as_bytes()).bytes(k.get_shared_secret().as_bytes()).bytes(k.get_cipher_text().as_bytes());
            Ok(o)
        }
        _ => panic!("harness: unknown operation"),
    }
}
/// Returns 0 (result), 1 (an error was reported) or 2 (panic); *out is released with qr_free.
#[no_mangle]
pub unsafe extern "C" fn qr_call(op: u32, inp: *const u8, inlen: usize, out: *mut *mut u8, outlen: *mut usize) -> i32 {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let data = if inlen == 0 { &[][..] } else { std::slice::from_raw_parts(inp, inlen) };
    let r = catch_unwind(AssertUnwindSafe(|| call(op, &mut In(data))));
    let (code, v) = match r {
        Ok(Ok(o)) => (0, o.0),
        Ok(Err(s)) => (1, s.into_bytes()),
        Err(p) => (2, p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().into_bytes()),
    };
    let b = v.into_boxed_slice();
    *outlen = b.len();
    *out = Box::into_raw(b) as *mut u8;
    code
}
#[no_mangle]
pub unsafe extern "C" fn qr_free(p: *mut u8, n: usize) { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n))); }
