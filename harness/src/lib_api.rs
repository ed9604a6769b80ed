//! Adapters between the library under test and the monitors: ciphers that log every block they
//! are given, IV and random sources with scripted faults, big-integer conversion.
use crate::fw::*;
use crate::refs::big::Big;
use crate::refs::modes::Blk;
use crate::refs::{aes, des, sm4};
use rcrypto::cipher_mode::InitialVec;
use rcrypto::{Cipher, CryptoError, CryptoErrorKind, AES, DES, SM4, TDES};
use rmath::bigint::{BigInt, Nat};
use rmath::rand::{IterSource, RandErrKind, RandError, Seed, Source};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(&v[..N]);
    a
}

/// A keyed permutation on blocks of any size, for block sizes no real cipher here has.
#[derive(Clone)]
pub struct Toy {
    pub bs: usize,
    key: Vec<u8>,
}
impl Toy {
    pub fn new(bs: usize, key: Vec<u8>) -> Toy {
        Toy { bs, key }
    }
}
impl Blk for Toy {
    fn bs(&self) -> usize {
        self.bs
    }
    fn e(&self, b: &[u8]) -> Vec<u8> {
        assert!(b.len() == self.bs, "HARNESS-ERROR toy block");
        let mut x = b.to_vec();
        let n = x.len();
        for r in 0..3 {
            for i in 0..n {
                let k = self.key[(i + 5 * r) % self.key.len()];
                let prev = x[(i + n - 1) % n];
                let add = if n > 1 { prev.wrapping_mul(167) ^ k } else { k };
                x[i] = x[i].wrapping_add(add).rotate_left(3);
            }
        }
        x
    }
    fn d(&self, b: &[u8]) -> Vec<u8> {
        assert!(b.len() == self.bs, "HARNESS-ERROR toy block");
        let mut x = b.to_vec();
        let n = x.len();
        for r in (0..3).rev() {
            for i in (0..n).rev() {
                let k = self.key[(i + 5 * r) % self.key.len()];
                let prev = x[(i + n - 1) % n];
                let add = if n > 1 { prev.wrapping_mul(167) ^ k } else { k };
                x[i] = x[i].rotate_right(3).wrapping_sub(add);
            }
        }
        x
    }
}

#[derive(Clone)]
enum Inner {
    Aes(AES),
    Port(rcrypto_portable::AES),
    Des(DES),
    Tdes(TDES),
    Sm4(SM4),
    Toy(Toy),
}
pub type Log = Rc<RefCell<Vec<(bool, Vec<u8>)>>>;
/// A library cipher (or a toy one) that records every block it is asked to process.
#[derive(Clone)]
pub struct AnyC {
    inner: Rc<Inner>,
    pub log: Option<Log>,
}
impl Cipher for AnyC {
    type Output = usize;
    fn block_size(&self) -> Option<usize> {
        match &*self.inner {
            Inner::Aes(c) => c.block_size(),
            Inner::Port(c) => rcrypto_portable::Cipher::block_size(c),
            Inner::Des(c) => c.block_size(),
            Inner::Tdes(c) => c.block_size(),
            Inner::Sm4(c) => c.block_size(),
            Inner::Toy(t) => Some(t.bs),
        }
    }
    fn encrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        if let Some(l) = &self.log {
            l.borrow_mut().push((true, b.to_vec()));
        }
        match &*self.inner {
            Inner::Aes(c) => c.encrypt(dst, b),
            Inner::Port(c) => rcrypto_portable::Cipher::encrypt(c, dst, b).map_err(port_err),
            Inner::Des(c) => c.encrypt(dst, b),
            Inner::Tdes(c) => c.encrypt(dst, b),
            Inner::Sm4(c) => c.encrypt(dst, b),
            Inner::Toy(t) => {
                if b.len() != t.bs {
                    return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "toy length"));
                }
                *dst = t.e(b);
                Ok(dst.len())
            }
        }
    }
    fn decrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        if let Some(l) = &self.log {
            l.borrow_mut().push((false, b.to_vec()));
        }
        match &*self.inner {
            Inner::Aes(c) => c.decrypt(dst, b),
            Inner::Port(c) => rcrypto_portable::Cipher::decrypt(c, dst, b).map_err(port_err),
            Inner::Des(c) => c.decrypt(dst, b),
            Inner::Tdes(c) => c.decrypt(dst, b),
            Inner::Sm4(c) => c.decrypt(dst, b),
            Inner::Toy(t) => {
                if b.len() != t.bs {
                    return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "toy length"));
                }
                *dst = t.d(b);
                Ok(dst.len())
            }
        }
    }
}
fn port_err(e: rcrypto_portable::CryptoError) -> CryptoError {
    CryptoError::new(CryptoErrorKind::InvalidParameter, format!("{}", e))
}

pub struct Pair {
    pub c: AnyC,
    pub r: Box<dyn Blk>,
    pub name: String,
    pub key: Vec<u8>,
}
pub const CIPHERS: &[&str] = &["AES128", "AES192", "AES256", "DES", "TDES", "SM4", "AES-PORT"];

pub fn aes_ctor(key: &[u8], how: usize) -> Result<AES, CryptoError> {
    if how % 2 == 0 {
        return AES::new(key.to_vec());
    }
    Ok(match key.len() {
        16 => AES::aes_128(arr(key)),
        24 => AES::aes_192(arr(key)),
        32 => AES::aes_256(arr(key)),
        _ => return AES::new(key.to_vec()),
    })
}

/// The named cipher with a random key, next to its reference model.
pub fn pair(name: &str, rng: &mut Rng) -> Pair {
    let mk = |i: Inner| AnyC { inner: Rc::new(i), log: None };
    match name {
        "AES128" | "AES192" | "AES256" | "AES-PORT" => {
            let l = match name {
                "AES128" => 16,
                "AES192" => 24,
                "AES256" => 32,
                _ => *rng.pick(&[16, 24, 32]),
            };
            let key = rng.patterned(l);
            let c = if name == "AES-PORT" {
                Inner::Port(rcrypto_portable::AES::new(key.clone()).unwrap_or_else(|_| panic!("AES constructor refused a valid key")))
            } else {
                Inner::Aes(aes_ctor(&key, rng.below(2)).unwrap_or_else(|_| panic!("AES constructor refused a valid key")))
            };
            Pair { c: mk(c), r: Box::new(aes::Aes::new(&key)), name: name.to_string(), key }
        }
        "DES" => {
            let key = rng.patterned(8);
            Pair { c: mk(Inner::Des(DES::new(arr(&key)))), r: Box::new(des::Des::new(&key)), name: name.into(), key }
        }
        "TDES" => {
            let key = rng.patterned(24);
            let c = TDES::new(arr(&key), arr(&key[8..]), arr(&key[16..]));
            Pair { c: mk(Inner::Tdes(c)), r: Box::new(des::Tdes::new(&key)), name: name.into(), key }
        }
        "SM4" => {
            let key = rng.patterned(16);
            Pair { c: mk(Inner::Sm4(SM4::new(arr(&key)))), r: Box::new(sm4::Sm4::new(&key)), name: name.into(), key }
        }
        _ => {
            let bs: usize = name.strip_prefix("TOY").and_then(|s| s.parse().ok()).expect("HARNESS-ERROR cipher name");
            let key = rng.bytes(16);
            let t = Toy::new(bs, key.clone());
            Pair { c: mk(Inner::Toy(t.clone())), r: Box::new(t), name: name.into(), key }
        }
    }
}
pub fn any_pair(rng: &mut Rng) -> Pair {
    if rng.chance(1, 5) {
        let bs = if rng.chance(1, 12) { *rng.pick(&[100usize, 128, 255, 256, 257, 300]) } else { *rng.pick(&[1usize, 2, 3, 4, 7, 8, 12, 16, 20, 32, 64]) };
        pair(&format!("TOY{}", bs), rng)
    } else {
        let n = CIPHERS[rng.below(CIPHERS.len())];
        pair(n, rng)
    }
}

/// IV source handing out a fixed list of vectors; an empty slot is a failure.
#[derive(Clone)]
pub struct Ivs {
    pub list: Vec<Option<Vec<u8>>>,
    pub at: usize,
    /// what a failing call leaves in the vector
    pub dirty: bool,
}
impl Ivs {
    pub fn one(iv: &[u8]) -> Ivs {
        Ivs { list: vec![Some(iv.to_vec())], at: 0, dirty: false }
    }
}
impl InitialVec<AnyC> for Ivs {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        let k = self.at.min(self.list.len() - 1);
        self.at += 1;
        match &self.list[k] {
            Some(v) => {
                iv.clear();
                iv.extend_from_slice(v);
                Ok(())
            }
            None => {
                if self.dirty {
                    iv.clear();
                    iv.push(0x55);
                }
                Err(CryptoError::new(CryptoErrorKind::RandError, "scripted IV failure"))
            }
        }
    }
}

/// Random source: seeded stream, optional permanent failure after `fail_after` words, and a
/// cap on requests that turns an endless loop into a reported event.
#[derive(Clone)]
pub struct Src {
    rng: Rng,
    seed: u64,
    pub draws: Rc<Cell<u64>>,
    pub failed: Rc<Cell<u64>>,
    pub fail_after: Option<u64>,
    pub cap: u64,
    pub script: Rc<RefCell<Vec<u32>>>,
    /// restart the stream from the seed when set by the test
    pub rewind: Rc<Cell<bool>>,
    /// words favoured over random ones, with the chance num/den
    pub pool: Option<(Vec<u32>, usize, usize)>,
    /// most bytes are zero
    pub zero_bytes: bool,
    /// after so many words only one word of 32, this one, is not zero
    pub comb: Option<(u64, u64)>,
}
pub const ENDLESS: &str = "random source asked for ever";
impl Src {
    pub fn new(seed: u64) -> Src {
        Src {
            rng: Rng::new(seed),
            seed,
            draws: Rc::new(Cell::new(0)),
            failed: Rc::new(Cell::new(0)),
            fail_after: None,
            cap: u64::MAX,
            script: Rc::new(RefCell::new(Vec::new())),
            rewind: Rc::new(Cell::new(false)),
            pool: None,
            zero_bytes: false,
            comb: None,
        }
    }
    pub fn failing(seed: u64, after: u64) -> Src {
        let mut s = Src::new(seed);
        s.fail_after = Some(after);
        s
    }
}
impl Source<u32> for Src {
    fn gen(&mut self) -> rmath::rand::Result<u32> {
        if self.rewind.replace(false) {
            self.rng = Rng::new(self.seed);
        }
        let n = self.draws.get();
        self.draws.set(n + 1);
        if let Some(f) = self.fail_after {
            if n >= f {
                let k = self.failed.get() + 1;
                self.failed.set(k);
                if k > 10_000 {
                    panic!("{}", ENDLESS);
                }
                return Err(RandError::new(RandErrKind::NoNewRandNumberGen, "scripted random failure"));
            }
        }
        if n > self.cap {
            panic!("{}", ENDLESS);
        }
        let mut s = self.script.borrow_mut();
        if !s.is_empty() {
            return Ok(s.remove(0));
        }
        if let Some((p, num, den)) = &self.pool {
            if self.rng.chance(*num, *den) {
                return Ok(*self.rng.pick(p));
            }
        }
        if let Some((from, at)) = self.comb {
            if n >= from && n % 32 != at {
                return Ok(0);
            }
        }
        if self.zero_bytes {
            let m = self.rng.u32();
            return Ok((0..4).fold(0, |w, i| (w << 8) | if m >> (8 * i) & 3 == 0 { 1 + self.rng.below(255) as u32 } else { 0 }));
        }
        Ok(self.rng.u32())
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> rmath::rand::Result<()> {
        Ok(())
    }
}
impl IterSource<u32> for Src {
    fn iter_mut(&mut self) -> rmath::rand::Iter<'_, Self, u32> {
        rmath::rand::Iter::new(self)
    }
}

pub fn big(b: &BigInt) -> Big {
    if b.is_nan() {
        return Big::zero();
    }
    Big::from_be(&b.to_be_bytes())
}
pub fn nat(b: &Big) -> Nat {
    let v = b.to_be();
    if v.is_empty() { Nat::from(0u32) } else { Nat::from_be_bytes(&v) }
}
pub fn bint(b: &Big) -> BigInt {
    let v = b.to_be();
    if v.is_empty() { BigInt::from(0u32) } else { BigInt::from_be_bytes(&v) }
}
pub fn is_neg(b: &BigInt) -> bool {
    *b < BigInt::from(0u32)
}
/// value of the hexadecimal field `name` in a key's printed form
pub fn field(s: &str, name: &str) -> Big {
    let b = s.as_bytes();
    let mut from = 0;
    while let Some(i) = s[from..].find(name) {
        let at = from + i;
        let end = at + name.len();
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if (at == 0 || !word(b[at - 1])) && (end >= b.len() || !word(b[end])) {
            let rest: &str = &s[end..];
            let skip = rest.len() - rest.trim_start_matches(|c: char| !c.is_ascii_alphanumeric()).len();
            if let Some(h) = rest[skip..].strip_prefix("0x") {
                let digits: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                if !digits.is_empty() {
                    return Big::from_hex(&digits);
                }
            }
        }
        from = end;
    }
    panic!("HARNESS-ERROR no field {} in the printed key {}", name, s);
}
/// A digest whose value is the written text itself, cut or zero-filled to `n` bytes: lets a test choose hash values.
#[derive(Clone)]
pub struct Given {
    pub n: usize,
    buf: Vec<u8>,
}
impl Given {
    pub fn new(n: usize) -> Given {
        Given { n, buf: Vec::new() }
    }
}
impl rcrypto::Digest for Given {
    fn block_size(&self) -> Option<usize> {
        Some(64)
    }
    fn bits_len(&self) -> usize {
        8 * self.n
    }
    fn write(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        digest.clear();
        digest.extend_from_slice(&self.buf);
        digest.resize(self.n, 0);
    }
    fn reset(&mut self) {
        self.buf.clear();
    }
}

/// A digest of a single byte: a mask of a few hundred bytes already needs hundreds of blocks.
#[derive(Clone)]
pub struct Tiny(Vec<u8>);
pub fn tiny(m: &[u8]) -> Vec<u8> {
    crate::refs::hashes::md5(m)[..1].to_vec()
}
impl Tiny {
    pub fn new() -> Tiny {
        Tiny(Vec::new())
    }
}
impl rcrypto::Digest for Tiny {
    fn block_size(&self) -> Option<usize> {
        Some(64)
    }
    fn bits_len(&self) -> usize {
        8
    }
    fn write(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        digest.clear();
        digest.extend(tiny(&self.0));
    }
    fn reset(&mut self) {
        self.0.clear();
    }
}
