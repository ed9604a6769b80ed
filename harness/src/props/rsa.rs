//! C19-C24: RSA.
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::hashes::*;
use crate::refs::{keccak as rk, pk};
use rcrypto::rsa::{KeyPair, PrivateKey, PublicKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::{sha, sha3, Cipher, Signature, MD5, SHA, SM3};

pub const ROUNDS: usize = 40;

/// A generated key and what its printed form says.
pub struct Key {
    pub sk: PrivateKey,
    pub n: Big,
    pub e: Big,
    pub d: Big,
}
impl Key {
    pub fn read(sk: PrivateKey) -> Key {
        let s = format!("{}", sk);
        Key { n: field(&s, "n"), e: field(&s, "e"), d: field(&s, "d"), sk }
    }
    pub fn pair(&self) -> KeyPair {
        KeyPair::from(self.sk.clone())
    }
    pub fn public(&self) -> Result<PublicKey, Broken> {
        PublicKey::from_be_bytes(&self.n.to_be(), &self.e.to_be()).map_err(|e| Broken { sig: "rsa:public-refused".into(), detail: format!("n={} e={}: {}", self.n.to_hex(), self.e.to_hex(), e) })
    }
    pub fn k(&self) -> usize {
        (self.n.bits() + 7) / 8
    }
}
pub fn gen(bits: usize, primes: usize, seed: u64) -> Result<Key, Broken> {
    let mut src = Src::new(seed);
    src.cap = 200_000_000;
    let r = if primes == 2 && seed % 2 == 0 { PrivateKey::generate_key(bits, ROUNDS, &mut src) } else { PrivateKey::generate_multi_prime_key(primes, bits, ROUNDS, &mut src) };
    match r {
        Ok(sk) => Ok(Key::read(sk)),
        Err(e) => Err(Broken { sig: "rsa:gen-refused".into(), detail: format!("{} bits, {} primes, seed {}: {}", bits, primes, seed, e) }),
    }
}
/// splits n into primes with the help of a working exponent pair; None if it does not work
pub fn factor(n: &Big, e: &Big, d: &Big, rng: &mut Rng) -> Option<Vec<Big>> {
    let one = Big::one();
    let k = e.mul(d).sub(&one);
    let s = (0..k.bits()).take_while(|i| !k.bit(*i)).count();
    let t = k.shr(s);
    let mut done = vec![];
    let mut todo = vec![n.clone()];
    let mut tries = 0;
    while let Some(m) = todo.pop() {
        if m == one {
            continue;
        }
        if m.is_prime() {
            done.push(m);
            continue;
        }
        let mut split = None;
        while split.is_none() {
            tries += 1;
            if tries > 400 {
                return None;
            }
            let a = Big::random_below(&m, rng);
            if a <= one {
                continue;
            }
            let g = a.gcd(&m);
            if g != one {
                split = Some(g);
                break;
            }
            let mut x = a.powm(&t, &m);
            for _ in 0..s {
                let g = if x.is_zero() { one.clone() } else { x.sub(&one).gcd(&m) };
                if g != one && g != m && !g.is_zero() {
                    split = Some(g);
                    break;
                }
                x = x.mulm(&x, &m);
            }
        }
        if let Some(g) = split {
            let q = m.divrem(&g).0;
            todo.push(g);
            todo.push(q);
        }
    }
    done.sort();
    Some(done)
}
/// every rule a generated key has to follow; returns its primes
pub fn judge_key(k: &Key, bits: usize, primes: usize, what: &str, rng: &mut Rng) -> Result<Vec<Big>, Broken> {
    let one = Big::one();
    let bad = |sig: &str, m: String| Broken { sig: format!("rsa:key-{}", sig), detail: format!("{}: {} ({})", what, m, k.sk) };
    if k.n.bits() != bits {
        return Err(bad("size", format!("modulus of {} bits", k.n.bits())));
    }
    if !k.e.is_odd() || k.e.bits() < 2 {
        return Err(bad("e", "public exponent".into()));
    }
    for i in 0..4 {
        let a = if i == 0 { Big::from_u64(2) } else { Big::random_below(&k.n, rng) };
        if a.powm(&k.e, &k.n).powm(&k.d, &k.n) != a.rem(&k.n) {
            return Err(bad("d", format!("the exponents do not invert each other on {}", a.to_hex())));
        }
    }
    let f = match factor(&k.n, &k.e, &k.d, rng) {
        Some(f) => f,
        None => return Err(bad("factors", "the modulus does not split into primes with its exponents".into())),
    };
    if f.len() != primes {
        return Err(bad("count", format!("{} prime factors", f.len())));
    }
    for i in 0..f.len() {
        if i > 0 && f[i] == f[i - 1] {
            return Err(bad("distinct", "a repeated prime factor".into()));
        }
        let m = f[i].sub(&one);
        if k.e.mul(&k.d).rem(&m) != one {
            return Err(bad("inverse", format!("e*d is not 1 modulo {}-1", f[i].to_hex())));
        }
    }
    if let Err(e) = k.sk.is_valid() {
        return Err(bad("self-check", format!("is_valid says {}", e)));
    }
    if k.sk.modulus_len() != (bits + 7) / 8 || k.sk.public_key().modulus_len() != (bits + 7) / 8 {
        return Err(bad("len", "modulus_len".into()));
    }
    Ok(f)
}
fn c19_sizes(cx: &mut Cx) -> R {
    for _ in 0..6 {
        let (bits, primes) = match cx.rng.below(6) {
            0 => (cx.rng.range(12, 40), 2),
            1 => (cx.rng.range(60, 70), 2),
            2 => (cx.rng.range(40, 260), 2),
            3 => (cx.rng.range(45, 200), 3),
            4 => (cx.rng.range(80, 260), cx.rng.range(4, 5)),
            _ => (cx.rng.range(200, 330), cx.rng.range(4, 12)),
        };
        let seed = cx.rng.u64();
        let k = gen(bits, primes, seed)?;
        judge_key(&k, bits, primes, &format!("{} bits, {} primes, seed {}", bits, primes, seed), &mut cx.rng)?;
        cx.case(&[&k.n.to_be(), &k.d.to_be()]);
        cx.note(&[&k.n.to_be(), &k.d.to_be()]);
        cx.ev("keys judged");
        cx.ev(if primes == 2 { "two-prime keys" } else { "multi-prime keys" });
        if bits < 64 {
            cx.ev("keys below 64 bits");
        }
        if bits % 2 == 1 {
            cx.ev("odd sizes");
        }
        if primes >= 7 {
            cx.ev("keys of seven and more primes");
        }
        cx.sample(|| format!("{} bits, {} primes: n={}", bits, primes, k.n.to_hex()));
    }
    Ok(())
}
fn c19_big(cx: &mut Cx) -> R {
    let bits = if cx.idx % 4 == 0 { large_bits(cx) } else { *cx.rng.pick(&[512, 513, 519, 600, 768, 1023, 1024, 1025]) };
    let primes = if cx.rng.bool() { 2 } else { 3 };
    let seed = cx.rng.u64();
    let k = gen(bits, primes, seed)?;
    judge_key(&k, bits, primes, &format!("{} bits, {} primes, seed {}", bits, primes, seed), &mut cx.rng)?;
    cx.case(&[&k.n.to_be(), &k.d.to_be()]);
    cx.ev("keys of 512 and more bits");
    Ok(())
}
/// 32-bit primes by trial division, optionally 1 modulo 65537
fn prime32(rng: &mut Rng, special: bool) -> u32 {
    loop {
        let c = (rng.u32() | 0xe000_0001) as u64;
        let c = if special { c - c % 65537 + 1 } else { c };
        if c >= 0xe000_0000 && c % 2 == 1 && c <= u32::MAX as u64 && Big::from_u64(c).is_prime() {
            return c as u32;
        }
    }
}
/// A source that favours a few words: repeated primes and primes that are 1 modulo the exponent come up.
fn c19_biased(cx: &mut Cx) -> R {
    for _ in 0..4 {
        let primes = cx.rng.range(2, 5);
        let special = cx.rng.bool();
        let pool: Vec<u32> = (0..if special { 4 } else { 3 + primes - 2 }).map(|i| prime32(&mut cx.rng, special && i == 0)).collect();
        let seed = cx.rng.u64();
        let mut src = Src::new(seed);
        src.pool = Some((pool.clone(), 1, 2));
        src.cap = 50_000_000;
        let bits = 32 * primes;
        match PrivateKey::generate_multi_prime_key(primes, bits, ROUNDS, &mut src) {
            Ok(sk) => {
                let k = Key::read(sk);
                judge_key(&k, bits, primes, &format!("{} bits, {} primes, words favoured {:x?}, seed {}", bits, primes, pool, seed), &mut cx.rng)?;
                cx.case(&[&k.n.to_be()]);
            }
            Err(e) => return broken("rsa:gen-refused", format!("{} bits {} primes from a biased source: {}", bits, primes, e)),
        }
        cx.ev(if special { "sources offering primes that are 1 modulo e" } else { "sources repeating primes" });
    }
    Ok(())
}
fn c19_refused(cx: &mut Cx) -> R {
    for (primes, bits) in [(0usize, 512usize), (1, 512), (2, 4), (2, 6), (2, 8), (2, 10), (3, 12), (3, 15), (2, 0), (2, 1), (2, 2), (40, 64), (33, 63), (16, 40), (20, 64), (24, 96), (30, 100), (50, 128)] {
        let mut src = Src::new(cx.rng.u64());
        src.cap = 3_000_000;
        let r = no_panic(|| PrivateKey::generate_multi_prime_key(primes, bits, ROUNDS, &mut src).map(|k| format!("{}", k)));
        match r {
            Ok(Err(_)) => cx.ev("impossible requests refused"),
            Ok(Ok(k)) => return broken("rsa:impossible-key", format!("{} primes in {} bits: {}", primes, bits, k)),
            Err(m) => return broken("rsa:impossible-request", format!("{} primes in {} bits: {}", primes, bits, m)),
        }
        cx.case(&[&(primes as u32).to_le_bytes(), &(bits as u32).to_le_bytes()]);
    }
    Ok(())
}

fn c20_primitive(cx: &mut Cx) -> R {
    primitive(cx, false)
}
fn c20_large(cx: &mut Cx) -> R {
    primitive(cx, true)
}
fn primitive(cx: &mut Cx, large: bool) -> R {
    let (bits, primes) = match cx.rng.below(8) {
        0 | 1 => (cx.rng.range(12, 30), 2),
        2 => (cx.rng.range(30, 120), 2),
        3 => (cx.rng.range(45, 120), 3),
        4 => (cx.rng.range(80, 160), cx.rng.range(3, 5)),
        5 => (cx.rng.range(120, 300), cx.rng.range(2, 7)),
        _ => (cx.rng.range(200, 400), cx.rng.range(2, 4)),
    };
    let (bits, primes) = if large { (large_bits(cx), cx.rng.range(2, 5)) } else { (bits, primes) };
    let seed = cx.rng.u64();
    let k = gen(bits, primes, seed)?;
    let f = judge_key(&k, bits, primes, &format!("{} bits, {} primes, seed {}", bits, primes, seed), &mut cx.rng)?;
    let one = Big::one();
    let mut ms = vec![Big::zero(), one.clone(), k.n.sub(&one), Big::from_u64(2)];
    for p in &f {
        ms.push(p.clone());
        ms.push(p.mul(&Big::random_below(&k.n.divrem(p).0, &mut cx.rng)).rem(&k.n));
        ms.push(p.sub(&one));
        ms.push(k.n.divrem(p).0);
        // 0 modulo all but one prime
        ms.push(k.n.divrem(p).0.mul(&Big::random_below(p, &mut cx.rng)).rem(&k.n));
    }
    for _ in 0..8 {
        ms.push(Big::random_below(&k.n, &mut cx.rng));
    }
    let copy = k.sk.clone();
    let mut src = Src::new(cx.rng.u64());
    if cx.rng.chance(1, 3) {
        src.pool = Some((vec![0, 1, f[0].low_u64() as u32, f[1].low_u64() as u32], 1, 2));
        cx.ev("sources favouring unusual blinding values");
    }
    src.cap = 50_000_000;
    for m in &ms {
        let c = m.powm(&k.e, &k.n);
        let got = big(&k.sk.public_key().encrypt(&bint(m)));
        ensure!(got == c, "rsa:encrypt", "m={} under {}: {} expected {}", m.to_hex(), k.sk, got.to_hex(), c.to_hex());
        let cb = bint(&c);
        let key = if cx.rng.bool() { &k.sk } else { &copy };
        let rs = [
            ("plain", key.decrypt(&cb, None::<&mut Src>)),
            ("blinded", key.decrypt(&cb, Some(&mut src))),
            ("checked", key.decrypt_and_check(&cb, None::<&mut Src>)),
            ("checked and blinded", key.decrypt_and_check(&cb, Some(&mut src))),
        ];
        for (name, r) in rs {
            match r {
                Ok(x) => {
                    ensure!(!is_neg(&x) && big(&x) == *m, format!("rsa:decrypt:{}", name), "c={} under {} ({} primes): {} decryption gives {}{} expected {}", c.to_hex(), k.sk, primes, name, if is_neg(&x) { "-" } else { "" }, big(&x).to_hex(), m.to_hex());
                }
                Err(e) => return broken(&format!("rsa:decrypt:{}", name), format!("c={} under {}: {}", c.to_hex(), k.sk, e)),
            }
            let ev = format!("{} decryptions", name);
            cx.ev(&ev);
        }
        ensure!(big(&cb) == c, "rsa:argument-changed", "decryption changed its argument");
        if *m != one && m.gcd(&k.n) != one {
            cx.ev("residues sharing a factor with the modulus");
        }
        cx.case(&[&k.n.to_be(), &m.to_be()]);
    }
    cx.ev(if primes == 2 { "two-prime keys" } else { "multi-prime keys" });
    for c in [k.n.clone(), k.n.add(&one), k.n.add(&Big::random_below(&k.n, &mut cx.rng)), k.n.shl(1), k.n.mul(&k.n)] {
        let r = [k.sk.decrypt(&bint(&c), None::<&mut Src>).is_err(), k.sk.decrypt(&bint(&c), Some(&mut src)).is_err(), k.sk.decrypt_and_check(&bint(&c), None::<&mut Src>).is_err()];
        ensure!(r == [true; 3], "rsa:range", "value {} accepted under {}: refused {:?}", c.to_hex(), k.sk, r);
        cx.ev("values from the modulus up refused");
    }
    let neg = -bint(&Big::from_u64(5));
    let r = no_panic(|| [k.sk.decrypt(&neg, None::<&mut Src>).is_err(), k.sk.decrypt_and_check(&neg, None::<&mut Src>).is_err()]);
    ensure!(r == Ok([true; 2]), "rsa:negative", "-5 under {}: refused {:?}", k.sk, r);
    cx.ev("negative values refused");
    cx.sample(|| format!("{} bits, {} primes, {} residues: n={}", bits, primes, ms.len(), k.n.to_hex()));
    Ok(())
}
/// public keys built from numbers, in all four ways
fn c20_public(cx: &mut Cx) -> R {
    let nb = cx.rng.range(3, 500);
    let mut n = Big::random_below(&Big::one().shl(nb), &mut cx.rng).add(&Big::one().shl(nb));
    if !n.is_odd() {
        n = n.add(&Big::one());
    }
    let e = match cx.rng.below(5) {
        0 => Big::from_u64(3),
        1 => Big::from_u64(65537),
        // a top word of one
        2 => Big::one().shl(32 * cx.rng.range(1, 4)).add(&Big::from_u64(cx.rng.u32() as u64 | 1)),
        _ => Big::random_below(&n, &mut cx.rng),
    };
    let (nb, eb) = (n.to_be(), e.to_be());
    let (mut nl, mut el) = (nb.clone(), eb.clone());
    nl.reverse();
    el.reverse();
    let all = [PublicKey::from_be_bytes(&nb, &eb), PublicKey::from_le_bytes(&nl, &el), PublicKey::from_nat(&nat(&n), &nat(&e)), PublicKey::from_bigint(&bint(&n), &bint(&e))];
    let good = e < n && e >= Big::from_u64(3);
    for (i, k) in all.iter().enumerate() {
        let k = match k {
            Ok(k) => k,
            Err(x) => {
                ensure!(!good, "rsa:public-refused", "n={} e={} constructor {}: {}", n.to_hex(), e.to_hex(), i, x);
                cx.ev("unusable public keys refused");
                continue;
            }
        };
if !good {
            continue;
        }
        ensure!(k.modulus_len() == nb.len(), "rsa:public-len", "n={} constructor {}: {}", n.to_hex(), i, k.modulus_len());
        let s = format!("{}", k);
        ensure!(field(&s, "n") == n && field(&s, "e") == e, "rsa:public-numbers", "n={} e={} constructor {}: {}", n.to_hex(), e.to_hex(), i, s);
        for m in [Big::zero(), Big::one(), Big::from_u64(2), n.sub(&Big::one()), Big::random_below(&n, &mut cx.rng), Big::random_below(&n, &mut cx.rng)] {
            let got = k.encrypt(&bint(&m));
            ensure!(!is_neg(&got) && big(&got) == m.powm(&e, &n), "rsa:encrypt", "{} of m={}: {}", k, m.to_hex(), big(&got).to_hex());
            cx.case(&[&nb, &eb, &m.to_be()]);
        }
        cx.ev("encryptions with constructed public keys");
    }
    Ok(())
}
/// all residues of tiny keys
fn c20_all(cx: &mut Cx) -> R {
    let k = gen(cx.rng.range(12, 13), 2, cx.rng.u64())?;
    let n = k.n.low_u64();
    let mut src = Src::new(cx.rng.u64());
    src.cap = 50_000_000;
    for m in 0..n {
        let c = Big::from_u64(m).powm(&k.e, &k.n);
        let e = k.sk.public_key().encrypt(&bint(&Big::from_u64(m)));
        ensure!(big(&e) == c, "rsa:encrypt", "m={} under {}", m, k.sk);
        for blind in [false, true] {
            let r = if blind { k.sk.decrypt(&e, Some(&mut src)) } else { k.sk.decrypt(&e, None::<&mut Src>) };
            match r {
                Ok(x) => ensure!(!is_neg(&x) && big(&x) == Big::from_u64(m), if blind { "rsa:decrypt:blinded" } else { "rsa:decrypt:plain" }, "m={} blind={} under {}: {}", m, blind, k.sk, big(&x).to_hex()),
                Err(e) => return broken("rsa:decrypt", format!("m={} blind={} under {}: {}", m, blind, k.sk, e)),
            }
        }
        cx.case(&[&k.n.to_be(), &m.to_le_bytes()]);
    }
    cx.ev("keys with every residue tried");
    Ok(())
}

/// digests whose length in bits is not a whole number of bytes
fn sha512_225(m: &[u8]) -> Vec<u8> {
    sha512t(m, 225)
}
fn sha512_79(m: &[u8]) -> Vec<u8> {
    sha512t(m, 79)
}
macro_rules! with_md {
    ($i:expr, $d:ident, $h:ident, $hl:ident, $n:ident => $e:expr) => {
        match $i % 12 {
            0 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (MD5::new(), md5, 16, "MD5"); $e }
            1 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA1::new(), sha1, 20, "SHA1"); $e }
            2 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA224::new(), sha224, 28, "SHA224"); $e }
            3 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA256::new(), sha256, 32, "SHA256"); $e }
            4 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (SM3::new(), sm3, 32, "SM3"); $e }
            5 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha3::SHA224::new(), rk::sha3_224, 28, "SHA3-224"); $e }
            6 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA384::new(), sha384, 48, "SHA384"); $e }
            7 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA512::new(), sha512, 64, "SHA512"); $e }
            8 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (SHA::sha512_224(), sha512_224, 28, "SHA::sha512_224"); $e }
            9 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA512T::new(225).unwrap(), sha512_225, 29, "SHA-512/225"); $e }
            10 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA512T::new(79).unwrap(), sha512_79, 10, "SHA-512/79"); $e }
            _ => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (Tiny::new(), tiny, 1, "one byte of MD5"); $e }
        }
    };
}
fn pick_md(rng: &mut Rng) -> usize {
    // the long hashes need long keys, so less often
    if rng.chance(1, 8) { rng.range(6, 7) } else { *rng.pick(&[0, 0, 1, 2, 3, 4, 5, 8, 9, 10]) }
}
/// ciphertexts for a block em: em^e mod n, at modulus length
fn seal(k: &Key, em: &[u8]) -> Option<Vec<u8>> {
    let m = Big::from_be(em);
    if m >= k.n { None } else { Some(m.powm(&k.e, &k.n).to_be_n(k.k())) }
}
fn opened(k: &Key, c: &[u8]) -> Option<Vec<u8>> {
    let c2 = Big::from_be(c);
    if c.len() != k.k() || c2 >= k.n { None } else { Some(c2.powm(&k.d, &k.n).to_be_n(k.k())) }
}
/// key sizes in use, and their neighbours
fn large_bits(cx: &mut Cx) -> usize {
    cx.ev("keys of 2000 and more bits");
    if cx.idx >= 40 && cx.rng.chance(1, 3) { *cx.rng.pick(&[3071, 3072, 4096, 4097]) } else { *cx.rng.pick(&[2040, 2041, 2047, 2048, 2048, 2049, 2056]) }
}
fn c21_oaep(cx: &mut Cx) -> R {
    oaep(cx, false)
}
fn c21_large(cx: &mut Cx) -> R {
    oaep(cx, true)
}
fn oaep(cx: &mut Cx, large: bool) -> R {
    let i = if large { cx.idx % 12 } else if cx.rng.chance(1, 30) { 11 } else { pick_md(&mut cx.rng) };
    with_md!(i, dg, h, hl, name => {
        let min = (8 * (2 * hl + 2) + 1).max(40);
        let bits = match cx.rng.below(4) { _ if large && hl == 1 => { cx.ev("masks of more than 256 blocks"); 2100 + cx.rng.below(16) } _ if large => large_bits(cx), 0 => min.max(96) + cx.rng.below(8), 1 => min + 8 + cx.rng.below(8), _ => min + cx.rng.below(120) };
        let primes = if bits >= 60 && cx.rng.chance(1, 5) { 3 } else { 2 };
        let k = gen(bits, primes, cx.rng.u64())?;
        let kk = k.k();
        let n = match cx.rng.below(4) { 0 => 0, 1 => cx.rng.below(5), _ => cx.rng.below(150) };
        let mut label = cx.rng.patterned(n);
        let blind = cx.rng.bool();
        let src = Src::new(cx.rng.u64());
        let checked = cx.rng.bool();
        let o = if checked { OAEP::new(dg, src, k.pair(), label.clone(), blind) } else { OAEP::new_uncheck(dg, src, k.pair(), label.clone(), blind) };
        let mut o = match o { Ok(o) => o, Err(e) => return broken("oaep:ctor", format!("{} with {} bits: {}", name, bits, e)) };
        let max = kk - 2 * hl - 2;
        ensure!(o.max_message_len() == max && o.digest_len() == hl && o.modulus_len() == kk, "oaep:info", "{} with {} bits: max {} digest {} modulus {}", name, bits, o.max_message_len(), o.digest_len(), o.modulus_len());
        let what = format!("OAEP-{} {} blind={}", name, k.sk, blind);
        for round in 0..4 {
            if round == 2 {
                let n = cx.rng.below(40);
                label = cx.rng.bytes(n);
                o.set_label(label.clone());
                cx.ev("label changes");
            }
            let n = match round { 0 => 0, 1 => max, _ => cx.rng.below(max + 1) };
            let m = cx.rng.patterned(n);
            let junk = cx.rng.below(30);
            let mut c = cx.rng.bytes(junk);
            if let Err(e) = o.encrypt(&mut c, &m) { return broken("oaep:encrypt", format!("{} message {}: {}", what, hx(&m), e)); }
            ensure!(c.len() == kk, "oaep:len", "{}: ciphertext of {} bytes", what, c.len());
            let em = match opened(&k, &c) { Some(em) => em, None => return broken("oaep:range", format!("{}: ciphertext {} not below the modulus", what, hex(&c))) };
            ensure!(pk::oaep_decode(h, hl, &label, &em) == Some(m.clone()), "oaep:encoding", "{} label {} message {}: block {}", what, hx(&label), hx(&m), hex(&em));
            cx.ev("encryptions decoded independently");
            let mut back = cx.rng.bytes(junk);
            match o.decrypt(&mut back, &c) {
                Ok(()) => same!(back, m, "oaep:decrypt", "{} ciphertext {}", what, hex(&c)),
                Err(e) => return broken("oaep:decrypt", format!("{} ciphertext {}: {}", what, hex(&c), e)),
            }
            cx.case(&[&k.n.to_be(), &m, &label, &c]);
            cx.ev("round trips");
            // hostile ciphertexts
            let mut bad: Vec<(&str, Vec<u8>)> = vec![];
            let mut x = c.clone();
            let b = cx.rng.below(8 * kk);
            x[b / 8] ^= 1 << (b % 8);
            bad.push(("altered", x));
            bad.push(("shortened", c[..kk - 1].to_vec()));
            bad.push(("shortened in front", c[1..].to_vec()));
            let mut x = c.clone(); x.push(0); bad.push(("lengthened", x));
            let mut x = vec![0]; x.extend(&c); bad.push(("lengthened in front", x));
            bad.push(("empty", vec![]));
            bad.push(("zero", vec![0; kk]));
            bad.push(("all ones", vec![0xff; kk]));
            bad.push(("modulus", k.n.to_be_n(kk)));
            let over = Big::from_be(&c).add(&k.n);
            if over.bits() <= 8 * kk { bad.push(("shifted by the modulus", over.to_be_n(kk))); }
            if c[0] == 0 { bad.push(("leading zero removed", c[1..].to_vec())); cx.ev("ciphertexts with a leading zero"); }
            bad.push(("random", Big::random_below(&k.n, &mut cx.rng).to_be_n(kk)));
            // malformed encodings
            let seed = cx.rng.bytes(hl);
            let lh = h(&label);
            let dbl = kk - hl - 1;
            let mk = |lh: &[u8], rest: Vec<u8>| { let mut db = lh.to_vec(); db.extend(rest); db };
            let rest = dbl - hl;
            let good = |n: usize, m: &[u8]| { let mut r = vec![0; n]; r.push(1); r.extend(m); r.truncate(rest.max(0)); r.resize(rest, 7); r };
            let z = cx.rng.below(rest);
            let mut enc: Vec<(&str, u8, Vec<u8>)> = vec![];
            enc.push(("well formed", 0, mk(&lh, good(z, b"m"))));
            enc.push(("no separator", 0, mk(&lh, vec![0; rest])));
            let mut r = good(z, b"m"); r[z] = *cx.rng.pick(&[2, 3, 0x80, 0xff, 0x81]); enc.push(("wrong separator", 0, mk(&lh, r)));
            if z > 0 { let mut r = good(z, b"m"); r[cx.rng.below(z)] = cx.rng.u8() | 2; enc.push(("padding not zero", 0, mk(&lh, r))); }
            let mut l2 = lh.clone(); let b = cx.rng.below(8 * hl); l2[b / 8] ^= 1 << (b % 8); enc.push(("wrong label hash", 0, mk(&l2, good(z, b"m"))));
            let mut l2 = label.clone(); l2.push(1); enc.push(("other label", 0, mk(&h(&l2), good(z, b"m"))));
            enc.push(("first byte not zero", *cx.rng.pick(&[1u8, 2, 3, 0x10]), mk(&lh, good(z, b"m"))));
            let mut made = vec![];
            for (w, first, db) in &enc {
                let em = pk::oaep_mask(h, hl, *first, &seed, db);
                if let Some(c) = seal(&k, &em) { made.push((*w, c)); }
            }
            for (w, c) in bad.into_iter().chain(made) {
                let want = opened(&k, &c).and_then(|em| pk::oaep_decode(h, hl, &label, &em));
                let mut out = vec![1, 2, 3];
                let r = match no_panic(|| o.decrypt(&mut out, &c)) { Ok(r) => r, Err(p) => return broken("oaep:panic", format!("{} {} ciphertext {}: {}", what, w, hx(&c), p)) };
                match (&want, r) {
                    (Some(m), Ok(())) => { same!(out, *m, "oaep:decrypt", "{} {} ciphertext {}", what, w, hex(&c)); cx.ev("well-formed blocks decrypted"); }
                    (None, Err(_)) => { let e = format!("refused: {}", w); cx.ev(&e); }
                    (Some(_), Err(e)) => return broken("oaep:refused", format!("{} {} ciphertext {}: {}", what, w, hex(&c), e)),
                    (None, Ok(())) => return broken(&format!("oaep:accepted:{}", w), format!("{} {} ciphertext {} gives {}", what, w, hx(&c), hx(&out))),
                }
                cx.case(&[&k.n.to_be(), &label, &c]);
            }
        }
        let more = 1 + cx.rng.below(20);
        let m = cx.rng.bytes(max + more);
        ensure!(o.encrypt(&mut vec![], &m).is_err(), "oaep:too-long", "{}: {} bytes accepted, at most {} advertised", what, m.len(), max);
        cx.ev("too long messages refused");
        let e = format!("OAEP with {}", name);
        cx.ev(&e);
        // a public key encrypts but does not decrypt
        with_md!(i, dg, _h, _hl, _n => {
            if let Ok(p) = OAEP::new_uncheck(dg, Src::new(1), KeyPair::from(k.public()?), label.clone(), false) {
                let mut c = vec![];
                let m = cx.rng.bytes(max / 2);
                ensure!(p.encrypt(&mut c, &m).is_ok(), "oaep:public", "{}: a public key refuses to encrypt", what);
                let mut out = vec![];
                ensure!(o.decrypt(&mut out, &c).is_ok() && out == m, "oaep:public", "{}: message encrypted with the public key not recovered", what);
                ensure!(p.decrypt(&mut out, &c).is_err(), "oaep:public", "{}: a public key decrypts", what);
                cx.ev("public keys used");
            }
        });
        cx.sample(|| format!("OAEP-{} with {} bits, {} primes, label of {} bytes", name, bits, primes, label.len()));
    });
    Ok(())
}
fn c22_enc(cx: &mut Cx) -> R {
    enc(cx, false)
}
fn c22_large(cx: &mut Cx) -> R {
    enc(cx, true)
}
fn enc(cx: &mut Cx, large: bool) -> R {
    let bits = match cx.rng.below(3) { _ if large => large_bits(cx), 0 => 89 + cx.rng.below(16), _ => cx.rng.range(96, 400) };
    let primes = if bits >= 60 && cx.rng.chance(1, 5) { 3 } else { 2 };
    let k = gen(bits, primes, cx.rng.u64())?;
    let kk = k.k();
    let mut src = Src::new(cx.rng.u64());
    let zeros = cx.rng.chance(1, 2);
    if zeros {
        src.zero_bytes = true;
    }
    let blind = cx.rng.bool();
    let o = if cx.rng.bool() { PKCS1::new(sha::SHA1::new(), src, k.pair(), blind) } else { PKCS1::new_uncheck(sha::SHA1::new(), src, k.pair(), blind) };
    let o = match o { Ok(o) => o, Err(e) => return broken("pkcs1:ctor", format!("{} bits: {}", bits, e)) };
    let max = kk - 11;
    ensure!(o.encrypt_max_message_len() == max && o.modulus_len() == kk, "pkcs1:info", "{} bits: max {} modulus {}", bits, o.encrypt_max_message_len(), o.modulus_len());
    let what = format!("PKCS1 {} blind={}", k.sk, blind);
    for round in 0..5 {
        let n = match round { 0 => 0, 1 => max, _ => cx.rng.below(max + 1) };
        let m = cx.rng.patterned(n);
        let junk = cx.rng.below(30);
        let mut c = cx.rng.bytes(junk);
        if let Err(e) = o.encrypt(&mut c, &m) { return broken("pkcs1:encrypt", format!("{} message {}: {}", what, hx(&m), e)); }
        ensure!(c.len() == kk, "pkcs1:len", "{} message {}: ciphertext of {} bytes", what, hx(&m), c.len());
        let em = match opened(&k, &c) { Some(em) => em, None => return broken("pkcs1:range", format!("{}: ciphertext {} not below the modulus", what, hex(&c))) };
        ensure!(em.len() == kk && pk::pkcs1_dec(&em) == Some(m.clone()), "pkcs1:encoding", "{} message {}: block {}", what, hx(&m), hex(&em));
        cx.ev("encryptions decoded independently");
        if zeros { cx.ev("padding from sources full of zero bytes"); }
        if n == 0 { cx.ev("empty messages"); }
        let mut back = cx.rng.bytes(junk);
        match o.decrypt(&mut back, &c) {
            Ok(()) => same!(back, m, "pkcs1:decrypt", "{} ciphertext {}", what, hex(&c)),
            Err(e) => return broken("pkcs1:decrypt", format!("{} ciphertext {}: {}", what, hex(&c), e)),
        }
        cx.case(&[&k.n.to_be(), &m, &c]);
        cx.ev("round trips");
        let mut bad: Vec<(&str, Vec<u8>)> = vec![];
        let mut x = c.clone();
        let b = cx.rng.below(8 * kk);
        x[b / 8] ^= 1 << (b % 8);
        bad.push(("altered", x));
        bad.push(("shortened", c[..kk - 1].to_vec()));
        bad.push(("shortened in front", c[1..].to_vec()));
        let mut x = c.clone(); x.push(0); bad.push(("lengthened", x));
        let mut x = vec![0]; x.extend(&c); bad.push(("lengthened in front", x));
        bad.push(("empty", vec![]));
        bad.push(("zero", vec![0; kk]));
        bad.push(("all ones", vec![0xff; kk]));
        bad.push(("modulus", k.n.to_be_n(kk)));
        let over = Big::from_be(&c).add(&k.n);
        if over.bits() <= 8 * kk { bad.push(("shifted by the modulus", over.to_be_n(kk))); }
        // blocks with single rules broken
        let nz = |rng: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| 1 + rng.below(255) as u8).collect() };
        let mut ems: Vec<(&str, Vec<u8>)> = vec![];
        for ps in [0usize, 1, 7, 8, 9, kk - 4, kk - 3] {
            if ps + 3 > kk { continue; }
            let mut em = vec![0, 2]; em.extend(nz(&mut cx.rng, ps)); em.push(0);
            let left = kk - em.len();
            em.extend(cx.rng.bytes(left));
            ems.push((match ps { 0 | 1 | 7 => "padding too short", _ => "well formed" }, em));
        }
        let mut em = vec![0, 2]; em.extend(nz(&mut cx.rng, kk - 2)); ems.push(("no separator", em));
        for (w, a, b) in [("first byte not zero", 1u8, 2u8), ("block type", 0, 1), ("block type", 0, 0), ("block type", 0, 3), ("block type", 0, 0x82)] {
            let mut em = vec![a, b]; em.extend(nz(&mut cx.rng, 8)); em.push(0); em.resize(kk, 5); ems.push((w, em));
        }
        for (w, em) in ems {
            if let Some(c) = seal(&k, &em) { bad.push((w, c)); }
        }
        for (w, c) in bad {
            let want = opened(&k, &c).and_then(|em| pk::pkcs1_dec(&em));
            let mut out = vec![1, 2, 3];
            let r = match no_panic(|| o.decrypt(&mut out, &c)) { Ok(r) => r, Err(p) => return broken("pkcs1:panic", format!("{} {} ciphertext {}: {}", what, w, hx(&c), p)) };
            match (&want, r) {
                (Some(m), Ok(())) => { same!(out, *m, "pkcs1:decrypt", "{} {} ciphertext {}", what, w, hex(&c)); cx.ev("well-formed blocks decrypted"); }
                (None, Err(_)) => { let e = format!("refused: {}", w); cx.ev(&e); }
                (Some(_), Err(e)) => return broken("pkcs1:refused", format!("{} {} ciphertext {}: {}", what, w, hex(&c), e)),
                (None, Ok(())) => return broken(&format!("pkcs1:accepted:{}", w), format!("{} {} ciphertext {} gives {}", what, w, hx(&c), hx(&out))),
            }
            cx.case(&[&k.n.to_be(), &c]);
        }
    }
    let more = 1 + cx.rng.below(20);
    let m = cx.rng.bytes(max + more);
    ensure!(o.encrypt(&mut vec![], &m).is_err(), "pkcs1:too-long", "{}: {} bytes accepted, at most {} advertised", what, m.len(), max);
    cx.ev("too long messages refused");
    let p = PKCS1::new_uncheck(sha::SHA1::new(), Src::new(1), KeyPair::from(k.public()?), false);
    if let Ok(p) = p {
        let mut c = vec![];
        let m = cx.rng.bytes(max / 2);
        ensure!(p.encrypt(&mut c, &m).is_ok(), "pkcs1:public", "{}: a public key refuses to encrypt", what);
        let mut out = vec![];
        ensure!(o.decrypt(&mut out, &c).is_ok() && out == m, "pkcs1:public", "{}: message encrypted with the public key not recovered", what);
        ensure!(p.decrypt(&mut out, &c).is_err(), "pkcs1:public", "{}: a public key decrypts", what);
        cx.ev("public keys used");
    }
    cx.sample(|| format!("{} bits, {} primes, zero-rich source {}", bits, primes, zeros));
    Ok(())
}
macro_rules! with_signmd {
    ($i:expr, $d:ident, $h:ident, $hl:ident, $n:ident => $e:expr) => {
        match $i % 6 {
            0 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (MD5::new(), md5, 16, "MD5"); $e }
            1 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA1::new(), sha1, 20, "SHA1"); $e }
            2 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA224::new(), sha224, 28, "SHA224"); $e }
            3 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA256::new(), sha256, 32, "SHA256"); $e }
            4 => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA384::new(), sha384, 48, "SHA384"); $e }
            _ => { let ($d, $h, $hl, $n): (_, HashFn, usize, &str) = (sha::SHA512::new(), sha512, 64, "SHA512"); $e }
        }
    };
}
/// the signature of a block: em^d mod n
fn signed(k: &Key, em: &[u8]) -> Option<Vec<u8>> {
    let m = Big::from_be(em);
    if m >= k.n { None } else { Some(m.powm(&k.d, &k.n).to_be_n(k.k())) }
}
fn c23_sign(cx: &mut Cx) -> R {
    sign(cx, false)
}
fn c23_large(cx: &mut Cx) -> R {
    sign(cx, true)
}
fn sign(cx: &mut Cx, large: bool) -> R {
    let i = if cx.rng.chance(1, 6) { cx.rng.range(4, 5) } else { cx.rng.below(4) };
    with_signmd!(i, dg, h, hl, name => {
        let prefix = pk::digest_info(name).expect("HARNESS-ERROR prefix");
        let t = prefix.len() + hl;
        let min = 8 * (t + 11) - 7;
        let bits = match cx.rng.below(3) { _ if large => large_bits(cx), 0 => min + cx.rng.below(16), _ => min + cx.rng.below(120) };
        let primes = if bits >= 60 && cx.rng.chance(1, 5) { 3 } else { 2 };
        let k = gen(bits, primes, cx.rng.u64())?;
        let kk = k.k();
        let blind = cx.rng.bool();
        let o = PKCS1::new(dg, Src::new(cx.rng.u64()), k.pair(), blind);
        let mut o = match o { Ok(o) => o, Err(e) => return broken("sign:ctor", format!("{} bits {}: {}", bits, name, e)) };
        let mut v = with_signmd!(i, dg, _h, _hl, _n => match PKCS1::new_uncheck(dg, Src::new(1), KeyPair::from(k.public()?), false) { Ok(v) => BoxV(Box::new(v)), Err(e) => return broken("sign:ctor", format!("{}", e)) });
        let what = format!("PKCS1-{} {} blind={}", name, k.sk, blind);
        for _ in 0..3 {
            let n = match cx.rng.below(4) { 0 => 0, 1 => cx.rng.below(200), _ => cx.rng.below(40) };
            let m = cx.rng.patterned(n);
            let mut s = SignatureContent::new();
            if let Err(e) = o.sign(&mut s, &m) { return broken("sign:refused", format!("{} message {}: {}", what, hx(&m), e)); }
            let em = pk::pkcs1_sig_em(&prefix, &h(&m), kk);
            let want = signed(&k, &em).expect("HARNESS-ERROR em");
            same!(s.as_slice().to_vec(), want, "sign:value", "{} message {}", what, hx(&m));
            cx.ev("canonical signatures");
            cx.case(&[&k.n.to_be(), &m, &want]);
            let mut tries: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![("canonical", want.clone(), m.clone())];
            let mut m2 = m.clone(); m2.push(0); tries.push(("changed message", want.clone(), m2));
            if n > 0 { let mut m2 = m.clone(); let b = cx.rng.below(8 * n); m2[b / 8] ^= 1 << (b % 8); tries.push(("changed message", want.clone(), m2)); tries.push(("changed message", want.clone(), m[1..].to_vec())); }
            let mut x = want.clone(); let b = cx.rng.below(8 * kk); x[b / 8] ^= 1 << (b % 8); tries.push(("altered", x, m.clone()));
            let mut x = want.clone(); x.push(0); tries.push(("lengthened", x, m.clone()));
            let mut x = vec![0]; x.extend(&want); tries.push(("lengthened in front", x, m.clone()));
            let mut x = vec![0; 4]; x.extend(&want); tries.push(("lengthened in front", x, m.clone()));
            tries.push(("shortened", want[..kk - 1].to_vec(), m.clone()));
            tries.push(("shortened in front", want[1..].to_vec(), m.clone()));
            tries.push(("empty", vec![], m.clone()));
            tries.push(("zero", vec![0; kk], m.clone()));
            tries.push(("one", Big::one().to_be_n(kk), m.clone()));
            tries.push(("modulus", k.n.to_be_n(kk), m.clone()));
            for f in [1u64, 2] {
                let over = Big::from_be(&want).add(&k.n.mul(&Big::from_u64(f)));
                tries.push(("shifted by the modulus", over.to_be_n(kk.max((over.bits() + 7) / 8)), m.clone()));
            }
            tries.push(("complement", k.n.sub(&Big::from_be(&want)).to_be_n(kk), m.clone()));
            if want[0] == 0 { tries.push(("leading zero removed", want[1..].to_vec(), m.clone())); cx.ev("signatures with a leading zero"); }
            // blocks with one deviation
            let mut ems: Vec<(&str, Vec<u8>)> = vec![];
            for _ in 0..4 {
                let mut x = em.clone();
                let b = 1 + cx.rng.below(kk - 1);
                x[b] = x[b].wrapping_add(1 + cx.rng.below(255) as u8);
                ems.push(("block deviates", x));
            }
            let pos = 2 + cx.rng.below(kk - t - 3);
            let mut x = em.clone(); x[pos] = 0; ems.push(("zero inside the padding", x));
            let mut x = em.clone(); x[pos] = 0xfe; ems.push(("padding not 0xff", x));
            let mut x = em.clone(); x[1] = 2; ems.push(("block type", x));
            let mut x = em.clone(); x[0] = 1; ems.push(("first byte", x));
            let mut x = em.clone(); x[kk - t - 1] = 0xff; ems.push(("separator", x));
            // shorter padding, the rest after the hash
            if kk > t + 11 {
                let mut x = vec![0, 1]; x.resize(10, 0xff); x.push(0); x.extend(&prefix); x.extend(h(&m)); x.resize(kk, cx.rng.u8()); ems.push(("garbage after the hash", x));
            }
            // DigestInfo without the NULL parameters, lengths adjusted
            let mut p2 = prefix.clone();
            if let Some(nul) = p2.windows(2).position(|w| w == [5, 0]) { p2.drain(nul..nul + 2); p2[1] -= 2; p2[3] -= 2; }
            let x = pk::pkcs1_sig_em(&p2, &h(&m), kk); ems.push(("parameters absent", x));
            // another hash's identifier
            let other = pk::digest_info(*cx.rng.pick(&["MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512"])).expect("HARNESS-ERROR prefix");
            if other != prefix && kk >= other.len() + hl + 3 { ems.push(("other identifier", pk::pkcs1_sig_em(&other, &h(&m), kk))); }
            for (w, em2) in ems {
                if em2 == em { continue; }
                if let Some(s) = signed(&k, &em2) { tries.push((w, s, m.clone())); }
            }
            for (w, s, msg) in tries {
                let want_ok = s == want && msg == m;
                let sc = SignatureContent::from(&s[..]);
                for public in [false, true] {
                    let r = match no_panic(|| if public { v.0.verify(&sc, &msg).is_ok() } else { o.verify(&sc, &msg).is_ok() }) { Ok(r) => r, Err(p) => return broken("sign:panic", format!("{} {} signature {}: {}", what, w, hx(&s), p)) };
                    ensure!(r == want_ok, format!("sign:{}:{}", if r { "accepted" } else { "rejected" }, w), "{} {} signature {} message {} (public key only: {})", what, w, hex(&s), hx(&msg), public);
                }
                let e = format!("{}: {}", if want_ok { "accepted" } else { "rejected" }, w);
                cx.ev(&e);
                cx.case(&[&k.n.to_be(), &msg, &s]);
            }
            let mut s = SignatureContent::new();
            ensure!(v.0.sign(&mut s, &m).is_err(), "sign:public", "{}: a public key signs", what);
        }
        let e = format!("PKCS1 signatures with {}", name);
        cx.ev(&e);
        cx.sample(|| format!("PKCS1-{} with {} bits, {} primes", name, bits, primes));
    });
    Ok(())
}
struct BoxV(Box<dyn Signature<SignatureContent, Output = ()>>);
fn refused<H: rcrypto::Digest + Clone + 'static>(cx: &mut Cx, name: &str, d: H) -> R {
    let k = gen(800, 2, 7)?;
    let r = no_panic(|| -> Result<(), &'static str> {
        match PKCS1::new(d.clone(), Src::new(1), k.pair(), false) {
            Err(_) => Ok(()),
            Ok(mut o) => {
                let mut s = SignatureContent::new();
                if o.sign(&mut s, b"m").is_ok() { return Err("signs"); }
                let s = SignatureContent::from(vec![1; k.k()]);
                if o.verify(&s, b"m").is_ok() { return Err("verifies"); }
                Ok(())
            }
        }
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => return broken("sign:unregistered", format!("{} {}", name, m)),
        Err(p) => return broken("sign:unregistered-panic", format!("{}: {}", name, p)),
    }
    cx.ev("hashes without identifier refused");
    cx.case(&[name.as_bytes()]);
    Ok(())
}
fn c23_refused(cx: &mut Cx) -> R {
    refused(cx, "SM3", SM3::new())?;
    refused(cx, "SHA3-256", sha3::SHA256::new())?;
    refused(cx, "SHA3-224", sha3::SHA224::new())?;
    refused(cx, "SHAKE128", sha3::Shake128::new(256))?;
    refused(cx, "ZUCMac", rcrypto::ZUCMac::new(1, 2, true, [3; 16]))
}
fn c24_pss(cx: &mut Cx) -> R {
    pss(cx, false)
}
fn c24_large(cx: &mut Cx) -> R {
    pss(cx, true)
}
fn pss(cx: &mut Cx, large: bool) -> R {
    let i = if large { cx.idx % 12 } else if cx.rng.chance(1, 30) { 11 } else { pick_md(&mut cx.rng) };
    with_md!(i, dg, h, hl, name => {
        let min = 8 * (hl + 2) + 1;
        let bits = match cx.rng.below(4) { _ if large && hl == 1 => { cx.ev("masks of more than 256 blocks"); 2100 + cx.rng.below(16) } _ if large => large_bits(cx), 0 => min.max(96) + cx.rng.below(10), 1 => 8 * ((min + cx.rng.below(200)) / 8) + 1, _ => min.max(96) + cx.rng.below(240) };
        let primes = if bits >= 60 && cx.rng.chance(1, 5) { 3 } else { 2 };
        let k = gen(bits, primes, cx.rng.u64())?;
        let kk = k.k();
        let embits = bits - 1;
        let emlen = (embits + 7) / 8;
        let room = emlen - hl - 2;
        let (arg, slen) = match cx.rng.below(4) {
            0 => (None, hl),
            1 => (Some(0), room),
            2 if room > 0 => (Some(room), room),
            _ => { let s = 1 + cx.rng.below(room + 3); (Some(s), s) }
        };
        let blind = cx.rng.bool();
        let what = format!("PSS-{} {} bits, salt {:?}, {} blind={}", name, bits, arg, k.sk, blind);
        let checked = cx.rng.bool();
        let src = Src::new(cx.rng.u64());
        let o = if checked { PSS::new(dg, src, k.pair(), arg, blind) } else { PSS::new_uncheck(dg, src, k.pair(), arg, blind) };
        ensure!(o.is_ok() == (slen <= room), "pss:ctor", "{}: accepted={} with room for {} bytes", what, o.is_ok(), room);
        let mut o = match o { Ok(o) => o, Err(_) => { cx.ev("salts without room refused"); cx.case(&[&k.n.to_be(), &slen.to_le_bytes()]); return Ok(()); } };
        ensure!(o.salt_len() == slen && o.digest_len() == hl && o.modulus_len() == kk, "pss:info", "{}: salt {} digest {} modulus {}", what, o.salt_len(), o.digest_len(), o.modulus_len());
        cx.ev(if arg == Some(0) { "automatic salt length" } else if arg.is_none() { "salt of hash length" } else { "chosen salt length" });
        let ev = format!("modulus bits {} modulo 8", bits % 8);
        cx.ev(&ev);
        let ev = format!("PSS with {}", name);
        cx.ev(&ev);
        for _ in 0..3 {
            let n = match cx.rng.below(4) { 0 => 0, 1 => cx.rng.below(200), _ => cx.rng.below(40) };
            let m = cx.rng.patterned(n);
            let mut sc = SignatureContent::new();
            if let Err(e) = o.sign(&mut sc, &m) { return broken("pss:refused", format!("{} message {}: {}", what, hx(&m), e)); }
            let s = sc.as_slice().to_vec();
            ensure!(s.len() == kk, "pss:len", "{}: signature of {} bytes", what, s.len());
            let sv = Big::from_be(&s);
            ensure!(sv < k.n, "pss:range", "{}: signature {} not below the modulus", what, hex(&s));
            let ok = |sig: &[u8], msg: &[u8]| -> bool {
                let v = Big::from_be(sig);
                if sig.len() != kk || v >= k.n { return false; }
                let e = v.powm(&k.e, &k.n);
                if (e.bits() + 7) / 8 > emlen { return false; }
                pk::pss_verify(h, hl, &h(msg), &e.to_be_n(emlen), embits, Some(slen)).is_some()
            };
            ensure!(ok(&s, &m), "pss:encoding", "{} message {}: signature {} is not an EMSA-PSS encoding", what, hx(&m), hex(&s));
            cx.ev("signatures verified independently");
            let mut tries: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![("own", s.clone(), m.clone())];
            let mut m2 = m.clone(); m2.push(0); tries.push(("changed message", s.clone(), m2));
            if n > 0 { let mut m2 = m.clone(); let b = cx.rng.below(8 * n); m2[b / 8] ^= 1 << (b % 8); tries.push(("changed message", s.clone(), m2)); }
            let mut x = s.clone(); let b = cx.rng.below(8 * kk); x[b / 8] ^= 1 << (b % 8); tries.push(("altered", x, m.clone()));
            let mut x = s.clone(); x.push(0); tries.push(("lengthened", x, m.clone()));
            let mut x = vec![0]; x.extend(&s); tries.push(("lengthened in front", x, m.clone()));
            tries.push(("shortened", s[..kk - 1].to_vec(), m.clone()));
            tries.push(("shortened in front", s[1..].to_vec(), m.clone()));
            tries.push(("empty", vec![], m.clone()));
            tries.push(("zero", vec![0; kk], m.clone()));
            tries.push(("all ones", vec![0xff; kk], m.clone()));
            tries.push(("modulus", k.n.to_be_n(kk), m.clone()));
            let over = sv.add(&k.n);
            if over.bits() <= 8 * kk { tries.push(("shifted by the modulus", over.to_be_n(kk), m.clone())); }
            tries.push(("random", Big::random_below(&k.n, &mut cx.rng).to_be_n(kk), m.clone()));
            // encodings with one rule broken
            let mh = h(&m);
            let salt = cx.rng.bytes(slen);
            let mut ems: Vec<(&str, Vec<u8>)> = vec![];
            let mut put = |w: &'static str, e: Option<Vec<u8>>| if let Some(e) = e { ems.push((w, e)) };
            let good = pk::pss_encode(h, hl, &mh, &salt, embits, 1, 0, 0xbc);
            put("well formed", good.clone());
            put("trailer", pk::pss_encode(h, hl, &mh, &salt, embits, 1, 0, *cx.rng.pick(&[0xcc, 0xbd, 0, 0xff, 0xbe])));
            put("separator", pk::pss_encode(h, hl, &mh, &salt, embits, *cx.rng.pick(&[0, 2, 3, 0x81, 0x80, 0xff]), 0, 0xbc));
            if slen < room { put("padding not zero", pk::pss_encode(h, hl, &mh, &salt, embits, 1, *cx.rng.pick(&[1, 2, 0xff]), 0xbc)); }
            put("longer salt", pk::pss_encode(h, hl, &mh, &cx.rng.clone().bytes(slen + 1), embits, 1, 0, 0xbc));
            if slen > 0 { put("shorter salt", pk::pss_encode(h, hl, &mh, &salt[1..], embits, 1, 0, 0xbc)); put("no salt", pk::pss_encode(h, hl, &mh, &[], embits, 1, 0, 0xbc)); }
            let mut mh2 = mh.clone(); let b = cx.rng.below(8 * hl); mh2[b / 8] ^= 1 << (b % 8);
            put("other hash", pk::pss_encode(h, hl, &mh2, &salt, embits, 1, 0, 0xbc));
            if let Some(g) = good {
                // one byte of padding only, the rest zero: position chosen at random
                if slen < room {
                    let mut x = g.clone();
                    let pos = cx.rng.below(room - slen);
                    x[pos] ^= 1;
                    put("one padding byte", Some(x));
                }
                let mut x = g.clone(); x[emlen - hl - 1 + cx.rng.below(hl)] ^= 1 << cx.rng.below(8); put("hash bit", Some(x));
                if slen > 0 { let mut x = g.clone(); x[emlen - hl - 1 - 1 - cx.rng.below(slen)] ^= 1 << cx.rng.below(8); put("salt bit", Some(x)); }
                let unused = 8 * emlen - embits;
                if unused > 0 { let mut x = g.clone(); x[0] |= 0x80 >> cx.rng.below(unused); put("leading bits", Some(x)); }
                // the hash over something else than eight zero bytes in front
                let mut pre = vec![1u8; 8]; pre.extend(&mh); pre.extend(&salt);
                let hh = h(&pre);
                let mut db = vec![0; room - slen]; db.push(1); db.extend(&salt);
                let mut x: Vec<u8> = db.iter().zip(pk::mgf1(h, &hh, db.len())).map(|(a, b)| a ^ b).collect();
                x[0] &= (0xffu16 >> unused) as u8;
                x.extend(hh); x.push(0xbc);
                put("prefix of the hash", Some(x));
            }
            if bits % 8 == 1 { cx.ev("encodings one byte shorter than the modulus"); }
            for (w, em) in ems {
                // a representative of modulus length, so also with the top bits set
                if let Some(s) = signed(&k, &em) { tries.push((w, s, m.clone())); }
            }
            for (w, s2, msg) in tries {
                let want = ok(&s2, &msg);
                let sc = SignatureContent::from(&s2[..]);
                let r = match no_panic(|| o.verify(&sc, &msg).is_ok()) { Ok(r) => r, Err(p) => return broken("pss:panic", format!("{} {} signature {}: {}", what, w, hx(&s2), p)) };
                ensure!(r == want, format!("pss:{}:{}", if r { "accepted" } else { "rejected" }, w), "{} {} signature {} message {}", what, w, hex(&s2), hx(&msg));
                let e = format!("{}: {}", if want { "accepted" } else { "rejected" }, w);
                cx.ev(&e);
                cx.case(&[&k.n.to_be(), &msg, &s2]);
            }
        }
        // a public key verifies and does not sign
        with_md!(i, dg, _h, _hl, _n => {
            if let Ok(mut p) = PSS::new_uncheck(dg, Src::new(1), KeyPair::from(k.public()?), arg, false) {
                let mut sc = SignatureContent::new();
                ensure!(o.sign(&mut sc, b"abc").is_ok() && p.verify(&sc, b"abc").is_ok(), "pss:public", "{}: the public key rejects a signature", what);
                ensure!(matches!(no_panic(|| p.sign(&mut sc, b"abc").is_err()), Ok(true)), "pss:public", "{}: a public key signs", what);
                cx.ev("public keys used");
            } else {
                return broken("pss:public", format!("{}: public key refused", what));
            }
        });
        cx.sample(|| format!("PSS-{} with {} bits, {} primes, salt {:?}", name, bits, primes, arg));
    });
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "one evaluation = one generated key whose modulus is split into primes with its own exponents and judged by every rule, or one impossible request; distinct moduli are counted",
            assumptions: &["primality is judged by a probabilistic test with fixed bases", "at least 40 test rounds are requested", "the printed form of a key shows its numbers"],
            require: &["keys of 2000 and more bits", "keys judged", "two-prime keys", "multi-prime keys", "keys below 64 bits", "odd sizes", "keys of seven and more primes", "keys of 512 and more bits", "sources offering primes that are 1 modulo e", "sources repeating primes", "impossible requests refused"],
            jobs: vec![
                Job { name: "big", quick: 32, thorough: 400, run: c19_big },
                Job { name: "sizes", quick: 600, thorough: 8000, run: c19_sizes },
                Job { name: "biased", quick: 300, thorough: 4000, run: c19_biased },
                Job { name: "refused", quick: 2, thorough: 20, run: c19_refused },
            ],
        },
        Prop {
            id: "C20",
            rule: "one evaluation = one residue encrypted and decrypted in four ways and compared with modular exponentiation, on random and structured residues (multiples of factors, ends of the range), with all residues for tiny keys; distinct (modulus, residue) are counted",
            assumptions: &["the big-integer model of the harness", "keys come from the library's own generator, as the interface offers no other source of private keys"],
            require: &["keys of 2000 and more bits", "plain decryptions", "blinded decryptions", "checked decryptions", "checked and blinded decryptions", "residues sharing a factor with the modulus", "two-prime keys", "multi-prime keys", "values from the modulus up refused", "negative values refused", "keys with every residue tried", "sources favouring unusual blinding values", "encryptions with constructed public keys"],
            jobs: vec![
                Job { name: "large", quick: 16, thorough: 100, run: c20_large },
                Job { name: "primitive", quick: 800, thorough: 12000, run: c20_primitive },
                Job { name: "all", quick: 16, thorough: 100, run: c20_all },
                Job { name: "public", quick: 600, thorough: 10000, run: c20_public },
            ],
        },
        Prop {
            id: "C21",
            rule: "one evaluation = one message encrypted, decoded by an independent EME-OAEP decoder and decrypted, or one hostile ciphertext whose acceptance and message are compared with that decoder; distinct (key, label, ciphertext) are counted",
            assumptions: &["the OAEP model of the harness (self-tested with published vectors)"],
            require: &["masks of more than 256 blocks", "keys of 2000 and more bits", "encryptions decoded independently", "round trips", "label changes", "well-formed blocks decrypted", "refused: no separator", "refused: wrong separator", "refused: padding not zero", "refused: wrong label hash", "refused: other label", "refused: first byte not zero", "refused: altered", "refused: shortened", "refused: shortened in front", "refused: lengthened", "refused: shifted by the modulus", "refused: modulus", "refused: empty", "too long messages refused", "public keys used", "OAEP with SHA256", "OAEP with SHA512", "OAEP with MD5", "OAEP with SHA-512/225"],
            jobs: vec![Job { name: "large", quick: 16, thorough: 100, run: c21_large }, Job { name: "oaep", quick: 600, thorough: 9000, run: c21_oaep }],
        },
        Prop {
            id: "C22",
            rule: "one evaluation = one message encrypted, its block decoded independently and decrypted, or one hostile ciphertext whose acceptance and message are compared with the decoder; distinct (key, ciphertext) are counted",
            assumptions: &["the block format of RFC 8017 7.2 as modelled in the harness"],
            require: &["keys of 2000 and more bits", "encryptions decoded independently", "round trips", "empty messages", "padding from sources full of zero bytes", "well-formed blocks decrypted", "refused: padding too short", "refused: no separator", "refused: block type", "refused: first byte not zero", "refused: shortened", "refused: lengthened in front", "refused: modulus", "refused: shifted by the modulus", "too long messages refused", "public keys used"],
            jobs: vec![Job { name: "large", quick: 16, thorough: 100, run: c22_large }, Job { name: "enc", quick: 1000, thorough: 15000, run: c22_enc }],
        },
        Prop {
            id: "C23",
            rule: "one evaluation = one signature compared with the unique value, or one (signature, message) candidate whose acceptance is compared with equality to that value, by the signer and by the public key; distinct (key, message, candidate) are counted",
            assumptions: &["the DigestInfo identifiers of RFC 8017 as listed in the harness"],
            require: &["keys of 2000 and more bits", "canonical signatures", "accepted: canonical", "rejected: changed message", "rejected: altered", "rejected: lengthened", "rejected: lengthened in front", "rejected: shortened", "rejected: shifted by the modulus", "rejected: zero inside the padding", "rejected: garbage after the hash", "rejected: parameters absent", "rejected: other identifier", "rejected: block deviates", "rejected: separator", "hashes without identifier refused", "PKCS1 signatures with MD5", "PKCS1 signatures with SHA512", "signatures with a leading zero"],
            jobs: vec![Job { name: "large", quick: 16, thorough: 100, run: c23_large }, Job { name: "sign", quick: 600, thorough: 9000, run: c23_sign }, Job { name: "refused", quick: 1, thorough: 1, run: c23_refused }],
        },
        Prop {
            id: "C24",
            rule: "one evaluation = one (signature, message) candidate whose acceptance is compared with an independent EMSA-PSS verifier: own signatures, altered ones, and encodings built to break one rule; distinct (key, message, candidate) are counted",
            assumptions: &["the EMSA-PSS model of the harness (self-tested with published vectors)"],
            require: &["masks of more than 256 blocks", "keys of 2000 and more bits", "signatures verified independently", "accepted: own", "accepted: well formed", "rejected: trailer", "rejected: separator", "rejected: padding not zero", "rejected: longer salt", "rejected: shorter salt", "rejected: other hash", "rejected: leading bits", "rejected: salt bit", "rejected: hash bit", "rejected: prefix of the hash", "rejected: changed message", "rejected: shifted by the modulus", "rejected: one padding byte", "automatic salt length", "salt of hash length", "chosen salt length", "salts without room refused", "encodings one byte shorter than the modulus", "modulus bits 0 modulo 8", "modulus bits 2 modulo 8", "public keys used", "PSS with SHA-512/225"],
            jobs: vec![Job { name: "large", quick: 16, thorough: 100, run: c24_large }, Job { name: "pss", quick: 800, thorough: 12000, run: c24_pss }],
        },
    ]
}
