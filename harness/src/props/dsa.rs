//! C25-C26: DSA.
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::ec::bits2int;
use crate::refs::hashes::*;
use crate::refs::keccak as rk;
use crate::refs::pk;
use rcrypto::dsa::{DomainParameters, KeyPair, PrivateKey, PublicKey, SignatureContent, DSA};
use rcrypto::{sha, sha3, Digest, Signature, MD5, SM3};

#[derive(Clone)]
pub struct Dom {
    pub p: Big,
    pub q: Big,
    pub g: Big,
}
const FIPS: [(&str, &str, &str); 4] = include!("dsa_domains.in");
impl Dom {
    pub fn fips(i: usize) -> Dom {
        let (p, q, g) = FIPS[i];
        Dom { p: Big::from_hex(p), q: Big::from_hex(q), g: Big::from_hex(g) }
    }
    /// a domain of any size, from the harness's own primes
    pub fn make(l: usize, n: usize, rng: &mut Rng) -> Dom {
        let top = |b: usize, rng: &mut Rng| Big::random_below(&Big::one().shl(b - 1), rng).add(&Big::one().shl(b - 1));
        let one = Big::one();
        loop {
            let q = loop {
                let q = top(n, rng);
                if q.is_odd() && q.is_prime() {
                    break q;
                }
            };
            for _ in 0..40 * l {
                let x = top(l, rng);
                let p = x.sub(&x.rem(&q.shl(1))).add(&one);
                if p.bits() != l || !p.is_prime() {
                    continue;
                }
                let e = p.sub(&one).divrem(&q).0;
                loop {
                    let h = Big::random_below(&p, rng);
                    let g = h.powm(&e, &p);
                    if g > one {
                        return Dom { p, q, g };
                    }
                }
            }
        }
    }
    pub fn lib(&self) -> DomainParameters {
        DomainParameters::new_uncheck(&bint(&self.p), &bint(&self.q), &bint(&self.g)).unwrap_or_else(|e| panic!("HARNESS-ERROR domain refused: {}", e))
    }
    pub fn public(&self, y: &Big) -> PublicKey {
        PublicKey::new_uncheck(&self.lib(), &bint(y)).unwrap_or_else(|e| panic!("HARNESS-ERROR public key refused: {}", e))
    }
    pub fn private(&self, x: &Big) -> PrivateKey {
        PrivateKey::new_uncheck(&self.public(&self.g.powm(x, &self.p)), &bint(x)).unwrap_or_else(|e| panic!("HARNESS-ERROR private key refused: {}", e))
    }
    pub fn show(&self) -> String {
        format!("p={} q={} g={}", self.p.to_hex(), self.q.to_hex(), self.g.to_hex())
    }
    pub fn range(&self, v: &Big) -> bool {
        !v.is_zero() && *v < self.q
    }
}
/// key component 1..q-1
pub fn unit(q: &Big, rng: &mut Rng) -> Big {
    let one = Big::one();
    match rng.below(8) {
        0 => one,
        1 => q.sub(&one),
        _ => Big::random_below(&q.sub(&one), rng).add(&one),
    }
}
pub fn pick_dom(rng: &mut Rng) -> Dom {
    match rng.below(12) {
        0 => Dom::fips(0),
        1 if rng.chance(1, 3) => Dom::fips(rng.range(1, 3)),
        2 | 3 => {
            let n = 8 * rng.range(1, 3);
            Dom::make(n + 40 + rng.below(60), n, rng)
        }
        4 => {
            let n = 8 * rng.range(4, 12);
            Dom::make(n + 60 + rng.below(100), n, rng)
        }
        _ => {
            let n = *rng.pick(&[32, 64, 128, 160, 160, 192, 224, 256]);
            Dom::make(n + 100 + rng.below(200), n, rng)
        }
    }
}
pub fn numbers(s: &SignatureContent) -> (Big, Big) {
    let (r, s) = s.to_bigint();
    (big(&r), big(&s))
}
pub fn content(r: &Big, s: &Big) -> SignatureContent {
    SignatureContent::form_bigint(&bint(r), &bint(s))
}
fn judge<H: Digest + 'static>(cx: &mut Cx, d: &Dom, hname: &str, mk: &dyn Fn() -> H, h: &dyn Fn(&[u8]) -> Vec<u8>, free: bool) -> R {
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let what = format!("DSA-{} {} x={}", hname, d.show(), x.to_hex());
    let mut signer = match DSA::new_uncheck(mk(), Src::new(cx.rng.u64()), KeyPair::from(d.private(&x))) {
        Ok(s) => s,
        Err(e) => return broken("dsa:ctor", format!("{}: {}", what, e)),
    };
    let mut verifier = match DSA::new_uncheck(mk(), Src::new(1), KeyPair::from(d.public(&y))) {
        Ok(s) => s,
        Err(e) => return broken("dsa:ctor", format!("{}: {}", what, e)),
    };
    let n = d.q.bits();
    let hl = (mk().bits_len() + 7) / 8;
    cx.ev(if 8 * hl > n { "hashes longer than the order" } else if 8 * hl < n { "hashes shorter than the order" } else { "hashes as long as the order" });
    for _ in 0..2 {
        let len = cx.rng.below(100);
        let mut m = cx.rng.patterned(len);
        if free && cx.rng.chance(1, 4) {
            // hash values of note: 0, q, q-1 and the like in the leading bits
            let z = match cx.rng.below(4) { 0 => Big::zero(), 1 => d.q.clone(), 2 => d.q.sub(&Big::one()), _ => Big::one().shl(n).sub(&Big::one()) };
            m = z.to_be_n((n + 7) / 8);
            m.truncate(hl);
            cx.ev("chosen hash values");
        }
        let hash = h(&m);
        let mut sc = SignatureContent::new();
        match no_panic(|| signer.sign(&mut sc, &m)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                if n <= 16 {
                    // so small a group can run out of attempts
                    cx.ev("signing given up in tiny groups");
                    continue;
                }
                return broken("dsa:sign-refused", format!("{} message {}: {}", what, hx(&m), e));
            }
            Err(p) => return broken("dsa:panic", format!("{} signing {}: {}", what, hx(&m), p)),
        }
        let (r, s) = numbers(&sc);
        ensure!(d.range(&r) && d.range(&s), "dsa:range", "{} message {}: r={} s={}", what, hx(&m), r.to_hex(), s.to_hex());
        ensure!(pk::dsa_verify(&d.p, &d.q, &d.g, &y, &hash, &r, &s), "dsa:equation", "{} message {}: r={} s={} does not satisfy the equation", what, hx(&m), r.to_hex(), s.to_hex());
        cx.ev("signatures checked by the equation");
        let mut tries: Vec<(&str, SignatureContent, Vec<u8>)> = vec![("own", content(&r, &s), m.clone())];
        let mut m2 = m.clone();
        if m2.is_empty() { m2.push(1) } else { let b = cx.rng.below(8 * m2.len()); m2[b / 8] ^= 1 << (b % 8); }
        tries.push(("changed message", content(&r, &s), m2));
        // a hash that differs only behind the order's length is the same value
        if free && 8 * hl > n && n % 8 == 0 {
            let mut m2 = h(&m);
            let i = n / 8 + cx.rng.below(hl - n / 8);
            m2[i] ^= 1 << cx.rng.below(8);
            tries.push(("hash differs behind the order", content(&r, &s), m2));
        }
        let zero = Big::zero();
        let one = Big::one();
        let q = &d.q;
        for (w, a, b) in [
            ("r zero", zero.clone(), s.clone()),
            ("s zero", r.clone(), zero.clone()),
            ("both zero", zero.clone(), zero.clone()),
            ("r is q", q.clone(), s.clone()),
            ("s is q", r.clone(), q.clone()),
            ("r plus q", r.add(q), s.clone()),
            ("s plus q", r.clone(), s.add(q)),
            ("r q-1", q.sub(&one), s.clone()),
            ("s q-1", r.clone(), q.sub(&one)),
            ("swapped", s.clone(), r.clone()),
            ("s negated", r.clone(), q.sub(&s)),
            ("r negated", q.sub(&r), s.clone()),
            ("r plus p", r.add(&d.p), s.clone()),
            ("ones", one.clone(), one.clone()),
            ("random", unit(q, &mut cx.rng), unit(q, &mut cx.rng)),
            ("r altered", r.addm(&unit(q, &mut cx.rng), q), s.clone()),
            ("s altered", r.clone(), s.addm(&unit(q, &mut cx.rng), q)),
        ] {
            tries.push((w, content(&a, &b), m.clone()));
        }
        // a forgery from a chosen nonce, with the hash reduced or not
        let k = unit(q, &mut cx.rng);
        let r2 = d.g.powm(&k, &d.p).rem(q);
        if let (Some(ki), false) = (k.invm(q), r2.is_zero()) {
            let s2 = ki.mulm(&bits2int(&hash, q).add(&x.mul(&r2)).rem(q), q);
            tries.push(("other nonce", content(&r2, &s2), m.clone()));
            let s2 = ki.mulm(&Big::from_be(&hash).add(&x.mul(&r2)).rem(q), q);
            tries.push(("hash not shortened", content(&r2, &s2), m.clone()));
        }
        // altered bytes of the container
        let mut c = content(&r, &s);
        let v: &mut Vec<u8> = c.as_mut();
        let how = match cx.rng.below(5) {
            0 => { v.pop(); "container shortened" }
            1 => { v.clear(); "container emptied" }
            2 => { v.push(0); "container lengthened" }
            3 => { v.truncate(cx.rng.below(v.len())); "container shortened" }
            _ => { let i = cx.rng.below(v.len()); v[i] ^= 1 << cx.rng.below(8); "container altered" }
        };
        tries.push((how, c, m.clone()));
        let mut c = SignatureContent::with_capacity(cx.rng.below(100));
        let nb = cx.rng.below(80);
        let bytes = cx.rng.bytes(nb);
        let v: &mut Vec<u8> = c.as_mut();
        v.extend(bytes);
        tries.push(("raw bytes", c, m.clone()));
        tries.push(("nothing", SignatureContent::new(), m.clone()));
        for (w, c, msg) in tries {
            let (r, s) = match no_panic(|| numbers(&c)) {
                Ok(x) => x,
                Err(p) => return broken("dsa:content-panic", format!("{}: {}", w, p)),
            };
            let want = d.range(&r) && d.range(&s) && pk::dsa_verify(&d.p, &d.q, &d.g, &y, &h(&msg), &r, &s);
            let both = no_panic(|| [signer.verify(&c, &msg).is_ok(), verifier.verify(&c, &msg).is_ok()]);
            let both = match both {
                Ok(b) => b,
                Err(p) => return broken("dsa:panic", format!("{} {} r={} s={} message {}: {}", what, w, r.to_hex(), s.to_hex(), hx(&msg), p)),
            };
            ensure!(both == [want; 2], format!("dsa:{}:{}", if want { "rejected" } else { "accepted" }, w), "{} {} r={} s={} message {}: verification by signer and by public key {:?}", what, w, r.to_hex(), s.to_hex(), hx(&msg), both);
            let e = format!("{}: {}", if want { "accepted" } else { "rejected" }, w);
            cx.ev(&e);
            cx.case(&[&d.p.to_be(), &d.q.to_be(), &y.to_be(), &msg, &r.to_be(), &s.to_be()]);
        }
        // another key
        let x2 = Big::random_below(&d.q.sub(&one), &mut cx.rng).add(&one);
        let y2 = d.g.powm(&x2, &d.p);
        let want = pk::dsa_verify(&d.p, &d.q, &d.g, &y2, &hash, &r, &s);
        if let Ok(mut v) = DSA::new_uncheck(mk(), Src::new(1), KeyPair::from(d.public(&y2))) {
            ensure!(v.verify(&content(&r, &s), &m).is_ok() == want, "dsa:other-key", "{} verified under y={}", what, y2.to_hex());
            cx.ev("other keys");
        }
        let mut sc = SignatureContent::new();
        ensure!(matches!(no_panic(|| verifier.sign(&mut sc, &m).is_err()), Ok(true)), "dsa:public", "{}: a public key signs", what);
    }
    cx.sample(|| format!("DSA-{} p of {} bits, q of {} bits", hname, d.p.bits(), n));
    Ok(())
}
fn c25_sign(cx: &mut Cx) -> R {
    let d = pick_dom(&mut cx.rng);
    match cx.rng.below(9) {
        0 => judge(cx, &d, "MD5", &|| MD5::new(), &|m| md5(m), false),
        1 => judge(cx, &d, "SHA1", &|| sha::SHA1::new(), &|m| sha1(m), false),
        2 => judge(cx, &d, "SHA256", &|| sha::SHA256::new(), &|m| sha256(m), false),
        3 => judge(cx, &d, "SHA512", &|| sha::SHA512::new(), &|m| sha512(m), false),
        4 => judge(cx, &d, "SM3", &|| SM3::new(), &|m| sm3(m), false),
        5 => judge(cx, &d, "SHA3-224", &|| sha3::SHA224::new(), &|m| rk::sha3_224(m), false),
        _ => {
            let n = match cx.rng.below(4) { 0 => cx.rng.range(1, 4), 1 => d.q.bits() / 8, _ => cx.rng.range(1, 70) };
            judge(cx, &d, &format!("given{}", n), &|| Given::new(n), &|m| { let mut v = m.to_vec(); v.resize(n, 0); v }, true)
        }
    }
}
/// every pair of a tiny group
fn c25_all(cx: &mut Cx) -> R {
    let n = cx.rng.range(40, 90);
    let d = Dom::make(n, 8, &mut cx.rng);
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let q = d.q.low_u64();
    let mut v = match DSA::new_uncheck(Given::new(1), Src::new(1), KeyPair::from(d.public(&y))) {
        Ok(v) => v,
        Err(e) => return broken("dsa:ctor", format!("{}", e)),
    };
    let hash = [cx.rng.u8()];
    let rs: Vec<u64> = (0..20).map(|_| cx.rng.below(q as usize + 2) as u64).chain([0, 1, q - 1, q, q + 1]).collect();
    let mut yes = 0;
    for r in rs {
        for s in 0..q + 3 {
            let (rb, sb) = (Big::from_u64(r), Big::from_u64(s));
            let want = d.range(&rb) && d.range(&sb) && pk::dsa_verify(&d.p, &d.q, &d.g, &y, &hash, &rb, &sb);
            let got = v.verify(&content(&rb, &sb), &hash).is_ok();
            ensure!(got == want, "dsa:tiny", "{} y={} hash {:02x} r={} s={}: {}", d.show(), y.to_hex(), hash[0], r, s, got);
            yes += want as u64;
            cx.case(&[&d.p.to_be(), &y.to_be(), &hash, &r.to_le_bytes(), &s.to_le_bytes()]);
        }
    }
    cx.ev("tiny groups with every s");
    if yes > 0 {
        cx.ev("valid pairs found in tiny groups");
    }
    Ok(())
}
/// orders whose length is not a whole number of bytes: refused, or right all the way
fn c25_odd(cx: &mut Cx) -> R {
    let n = loop {
        let n = match cx.rng.below(3) { 0 => cx.rng.range(17, 40), 1 => cx.rng.range(41, 100), _ => cx.rng.range(153, 167) };
        if n % 8 != 0 {
            break n;
        }
    };
    let l = n + cx.rng.range(40, 160);
    let d = Dom::make(l, n, &mut cx.rng);
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let hl = cx.rng.range(1, 40);
    let what = format!("DSA with a hash of {} bytes, {} x={}", hl, d.show(), x.to_hex());
    let (signer, verifier) = (DSA::new_uncheck(Given::new(hl), Src::new(cx.rng.u64()), KeyPair::from(d.private(&x))), DSA::new_uncheck(Given::new(hl), Src::new(1), KeyPair::from(d.public(&y))));
    let (mut signer, mut verifier) = match (signer, verifier) {
        (Ok(s), Ok(v)) => (s, v),
        _ => {
            cx.ev("orders of no whole number of bytes refused");
            return Ok(());
        }
    };
    for _ in 0..3 {
        let m = cx.rng.bytes(hl);
        let mut sc = SignatureContent::new();
        match no_panic(|| signer.sign(&mut sc, &m)) {
            Ok(Ok(())) => {
                let (r, s) = numbers(&sc);
                ensure!(d.range(&r) && d.range(&s) && pk::dsa_verify(&d.p, &d.q, &d.g, &y, &m, &r, &s), "dsa:odd-equation", "{} hash {}: r={} s={} does not satisfy the equation", what, hx(&m), r.to_hex(), s.to_hex());
                ensure!(matches!(no_panic(|| verifier.verify(&sc, &m).is_ok()), Ok(true)), "dsa:odd-rejected", "{} hash {}: r={} s={} is produced but not accepted", what, hx(&m), r.to_hex(), s.to_hex());
                cx.ev("signatures under orders of no whole number of bytes");
            }
            Ok(Err(_)) => cx.ev("orders of no whole number of bytes refused"),
            Err(p) => return broken("dsa:panic", format!("{} signing {}: {}", what, hx(&m), p)),
        }
        // pairs that are right for the leading bits, for the leading whole bytes, for the whole hash
        let k = unit(&d.q, &mut cx.rng);
        let r = d.g.powm(&k, &d.p).rem(&d.q);
        let ki = match k.invm(&d.q) {
            Some(ki) if !r.is_zero() => ki,
            _ => continue,
        };
        for z in [bits2int(&m, &d.q), Big::from_be(&m[..hl.min(n / 8)]), Big::from_be(&m[..hl.min(n / 8 + 1)]), Big::from_be(&m)] {
            let s = ki.mulm(&z.add(&x.mul(&r)).rem(&d.q), &d.q);
            let want = d.range(&s) && pk::dsa_verify(&d.p, &d.q, &d.g, &y, &m, &r, &s);
            match no_panic(|| [signer.verify(&content(&r, &s), &m).is_ok(), verifier.verify(&content(&r, &s), &m).is_ok()]) {
                Ok(b) => {
                    ensure!(want || b == [false; 2], "dsa:odd-accepted", "{} hash {}: r={} s={} is accepted and does not satisfy the equation", what, hx(&m), r.to_hex(), s.to_hex());
                    cx.ev("verdicts under orders of no whole number of bytes");
                }
                Err(p) => return broken("dsa:panic", format!("{} verifying {}: {}", what, hx(&m), p)),
            }
            cx.case(&[&d.p.to_be(), &d.q.to_be(), &y.to_be(), &m, &r.to_be(), &s.to_be()]);
        }
    }
    Ok(())
}
type D = DSA<sha::SHA1, Src>;
fn read_dom(s: &str) -> Dom {
    Dom { p: field(s, "p"), q: field(s, "q"), g: field(s, "g") }
}
fn judge_dom(cx: &mut Cx, d: &Dom, l: usize, n: usize, what: &str) -> R {
    let one = Big::one();
    ensure!(d.p.bits() == l && d.q.bits() == n, "dsa:domain-size", "{}: {} and {} bits", what, d.p.bits(), d.q.bits());
    ensure!(d.q.is_prime() && d.p.is_prime(), "dsa:domain-prime", "{}: {}", what, d.show());
    ensure!(d.p.sub(&one).rem(&d.q).is_zero(), "dsa:domain-divides", "{}: {}", what, d.show());
    ensure!(d.g > one && d.g < d.p && d.g.powm(&d.q, &d.p) == one, "dsa:domain-generator", "{}: {}", what, d.show());
    cx.ev("domains judged");
    cx.case(&[&d.p.to_be(), &d.q.to_be()]);
    let e = format!("domains of {} and {} bits", l, n);
    cx.ev(&e);
    Ok(())
}
fn judge_key(cx: &mut Cx, sk: &PrivateKey, l: usize, n: usize, what: &str) -> R {
    let s = format!("{}", sk);
    let d = read_dom(&s);
    judge_dom(cx, &d, l, n, what)?;
    let (x, y) = (field(&s, "x"), field(&s, "y"));
    ensure!(d.range(&x), "dsa:key-range", "{}: x={}", what, x.to_hex());
    ensure!(y == d.g.powm(&x, &d.p), "dsa:key-y", "{}: y={} x={} {}", what, y.to_hex(), x.to_hex(), d.show());
    cx.case(&[&y.to_be()]);
    cx.ev("keys judged");
    Ok(())
}
fn make(cx: &mut Cx, size: usize, sparse: bool) -> R {
    let (l, n) = [(1024, 160), (2048, 224), (2048, 256), (3072, 256)][size];
    let seed = cx.rng.u64();
    let mut src = Src::new(seed);
    src.cap = 500_000_000;
    let mut what = format!("{}/{} from seed {}", l, n, seed);
    if sparse {
        // candidates for p next to a power of two
        let at = cx.rng.below(32) as u64;
        src.comb = Some((5000, at));
        what = format!("{}, mostly zero words (comb {})", what, at);
        cx.ev("sources with mostly zero words");
    }
    match cx.rng.below(3) {
        0 => {
            let r = match size { 0 => D::l1024_n160(&mut src), 1 => D::l2048_n224(&mut src), 2 => D::l2048_n256(&mut src), _ => D::l3072_n256(&mut src) };
            match r {
                Ok(d) => judge_dom(cx, &read_dom(&format!("{}", d)), l, n, &what),
                Err(e) => broken("dsa:domain-refused", format!("{}: {}", what, e)),
            }
        }
        1 => {
            let r = match size { 0 => D::l1024_n160_key(&mut src), 1 => D::l2048_n224_key(&mut src), 2 => D::l2048_n256_key(&mut src), _ => D::l3072_n256_key(&mut src) };
            match r {
                Ok(k) => judge_key(cx, &k, l, n, &what),
                Err(e) => broken("dsa:key-refused", format!("{}: {}", what, e)),
            }
        }
        _ => {
            let h = sha::SHA1::new();
            let r = match size { 0 => D::new_with_l1024_n160(h, src), 1 => D::new_with_l2048_n224(h, src), 2 => D::new_with_l2048_n256(h, src), _ => D::new_with_l3072_n256(h, src) };
            match r {
                Ok(mut d) => {
                    let k = match d.key_pair().private_key() { Some(k) => k.clone(), None => return broken("dsa:no-key", what) };
                    judge_key(cx, &k, l, n, &what)?;
                    let mut s = SignatureContent::new();
                    ensure!(d.sign(&mut s, b"abc").is_ok() && d.verify(&s, b"abc").is_ok(), "dsa:fresh-key", "{}: signature with a fresh key not accepted", what);
                    cx.ev("fresh keys used");
                    Ok(())
                }
                Err(e) => broken("dsa:key-refused", format!("{}: {}", what, e)),
            }
        }
    }
}
fn c26_small(cx: &mut Cx) -> R {
    make(cx, 0, false)
}
fn c26_sparse(cx: &mut Cx) -> R {
    make(cx, 0, true)
}
/// numbers that can be a domain or a key are taken as they are, others are refused
fn c26_ctor(cx: &mut Cx) -> R {
    let d = pick_dom(&mut cx.rng);
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let one = Big::one();
    let (zero, nan) = (bint(&Big::zero()), rmath::bigint::BigInt::from_be_bytes(&[]));
    let (p, q, g) = (bint(&d.p), bint(&d.q), bint(&d.g));
    let long = bint(&d.p.add(&one.shl(d.p.bits() + cx.rng.below(70))));
    for (name, r) in [
        ("p zero", DomainParameters::new_uncheck(&zero, &q, &g)),
        ("p not a number", DomainParameters::new_uncheck(&nan, &q, &g)),
        ("q not a number", DomainParameters::new_uncheck(&p, &nan, &g)),
        ("g not a number", DomainParameters::new_uncheck(&p, &q, &nan)),
        ("g longer than p", DomainParameters::new_uncheck(&p, &q, &long)),
    ] {
        ensure!(r.is_err(), "dsa:domain-accepted", "{}: {}", name, d.show());
        cx.case(&[&d.p.to_be(), name.as_bytes()]);
        cx.ev("impossible domains refused");
    }
    let dp = match DomainParameters::new_uncheck(&p, &q, &g) {
        Ok(v) => v,
        Err(e) => return broken("dsa:ctor", format!("{}: {}", d.show(), e)),
    };
    for (name, v) in [("y not a number", &nan), ("y longer than p", &long)] {
        ensure!(PublicKey::new_uncheck(&dp, v).is_err(), "dsa:public-accepted", "{}: {}", name, d.show());
        cx.case(&[&d.p.to_be(), name.as_bytes()]);
        cx.ev("impossible public keys refused");
    }
    let pb = match PublicKey::new_uncheck(&dp, &bint(&y)) {
        Ok(v) => v,
        Err(e) => return broken("dsa:ctor", format!("{} y={}: {}", d.show(), y.to_hex(), e)),
    };
    let over = d.q.add(&Big::random_below(&d.q, &mut cx.rng));
    for (name, v) in [("x zero", zero.clone()), ("x not a number", nan.clone()), ("x negative", -bint(&x)), ("x is q", q.clone()), ("x above q", bint(&over)), ("x below 2q", bint(&d.q.add(&d.q).sub(&one))), ("x above p", long.clone())] {
        ensure!(PrivateKey::new_uncheck(&pb, &v).is_err(), "dsa:private-accepted", "{}: {}", name, d.show());
        cx.case(&[&d.p.to_be(), name.as_bytes()]);
        cx.ev("impossible private keys refused");
    }
    for v in [&x, &one, &d.q.sub(&one)] {
        let k = match PrivateKey::new_uncheck(&pb, &bint(v)) {
            Ok(k) => k,
            Err(e) => return broken("dsa:ctor", format!("{} x={}: {}", d.show(), v.to_hex(), e)),
        };
        let s = format!("{}", k);
        let r = read_dom(&s);
        ensure!(field(&s, "x") == *v && field(&s, "y") == y && r.p == d.p && r.q == d.q && r.g == d.g, "dsa:key-numbers", "x={} y={} {} became {}", v.to_hex(), y.to_hex(), d.show(), s);
        cx.case(&[&d.p.to_be(), &v.to_be()]);
        cx.ev("keys built from numbers");
    }
    cx.sample(|| d.show());
    Ok(())
}
fn c26_large(cx: &mut Cx) -> R {
    let s = cx.idx as usize % 3 + 1;
    make(cx, s, false)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "one evaluation = one (signature, message) candidate whose acceptance by the signer and by the public key is compared with the DSA equation computed independently; distinct (domain, key, message, r, s) are counted",
            assumptions: &["the big-integer model of the harness", "domains come from the harness and from openssl, with orders of a whole number of bytes", "keys are valid"],
            require: &["signatures checked by the equation", "hashes longer than the order", "hashes shorter than the order", "hashes as long as the order", "chosen hash values", "accepted: own", "accepted: other nonce", "accepted: hash differs behind the order", "rejected: hash not shortened", "rejected: changed message", "rejected: r zero", "rejected: s zero", "rejected: r plus q", "rejected: s plus q", "rejected: r is q", "rejected: s is q", "rejected: container shortened", "rejected: container emptied", "rejected: container lengthened", "rejected: raw bytes", "rejected: nothing", "other keys", "tiny groups with every s", "valid pairs found in tiny groups"],
            jobs: vec![Job { name: "sign", quick: 600, thorough: 12000, run: c25_sign }, Job { name: "all", quick: 24, thorough: 400, run: c25_all }, Job { name: "odd", quick: 80, thorough: 2000, run: c25_odd }],
        },
        Prop {
            id: "C26",
            rule: "one evaluation = one generated domain or key judged by every relation, or one set of numbers accepted or refused; distinct values are counted",
            assumptions: &["primality is judged by a probabilistic test with fixed bases", "the printed form of a key shows its numbers"],
            require: &["domains judged", "keys judged", "fresh keys used", "domains of 1024 and 160 bits", "domains of 2048 and 224 bits", "domains of 2048 and 256 bits", "domains of 3072 and 256 bits", "sources with mostly zero words", "impossible domains refused", "impossible public keys refused", "impossible private keys refused", "keys built from numbers"],
            jobs: vec![
                Job { name: "large", quick: 6, thorough: 60, run: c26_large },
                Job { name: "sparse", quick: 12, thorough: 150, run: c26_sparse },
                Job { name: "small", quick: 16, thorough: 300, run: c26_small },
                Job { name: "numbers", quick: 100, thorough: 3000, run: c26_ctor },
            ],
        },
    ]
}
