//! C27-C29: elliptic curves and ECDSA.
use super::dsa::{content, numbers, unit};
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::ec::{self, bits2int, Curve, Pt};
use crate::refs::hashes::*;
use crate::refs::keccak as rk;
use rcrypto::dsa::SignatureContent;
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{CurveP224, CurveP256, CurveParams, EllipticCurve, KeyPair, PrivateKey, PublicKey};
use rcrypto::{sha, sha3, Digest, Signature, MD5, SM3};
use rmath::bigint::{BigInt, Nat};
use std::rc::Rc;

/// any of the six curve objects
#[derive(Clone)]
pub struct AnyCurve(pub Rc<dyn EllipticCurve>);
impl EllipticCurve for AnyCurve {
    fn curve_params(&self) -> &CurveParams {
        self.0.curve_params()
    }
    fn is_on_curve(&self, x: &BigInt, y: &BigInt) -> bool {
        self.0.is_on_curve(x, y)
    }
    fn add(&self, x1: &BigInt, y1: &BigInt, x2: &BigInt, y2: &BigInt) -> (BigInt, BigInt) {
        self.0.add(x1, y1, x2, y2)
    }
    fn double(&self, x: &BigInt, y: &BigInt) -> (BigInt, BigInt) {
        self.0.double(x, y)
    }
    fn scalar(&self, x: &BigInt, y: &BigInt, k: &Nat) -> (BigInt, BigInt) {
        self.0.scalar(x, y, k)
    }
    fn scalar_base_point(&self, k: &Nat) -> (BigInt, BigInt) {
        self.0.scalar_base_point(k)
    }
}
pub const NAMES: [&str; 6] = ["P-224", "P-256", "P-384", "P-521", "P-224 fast", "P-256 fast"];
fn got<T>(name: &str, r: Result<T, rcrypto::CryptoError>) -> Result<T, Broken> {
    r.map_err(|e| Broken { sig: "ec:ctor".into(), detail: format!("{}: {}", name, e) })
}
pub fn params(i: usize) -> Result<CurveParams, Broken> {
    got(NAMES[i], match i { 0 => CurveParams::p224(), 1 => CurveParams::p256(), 2 => CurveParams::p384(), _ => CurveParams::p521() })
}
pub fn curve(i: usize) -> Result<(AnyCurve, Curve), Broken> {
    let c: Rc<dyn EllipticCurve> = match i {
        4 => Rc::new(got(NAMES[i], CurveP224::new())?),
        5 => Rc::new(got(NAMES[i], CurveP256::new())?),
        _ => Rc::new(params(i)?),
    };
    Ok((AnyCurve(c), model(i)))
}
pub fn model(i: usize) -> Curve {
    match i { 0 | 4 => ec::p224(), 1 | 5 => ec::p256(), 2 => ec::p384(), _ => ec::p521() }
}
pub fn xy(p: &Pt) -> (BigInt, BigInt) {
    match p {
        None => (BigInt::from(0u32), BigInt::from(0u32)),
        Some((x, y)) => (bint(x), bint(y)),
    }
}
fn show(p: &Pt) -> String {
    match p {
        None => "infinity".into(),
        Some((x, y)) => format!("({}, {})", x.to_hex(), y.to_hex()),
    }
}
/// what the library returned, or why it is no affine point
fn point(c: &Curve, r: &(BigInt, BigInt)) -> Result<Pt, String> {
    if r.0.is_nan() || r.1.is_nan() {
        return Err("not a number".into());
    }
    if is_neg(&r.0) || is_neg(&r.1) {
        return Err("negative coordinate".into());
    }
    let (x, y) = (big(&r.0), big(&r.1));
    if x.is_zero() && y.is_zero() {
        return Ok(None);
    }
    if x >= c.p || y >= c.p {
        return Err(format!("unreduced coordinates ({}, {})", x.to_hex(), y.to_hex()));
    }
    Ok(Some((x, y)))
}
/// scalars that stress windows, carries and the ends of the range
fn scalar(c: &Curve, rng: &mut Rng) -> Big {
    let nb = c.n.bits();
    let one = Big::one();
    match rng.below(16) {
        0 => Big::from_u64(rng.below(40) as u64),
        1 => c.n.sub(&Big::from_u64(rng.below(40) as u64)),
        2 => c.n.add(&Big::from_u64(rng.below(40) as u64)),
        3 => one.shl(rng.below(nb + 1)),
        4 => one.shl(1 + rng.below(nb)).sub(&one),
        5 => {
            // sparse
            let mut k = Big::zero();
            for _ in 0..rng.range(2, 5) {
                let b = one.shl(rng.below(nb));
                if !k.bit(b.bits() - 1) {
                    k = k.add(&b);
                }
            }
            k
        }
        6 => {
            // dense
            let mut k = one.shl(nb).sub(&one);
            for _ in 0..rng.range(1, 5) {
                let i = rng.below(nb);
                if k.bit(i) {
                    k = k.sub(&one.shl(i));
                }
            }
            k
        }
        7 => {
            // one window value repeated
            let w = rng.range(2, 8);
            let v = Big::from_u64(rng.below(1 << w) as u64);
            let mut k = Big::zero();
            for _ in 0..nb / w + 1 {
                k = k.shl(w).add(&v);
            }
            k.rem(&one.shl(nb))
        }
        8 => c.n.mul(&Big::from_u64(rng.below(5) as u64)).add(&Big::from_u64(rng.below(3) as u64)),
        9 => {
            let b = rng.range(nb, nb + 200);
            Big::random_below(&one.shl(b), rng)
        }
        10 => {
            // runs of ones and zeros
            let mut k = Big::zero();
            let mut n = 0;
            let mut bit = true;
            while n < nb {
                let l = rng.range(1, 60).min(nb - n);
                k = k.shl(l);
                if bit {
                    k = k.add(&one.shl(l).sub(&one));
                }
                bit = !bit;
                n += l;
            }
            k
        }
        11 => {
            // half of the order and around
            c.n.add(&one).shr(1).add(&Big::from_u64(rng.below(5) as u64)).sub(&Big::from_u64(2))
        }
        _ => Big::random_below(&c.n, rng),
    }
}
/// coordinates below p that are small, near p, nearly powers of two or full of runs
fn coordinate(c: &Curve, rng: &mut Rng) -> Big {
    let one = Big::one();
    loop {
        let x = match rng.below(13) {
            0 => Big::from_u64(rng.below(200) as u64),
            1 => c.p.sub(&Big::from_u64(1 + rng.below(200) as u64)),
            2 => one.shl(rng.below(c.bits - 1)).add(&Big::from_u64(rng.below(50) as u64)),
            3 => c.p.sub(&one.shl(rng.below(c.bits - 1))).sub(&Big::from_u64(rng.below(50) as u64)),
            4 => match rng.below(4) { 0 | 1 => Big::zero(), 2 => one.clone(), _ => c.p.sub(&one) },
            5 => {
                // digits of a certain width that are zero, one, full or nearly so
                let w = *rng.pick(&[28usize, 29, 32]);
                let (mut x, mut at) = (Big::zero(), 0);
                while at < c.bits {
                    let k = w.min(c.bits - at);
                    let top = (1u64 << k) - 1;
                    let d = match rng.below(6) { 0 | 1 => 0, 2 | 3 => top, 4 => 1, _ => top - 1 };
                    x = x.add(&Big::from_u64(d & top).shl(at));
                    at += k;
                }
                x
            }
            10..=12 => {
                // the digits of p, or full ones, of which the lowest and some others are changed
                let w = *rng.pick(&[28usize, 28, 29, 32]);
                let (full, low, more) = (rng.bool(), rng.below(6), rng.below(3));
                let n = (c.bits + w - 1) / w;
                let other: Vec<usize> = (0..more).map(|_| rng.below(n)).collect();
                let (mut x, mut at) = (Big::zero(), 0);
                for i in 0..n {
                    let k = w.min(c.bits - at);
                    let top = (1u64 << k) - 1;
                    let own = c.p.shr(at).rem(&one.shl(k));
                    let d = if i < low || other.contains(&i) {
                        Big::from_u64(match rng.below(5) { 0 => 0, 1 => top, 2 => top - 1, 3 => top.saturating_sub(rng.u64() & 0xffff), _ => rng.u64() & top })
                    } else if full {
                        Big::from_u64(top)
                    } else {
                        own
                    };
                    x = x.add(&d.shl(at));
                    at += k;
                }
                x
            }
            8 | 9 => {
                // x + p has digits that are zero, one, full or nearly so
                let d = one.shl(c.bits).sub(&c.p);
                let (w, mut u, mut at) = (rng.pick(&[28usize, 28, 29, 32]).clone(), Big::zero(), 0);
                while at < d.bits() {
                    let k = w.min(d.bits() - at);
                    let top = (1u64 << k) - 1;
                    let digit = match rng.below(7) { 0 | 1 => 0, 2 | 3 => top, 4 => 1, 5 => top - 1, _ => rng.u64() & top };
                    u = u.add(&Big::from_u64(digit).shl(at));
                    at += k;
                }
                if u >= d {
                    continue;
                }
                d.sub(&one).sub(&u)
            }
            6 => {
                // words of 32 bits
                let mut x = Big::zero();
                for _ in 0..c.bits / 32 {
                    let d = match rng.below(6) { 0 | 1 => 0, 2 | 3 => 0xffff_ffff, 4 => 1, _ => 0xffff_fffe };
                    x = x.shl(32).add(&Big::from_u64(d));
                }
                x
            }
            _ => {
                // runs
                let mut x = Big::zero();
                let mut at = c.bits;
                let mut bit = rng.bool();
                while at > 0 {
                    let w = rng.range(1, 50).min(at);
                    x = x.shl(w);
                    if bit {
                        x = x.add(&one.shl(w).sub(&one));
                    }
                    bit = !bit;
                    at -= w;
                }
                x
            }
        };
        if x < c.p {
            return x;
        }
    }
}
/// a point: multiples of the base point, points with chosen x or y, infinity
fn some_point(c: &Curve, rng: &mut Rng) -> Pt {
    match rng.below(13) {
        0 => None,
        1 => c.g.clone(),
        2 => c.mul(&Big::from_u64(rng.below(20) as u64), &c.g),
        3 => c.neg(&c.mul(&Big::from_u64(rng.below(20) as u64), &c.g)),
        4 | 5 | 7 => loop {
            let x = coordinate(c, rng);
            if let Some(y) = c.lift(&x) {
                return if rng.bool() { Some((x, y)) } else { c.neg(&Some((x, y))) };
            }
        },
        6 => loop {
            let y = coordinate(c, rng);
            if let Some(x) = c.lift_y(&y, rng) {
                return Some((x, y));
            }
        },
        _ => c.random_point(rng),
    }
}
fn same_point(c: &Curve, r: Result<(BigInt, BigInt), String>, want: &Pt, sig: &str, what: &dyn Fn() -> String) -> R {
    match r {
        Err(p) => broken(&format!("ec:panic:{}", sig), format!("{}: {}", what(), p)),
        Ok(r) => match point(c, &r) {
            Err(e) => broken(&format!("ec:{}", sig), format!("{}: {}", what(), e)),
            Ok(p) => {
                ensure!(p == *want, format!("ec:{}", sig), "{}: {} expected {}", what(), show(&p), show(want));
                Ok(())
            }
        },
    }
}
fn group(cx: &mut Cx, i: usize, generic: Option<usize>) -> R {
    let (l, c) = curve(i)?;
    let other = match generic { Some(g) => Some(params(g)?), None => None };
    let name = NAMES[i];
    // multiplication
    for _ in 0..2 {
        let k = scalar(&c, &mut cx.rng);
        let kn = nat(&k);
        let want = c.mul(&k, &c.g);
        same_point(&c, no_panic(|| l.scalar_base_point(&kn)), &want, &format!("{}:base", name), &|| format!("{}: {} * G", name, k.to_hex()))?;
        cx.case(&[name.as_bytes(), b"base", &k.to_be()]);
        cx.ev("base-point multiplications");
        if want.is_none() {
            cx.ev("multiples that are infinity");
        }
        if k >= c.n {
            cx.ev("scalars from the order up");
        }
        let mut p = some_point(&c, &mut cx.rng);
        let k = scalar(&c, &mut cx.rng);
        if cx.rng.chance(1, 4) {
            // the product becomes the special point
            if let Some(inv) = k.rem(&c.n).invm(&c.n) {
                p = c.mul(&inv, &p);
                cx.ev("products at a chosen point");
            }
        }
        let (x, y) = xy(&p);
        let kn = nat(&k);
        let want = c.mul(&k, &p);
        same_point(&c, no_panic(|| l.scalar(&x, &y, &kn)), &want, &format!("{}:scalar", name), &|| format!("{}: {} * {}", name, k.to_hex(), show(&p)))?;
        if let (Some(o), true) = (&other, cx.rng.chance(1, 4)) {
            same_point(&c, no_panic(|| o.scalar(&x, &y, &kn)), &want, &format!("{}:scalar-generic", name), &|| format!("{} generic: {} * {}", name, k.to_hex(), show(&p)))?;
            cx.ev("compared with the generic code");
        }
        if p.is_none() {
            cx.ev("multiples of infinity");
        }
        ensure!(big(&BigInt::from(kn)) == k, "ec:scalar-changed", "the scalar was changed");
        cx.case(&[name.as_bytes(), b"scalar", show(&p).as_bytes(), &k.to_be()]);
        cx.ev("point multiplications");
        cx.sample(|| format!("{}: {} * {}", name, k.to_hex(), show(&p)));
    }
    // addition, doubling and membership
    for _ in 0..12 {
        let a = some_point(&c, &mut cx.rng);
        let b = match cx.rng.below(7) {
            0 => a.clone(),
            1 => c.neg(&a),
            2 => c.add(&a, &a),
            3 => None,
            4 => {
                // the sum becomes the special point
                cx.ev("sums at a chosen point");
                c.add(&some_point(&c, &mut cx.rng), &c.neg(&a))
            }
            _ => some_point(&c, &mut cx.rng),
        };
        let ((x1, y1), (x2, y2)) = (xy(&a), xy(&b));
        let want = c.add(&a, &b);
        same_point(&c, no_panic(|| l.add(&x1, &y1, &x2, &y2)), &want, &format!("{}:add", name), &|| format!("{}: {} + {}", name, show(&a), show(&b)))?;
        same_point(&c, no_panic(|| l.double(&x1, &y1)), &c.add(&a, &a), &format!("{}:double", name), &|| format!("{}: 2 * {}", name, show(&a)))?;
        ensure!(point(&c, &(x1.deep_clone(), y1.deep_clone())).as_ref() == Ok(&a), "ec:operand-changed", "{}: an operand was changed", name);
        cx.case(&[name.as_bytes(), b"add", show(&a).as_bytes(), show(&b).as_bytes()]);
        cx.ev("additions and doublings");
        if a.is_some() && b.is_some() && want.is_none() {
            cx.ev("opposite points added");
        }
        if a == b && a.is_some() {
            cx.ev("equal points added");
        }
        if a.is_none() || b.is_none() {
            cx.ev("additions with infinity");
        }
        if let Some((x, y)) = &a {
            ensure!(matches!(no_panic(|| l.is_on_curve(&x1, &y1)), Ok(true)), format!("ec:{}:member", name), "{}: {} said to be off the curve", name, show(&a));
            let (x3, y3) = match cx.rng.below(4) {
                0 => (x.clone(), y.addm(&Big::one(), &c.p)),
                1 => (x.addm(&Big::one(), &c.p), y.clone()),
                2 => (y.clone(), x.clone()),
                _ => (Big::random_below(&c.p, &mut cx.rng), Big::random_below(&c.p, &mut cx.rng)),
            };
            let r = no_panic(|| l.is_on_curve(&bint(&x3), &bint(&y3)));
            ensure!(r == Ok(c.on(&x3, &y3)), format!("ec:{}:member", name), "{}: ({}, {}): {:?}", name, x3.to_hex(), y3.to_hex(), r);
            cx.case(&[name.as_bytes(), b"on", &x3.to_be(), &y3.to_be()]);
            cx.ev("membership of points and non-points");
        }
    }
    let e = format!("curve {}", name);
    cx.ev(&e);
    Ok(())
}
fn c28_fast(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 2;
    group(cx, 4 + i, Some(i))
}
/// long chains of operations, each result fed to the next
fn c28_chain(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 2;
    let (l, c) = curve(4 + i)?;
    let mut p = some_point(&c, &mut cx.rng);
    let mut q = xy(&p);
    for _ in 0..30 {
        let (want, r) = match cx.rng.below(3) {
            0 => (c.add(&p, &p), no_panic(|| l.double(&q.0, &q.1))),
            1 => {
                let b = some_point(&c, &mut cx.rng);
                let (x, y) = xy(&b);
                (c.add(&p, &b), no_panic(|| l.add(&q.0, &q.1, &x, &y)))
            }
            _ => {
                let k = Big::from_u64(cx.rng.below(9) as u64);
                (c.mul(&k, &p), no_panic(|| l.scalar(&q.0, &q.1, &nat(&k))))
            }
        };
        let r2 = r.as_ref().map(|(x, y)| (x.deep_clone(), y.deep_clone())).map_err(|e| e.clone());
        same_point(&c, r, &want, &format!("{}:chain", NAMES[4 + i]), &|| format!("{} after {}", NAMES[4 + i], show(&p)))?;
        if let Ok(r) = r2 {
            q = r;
        }
        p = want;
        cx.case(&[show(&p).as_bytes()]);
    }
    cx.ev("chained operations");
    Ok(())
}
fn c29_generic(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 4;
    group(cx, i, None)
}
fn c29_names(cx: &mut Cx) -> R {
    for i in 0..6 {
        let (l, c) = curve(i)?;
        ensure!(l.curve_params().name() == c.name && l.curve_params().field_bits_size() == c.bits, "ec:name", "{}: name {} and size {}", NAMES[i], l.curve_params().name(), l.curve_params().field_bits_size());
        same_point(&c, no_panic(|| l.scalar_base_point(&nat(&Big::one()))), &c.g, &format!("{}:one", NAMES[i]), &|| format!("{}: 1 * G", NAMES[i]))?;
        same_point(&c, no_panic(|| l.scalar_base_point(&nat(&c.n))), &None, &format!("{}:order", NAMES[i]), &|| format!("{}: n * G", NAMES[i]))?;
        cx.ev("curves named");
        cx.case(&[NAMES[i].as_bytes()]);
    }
    Ok(())
}
/// keys from honest and from extreme sources
fn c29_keys(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 4;
    let c = model(i);
    let l = params(i)?;
    let src = Src::new(cx.rng.u64());
    let bytes = (c.n.bits() + 7) / 8;
    let how = cx.rng.below(8);
    let value = match how {
        0 => Some(Big::zero()),
        1 => Some(c.n.clone()),
        2 => Some(c.n.sub(&Big::one())),
        3 => Some(Big::one()),
        4 => Some(Big::one().shl(8 * bytes).sub(&Big::one())),
        5 => Some(c.n.add(&Big::from_u64(cx.rng.below(5) as u64))),
        _ => None,
    };
    if let Some(v) = &value {
        // both as it is and with the second byte as the generator changes it
        let mut b = v.to_be_n(bytes);
        if cx.rng.bool() {
            b[1] ^= 0x42;
        }
        b.resize((bytes + 3) / 4 * 4, 0);
        *src.script.borrow_mut() = b.chunks(4).map(|w| u32::from_be_bytes([w[0], w[1], w[2], w[3]])).collect();
        cx.ev("sources starting with an extreme value");
    }
    let mut src = src;
    src.cap = 1_000_000;
    let k = match no_panic(|| l.generate_key(&mut src)) {
        Ok(Ok(k)) => k,
        Ok(Err(e)) => return broken("ec:key-refused", format!("{}: {}", c.name, e)),
        Err(p) => return broken("ec:key-panic", format!("{}: {}", c.name, p)),
    };
    let s = format!("{}", k);
    let d = field(&s, "d");
    let q = Some((field(&s, "qx"), field(&s, "qy")));
    ensure!(!d.is_zero() && d < c.n, "ec:key-range", "{} key with d={} (source starting with {:?})", c.name, d.to_hex(), value.map(|v| v.to_hex()));
    ensure!(q == c.mul(&d, &c.g), "ec:key-point", "{} key {}", c.name, s);
    cx.case(&[c.name.as_bytes(), &d.to_be()]);
    cx.note(&[&d.to_be()]);
    cx.ev("keys judged");
    // and the signature object's own generator
    let j = if i < 2 && cx.rng.bool() { i + 4 } else { i };
    let (a, c) = curve(j)?;
    let e = match no_panic(|| ECDSA::auto_generate_key(sha::SHA256::new(), src, a)) {
        Ok(Ok(e)) => e,
        Ok(Err(e)) => return broken("ec:key-refused", format!("{}: {}", NAMES[j], e)),
        Err(p) => return broken("ec:key-panic", format!("{}: {}", NAMES[j], p)),
    };
    let s = format!("{}", e.public_key());
    let (x, y) = (field(&s, "qx"), field(&s, "qy"));
    ensure!(x < c.p && y < c.p && c.on(&x, &y), "ec:auto-key", "{} key {}", NAMES[j], s);
    cx.ev("signers with own key");
    cx.case(&[c.name.as_bytes(), &x.to_be()]);
    Ok(())
}
pub fn private(c: &Curve, d: &Big) -> PrivateKey {
    let (x, y) = xy(&c.mul(d, &c.g));
    PrivateKey::new_uncheck(PublicKey::new_uncheck(&x, &y), &bint(d))
}
fn judge<H: Digest + Clone + 'static>(cx: &mut Cx, i: usize, hname: &str, mk: &dyn Fn() -> H, h: &dyn Fn(&[u8]) -> Vec<u8>, free: bool) -> R {
    let (l, c) = curve(i)?;
    let d = unit(&c.n, &mut cx.rng);
    let q = c.mul(&d, &c.g);
    let (qx, qy) = xy(&q);
    let what = format!("ECDSA-{} on {} d={}", hname, NAMES[i], d.to_hex());
    let mut signer = match ECDSA::new_unchcek(mk(), Src::new(cx.rng.u64()), l.clone(), KeyPair::from(private(&c, &d))) {
        Ok(s) => s,
        Err(e) => return broken("ecdsa:ctor", format!("{}: {}", what, e)),
    };
    let mut verifier = match ECDSA::new_unchcek(mk(), Src::new(1), l.clone(), KeyPair::from(PublicKey::new_uncheck(&qx, &qy))) {
        Ok(s) => s,
        Err(e) => return broken("ecdsa:ctor", format!("{}: {}", what, e)),
    };
    let nb = c.n.bits();
    let hl = (mk().bits_len() + 7) / 8;
    cx.ev(if 8 * hl > nb { "hashes longer than the order" } else { "hashes not longer than the order" });
    let one = Big::one();
    let zero = Big::zero();
    let n = &c.n;
    let len = cx.rng.below(100);
    let m = cx.rng.patterned(len);
    let hash = h(&m);
    let mut sc = SignatureContent::new();
    match no_panic(|| signer.sign(&mut sc, &m)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return broken("ecdsa:sign-refused", format!("{} message {}: {}", what, hx(&m), e)),
        Err(p) => return broken("ecdsa:sign-panic", format!("{} message {}: {}", what, hx(&m), p)),
    }
    let (r, s) = numbers(&sc);
    ensure!(!r.is_zero() && r < *n && !s.is_zero() && s < *n, "ecdsa:range", "{} message {}: r={} s={}", what, hx(&m), r.to_hex(), s.to_hex());
    ensure!(ec::ecdsa_verify(&c, &q, &hash, &r, &s), "ecdsa:equation", "{} message {}: r={} s={} does not satisfy the equation", what, hx(&m), r.to_hex(), s.to_hex());
    cx.ev("signatures checked by the equation");
    let mut tries: Vec<(&str, SignatureContent, Vec<u8>)> = vec![("own", content(&r, &s), m.clone())];
    let mut m2 = m.clone();
    if m2.is_empty() { m2.push(1) } else { let b = cx.rng.below(8 * m2.len()); m2[b / 8] ^= 1 << (b % 8); }
    tries.push(("changed message", content(&r, &s), m2));
    tries.push(("s negated", content(&r, &n.sub(&s)), m.clone()));
    let odd = [
        ("r zero", zero.clone(), s.clone()),
        ("s zero", r.clone(), zero.clone()),
        ("both zero", zero.clone(), zero.clone()),
        ("r is n", n.clone(), s.clone()),
        ("s is n", r.clone(), n.clone()),
        ("r plus n", r.add(n), s.clone()),
        ("s plus n", r.clone(), s.add(n)),
        ("swapped", s.clone(), r.clone()),
        ("ones", one.clone(), one.clone()),
        ("r negated", n.sub(&r), s.clone()),
        ("random", unit(n, &mut cx.rng), unit(n, &mut cx.rng)),
        ("r altered", r.addm(&unit(n, &mut cx.rng), n), s.clone()),
        ("s altered", r.clone(), s.addm(&unit(n, &mut cx.rng), n)),
    ];
    // the first ones are cheap, as they are refused by range
    for (k, (w, a, b)) in odd.iter().enumerate() {
        if k < 7 || cx.rng.chance(1, 3) {
            tries.push((w, content(a, b), m.clone()));
        }
    }
    // signatures made with a chosen nonce
    let k = match cx.rng.below(4) { 0 => one.clone(), 1 => n.sub(&one), _ => unit(n, &mut cx.rng) };
    let r2 = match c.mul(&k, &c.g) { Some((x, _)) => x.rem(n), None => zero.clone() };
    if let (Some(ki), false) = (k.invm(n), r2.is_zero()) {
        let s2 = ki.mulm(&bits2int(&hash, n).add(&d.mul(&r2)).rem(n), n);
        tries.push(("other nonce", content(&r2, &s2), m.clone()));
        let s2 = ki.mulm(&Big::from_be(&hash).add(&d.mul(&r2)).rem(n), n);
        tries.push(("hash not shortened", content(&r2, &s2), m.clone()));
    }
    if free {
        if 8 * hl >= nb {
            let ex = 8 * hl - nb;
            let mut with = |w: &'static str, e: &Big, r: &Big, s: &Big| tries.push((w, content(r, s), e.shl(ex).to_be_n(hl)));
            // the two halves of the verification meet in one point, or cancel
            let rr = unit(n, &mut cx.rng);
            let ss = unit(n, &mut cx.rng);
            let e = rr.mulm(&d, n);
            with("halves cancel", &n.sub(&e), &rr, &ss);
            // r d = e: u1 G = u2 Q, the sum is a doubling
            let k = unit(n, &mut cx.rng);
            if let Some((x, _)) = c.mul(&k, &c.g) {
                let r = x.rem(n);
                let e = r.mulm(&d, n);
                if let Some(ki) = k.invm(n) {
                    let s = ki.mulm(&e.add(&d.mul(&r)).rem(n), n);
                    with("halves are equal", &e, &r, &s);
                }
                // hash value zero, n and above
                for e in [zero.clone(), n.clone(), n.sub(&one), one.shl(nb).sub(&one)] {
                    if cx.rng.bool() { continue; }
                    if let Some(ki) = k.invm(n) {
                        let s = ki.mulm(&e.add(&d.mul(&r)).rem(n), n);
                        with("chosen hash values", &e, &r, &s);
                    }
                }
            }
        }
        if 8 * hl > nb && hl * 8 - nb >= 8 {
            let mut m2 = h(&m);
            m2[hl - 1] ^= 1 << cx.rng.below(8);
            tries.push(("hash differs behind the order", content(&r, &s), m2));
        }
    }
    let mut cc = content(&r, &s);
    let v: &mut Vec<u8> = cc.as_mut();
    let how = match cx.rng.below(5) {
        0 => { v.pop(); "container shortened" }
        1 => { v.clear(); "container emptied" }
        2 => { v.push(0); "container lengthened" }
        3 => { v.truncate(cx.rng.below(v.len())); "container shortened" }
        _ => { let i = cx.rng.below(v.len()); v[i] ^= 1 << cx.rng.below(8); "container altered" }
    };
    tries.push((how, cc, m.clone()));
    tries.push(("nothing", SignatureContent::new(), m.clone()));
    for (w, cc, msg) in tries {
        let (r, s) = match no_panic(|| numbers(&cc)) {
            Ok(x) => x,
            Err(p) => return broken("ecdsa:content-panic", format!("{}: {}", w, p)),
        };
        let want = ec::ecdsa_verify(&c, &q, &h(&msg), &r, &s);
        let by_signer = cx.rng.bool();
        let ok = match no_panic(|| if by_signer { signer.verify(&cc, &msg).is_ok() } else { verifier.verify(&cc, &msg).is_ok() }) {
            Ok(b) => b,
            Err(p) => return broken("ecdsa:panic", format!("{} {} r={} s={} message {}: {}", what, w, r.to_hex(), s.to_hex(), hx(&msg), p)),
        };
        ensure!(ok == want, format!("ecdsa:{}:{}", if want { "rejected" } else { "accepted" }, w), "{} {} r={} s={} message {} (by signer: {})", what, w, r.to_hex(), s.to_hex(), hx(&msg), by_signer);
        let e = format!("{}: {}", if want { "accepted" } else { "rejected" }, w);
        cx.ev(&e);
        cx.case(&[NAMES[i].as_bytes(), &d.to_be(), &msg, &r.to_be(), &s.to_be()]);
    }
    // another key
    let d2 = Big::random_below(&n.sub(&one), &mut cx.rng).add(&one);
    let q2 = c.mul(&d2, &c.g);
    let (x2, y2) = xy(&q2);
    if let Ok(mut v) = ECDSA::new_unchcek(mk(), Src::new(1), l.clone(), KeyPair::from(PublicKey::new_uncheck(&x2, &y2))) {
        let want = ec::ecdsa_verify(&c, &q2, &hash, &r, &s);
        ensure!(v.verify(&content(&r, &s), &m).is_ok() == want, "ecdsa:other-key", "{} verified under d={}", what, d2.to_hex());
        cx.ev("other keys");
    }
    let mut sc = SignatureContent::new();
    ensure!(matches!(no_panic(|| verifier.sign(&mut sc, &m).is_err()), Ok(true)), "ecdsa:public", "{}: a public key signs", what);
    let e = format!("curve {}", NAMES[i]);
    cx.ev(&e);
    cx.sample(|| format!("{} message {}: r={}", what, hx(&m), r.to_hex()));
    Ok(())
}
fn c27(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 6;
    match if cx.idx % 12 < 6 { 6 } else { cx.rng.below(7) } {
        0 => judge(cx, i, "MD5", &|| MD5::new(), &|m| md5(m), false),
        1 => judge(cx, i, "SHA224", &|| sha::SHA224::new(), &|m| sha224(m), false),
        2 => judge(cx, i, "SHA256", &|| sha::SHA256::new(), &|m| sha256(m), false),
        3 => judge(cx, i, "SHA512", &|| sha::SHA512::new(), &|m| sha512(m), false),
        4 => judge(cx, i, "SM3", &|| SM3::new(), &|m| sm3(m), false),
        5 => judge(cx, i, "SHA3-384", &|| sha3::SHA384::new(), &|m| rk::sha3_384(m), false),
        _ => {
            // mostly around the length of the order
            let o = [28, 32, 48, 66, 28, 32][i];
            let n = match cx.rng.below(4) { 0 => cx.rng.range(1, 90), 1 => cx.rng.range(o - 4, o), _ => cx.rng.range(o, o + 5) };
            judge(cx, i, &format!("given{}", n), &|| Given::new(n), &|m| { let mut v = m.to_vec(); v.resize(n, 0); v }, true)
        }
    }
}
/// a signer with its own key, verified by its printed public key
fn c27_auto(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 6;
    let (l, c) = curve(i)?;
    let mut e = match no_panic(|| ECDSA::auto_generate_key(sha::SHA256::new(), Src::new(cx.rng.u64()), l)) {
        Ok(Ok(e)) => e,
        Ok(Err(e)) => return broken("ecdsa:auto", format!("{}: {}", NAMES[i], e)),
        Err(p) => return broken("ecdsa:auto", format!("{}: {}", NAMES[i], p)),
    };
    let s = format!("{}", e.public_key());
    let q = Some((field(&s, "qx"), field(&s, "qy")));
    for _ in 0..2 {
        let n = cx.rng.below(50);
        let m = cx.rng.bytes(n);
        let mut sc = SignatureContent::new();
        ensure!(matches!(no_panic(|| e.sign(&mut sc, &m).is_ok()), Ok(true)), "ecdsa:auto-sign", "{}: no signature", NAMES[i]);
        let (r, s) = numbers(&sc);
        ensure!(ec::ecdsa_verify(&c, &q, &sha256(&m), &r, &s), "ecdsa:auto-equation", "{} message {}: r={} s={} under {:?}", NAMES[i], hx(&m), r.to_hex(), s.to_hex(), e.public_key());
        ensure!(e.verify(&sc, &m).is_ok(), "ecdsa:auto-verify", "{} message {}: own signature refused", NAMES[i], hx(&m));
        cx.case(&[NAMES[i].as_bytes(), &r.to_be(), &s.to_be()]);
        cx.ev("signatures with own keys");
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            rule: "one evaluation = one (signature, message) candidate whose acceptance is compared with the ECDSA equation computed independently; distinct (curve, key, message, r, s) are counted",
            assumptions: &["the curve model of the harness (self-tested against published multiples)", "keys are valid"],
            require: &["signatures checked by the equation", "hashes longer than the order", "hashes not longer than the order", "accepted: own", "accepted: s negated", "accepted: other nonce", "accepted: halves are equal", "accepted: chosen hash values", "accepted: hash differs behind the order", "rejected: halves cancel", "rejected: hash not shortened", "rejected: changed message", "rejected: r zero", "rejected: s zero", "rejected: r plus n", "rejected: s plus n", "rejected: r is n", "rejected: s is n", "rejected: random", "rejected: container shortened", "rejected: container emptied", "rejected: nothing", "other keys", "signatures with own keys", "curve P-224", "curve P-256", "curve P-384", "curve P-521", "curve P-224 fast", "curve P-256 fast"],
            jobs: vec![Job { name: "sign", quick: 200, thorough: 2500, run: c27 }, Job { name: "auto", quick: 60, thorough: 600, run: c27_auto }],
        },
        Prop {
            id: "C28",
            rule: "one evaluation = one multiplication, addition with doubling, or membership test compared with affine arithmetic over big integers; distinct (operation, operands) are counted",
            assumptions: &["the curve model of the harness (self-tested against published multiples)", "coordinates below the field size"],
            require: &["base-point multiplications", "point multiplications", "multiples that are infinity", "multiples of infinity", "scalars from the order up", "compared with the generic code", "additions and doublings", "opposite points added", "equal points added", "additions with infinity", "sums at a chosen point", "products at a chosen point", "membership of points and non-points", "chained operations", "curve P-224 fast", "curve P-256 fast"],
            jobs: vec![Job { name: "fast", quick: 1500, thorough: 40000, run: c28_fast }, Job { name: "chain", quick: 100, thorough: 3000, run: c28_chain }],
        },
        Prop {
            id: "C29",
            rule: "one evaluation = one operation of a generic curve compared with affine arithmetic, or one generated key judged; distinct (operation, operands) and keys are counted",
            assumptions: &["the curve model of the harness (self-tested against published multiples)", "coordinates below the field size", "the printed form of a key shows its numbers"],
            require: &["curves named", "base-point multiplications", "point multiplications", "multiples that are infinity", "multiples of infinity", "scalars from the order up", "additions and doublings", "opposite points added", "equal points added", "additions with infinity", "membership of points and non-points", "keys judged", "sources starting with an extreme value", "signers with own key", "curve P-224", "curve P-256", "curve P-384", "curve P-521"],
            jobs: vec![Job { name: "names", quick: 1, thorough: 1, run: c29_names }, Job { name: "generic", quick: 400, thorough: 5000, run: c29_generic }, Job { name: "keys", quick: 240, thorough: 2500, run: c29_keys }],
        },
    ]
}
