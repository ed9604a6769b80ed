//! C32: keys, curves and operands stay what they are.
use super::dsa::{content, numbers, pick_dom, unit};
use super::ec::{curve, model, xy, AnyCurve, NAMES};
use super::rsa::{gen, Key};
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::ec::{self, Curve, Pt};
use crate::refs::hashes::*;
use crate::refs::pk;
use rcrypto::dsa::{DomainParameters, PrivateKey as DsaPrivate, PublicKey as DsaPublic, SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcPrivate, PublicKey as EcPublic};
use rcrypto::rsa::{PublicKey, SignatureContent as RsaSig, OAEP, PKCS1, PSS};
use rcrypto::{sha, Cipher, Signature, MD5};
use rmath::bigint::{BigInt, Nat};
use std::rc::Rc;

type Dk = rcrypto::dsa::KeyPair;

/// changes the integer in place; its shallow clones change along
fn scramble(b: &mut BigInt, cx: &mut Cx) {
    if b.is_nan() {
        return;
    }
    let witness = b.clone();
    let before = witness.to_be_bytes();
    let v = 1 + cx.rng.below(1000) as u32;
    match cx.rng.below(6) {
        0 => *b += BigInt::from(v),
        1 => *b *= BigInt::from(v | 2),
        2 => *b <<= 1 + cx.rng.below(20),
        3 => *b >>= 1 + cx.rng.below(20),
        4 => b.rem_euclid_assign(BigInt::from(v + 1)),
        _ => *b -= BigInt::from(v),
    }
    cx.ev(if witness.to_be_bytes() != before { "in-place changes that reach shallow clones" } else { "other in-place changes" });
}
fn scramble_nat(b: &mut Nat, cx: &mut Cx) {
    if b.is_nan() {
        return;
    }
    let witness = b.clone();
    let before = witness.to_be_bytes();
    let v = 1 + cx.rng.below(1000) as u32;
    match cx.rng.below(4) {
        0 => *b += v,
        1 => *b *= v | 2,
        2 => *b <<= 1 + cx.rng.below(20),
        _ => *b >>= 1 + cx.rng.below(20),
    }
    cx.ev(if witness.to_be_bytes() != before { "in-place changes that reach shallow clones" } else { "other in-place changes" });
}
/// an operand next to the value it must keep
struct Held(BigInt, Big);
impl Held {
    fn new(v: &Big) -> Held {
        Held(bint(v), v.clone())
    }
    fn kept(&self, sig: &str, what: &str) -> R {
        ensure!(!self.0.is_nan() && !is_neg(&self.0) && big(&self.0) == self.1, format!("alias:operand:{}", sig), "{}: an operand was {} and is now {}", what, self.1.to_hex(), if self.0.is_nan() { "not a number".into() } else { big(&self.0).to_hex() });
        Ok(())
    }
}
fn printed(old: &str, now: String, sig: &str, what: &str) -> R {
    ensure!(old == now, format!("alias:changed:{}", sig), "{}: was {} and is now {}", what, old, now);
    Ok(())
}
fn c32_rsa(cx: &mut Cx) -> R {
    let primes = if cx.rng.chance(1, 3) { 3 } else { 2 };
    let bits = cx.rng.range(8 * 36 + 1, 340);
    let k = gen(bits, primes, cx.rng.u64())?;
    let kk = k.k();
    let what = format!("{}", k.sk);
    let show = what.clone();
    let copy = Key::read(k.sk.clone());
    // a public key from integers the caller goes on using
    let (mut n, mut e) = (bint(&k.n), bint(&k.e));
    let pk2 = if cx.rng.bool() { PublicKey::from_bigint(&n, &e) } else { PublicKey::from_nat(n.as_ref(), e.as_ref()) };
    let pk2 = match pk2 {
        Ok(p) => p,
        Err(e) => return broken("alias:rsa-public", format!("{}: {}", what, e)),
    };
    let pshow = format!("{}", pk2);
    ensure!(big(&n) == k.n && big(&e) == k.e, "alias:operand:from_bigint", "{}: the numbers given to the public key were changed", what);
    scramble(&mut n, cx);
    scramble(&mut e, cx);
    printed(&pshow, format!("{}", pk2), "rsa-public", "an RSA public key after its maker changed the numbers")?;
    let ncopy = pk2.clone();
    let mut src = Src::new(cx.rng.u64());
    let mut past: Vec<(Big, Big)> = vec![];
    for step in 0..10 {
        let m = match cx.rng.below(8) {
            0 => Big::from_u64(cx.rng.below(3) as u64),
            1 => k.n.sub(&Big::one()),
            2 if !past.is_empty() => past[cx.rng.below(past.len())].0.clone(),
            _ => Big::random_below(&k.n, &mut cx.rng),
        };
        let c = m.powm(&k.e, &k.n);
        past.push((m.clone(), c.clone()));
        let mut h = Held::new(&m);
        let w = format!("step {} with m={} under {}", step, m.to_hex(), what);
        let public = match cx.rng.below(4) { 0 => &pk2, 1 => &ncopy, 2 => copy.sk.public_key(), _ => k.sk.public_key() };
        let mut r = public.encrypt(&h.0);
        ensure!(big(&r) == c, "alias:rsa-encrypt", "{}: encryption gives {} for {}", w, big(&r).to_hex(), c.to_hex());
        h.kept("rsa-encrypt", &w)?;
        scramble(&mut r, cx);
        h.kept("rsa-encrypt-result", &w)?;
        scramble(&mut h.0, cx);
        let mut h = Held::new(&c);
        let key = if cx.rng.bool() { &copy.sk } else { &k.sk };
        let r = match cx.rng.below(4) {
            0 => key.decrypt(&h.0, None::<&mut Src>),
            1 => key.decrypt(&h.0, Some(&mut src)),
            2 => key.decrypt_and_check(&h.0, None::<&mut Src>),
            _ => key.decrypt_and_check(&h.0, Some(&mut src)),
        };
        let mut r = match r { Ok(r) => r, Err(e) => return broken("alias:rsa-decrypt", format!("{}: {}", w, e)) };
        ensure!(big(&r) == m, "alias:rsa-decrypt", "{}: decryption gives {}", w, big(&r).to_hex());
        h.kept("rsa-decrypt", &w)?;
        scramble(&mut r, cx);
        h.kept("rsa-decrypt-result", &w)?;
        scramble(&mut h.0, cx);
        cx.case(&[b"rsa", &k.n.to_be(), &m.to_be()]);
        cx.ev("RSA steps");
        if cx.rng.chance(1, 3) {
            // schemes on the same key, which they were given by value
            let msg = cx.rng.bytes(3);
            let pair = if cx.rng.bool() { k.pair() } else { copy.pair() };
            let blind = cx.rng.bool();
            let src = Src::new(cx.rng.u64());
            let ok = match cx.rng.below(3) {
                0 => match OAEP::new_uncheck(MD5::new(), src, pair, vec![], blind) {
                    Ok(o) => {
                        let (mut c, mut d) = (vec![], vec![]);
                        o.encrypt(&mut c, &msg).is_ok() && o.decrypt(&mut d, &c).is_ok() && d == msg
                    }
                    Err(_) => false,
                },
                1 => match PKCS1::new_uncheck(MD5::new(), src, pair, blind) {
                    Ok(o) => {
                        let (mut c, mut d) = (vec![], vec![]);
                        o.encrypt(&mut c, &msg).is_ok() && o.decrypt(&mut d, &c).is_ok() && d == msg
                    }
                    Err(_) => false,
                },
                _ => match PSS::new_uncheck(MD5::new(), src, pair, Some(5), blind) {
                    Ok(mut o) => {
                        let mut s = RsaSig::new();
                        o.sign(&mut s, &msg).is_ok() && o.verify(&s, &msg).is_ok()
                    }
                    Err(_) => false,
                },
            };
            ensure!(ok, "alias:rsa-scheme", "{}: a scheme on this key does not work", w);
            cx.ev("schemes on shared keys");
        }
        printed(&show, format!("{}", k.sk), "rsa-private", &w)?;
        printed(&show, format!("{}", copy.sk), "rsa-copy", &w)?;
        printed(&pshow, format!("{}", pk2), "rsa-public", &w)?;
        printed(&pshow, format!("{}", ncopy), "rsa-public-copy", &w)?;
    }
    let v = k.sk.is_valid();
    ensure!(v.is_ok() && kk == k.sk.modulus_len(), "alias:rsa-valid", "{}: {:?}", what, v);
    cx.sample(|| format!("{} steps on {}", past.len(), what));
    Ok(())
}
fn c32_dsa(cx: &mut Cx) -> R {
    let mut d = pick_dom(&mut cx.rng);
    while d.q.bits() < 32 || d.p.bits() > 1100 {
        d = pick_dom(&mut cx.rng);
    }
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let what = format!("DSA {} x={}", d.show(), x.to_hex());
    let mut held = [Held::new(&d.p), Held::new(&d.q), Held::new(&d.g), Held::new(&y), Held::new(&x)];
    let get = |r: Result<(DomainParameters, DsaPublic, DsaPrivate), rcrypto::CryptoError>| r.map_err(|e| Broken { sig: "alias:dsa-key".into(), detail: format!("{}: {}", what, e) });
    let (dp, public, sk) = get((|| {
        let dp = DomainParameters::new_uncheck(&held[0].0, &held[1].0, &held[2].0)?;
        let public = DsaPublic::new_uncheck(&dp, &held[3].0)?;
        let sk = DsaPrivate::new_uncheck(&public, &held[4].0)?;
        Ok((dp, public, sk))
    })())?;
    let shows = [format!("{}", dp), format!("{}", public), format!("{}", sk)];
    ensure!(field(&shows[2], "p") == d.p && field(&shows[2], "q") == d.q && field(&shows[2], "g") == d.g && field(&shows[2], "y") == y && field(&shows[2], "x") == x, "alias:dsa-key", "{}: printed as {}", what, shows[2]);
    let (dp2, public2, sk2) = (dp.clone(), public.clone(), sk.clone());
    let all = |what: &str| -> R {
        for (k, (s, now)) in [(0, format!("{}", dp)), (1, format!("{}", public)), (2, format!("{}", sk)), (0, format!("{}", dp2)), (1, format!("{}", public2)), (2, format!("{}", sk2))].into_iter().enumerate() {
            printed(&shows[s], now, ["dsa-domain", "dsa-public", "dsa-private", "dsa-domain-copy", "dsa-public-copy", "dsa-private-copy"][k], what)?;
        }
        Ok(())
    };
    for h in held.iter_mut() {
        h.kept("dsa-key", &what)?;
        scramble(&mut h.0, cx);
    }
    all("DSA keys after their maker changed the numbers")?;
    let n = cx.rng.below(40);
    let mut m = cx.rng.patterned(n);
    let mk = |k: &DsaPrivate, seed: u64| DSA::new_uncheck(sha::SHA1::new(), Src::new(seed), Dk::from(k.clone()));
    let (mut s1, mut s2) = match (mk(&sk, cx.rng.u64()), mk(&sk2, cx.rng.u64())) { (Ok(a), Ok(b)) => (a, b), _ => return broken("alias:dsa-ctor", what) };
    let mut v = match DSA::new_uncheck(sha::SHA1::new(), Src::new(1), Dk::from(public2.clone())) { Ok(v) => v, Err(e) => return broken("alias:dsa-ctor", format!("{}: {}", what, e)) };
    for step in 0..6 {
        let w = format!("step {} message {} with {}", step, hex(&m), what);
        let mut sc = SignatureContent::new();
        let r = if cx.rng.bool() { s1.sign(&mut sc, &m) } else { s2.sign(&mut sc, &m) };
        if let Err(e) = r { return broken("alias:dsa-sign", format!("{}: {}", w, e)); }
        let bytes: Vec<u8> = AsRef::<[u8]>::as_ref(&sc).to_vec();
        let (r, s) = numbers(&sc);
        ensure!(pk::dsa_verify(&d.p, &d.q, &d.g, &y, &sha1(&m), &r, &s), "alias:dsa-signature", "{}: r={} s={}", w, r.to_hex(), s.to_hex());
        // numbers handed out by and in to a signature
        let (mut a, mut b) = sc.to_bigint();
        scramble(&mut a, cx);
        scramble(&mut b, cx);
        ensure!(AsRef::<[u8]>::as_ref(&sc) == &bytes[..] && numbers(&sc) == (r.clone(), s.clone()), "alias:changed:dsa-content", "{}: the signature changed with the numbers read from it", w);
        let (mut a, mut b) = (Held::new(&r), Held::new(&s));
        let made = SignatureContent::form_bigint(&a.0, &b.0);
        let mut set = SignatureContent::new();
        set.set(a.0.clone(), b.0.clone());
        a.kept("dsa-content", &w)?;
        b.kept("dsa-content", &w)?;
        scramble(&mut a.0, cx);
        scramble(&mut b.0, cx);
        ensure!(numbers(&made) == (r.clone(), s.clone()) && numbers(&set) == (r.clone(), s.clone()), "alias:changed:dsa-content", "{}: a signature changed with the numbers it was made from", w);
        for c in [&sc, &made, &set] {
            let ok = [v.verify(c, &m).is_ok(), s1.verify(c, &m).is_ok(), s2.verify(c, &m).is_ok()];
            ensure!(ok == [true; 3], "alias:dsa-verify", "{}: verification {:?}", w, ok);
            ensure!(numbers(c) == (r.clone(), s.clone()), "alias:changed:dsa-verified", "{}: verification changed the signature", w);
        }
        let other = s.addm(&Big::one(), &d.q);
        ensure!(v.verify(&content(&r, &other), &m).is_err(), "alias:dsa-verify", "{}: altered signature accepted", w);
        all(&w)?;
        for o in [&s1, &s2] {
            printed(&shows[1], format!("{}", o.key_pair().public_key()), "dsa-signer", &w)?;
        }
        cx.case(&[b"dsa", &d.p.to_be(), &bytes]);
        cx.ev("DSA steps");
        m.push(step as u8);
    }
    cx.sample(|| what.clone());
    Ok(())
}
fn answer(c: &Curve, r: &(BigInt, BigInt), want: &Pt, what: &str) -> R {
    let got = if r.0.is_nan() || r.1.is_nan() { None } else { Some((big(&r.0), big(&r.1))) };
    let zero = Big::zero();
    let ok = match (&got, want) {
        (Some((x, y)), None) => *x == zero && *y == zero,
        (Some((x, y)), Some((a, b))) => x == a && y == b && *x < c.p,
        _ => false,
    };
    ensure!(ok, "alias:curve-result", "{}: wrong point {:?}", what, got.map(|(x, y)| (x.to_hex(), y.to_hex())));
    Ok(())
}
fn c32_ec(cx: &mut Cx) -> R {
    let i = match cx.idx % 8 { 0 => 2, 1 => 3, 2 => 0, 3 => 1, x => 4 + x % 2 };
    let c = model(i);
    let (l, _) = curve(i)?;
    // a clone made early and used along
    let l2 = match i {
        4 => AnyCurve(Rc::new(CurveP224::new().map_err(|e| Broken { sig: "ec:ctor".into(), detail: format!("{}", e) })?.clone())),
        5 => AnyCurve(Rc::new(CurveP256::new().map_err(|e| Broken { sig: "ec:ctor".into(), detail: format!("{}", e) })?.clone())),
        _ => AnyCurve(Rc::new(l.curve_params().clone())),
    };
    let name = NAMES[i];
    let mut pts: Vec<Pt> = vec![c.g.clone(), None, c.random_point(&mut cx.rng)];
    let steps = if i < 4 { 12 } else { 24 };
    for step in 0..steps {
        let l = if cx.rng.bool() { &l } else { &l2 };
        let a = pts[cx.rng.below(pts.len())].clone();
        let b = pts[cx.rng.below(pts.len())].clone();
        let ((ax, ay), (bx, by)) = (xy(&a), xy(&b));
        let held = |v: BigInt| { let b = big(&v); Held(v, b) };
        let mut ops = [held(ax), held(ay), held(bx), held(by)];
        let k = match cx.rng.below(5) {
            0 => Big::from_u64(cx.rng.below(4) as u64),
            1 => c.n.add(&Big::from_u64(cx.rng.below(3) as u64)),
            _ => Big::random_below(&c.n, &mut cx.rng),
        };
        let mut kn = nat(&k);
        let w = format!("{} step {}", name, step);
        let (which, mut r, want) = match cx.rng.below(6) {
            0 => ("add", l.add(&ops[0].0, &ops[1].0, &ops[2].0, &ops[3].0), c.add(&a, &b)),
            1 => ("double", l.double(&ops[0].0, &ops[1].0), c.add(&a, &a)),
            2 => ("scalar", l.scalar(&ops[0].0, &ops[1].0, &kn), c.mul(&k, &a)),
            3 => ("base", l.scalar_base_point(&kn), c.mul(&k, &c.g)),
            4 => {
                // the very same integer object as several operands
                ("add self", l.add(&ops[0].0, &ops[1].0, &ops[0].0, &ops[1].0), c.add(&a, &a))
            }
            _ => {
                let on = l.is_on_curve(&ops[0].0, &ops[1].0);
                ensure!(a.is_none() || on, "alias:member", "{}: a point is said to be off the curve", w);
                ("base one", l.scalar_base_point(&Nat::from(1u32)), c.g.clone())
            }
        };
        let w = format!("{}: {} of {:?} and {:?} by {}", w, which, a.as_ref().map(|p| p.0.to_hex()), b.as_ref().map(|p| p.0.to_hex()), k.to_hex());
        answer(&c, &r, &want, &w)?;
        for o in &ops {
            o.kept(which, &w)?;
        }
        ensure!(big(&BigInt::from(kn.clone())) == k, "alias:operand:scalar", "{}: the scalar was changed", w);
        scramble(&mut r.0, cx);
        scramble(&mut r.1, cx);
        for o in &ops {
            o.kept("result", &w)?;
        }
        for o in ops.iter_mut() {
            scramble(&mut o.0, cx);
        }
        scramble_nat(&mut kn, cx);
        if pts.len() < 8 {
            pts.push(want);
        }
        cx.case(&[name.as_bytes(), which.as_bytes(), &k.to_be(), &a.map(|p| p.0.to_be()).unwrap_or_default()]);
        cx.ev("curve steps");
        cx.ev(which);
    }
    // keys from integers the caller goes on using
    let d = unit(&c.n, &mut cx.rng);
    let (mut x, mut y) = xy(&c.mul(&d, &c.g));
    let mut db = bint(&d);
    let public = EcPublic::new_uncheck(&x, &y);
    let sk = EcPrivate::new_uncheck(EcPublic::new_uncheck(&x, &y), &db);
    let shows = [format!("{}", public), format!("{}", sk)];
    scramble(&mut x, cx);
    scramble(&mut y, cx);
    scramble(&mut db, cx);
    let what = format!("key d={} on {}", d.to_hex(), name);
    printed(&shows[0], format!("{}", public), "ec-public", &what)?;
    printed(&shows[1], format!("{}", sk), "ec-private", &what)?;
    ensure!(field(&shows[1], "d") == d, "alias:ec-key", "{}: printed as {}", what, shows[1]);
    let (p2, s2) = (public.clone(), sk.clone());
    let src = Src::new(cx.rng.u64());
    let mut signer = match ECDSA::new_unchcek(sha::SHA256::new(), src, l.clone(), EcPair::from(sk.clone())) { Ok(s) => s, Err(e) => return broken("alias:ecdsa-ctor", format!("{}: {}", what, e)) };
    let mut verifier = match ECDSA::new_unchcek(sha::SHA256::new(), Src::new(3), l2.clone(), EcPair::from(public.clone())) { Ok(s) => s, Err(e) => return broken("alias:ecdsa-ctor", format!("{}: {}", what, e)) };
    let q = c.mul(&d, &c.g);
    for step in 0..if i < 4 { 2 } else { 4 } {
        let m = cx.rng.bytes(step);
        let mut sc = SignatureContent::new();
        if let Err(e) = signer.sign(&mut sc, &m) { return broken("alias:ecdsa-sign", format!("{}: {}", what, e)); }
        let (r, s) = numbers(&sc);
        ensure!(ec::ecdsa_verify(&c, &q, &sha256(&m), &r, &s), "alias:ecdsa-signature", "{}: r={} s={}", what, r.to_hex(), s.to_hex());
        let ok = [verifier.verify(&sc, &m).is_ok(), signer.verify(&sc, &m).is_ok(), verifier.verify(&sc, &m).is_ok()];
        ensure!(ok == [true; 3] && numbers(&sc) == (r.clone(), s.clone()), "alias:ecdsa-verify", "{}: verification {:?} of r={} s={}", what, ok, r.to_hex(), s.to_hex());
        for (s, now, sig) in [(0, format!("{}", public), "ec-public"), (1, format!("{}", sk), "ec-private"), (0, format!("{}", p2), "ec-public-copy"), (1, format!("{}", s2), "ec-private-copy"), (0, format!("{}", signer.public_key()), "ecdsa-signer"), (0, format!("{}", verifier.public_key()), "ecdsa-verifier")] {
            printed(&shows[s], now, sig, &what)?;
        }
        cx.case(&[name.as_bytes(), &d.to_be(), &r.to_be()]);
        cx.ev("ECDSA steps");
    }
    cx.sample(|| what.clone());
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "a case is one operation of a history, with its operands; after it every operand, key and curve is compared with its value before, then operands and results are changed in place",
        assumptions: &["keys are observed through their printed form and their results"],
        require: &["in-place changes that reach shallow clones", "RSA steps", "DSA steps", "curve steps", "ECDSA steps", "schemes on shared keys", "add", "double", "scalar", "base", "add self", "base one"],
        jobs: vec![
            Job { name: "rsa", quick: 80, thorough: 1600, run: c32_rsa },
            Job { name: "dsa", quick: 120, thorough: 2400, run: c32_dsa },
            Job { name: "ec", quick: 64, thorough: 1280, run: c32_ec },
        ],
    }]
}
