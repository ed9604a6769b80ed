//! C37: clones are equal to what they were made from, and independent of it.
use super::dsa::{numbers, pick_dom, unit};
use super::ec::{self, model};
use super::modes::{AnyPad, Kind, Setup};
use super::rsa::gen;
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::hashes::*;
use crate::refs::modes::Blk;
use crate::refs::{aes, des, pk, sm4};
use rcrypto::cipher_mode::*;
use rcrypto::dsa::{SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{CurveP224, CurveP256, CurveParams, EllipticCurve};
use rcrypto::{sha, Cipher, CryptoError, Signature, AES, DES, SM4, TDES};

#[derive(Clone)]
enum Mode {
    Ecb(ECB<AnyC, AnyPad>),
    Cbc(CBC<AnyC, AnyPad, Ivs>),
    Cfb(CFB<AnyC, AnyPad, Ivs>),
    Ofb(OFB<AnyC, Ivs>),
    Ctr(CTR<AnyC, DefaultCounter>),
}
/// an object next to what is known about it
struct Held {
    o: Mode,
    iv: Vec<u8>,
    at: usize,
    /// counter values it may go on with
    ctr: Vec<Vec<u8>>,
}
fn crypt(o: &Mode, enc: bool, m: &[u8]) -> Result<(Vec<u8>, usize), CryptoError> {
    let mut d = vec![9; 5];
    let n = match (o, enc) {
        (Mode::Ecb(c), true) => c.encrypt(&mut d, m),
        (Mode::Ecb(c), _) => c.decrypt(&mut d, m),
        (Mode::Cbc(c), true) => c.encrypt(&mut d, m),
        (Mode::Cbc(c), _) => c.decrypt(&mut d, m),
        (Mode::Cfb(c), true) => c.encrypt(&mut d, m),
        (Mode::Cfb(c), _) => c.decrypt(&mut d, m),
        (Mode::Ofb(c), true) => c.encrypt(&mut d, m),
        (Mode::Ofb(c), _) => c.decrypt(&mut d, m),
        (Mode::Ctr(c), true) => c.encrypt(&mut d, m),
        (Mode::Ctr(c), _) => c.decrypt(&mut d, m),
    }?;
    Ok((d, n))
}
fn set_iv(o: &mut Mode, iv: Vec<u8>) -> Result<(), CryptoError> {
    match o {
        Mode::Cbc(c) => c.set_iv(iv),
        Mode::Cfb(c) => c.set_iv(iv),
        Mode::Ofb(c) => c.set_iv(iv),
        _ => Ok(()),
    }
}
fn update_iv(o: &mut Mode) -> Result<(), CryptoError> {
    match o {
        Mode::Cbc(c) => c.update_iv().map(|_| ()),
        Mode::Cfb(c) => c.update_iv().map(|_| ()),
        Mode::Ofb(c) => c.update_iv().map(|_| ()),
        _ => Ok(()),
    }
}
fn c37_modes(cx: &mut Cx) -> R {
    for _ in 0..20 {
        let mut s = Setup::random(&mut cx.rng);
        let bs = s.bs();
        let tag = s.tag();
        let mut list = vec![Some(s.iv.clone())];
        list.extend((0..12).map(|_| Some(cx.rng.bytes(bs))));
        let script: Vec<Vec<u8>> = list.iter().flatten().cloned().collect();
        let what = s.describe();
        let bad = |e: CryptoError| Broken { sig: "clone:ctor".into(), detail: format!("{}: {}", what, e) };
        let (c, ivs) = (s.p.c.clone(), Ivs { list, at: 0, dirty: false });
        let o = match s.kind {
            Kind::Ecb => Mode::Ecb(ECB::new(c, s.pad())),
            Kind::Cbc => Mode::Cbc(CBC::new(c, s.pad(), ivs).map_err(bad)?),
            Kind::Cfb(x) => Mode::Cfb(CFB::new(c, s.pad(), ivs, x * 8).map_err(bad)?),
            Kind::Ofb => Mode::Ofb(OFB::new(c, ivs).map_err(bad)?),
            Kind::Ctr => Mode::Ctr(CTR::new(c, s.counter()?).map_err(bad)?),
        };
        let first = s.full_counter();
        let mut pool = vec![Held { o, iv: s.iv.clone(), at: 1, ctr: vec![first.clone()] }];
        for step in 0..24 {
            let i = cx.rng.below(pool.len());
            match cx.rng.below(8) {
                0 | 1 if pool.len() < 5 => {
                    let h = &pool[i];
                    let mut ctr = h.ctr.clone();
                    if !ctr.contains(&first) {
                        ctr.push(first.clone());
                    }
                    let n = Held { o: h.o.clone(), iv: h.iv.clone(), at: h.at, ctr };
                    pool.push(n);
                    cx.ev("mode objects cloned");
                }
                2 if pool.len() > 1 => {
                    pool.remove(i);
                    cx.ev("mode objects dropped");
                }
                3 => {
                    let h = &mut pool[i];
                    let iv = cx.rng.patterned(bs);
                    if !matches!(h.o, Mode::Ecb(_) | Mode::Ctr(_)) && set_iv(&mut h.o, iv.clone()).is_ok() {
                        h.iv = iv;
                        cx.ev("vectors changed in one object");
                    }
                }
                4 => {
                    let h = &mut pool[i];
                    if !matches!(h.o, Mode::Ecb(_) | Mode::Ctr(_)) && h.at < script.len() && update_iv(&mut h.o).is_ok() {
                        h.iv = script[h.at].clone();
                        h.at += 1;
                        cx.ev("vectors changed in one object");
                    }
                }
                _ => {
                    let enc = cx.rng.bool();
                    let h = &mut pool[i];
                    let mut m = s.msg(&mut cx.rng);
                    s.iv = h.iv.clone();
                    if !enc {
                        // decrypt something that decrypts
                        let mut t = vec![0; first.len()];
                        m = match s.enc(&m, &mut t) { Some(c) => c, None => continue };
                    }
                    let want: Vec<(Option<Vec<u8>>, Vec<u8>)> = h.ctr.iter().map(|c| {
                        let mut c = c.clone();
                        (if enc { s.enc(&m, &mut c) } else { s.dec(&m, &mut c) }, c)
                    }).collect();
                    let r = match no_panic(|| crypt(&h.o, enc, &m)) { Ok(r) => r, Err(p) => return broken("clone:panic", format!("{}: {}", what, p)) };
                    let got = match r {
                        Ok((d, n)) => {
                            ensure!(n == d.len(), format!("clone:{}:length", tag), "{}: {} reported for {} bytes", what, n, d.len());
                            Some(d)
                        }
                        Err(_) => None,
                    };
                    let fits: Vec<Vec<u8>> = want.iter().filter(|w| w.0 == got).map(|w| w.1.clone()).collect();
                    ensure!(!fits.is_empty(), format!("clone:{}", tag), "{} step {}, object {} of {}: {} of {} gives {:?}", what, step, i, pool.len(), if enc { "encryption" } else { "decryption" }, hx(&m), got.map(|g| hx(&g)));
                    h.ctr = fits;
                    cx.case(&[what.as_bytes(), &m, &[i as u8, step]]);
                    let e = format!("{} after cloning", tag);
                    if pool.len() > 1 {
                        cx.ev(&e);
                    }
                }
            }
        }
        cx.sample(|| format!("clones of {}", what));
    }
    // sources of vectors, paddings and counters
    let p = any_pair(&mut cx.rng);
    let bs = p.r.bs();
    let mut src = DefaultInitialVec::new(&p.c, Src::new(cx.rng.u64()));
    let mut iv = vec![];
    for _ in 0..cx.rng.below(4) {
        let _ = src.initial_vec(&mut iv);
    }
    let mut other = src.clone();
    let mut iv2 = vec![1; 3];
    let r = (InitialVec::<AnyC>::initial_vec(&mut src, &mut iv).is_ok(), InitialVec::<AnyC>::initial_vec(&mut other, &mut iv2).is_ok());
    ensure!(r == (true, true) && iv == iv2 && iv.len() == bs, "clone:iv-source", "the clone of a source of vectors gives {} instead of {}", hx(&iv2), hx(&iv));
    let pad = DefaultPadding::new(&p.c);
    let n = cx.rng.below(3 * bs);
    let (mut a, mut b) = (vec![5; n], vec![5; n]);
    pad.clone().padding(&mut a);
    pad.padding(&mut b);
    ensure!(a == b && a.len() % bs == 0, "clone:padding", "the clone of a padding pads {} bytes to {}", n, a.len());
    let w = cx.rng.range(1, 20);
    let init = cx.rng.bytes(w);
    if let Ok(mut c) = DefaultCounter::new(init.clone(), 8 * w) {
        for _ in 0..cx.rng.below(5) {
            c.next();
        }
        let mut d = c.clone();
        ensure!(d.bits_len() == c.bits_len(), "clone:counter", "the clone of a counter of {} bits has {}", c.bits_len(), d.bits_len());
        let up = |v: &Big| v.add(&Big::one()).rem(&Big::one().shl(8 * w));
        let next = c.next().cloned().unwrap_or_default();
        let got = d.next().cloned().unwrap_or_default();
        ensure!(got == init || got == next, "clone:counter", "the clone of a counter from {} before {} goes on with {}", hx(&init), hx(&next), hx(&got));
        for c in [&mut c, &mut d] {
            let v = c.next().cloned().unwrap_or_default();
            let w2 = c.next().cloned().unwrap_or_default();
            ensure!(Big::from_be(&w2) == up(&Big::from_be(&v)), "clone:counter", "counter steps from {} to {}", hx(&v), hx(&w2));
            c.reset();
            ensure!(c.next() == Some(&init), "clone:counter", "a counter from {} does not return to it", hx(&init));
        }
        cx.ev("counters cloned");
    }
    Ok(())
}
fn same_cipher<C: Cipher + Clone>(cx: &mut Cx, c: C, r: &dyn Blk, name: &str, key: &[u8]) -> R {
    let one = c.clone();
    let mut d = vec![];
    let _ = c.encrypt(&mut d, &vec![3; r.bs()]);
    let two = c.clone();
    drop(c);
    let three = two.clone();
    drop(two);
    for (i, c) in [one, three].iter().enumerate() {
        ensure!(c.block_size() == Some(r.bs()), format!("clone:{}", name), "block size {:?}", c.block_size());
        for _ in 0..3 {
            let b = cx.rng.patterned(r.bs());
            let (mut x, mut y) = (vec![], vec![]);
            let ok = c.encrypt(&mut x, &b).is_ok() && c.decrypt(&mut y, &b).is_ok();
            ensure!(ok && x == r.e(&b) && y == r.d(&b), format!("clone:{}", name), "clone {} of {} with key {}: block {} gives {} and {}", i, name, hex(key), hex(&b), hex(&x), hex(&y));
            cx.case(&[name.as_bytes(), key, &b]);
        }
    }
    cx.ev("ciphers cloned");
    Ok(())
}
fn c37_ciphers(cx: &mut Cx) -> R {
    for _ in 0..20 {
        let l = *cx.rng.pick(&[16, 24, 32]);
        let key = cx.rng.patterned(l);
        if let Ok(c) = aes_ctor(&key, cx.rng.below(2)) {
            same_cipher::<AES>(cx, c, &aes::Aes::new(&key), "AES", &key)?;
        }
        let key = cx.rng.patterned(24);
        same_cipher(cx, DES::new(arr(&key)), &des::Des::new(&key[..8]), "DES", &key[..8])?;
        same_cipher(cx, TDES::new(arr(&key), arr(&key[8..]), arr(&key[16..])), &des::Tdes::new(&key), "TDES", &key)?;
        same_cipher(cx, SM4::new(arr(&key)), &sm4::Sm4::new(&key[..16]), "SM4", &key[..16])?;
    }
    Ok(())
}
fn c37_rsa(cx: &mut Cx) -> R {
    let primes = *cx.rng.pick(&[2, 2, 3, 3, 4, 5]);
    let bits = cx.rng.range(64, 300);
    let k = gen(bits, primes, cx.rng.u64())?;
    let shown = format!("{}", k.sk);
    let (n, e, d) = (k.n.clone(), k.e.clone(), k.d.clone());
    let a = k.sk.clone();
    if cx.rng.bool() {
        let _ = a.is_valid();
    }
    let b = a.clone();
    drop(k);
    drop(a);
    let pk = b.public_key().clone();
    ensure!(format!("{}", b) == shown, "clone:rsa", "{} is cloned to {}", shown, b);
    ensure!(b.is_valid().is_ok() && b.modulus_len() == (n.bits() + 7) / 8 && pk.modulus_len() == b.modulus_len(), "clone:rsa", "the clone of {} is not valid", shown);
    let c = b.clone();
    let mut src = Src::new(cx.rng.u64());
    for _ in 0..4 {
        let m = Big::random_below(&n, &mut cx.rng);
        let x = m.powm(&e, &n);
        ensure!(big(&pk.encrypt(&bint(&m))) == x, "clone:rsa-public", "m={} under {}", m.to_hex(), shown);
        ensure!(m.powm(&d, &n).powm(&e, &n) == m, "clone:rsa", "exponents of {}", shown);
        for key in [&b, &c] {
            let r = if cx.rng.bool() { key.decrypt(&bint(&x), Some(&mut src)) } else { key.decrypt_and_check(&bint(&x), None::<&mut Src>) };
            match r {
                Ok(r) => ensure!(big(&r) == m, "clone:rsa-private", "c={} under the clone of {}: {}", x.to_hex(), shown, big(&r).to_hex()),
                Err(e) => return broken("clone:rsa-private", format!("c={} under the clone of {}: {}", x.to_hex(), shown, e)),
            }
        }
        cx.case(&[&n.to_be(), &m.to_be()]);
    }
    // signature contents
    let v = cx.rng.bytes(b.modulus_len());
    let one = rcrypto::rsa::SignatureContent::from(v.as_slice());
    let mut two = one.clone();
    ensure!(one.as_slice() == &v[..] && two.as_slice() == &v[..], "clone:rsa-signature", "a signature of {} is cloned to {}", hx(&v), hx(two.as_slice()));
    two.as_mut_slice()[0] ^= 1;
    let three = one.clone();
    ensure!(one.as_slice() == &v[..] && two.as_slice() != &v[..], "clone:rsa-signature", "a change of the clone of {} leaves {} and {}", hx(&v), hx(one.as_slice()), hx(two.as_slice()));
    drop((one, two));
    ensure!(three.as_slice() == &v[..], "clone:rsa-signature", "a signature of {} is cloned to {}", hx(&v), hx(three.as_slice()));
    cx.ev(if primes > 2 { "RSA keys of several primes cloned" } else { "RSA keys cloned" });
    Ok(())
}
fn c37_dsa(cx: &mut Cx) -> R {
    let d = pick_dom(&mut cx.rng);
    if d.q.bits() < 24 {
        return Ok(());
    }
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let (dom, pk, sk) = (d.lib(), d.public(&y), d.private(&x));
    let shown = [format!("{}", dom), format!("{}", pk), format!("{}", sk)];
    let (a, b, c) = (dom.clone(), pk.clone(), sk.clone());
    drop((dom, pk, sk));
    let (a, b, c) = (a.clone(), b.clone(), c.clone());
    let now = [format!("{}", a), format!("{}", b), format!("{}", c)];
    ensure!(shown == now, "clone:dsa", "{:?} is cloned to {:?}", shown, now);
    let m = cx.rng.bytes(33);
    let (mut s, mut v) = match (DSA::new_uncheck(sha::SHA256::new(), Src::new(cx.rng.u64()), c.into()), DSA::new_uncheck(sha::SHA256::new(), Src::new(1), b.into())) {
        (Ok(s), Ok(v)) => (s, v),
        _ => return broken("clone:dsa", format!("cloned keys refused: {}", d.show())),
    };
    let mut sc = SignatureContent::new();
    if let Err(e) = s.sign(&mut sc, &m) {
        return broken("clone:dsa", format!("signing with a cloned key {}: {}", shown[2], e));
    }
    let (r, t) = numbers(&sc);
    ensure!(pk::dsa_verify(&d.p, &d.q, &d.g, &y, &sha256(&m), &r, &t) && v.verify(&sc, &m).is_ok(), "clone:dsa", "a signature with a clone of {} is wrong", shown[2]);
    cx.case(&[&d.p.to_be(), &x.to_be(), &m]);
    cx.ev("DSA keys cloned");
    Ok(())
}
fn curve_is<C: EllipticCurve + Clone + 'static>(cx: &mut Cx, i: usize, l: C) -> R {
    let c = model(i);
    let name = ec::NAMES[i];
    let a = l.clone();
    let _ = l.scalar_base_point(&nat(&Big::from_u64(5)));
    let b = l.clone();
    drop(l);
    let b = b.clone();
    for l in [&a, &b] {
        ensure!(l.curve_params().name() == c.name && l.curve_params().field_bits_size() == c.bits, "clone:curve", "{} is cloned to {}", name, l.curve_params().name());
        let (k, j) = (Big::random_below(&c.n, &mut cx.rng), Big::random_below(&c.n, &mut cx.rng));
        let (p, q) = (c.mul(&k, &c.g), c.mul(&j, &c.g));
        let ((x, y), (x2, y2)) = (ec::xy(&p), ec::xy(&q));
        let all = [
            (l.scalar_base_point(&nat(&k)), p.clone()),
            (l.scalar(&x, &y, &nat(&j)), c.mul(&j, &p)),
            (l.add(&x, &y, &x2, &y2), c.add(&p, &q)),
            (l.double(&x, &y), c.add(&p, &p)),
            (l.curve_params().clone().scalar_base_point(&nat(&j)), q.clone()),
        ];
        for (n, (got, want)) in all.iter().enumerate() {
            let w = ec::xy(want);
            ensure!((big(&got.0), big(&got.1)) == (big(&w.0), big(&w.1)), "clone:curve", "operation {} of the clone of {} with {} and {}", n, name, k.to_hex(), j.to_hex());
        }
        ensure!(l.is_on_curve(&x, &y) && (p == q || !l.is_on_curve(&x, &y2) || c.neg(&p) == q), "clone:curve", "membership in the clone of {}", name);
        cx.case(&[name.as_bytes(), &k.to_be(), &j.to_be()]);
    }
    // keys
    let mut src = Src::new(cx.rng.u64());
    let sk = match a.curve_params().generate_key(&mut src) {
        Ok(k) => k,
        Err(e) => return broken("clone:ec-key", format!("{}: {}", name, e)),
    };
    let shown = [format!("{}", sk), format!("{}", sk.public_key())];
    let two = sk.clone();
    let pk = sk.public_key().clone();
    drop(sk);
    let now = [format!("{}", two), format!("{}", pk)];
    ensure!(shown == now, "clone:ec-key", "{:?} is cloned to {:?}", shown, now);
    let m = cx.rng.bytes(20);
    let mut sc = SignatureContent::new();
    let (s, v) = (ECDSA::new_unchcek(sha::SHA256::new(), src, a.clone(), two.into()), ECDSA::new_unchcek(sha::SHA256::new(), Src::new(1), b, pk.into()));
    if let (Ok(mut s), Ok(mut v)) = (s, v) {
        ensure!(s.sign(&mut sc, &m).is_ok() && v.verify(&sc, &m).is_ok(), "clone:ec-key", "signature with a clone of {} on a clone of {}", shown[0], name);
        cx.ev("EC keys cloned");
    }
    let e = format!("curve {} cloned", name);
    cx.ev(&e);
    Ok(())
}
fn c37_ec(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 6;
    let no = |e: CryptoError| Broken { sig: "clone:ctor".into(), detail: format!("{}", e) };
    match i {
        4 => { let c = CurveP224::new().map_err(no)?; curve_is(cx, i, c) }
        5 => { let c = CurveP256::new().map_err(no)?; curve_is(cx, i, c) }
        _ => { let c: CurveParams = ec::params(i)?; curve_is(cx, i, c) }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        rule: "a case is one operation on one of several objects that were cloned from each other, compared with the model of that object alone; distinct (object, input, step) are counted",
        assumptions: &["whether the clone of a counter goes on or starts over is not judged"],
        require: &["clones", "histories of MD5", "histories of SHA3", "histories of HMAC", "histories of ZUCMac", "mode objects cloned", "mode objects dropped", "vectors changed in one object", "ECB after cloning", "CBC after cloning", "CFB after cloning", "OFB after cloning", "CTR after cloning", "counters cloned", "ciphers cloned", "RSA keys of several primes cloned", "RSA keys cloned", "DSA keys cloned", "EC keys cloned", "curve P-224 fast cloned", "curve P-256 fast cloned", "curve P-521 cloned"],
        jobs: vec![
            Job { name: "modes", quick: 200, thorough: 5000, run: c37_modes },
            Job { name: "ciphers", quick: 100, thorough: 2000, run: c37_ciphers },
            Job { name: "rsa", quick: 150, thorough: 3000, run: c37_rsa },
            Job { name: "dsa", quick: 60, thorough: 1000, run: c37_dsa },
            Job { name: "hash", quick: 4000, thorough: 48000, run: super::hash::c14_history },
            Job { name: "zuc", quick: 10000, thorough: 100000, run: super::zuc::c17_stream },
            Job { name: "zuc-cipher", quick: 20000, thorough: 200000, run: super::zuc::c17_cipher },
            Job { name: "ec", quick: 36, thorough: 400, run: c37_ec },
        ],
    }]
}
