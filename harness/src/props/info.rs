//! C35: what scheme, key and signature objects report about themselves.
use super::dsa::{content, numbers, pick_dom, unit};
use super::ec;
use super::rsa::{gen, Key};
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::hashes::*;
use crate::refs::keccak as rk;
use rcrypto::dsa::{KeyPair, SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::EllipticCurve;
use rcrypto::rsa::{SignatureContent as RsaContent, OAEP, PKCS1, PSS};
use rcrypto::{sha, sha3, Cipher, CryptoError, CryptoErrorKind, Digest, Signature, MD5, SHA, SM3};
use rmath::rand::Source;

type HashFn = fn(&[u8]) -> Vec<u8>;
/// an unused digest that computes the hash the scheme was built with, again after use
fn digest_is<H: Digest>(mut d: H, h: HashFn, hl: usize, what: &str, rng: &mut Rng) -> R {
    ensure!((d.bits_len() + 7) / 8 == hl, "info:digest", "{}: the reported digest has {} bits", what, d.bits_len());
    let idle = rng.bool();
    for round in 0..2 {
        let n = if idle { 0 } else { rng.below(300) };
        let m = rng.patterned(n);
        let mut out = vec![];
        if !idle {
            d.write(&m);
        }
        d.checksum(&mut out);
        ensure!(out == h(&m), "info:digest", "{}: the reported digest, use {}, gives {} for {}", what, round, hex(&out), hx(&m));
        d.reset();
    }
    Ok(())
}
/// the source where the scheme has left it: its next words are the ones that follow in the stream
fn source_is(mut s: Src, seed: u64, what: &str) -> R {
    let at = s.draws.get();
    let mut rng = Rng::new(seed);
    for _ in 0..at {
        rng.u32();
    }
    for i in 0..6 {
        let got = s.gen().ok();
        let want = rng.u32();
        ensure!(got == Some(want), "info:source", "{}: word {} of the reported source after {} words is {:?}", what, i, at, got);
    }
    // the counter is shared with the scheme's own copy
    s.draws.set(at);
    Ok(())
}
fn rsa_with<H: Digest + Clone + 'static>(cx: &mut Cx, scheme: usize, dg: H, h: HashFn, hl: usize, name: &str) -> R {
    let min = match scheme { 0 => 8 * (2 * hl + 2) + 1, 1 => 8 * (hl + 30), _ => 8 * (hl + 2) + 1 };
    let bits = min.max(100) + cx.rng.below(60);
    let k: Key = gen(bits, if cx.rng.chance(1, 5) { 3 } else { 2 }, cx.rng.u64())?;
    let kk = k.k();
    let public = cx.rng.chance(1, 3);
    let pair = || if public { k.public().map(|p| p.into()) } else { Ok(k.pair()) };
    let seed = cx.rng.u64();
    let shown = format!("{}", k.sk.public_key());
    let blind = cx.rng.bool();
    let what = format!("{} with {} {} bits public={} blind={}", ["OAEP", "PKCS1", "PSS"][scheme], name, bits, public, blind);
    let failed = |e: CryptoError, what: &str| -> Broken { Broken { sig: "info:refused".into(), detail: format!("{}: {}", what, e) } };
    let key_is = |now: String, len: usize, dl: usize| -> R {
        ensure!(now == shown, "info:key", "{}: public key {} instead of {}", what, now, shown);
        ensure!(len == kk && dl == hl, "info:lengths", "{}: modulus of {} bytes, digest of {}", what, len, dl);
        Ok(())
    };
    match scheme {
        0 => {
            let label = cx.rng.bytes(9);
            let mut o = OAEP::new_uncheck(dg, Src::new(seed), pair()?, label, blind).map_err(|e| failed(e, &what))?;
            for round in 0..4 {
                key_is(format!("{}", o.public_key()), o.modulus_len(), o.digest_len())?;
                digest_is(o.digest_func(), h, hl, &what, &mut cx.rng)?;
                source_is(o.rand_source(), seed, &what)?;
                ensure!(o.block_size().is_none(), "info:block", "{}: block size {:?}", what, o.block_size());
                let max = o.max_message_len();
                let mut c = vec![];
                let fits = o.encrypt(&mut c, &vec![7; max]);
                ensure!(fits.is_ok(), "info:max", "{}: {} bytes refused", what, max);
                for more in [1, 2, kk] {
                    let mut d = vec![];
                    ensure!(o.encrypt(&mut d, &vec![7; max + more]).is_err(), "info:max", "{}: {} bytes accepted with a maximum of {}", what, max + more, max);
                }
                let mut m = vec![];
                let r = o.decrypt(&mut m, &c);
                ensure!(r.is_ok() != public && (public || m == vec![7; max]), "info:direction", "{}: decryption {:?}", what, r.is_ok());
                if round == 2 {
                    o.set_label(vec![1; 70]);
                }
                cx.case(&[&k.n.to_be(), &[scheme as u8, round]]);
            }
            cx.ev("largest messages encrypted");
        }
        1 => {
            let mut o = PKCS1::new_uncheck(dg, Src::new(seed), pair()?, blind).map_err(|e| failed(e, &what))?;
            for round in 0..4u8 {
                key_is(format!("{}", o.public_key()), o.modulus_len(), o.digest_len())?;
                digest_is(o.digest_func(), h, hl, &what, &mut cx.rng)?;
                source_is(o.rand_source(), seed, &what)?;
                ensure!(o.block_size().is_none(), "info:block", "{}: block size {:?}", what, o.block_size());
                let max = o.encrypt_max_message_len();
                let mut c = vec![];
                ensure!(o.encrypt(&mut c, &vec![7; max]).is_ok(), "info:max", "{}: {} bytes refused", what, max);
                for more in [1, 2, kk] {
                    let mut d = vec![];
                    ensure!(o.encrypt(&mut d, &vec![7; max + more]).is_err(), "info:max", "{}: {} bytes accepted with a maximum of {}", what, max + more, max);
                }
                let n = cx.rng.below(200);
                let m = cx.rng.bytes(n);
                let mut sc = RsaContent::new();
                let r = o.sign(&mut sc, &m);
                ensure!(r.is_ok() != public, "info:direction", "{}: signing {:?}", what, r.is_ok());
                ensure!(m.len() <= o.sign_max_message_len(), "info:sign-max", "{}: {} bytes signed with a maximum of {}", what, m.len(), o.sign_max_message_len());
                if round % 2 == 1 {
                    let _ = o.verify(&sc, &m);
                }
                cx.case(&[&k.n.to_be(), &[scheme as u8, round]]);
            }
            cx.ev("largest messages encrypted");
        }
        _ => {
            let room = (bits - 1 + 7) / 8 - hl - 2;
            let (arg, slen) = match cx.rng.below(3) { 0 if room >= hl => (None, hl), 1 if room > 0 => { let s = cx.rng.range(1, room); (Some(s), s) } _ => (Some(0), room) };
            let mut o = PSS::new_uncheck(dg, Src::new(seed), pair()?, arg, blind).map_err(|e| failed(e, &what))?;
            for round in 0..4u8 {
                key_is(format!("{}", o.public_key()), o.modulus_len(), o.digest_len())?;
                digest_is(o.digest_func(), h, hl, &what, &mut cx.rng)?;
                source_is(o.rand_source(), seed, &what)?;
                ensure!(o.salt_len() == slen, "info:salt", "{}: salt of {} bytes for {:?}", what, o.salt_len(), arg);
                let n = cx.rng.below(200);
                let m = cx.rng.bytes(n);
                let mut sc = RsaContent::new();
                let r = o.sign(&mut sc, &m);
                ensure!(r.is_ok() != public, "info:direction", "{}: signing {:?}", what, r.is_ok());
                ensure!(m.len() <= o.max_message_len(), "info:sign-max", "{}: {} bytes signed with a maximum of {}", what, m.len(), o.max_message_len());
                if round % 2 == 1 {
                    let _ = o.verify(&sc, &m);
                }
                cx.case(&[&k.n.to_be(), &[scheme as u8, round]]);
            }
        }
    }
    cx.ev(["OAEP objects", "PKCS1 objects", "PSS objects"][scheme]);
    cx.ev(if public { "public keys only" } else { "private keys" });
    cx.sample(|| what.clone());
    Ok(())
}
fn c35_rsa(cx: &mut Cx) -> R {
    let scheme = cx.idx as usize % 3;
    match cx.rng.below(if scheme == 1 { 4 } else { 8 }) {
        0 => rsa_with(cx, scheme, MD5::new(), md5, 16, "MD5"),
        1 => rsa_with(cx, scheme, sha::SHA1::new(), sha1, 20, "SHA1"),
        2 => rsa_with(cx, scheme, sha::SHA224::new(), sha224, 28, "SHA224"),
        3 => rsa_with(cx, scheme, sha::SHA256::new(), sha256, 32, "SHA256"),
        4 => rsa_with(cx, scheme, SM3::new(), sm3, 32, "SM3"),
        5 => rsa_with(cx, scheme, sha3::SHA224::new(), rk::sha3_224, 28, "SHA3-224"),
        6 => rsa_with(cx, scheme, SHA::sha512_224(), sha512_224, 28, "SHA512/224"),
        _ => rsa_with(cx, scheme, sha::SHA512::new(), sha512, 64, "SHA512"),
    }
}
fn c35_dsa(cx: &mut Cx) -> R {
    let d = pick_dom(&mut cx.rng);
    let x = unit(&d.q, &mut cx.rng);
    let seed = cx.rng.u64();
    let public = cx.rng.chance(1, 3);
    let (sk, shown_dom) = (d.private(&x), format!("{}", d.lib()));
    let (shown_sk, shown_pk) = (format!("{}", sk), format!("{}", sk.public_key()));
    let what = format!("DSA {} x={} public={}", d.show(), x.to_hex(), public);
    let kp = if public { KeyPair::from(d.public(&d.g.powm(&x, &d.p))) } else { KeyPair::from(d.private(&x)) };
    let mut o = match DSA::new_uncheck(sha::SHA256::new(), Src::new(seed), kp) { Ok(o) => o, Err(e) => return broken("info:refused", format!("{}: {}", what, e)) };
    for round in 0..4u8 {
        let kp = o.key_pair();
        ensure!(format!("{}", kp.public_key()) == shown_pk, "info:key", "{}: public key {}", what, kp.public_key());
        for p in [format!("{}", kp.domain_parameters()), format!("{}", kp.public_key().domain_parameters()), format!("{}", sk.domain_parameters())] {
            ensure!(p == shown_dom, "info:domain", "{}: domain {}", what, p);
        }
        let now = kp.private_key().map(|k| format!("{}", k));
        ensure!(now == if public { None } else { Some(shown_sk.clone()) }, "info:private", "{}: private key {:?}", what, now);
        digest_is(o.digest_func(), sha256, 32, &what, &mut cx.rng)?;
        source_is(o.rand_source(), seed, &what)?;
        let m = cx.rng.bytes(round as usize * 50);
        let mut sc = SignatureContent::new();
        let r = o.sign(&mut sc, &m);
        ensure!(!(public && r.is_ok()), "info:direction", "{}: signing {:?}", what, r.is_ok());
        if round % 2 == 1 {
            let _ = o.verify(&sc, &m);
        }
        cx.case(&[&d.p.to_be(), &x.to_be(), &[round]]);
    }
    cx.ev("DSA objects");
    Ok(())
}
fn c35_ecdsa(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 6;
    let (l, c) = ec::curve(i)?;
    let d = Big::random_below(&c.n.sub(&Big::one()), &mut cx.rng).add(&Big::one());
    let sk = ec::private(&c, &d);
    let public = cx.rng.chance(1, 3);
    let seed = cx.rng.u64();
    let (shown_pk, shown_sk) = (format!("{}", sk.public_key()), format!("{}", sk));
    let (name, size) = (l.curve_params().name().to_string(), l.curve_params().field_bits_size());
    let what = format!("ECDSA {} ({}) d={} public={}", name, i, d.to_hex(), public);
    let kp = |public: bool| if public { rcrypto::elliptic::KeyPair::from(sk.public_key().clone()) } else { rcrypto::elliptic::KeyPair::from(sk.clone()) };
    for p in [true, false] {
        let k = kp(p);
        ensure!(format!("{}", k.public_key()) == shown_pk && k.private_key().map(|k| format!("{}", k)) == if p { None } else { Some(shown_sk.clone()) }, "info:private", "{}: pair {} {:?}", what, k.public_key(), k.private_key().is_some());
    }
    let mut o = match ECDSA::new_unchcek(sha::SHA384::new(), Src::new(seed), l, kp(public)) { Ok(o) => o, Err(e) => return broken("info:refused", format!("{}: {}", what, e)) };
    for round in 0..3u8 {
        ensure!(format!("{}", o.public_key()) == shown_pk, "info:key", "{}: public key {}", what, o.public_key());
        digest_is(o.digest_func(), sha384, 48, &what, &mut cx.rng)?;
        source_is(o.rand_source(), seed, &what)?;
        let cv = o.curve();
        ensure!(cv.curve_params().name() == name && cv.curve_params().field_bits_size() == size, "info:curve", "{}: curve {}", what, cv.curve_params().name());
        let k = Big::random_below(&c.n, &mut cx.rng);
        let (x, y) = cv.scalar_base_point(&nat(&k));
        ensure!((big(&x), big(&y)) == { let (a, b) = ec::xy(&c.mul(&k, &c.g)); (big(&a), big(&b)) }, "info:curve", "{}: the reported curve takes {} to another point", what, k.to_hex());
        let m = cx.rng.bytes(round as usize * 50);
        let mut sc = SignatureContent::new();
        let r = o.sign(&mut sc, &m);
        ensure!(r.is_ok() != public, "info:direction", "{}: signing {:?}", what, r.is_ok());
        let v = o.verify(&sc, &m);
        ensure!(v.is_ok() != public, "info:direction", "{}: verification {:?}", what, v.is_ok());
        cx.case(&[name.as_bytes(), &d.to_be(), &[round]]);
    }
    cx.ev("ECDSA objects");
    Ok(())
}
/// signature containers through any history of use
fn c35_content(cx: &mut Cx) -> R {
    let number = |rng: &mut Rng| -> Big {
        match rng.below(6) {
            0 => Big::zero(),
            1 => Big::from_u64(rng.below(300) as u64),
            2 => Big::one().shl(rng.below(600)),
            3 => Big::one().shl(8 * rng.range(1, 70)).sub(&Big::one()),
            _ => { let n = rng.range(1, 80); Big::from_be(&rng.bytes(n)) }
        }
    };
    let mut held = match cx.rng.below(2) { 0 => SignatureContent::new(), _ => SignatureContent::with_capacity(cx.rng.below(300)) };
    for _ in 0..12 {
        let (r, s) = (number(&mut cx.rng), number(&mut cx.rng));
        let fresh = content(&r, &s);
        held.set(bint(&r), bint(&s));
        for (c, how) in [(&fresh, "made"), (&held, "set")] {
            let got = numbers(c);
            ensure!(got == (r.clone(), s.clone()), "info:content", "signature {} from {} and {} holds {} and {}", how, r.to_hex(), s.to_hex(), got.0.to_hex(), got.1.to_hex());
        }
        let (a, b): (&Vec<u8>, &[u8]) = (held.as_ref(), held.as_ref());
        let f: &[u8] = fresh.as_ref();
        ensure!(a.as_slice() == b && b == f, "info:content-bytes", "signature bytes differ for {} and {}: {} {} {}", r.to_hex(), s.to_hex(), hex(a), hex(b), hex(f));
        if r.is_zero() || s.is_zero() {
            cx.ev("signatures with a zero");
        }
        cx.case(&[&r.to_be(), b"|", &s.to_be()]);
    }
    cx.ev("number pairs");
    let n = cx.rng.below(300);
    let bytes = cx.rng.patterned(n);
    let mut a = RsaContent::from(bytes.as_slice());
    let b = RsaContent::from(bytes.clone());
    let c = a.clone();
    ensure!(a.as_slice() == &bytes[..] && b.as_slice() == &bytes[..] && c.as_slice() == &bytes[..], "info:rsa-content", "{} bytes", n);
    let v: &Vec<u8> = a.as_ref();
    ensure!(v == &bytes, "info:rsa-content", "{} bytes", n);
    for x in a.as_mut_slice() {
        *x = !*x;
    }
    let w: &mut Vec<u8> = a.as_mut();
    w.push(1);
    let mut want: Vec<u8> = bytes.iter().map(|x| !x).collect();
    want.push(1);
    ensure!(a.as_slice() == &want[..] && c.as_slice() == &bytes[..], "info:rsa-content", "{} bytes after a change", n);
    let (e, f) = (RsaContent::new(), RsaContent::with_capacity(n));
    ensure!(e.as_slice().is_empty() && f.as_slice().is_empty(), "info:rsa-content", "new contents are not empty");
    cx.ev("byte contents");
    for (kind, text) in [(CryptoErrorKind::InvalidParameter, "a"), (CryptoErrorKind::NotSupportUsage, "b"), (CryptoErrorKind::RandError, "c"), (CryptoErrorKind::UnpaddingNotMatch, "d"), (CryptoErrorKind::InvalidPublicKey, "e"), (CryptoErrorKind::InvalidPrivateKey, "f"), (CryptoErrorKind::VerificationFailed, "g"), (CryptoErrorKind::OuterErr, "h"), (CryptoErrorKind::InnerErr, "i")] {
        let text = format!("{}{}", text, cx.rng.u32());
        let e = CryptoError::new(kind, text.clone());
        ensure!(e.kind() == kind && format!("{}", e).contains(&text), "info:error", "{:?} {} is reported as {:?} {}", kind, text, e.kind(), e);
    }
    cx.ev("errors");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        rule: "a case is one scheme object at one point of its history, or one pair of numbers stored in a signature; everything it reports is compared with what it was built from and with what its operations then accept",
        assumptions: &["keys and domains are compared in their printed form"],
        require: &["OAEP objects", "PKCS1 objects", "PSS objects", "DSA objects", "ECDSA objects", "largest messages encrypted", "public keys only", "private keys", "number pairs", "byte contents", "signatures with a zero", "errors"],
        jobs: vec![
            Job { name: "rsa", quick: 120, thorough: 2400, run: c35_rsa },
            Job { name: "dsa", quick: 60, thorough: 1200, run: c35_dsa },
            Job { name: "ecdsa", quick: 60, thorough: 1200, run: c35_ecdsa },
            Job { name: "content", quick: 800, thorough: 10000, run: c35_content },
        ],
    }]
}
