//! C36: what an error says about its cause.
use super::dsa::{content, numbers, pick_dom, unit};
use super::ec;
use super::rsa::{gen, Key};
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::hashes::*;
use crate::refs::pk;
use rcrypto::cipher_mode::{DefaultInitialVec, DefaultPadding, InitialVec, Padding};
use rcrypto::dsa::{KeyPair as Dk, SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::EllipticCurve;
use rcrypto::rsa::{PrivateKey, SignatureContent as RsaSig, OAEP, PKCS1, PSS};
use rcrypto::CryptoErrorKind::*;
use rcrypto::{sha, sha3, Cipher, CryptoError, CryptoErrorKind, Signature, AES, CMAC, MD5, SM3, SM4, ZUC};

/// notes the refusal and compares its kind
fn kind<T>(cx: &mut Cx, what: &str, r: Result<T, CryptoError>, want: CryptoErrorKind) -> R {
    match r {
        Ok(_) => broken(&format!("kind:accepted:{}", what), format!("{}: no error", what)),
        Err(e) => {
            ensure!(e.kind() == want, format!("kind:{}", what), "{}: {:?} instead of {:?} ({})", what, e.kind(), want, e);
            cx.ev(&format!("{}: {:?}", what, want));
            Ok(())
        }
    }
}
/// an operation whose source dies after so many words: done before that, or RandError
fn dying<T>(cx: &mut Cx, after: u64, what: &str, r: Result<T, CryptoError>) -> R {
    if after > 0 && r.is_ok() {
        cx.ev("done before the source died");
        return Ok(());
    }
    kind(cx, what, r, RandError)
}
fn good<T>(what: &str, r: Result<T, CryptoError>) -> Result<T, Broken> {
    r.map_err(|e| Broken { sig: format!("kind:refused:{}", what), detail: format!("{}: {}", what, e) })
}
fn other(m: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut m = m.to_vec();
    if m.is_empty() || rng.chance(1, 3) {
        m.push(rng.u8());
    } else {
        let i = rng.below(m.len());
        m[i] ^= 1 << rng.below(8);
    }
    m
}
fn c36_rsa(cx: &mut Cx) -> R {
    let hl = 16;
    let bits = cx.rng.range(400, 560);
    let k: Key = gen(bits, if cx.rng.chance(1, 5) { 3 } else { 2 }, cx.rng.u64())?;
    let kk = k.k();
    let blind = cx.rng.bool();
    let n = cx.rng.below(60);
    let m = cx.rng.bytes(n);
    let mut pk1 = good("pkcs1", PKCS1::new_uncheck(MD5::new(), Src::new(cx.rng.u64()), k.pair(), blind))?;
    let slen = 1 + cx.rng.below(20);
    let mut pss = good("pss", PSS::new_uncheck(MD5::new(), Src::new(cx.rng.u64()), k.pair(), Some(slen), blind))?;
    let oaep = good("oaep", OAEP::new_uncheck(MD5::new(), Src::new(cx.rng.u64()), k.pair(), vec![1, 2], blind))?;
    let (mut s1, mut s2) = (RsaSig::new(), RsaSig::new());
    good("pkcs1 sign", pk1.sign(&mut s1, &m))?;
    good("pss sign", pss.sign(&mut s2, &m))?;
    good("pkcs1 verify", pk1.verify(&s1, &m))?;
    good("pss verify", pss.verify(&s2, &m))?;
    // signatures that are none
    for _ in 0..12 {
        let (a, b) = (other(&m, &mut cx.rng), other(&m, &mut cx.rng));
        kind(cx, "PKCS1 signature of another message", pk1.verify(&s1, &a), VerificationFailed)?;
        kind(cx, "PSS signature of another message", pss.verify(&s2, &b), VerificationFailed)?;
        let bad = match cx.rng.below(6) {
            0 => vec![],
            1 => { let l = cx.rng.below(2 * kk + 2); cx.rng.bytes(l) }
            2 => k.n.to_be_n(kk),
            3 => vec![0xff; kk],
            4 => vec![0; kk],
            _ => Big::random_below(&k.n, &mut cx.rng).to_be_n(kk),
        };
        kind(cx, "PKCS1 signature of arbitrary bytes", pk1.verify(&RsaSig::from(bad.clone()), &m), VerificationFailed)?;
        kind(cx, "PSS signature of arbitrary bytes", pss.verify(&RsaSig::from(bad.clone()), &m), VerificationFailed)?;
        cx.case(&[&k.n.to_be(), &a, &bad]);
    }
    // blocks that decode to nothing: in range and of the right length
    for _ in 0..8 {
        let mut em = cx.rng.bytes(kk);
        em[0] = 0;
        match cx.rng.below(3) {
            0 => em[1] = 2,
            1 => { em[1] = 2; em[2 + cx.rng.below(8)] = 0 }
            _ => {}
        }
        let c = Big::from_be(&em).rem(&k.n).powm(&k.e, &k.n).to_be_n(kk);
        let em = Big::from_be(&em).rem(&k.n).to_be_n(kk);
        let mut out = vec![];
        if pk::pkcs1_dec(&em).is_none() {
            kind(cx, "PKCS1 ciphertext without meaning", pk1.decrypt(&mut out, &c), VerificationFailed)?;
        }
        if pk::oaep_decode(md5, hl, &[1, 2], &em).is_none() {
            kind(cx, "OAEP ciphertext without meaning", oaep.decrypt(&mut out, &c), VerificationFailed)?;
        }
        cx.case(&[&k.n.to_be(), &c]);
    }
    // too long a message
    let mut out = vec![];
    let more = vec![7; pk1.encrypt_max_message_len() + 1 + cx.rng.below(40)];
    kind(cx, "PKCS1 message too long", pk1.encrypt(&mut out, &more), InvalidParameter)?;
    let more = vec![7; oaep.max_message_len() + 1 + cx.rng.below(40)];
    kind(cx, "OAEP message too long", oaep.encrypt(&mut out, &more), InvalidParameter)?;
    let (mut cp, mut co) = (vec![], vec![]);
    good("pkcs1 encrypt", pk1.encrypt(&mut cp, b"m"))?;
    good("oaep encrypt", oaep.encrypt(&mut co, b"m"))?;
    // public key only
    let p = |cx: &mut Cx| (Src::new(cx.rng.u64()), k.public());
    let (s, q) = p(cx);
    let mut o = good("pkcs1", PKCS1::new_uncheck(MD5::new(), s, q?.into(), blind))?;
    let mut c = vec![];
    good("pkcs1 encrypt", o.encrypt(&mut c, b"m"))?;
    kind(cx, "PKCS1 decryption without private key", o.decrypt(&mut out, &c), InvalidPrivateKey)?;
    kind(cx, "PKCS1 signing without private key", o.sign(&mut s1, &m), InvalidPrivateKey)?;
    let (s, q) = p(cx);
    let mut o = good("pss", PSS::new_uncheck(MD5::new(), s, q?.into(), Some(slen), blind))?;
    kind(cx, "PSS signing without private key", o.sign(&mut s2, &m), InvalidPrivateKey)?;
    let (s, q) = p(cx);
    let o = good("oaep", OAEP::new_uncheck(MD5::new(), s, q?.into(), vec![], blind))?;
    good("oaep encrypt", o.encrypt(&mut c, b"m"))?;
    kind(cx, "OAEP decryption without private key", o.decrypt(&mut out, &c), InvalidPrivateKey)?;
    // numbers out of range
    let big_c = k.n.add(&Big::from_u64(1 + cx.rng.below(1000) as u64));
    kind(cx, "RSA number above the modulus", k.sk.decrypt(&bint(&big_c), None::<&mut Src>), InvalidParameter)?;
    // a source that dies
    for after in [0, cx.rng.below(4) as u64, cx.rng.below(200) as u64] {
        let dead = |cx: &mut Cx| Src::failing(cx.rng.u64(), after);
        let s = dead(cx);
        let mut o = good("pkcs1", PKCS1::new_uncheck(MD5::new(), s, k.pair(), true))?;
        let mut c1 = vec![];
        dying(cx, after, "PKCS1 encryption without randomness", o.encrypt(&mut c1, b"m"))?;
        dying(cx, after, "PKCS1 blinded signing without randomness", o.sign(&mut s1, b"m"))?;
        let s = dead(cx);
        let o = good("pkcs1", PKCS1::new_uncheck(MD5::new(), s, k.pair(), true))?;
        let mut out = vec![];
        dying(cx, after, "PKCS1 blinded decryption without randomness", o.decrypt(&mut out, &cp))?;
        let s = dead(cx);
        let o = good("oaep", OAEP::new_uncheck(MD5::new(), s, k.pair(), vec![1, 2], true))?;
        dying(cx, after, "OAEP blinded decryption without randomness", o.decrypt(&mut out, &co))?;
        let s = dead(cx);
        let mut o = good("pss", PSS::new_uncheck(MD5::new(), s, k.pair(), Some(slen), cx.rng.bool()))?;
        dying(cx, after, "PSS signing without randomness", o.sign(&mut s2, b"m"))?;
        let mut s = dead(cx);
        dying(cx, after, "RSA key without randomness", PrivateKey::generate_key(bits, 10, &mut s))?;
        let mut s = dead(cx);
        dying(cx, after, "RSA number decrypted without randomness", k.sk.decrypt(&bint(&Big::from_u64(77)), Some(&mut s)))?;
        let mut s = dead(cx);
        dying(cx, after, "RSA number decrypted and checked without randomness", k.sk.decrypt_and_check(&bint(&Big::from_u64(77)), Some(&mut s)))?;
    }
    // schemes the key or digest is not good for
    let r = PKCS1::new(SM3::new(), Src::new(1), k.pair(), blind).and_then(|mut o| o.sign(&mut s1, &m));
    kind(cx, "PKCS1 signing with SM3", r, NotSupportUsage)?;
    let r = PKCS1::new(sha3::SHA256::new(), Src::new(1), k.pair(), blind).and_then(|mut o| o.verify(&s1, &m));
    kind(cx, "PKCS1 verification with SHA-3", r, NotSupportUsage)?;
    kind(cx, "OAEP with too short a key", OAEP::new_uncheck(sha::SHA512::new(), Src::new(1), k.pair(), vec![], blind), InvalidParameter)?;
    kind(cx, "PSS with too short a key", PSS::new_uncheck(sha::SHA512::new(), Src::new(1), k.pair(), Some(10), blind), InvalidParameter)?;
    cx.case(&[&k.n.to_be(), &m]);
    cx.sample(|| format!("RSA {} bits, message of {} bytes, blinding {}", bits, m.len(), blind));
    Ok(())
}
fn c36_dsa(cx: &mut Cx) -> R {
    let d = loop {
        let d = pick_dom(&mut cx.rng);
        if d.q.bits() >= 64 {
            break d;
        }
    };
    let x = unit(&d.q, &mut cx.rng);
    let mut o = good("dsa", DSA::new_uncheck(sha::SHA256::new(), Src::new(cx.rng.u64()), Dk::from(d.private(&x))))?;
    let n = cx.rng.below(60);
    let m = cx.rng.bytes(n);
    let mut s = SignatureContent::new();
    good("dsa sign", o.sign(&mut s, &m))?;
    good("dsa verify", o.verify(&s, &m))?;
    let (r0, s0) = numbers(&s);
    for i in 0..8 {
        let a = other(&m, &mut cx.rng);
        kind(cx, "DSA signature of another message", o.verify(&s, &a), VerificationFailed)?;
        let bad = match i {
            0 => content(&Big::zero(), &s0),
            1 => content(&r0, &Big::zero()),
            2 => content(&d.q, &s0),
            3 => content(&r0, &d.q),
            4 => content(&r0.add(&d.q), &s0),
            5 => content(&r0, &s0.add(&d.q)),
            6 => SignatureContent::new(),
            _ => { let (a, b) = (unit(&d.q, &mut cx.rng), unit(&d.q, &mut cx.rng)); content(&a, &b) }
        };
        kind(cx, "DSA signature of arbitrary numbers", o.verify(&bad, &m), VerificationFailed)?;
        cx.case(&[&d.q.to_be(), &a, &[i]]);
    }
    let mut o = good("dsa", DSA::new_uncheck(sha::SHA256::new(), Src::new(1), Dk::from(d.public(&d.g.powm(&x, &d.p)))))?;
    kind(cx, "DSA signing without private key", o.sign(&mut s, &m), InvalidPrivateKey)?;
    for after in [0, cx.rng.below(10) as u64] {
        let mut o = good("dsa", DSA::new_uncheck(sha::SHA256::new(), Src::failing(1, after), Dk::from(d.private(&x))))?;
        dying(cx, after, "DSA signing without randomness", o.sign(&mut s, &m))?;
        let mut s = Src::failing(1, after);
        let r = match cx.rng.below(4) {
            0 => DSA::<sha::SHA1, Src>::l1024_n160(&mut s),
            1 => DSA::<sha::SHA1, Src>::l2048_n224(&mut s),
            2 => DSA::<sha::SHA1, Src>::l2048_n256(&mut s),
            _ => DSA::<sha::SHA1, Src>::l3072_n256(&mut s),
        };
        kind(cx, "DSA domain without randomness", r, RandError)?;
    }
    Ok(())
}
fn c36_ecdsa(cx: &mut Cx) -> R {
    let i = cx.idx as usize % 6;
    let (l, c) = ec::curve(i)?;
    let d = unit(&c.n, &mut cx.rng);
    let sk = ec::private(&c, &d);
    let mut o = good("ecdsa", ECDSA::new_unchcek(sha::SHA256::new(), Src::new(cx.rng.u64()), l.clone(), sk.clone().into()))?;
    let n = cx.rng.below(60);
    let m = cx.rng.bytes(n);
    let mut s = SignatureContent::new();
    good("ecdsa sign", o.sign(&mut s, &m))?;
    good("ecdsa verify", o.verify(&s, &m))?;
    let (r0, s0) = numbers(&s);
    for i in 0..8 {
        let bad = match i {
            0 => content(&Big::zero(), &s0),
            1 => content(&r0, &Big::zero()),
            2 => content(&c.n, &s0),
            3 => content(&r0, &c.n),
            4 => content(&r0.add(&c.n), &s0),
            5 => content(&r0, &s0.add(&c.n)),
            6 => SignatureContent::new(),
            _ => { let (a, b) = (unit(&c.n, &mut cx.rng), unit(&c.n, &mut cx.rng)); content(&a, &b) }
        };
        kind(cx, "ECDSA signature of arbitrary numbers", o.verify(&bad, &m), VerificationFailed)?;
        cx.case(&[c.name.as_bytes(), &d.to_be(), &m, &[i]]);
    }
    let a = other(&m, &mut cx.rng);
    kind(cx, "ECDSA signature of another message", o.verify(&s, &a), VerificationFailed)?;
    let mut o = good("ecdsa", ECDSA::new_unchcek(sha::SHA256::new(), Src::new(1), l.clone(), sk.public_key().clone().into()))?;
    kind(cx, "ECDSA signing without private key", o.sign(&mut s, &m), InvalidPrivateKey)?;
    for after in [0, cx.rng.below(10) as u64, cx.rng.below(20) as u64] {
        let mut o = good("ecdsa", ECDSA::new_unchcek(sha::SHA256::new(), Src::failing(1, after), l.clone(), sk.clone().into()))?;
        dying(cx, after, "ECDSA signing without randomness", o.sign(&mut s, &m))?;
        dying(cx, after, "elliptic key without randomness", l.curve_params().generate_key(&mut Src::failing(2, after)))?;
    }
    Ok(())
}
fn c36_sym(cx: &mut Cx) -> R {
    for l in 0..=70usize {
        let k = cx.rng.bytes(l);
        if l != 16 && l != 24 && l != 32 {
            kind(cx, "AES key length", AES::new(k.clone()), InvalidParameter)?;
        }
        if l != 16 {
            kind(cx, "SM4 key length", SM4::from_slice(&k), InvalidParameter)?;
            kind(cx, "ZUC key length", ZUC::from_slice(&k, &[0; 16]), InvalidParameter)?;
            kind(cx, "ZUC vector length", ZUC::from_slice(&[0; 16], &k), InvalidParameter)?;
            kind(cx, "ZUC cipher key length", rcrypto::ZUCCipher::from_slice(1, 2, true, &k), InvalidParameter)?;
            kind(cx, "ZUC MAC key length", rcrypto::ZUCMac::from_slice(1, 2, true, &k), InvalidParameter)?;
        }
        for name in ["AES128", "DES", "TDES", "SM4"] {
            let p = pair(name, &mut cx.rng);
            if l != p.r.bs() {
                let mut d = vec![];
                kind(cx, "block length", p.c.encrypt(&mut d, &k), InvalidParameter)?;
                kind(cx, "block length", p.c.decrypt(&mut d, &k), InvalidParameter)?;
            }
            // no marker in the last block
            let pad = DefaultPadding::new(&p.c);
            let mut b = k.clone();
            if b.iter().rev().take(p.r.bs()).find(|x| **x != 0) != Some(&0x80) {
                kind(cx, "padding without a marker", pad.unpadding(&mut b), UnpaddingNotMatch)?;
            }
            let mut g = DefaultInitialVec::new(&p.c, Src::failing(1, 0));
            let mut iv = vec![];
            kind(cx, "initial vector without randomness", InitialVec::<AnyC>::initial_vec(&mut g, &mut iv), RandError)?;
        }
        cx.case(&[&k]);
    }
    let bs = *cx.rng.pick(&[1usize, 3, 5, 7, 9, 15, 17, 100]);
    let p = pair(&format!("TOY{}", bs), &mut cx.rng);
    kind(cx, "CMAC block size", CMAC::new(p.c), InvalidParameter)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        rule: "a case is one refused operation with its input; the kind of the error is compared with the cause that was arranged",
        assumptions: &["an operation refused for one arranged cause has no other cause to be refused"],
        require: &["PKCS1 signature of another message: VerificationFailed", "PSS signature of arbitrary bytes: VerificationFailed", "DSA signature of arbitrary numbers: VerificationFailed", "ECDSA signature of arbitrary numbers: VerificationFailed", "OAEP ciphertext without meaning: VerificationFailed", "PKCS1 ciphertext without meaning: VerificationFailed", "DSA signing without private key: InvalidPrivateKey", "ECDSA signing without randomness: RandError", "padding without a marker: UnpaddingNotMatch", "PKCS1 signing with SM3: NotSupportUsage", "block length: InvalidParameter"],
        jobs: vec![
            Job { name: "rsa", quick: 120, thorough: 2400, run: c36_rsa },
            Job { name: "dsa", quick: 100, thorough: 2000, run: c36_dsa },
            Job { name: "ecdsa", quick: 90, thorough: 1800, run: c36_ecdsa },
            Job { name: "sym", quick: 60, thorough: 1200, run: c36_sym },
        ],
    }]
}
