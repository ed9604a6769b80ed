//! C34: arbitrary input. Nothing is compared with a model here; the runs must end without a panic
//! and leave the same transcript in every build. The same runs are C33's workload under Miri.
use super::dsa::{content, pick_dom, unit};
use super::ec::{curve, model, xy, NAMES};
use super::hash::{classic, third};
use super::modes::{AnyPad, Setup};
use super::rsa::gen;
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use rcrypto::cipher_mode::*;
use rcrypto::dsa::{DomainParameters, KeyPair as DsaPair, PrivateKey as DsaPrivate, PublicKey as DsaPublic, SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{EllipticCurve, KeyPair as EcPair, PrivateKey as EcPrivate, PublicKey as EcPublic};
use rcrypto::rsa::{PublicKey, SignatureContent as RsaSig, OAEP, PKCS1, PSS};
use rcrypto::{sha, sha3, Cipher, CryptoError, Digest, DigestXOF, Keccak, Signature, ZUCCipher, ZUCMac, CMAC, HMAC, MD5, SM3, SM4, ZUC};
use rmath::bigint::{BigInt, Nat};

/// interpreted runs do less
fn n(full: usize, light: usize) -> usize {
    if cfg!(miri) { light } else { full }
}
/// in an allocation of exactly its size
fn tight(v: Vec<u8>) -> Box<[u8]> {
    v.into_boxed_slice()
}
fn note<T, E>(cx: &mut Cx, what: &str, r: &Result<T, E>, out: &[u8]) {
    cx.note(&[what.as_bytes(), &[r.is_ok() as u8], if r.is_ok() { out } else { &[] }]);
    cx.ev(&format!("{} {}", what, if r.is_ok() { "answered" } else { "refused" }));
}
fn h_block(cx: &mut Cx) -> R {
    for _ in 0..n(40, 1) {
        let name = CIPHERS[if cfg!(miri) { cx.idx } else { cx.rng.below(64) } % CIPHERS.len()];
        let p = pair(name, &mut cx.rng);
        let bs = p.r.bs();
        for k in 0..n(12, 6) {
            let l = match k { 0 | 1 => bs, 2 => bs - 1, 3 => bs + 1, 4 => 0, _ => cx.rng.below(3 * bs) };
            let d = tight(cx.rng.patterned(l));
            let c = cx.rng.below(40);
            let mut out = cx.rng.bytes(c);
            out.shrink_to_fit();
            let r = if k % 2 == 0 { p.c.encrypt(&mut out, &d) } else { p.c.decrypt(&mut out, &d) };
            note(cx, "block", &r, &out);
            cx.case(&[&p.key, &d]);
        }
        let l = *cx.rng.pick(&[0usize, 1, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64]);
        let key = cx.rng.bytes(l);
        let r = rcrypto::AES::new(key.clone());
        note(cx, "AES key", &r, &[]);
        let r = SM4::from_slice(&tight(key.clone()));
        note(cx, "SM4 key", &r, &[]);
        let r = ZUC::from_slice(&tight(key.clone()), &tight(cx.rng.bytes(16)));
        note(cx, "ZUC key", &r, &[]);
        cx.sample(|| format!("{} with key {}", name, hex(&p.key)));
    }
    Ok(())
}
fn h_modes(cx: &mut Cx) -> R {
    for _ in 0..n(30, 1) {
        let p = if cfg!(miri) {
            let name = ["AES128", "TDES", "SM4", "TOY3", "AES192"][cx.idx % 5];
            pair(name, &mut cx.rng)
        } else {
            any_pair(&mut cx.rng)
        };
        let s = Setup::with(p, &mut cx.rng);
        let bs = s.bs();
        let o = s.one()?;
        for k in 0..n(6, 2) {
            let l = if k % 2 == 0 { bs * cx.rng.below(4) } else { cx.rng.below(4 * bs) };
            let d = tight(cx.rng.patterned(l));
            let mut out = vec![1, 2, 3];
            let r = if cx.rng.bool() { o.encrypt(&mut out, &d) } else { o.decrypt(&mut out, &d) };
            note(cx, "mode", &r, &out);
            cx.case(&[s.describe().as_bytes(), &d]);
        }
        let mut st = s.stream(cx.rng.bool())?;
        for _ in 0..n(12, 5) {
            let c = cx.rng.below(2 * bs + 2);
            let d = tight(cx.rng.patterned(c));
            let mut out = vec![];
            let ok = match cx.rng.below(8) {
                0 => st.finish().map(|p| p.draw_off(&mut out)).is_ok(),
                1 => {
                    st.reset();
                    true
                }
                2 => st.one(&mut out, &d).is_ok(),
                3 => st.write(&d).map(drop).is_ok(),
                _ => st.write(&d).map(|p| p.draw_off(&mut out)).is_ok(),
            };
            note(cx, "stream", &if ok { Ok(()) } else { Err(()) }, &out);
            cx.case(&[s.describe().as_bytes(), &d, b"stream"]);
        }
        // parameters
        let l = cx.rng.below(3 * bs);
        let odd = cx.rng.bytes(l);
        let c = s.p.c.clone();
        let pad = || AnyPad::Def(DefaultPadding::new(&c));
        let seg = cx.rng.below(9 * bs + 9);
        let r = CFB::new(c.clone(), pad(), Ivs::one(&odd), seg);
        note(cx, "CFB parameters", &r, &[]);
        if let Ok(mut m) = CFB::new(c.clone(), pad(), Ivs::one(&s.iv), bs * 8) {
            let r = m.set_iv(odd.clone());
            let iv = m.cur_iv();
            note(cx, "CFB vector", &r, &iv);
            let mut out = vec![];
            let r = m.encrypt(&mut out, &odd);
            note(cx, "mode", &r, &out);
        }
        if let Ok(mut m) = CBC::new(c.clone(), pad(), Ivs { list: vec![Some(s.iv.clone()), None, Some(odd.clone())], at: 0, dirty: true }) {
            for _ in 0..3 {
                let ok = m.update_iv().is_ok();
                let iv = m.cur_iv();
                note(cx, "CBC vector", &if ok { Ok(()) } else { Err(()) }, &iv);
            }
            let r = m.set_iv(odd.clone());
            note(cx, "CBC vector", &r, &m.cur_iv());
            let mut out = vec![];
            let r = m.decrypt(&mut out, &odd);
            note(cx, "mode", &r, &out);
        }
        if let Ok(mut m) = OFB::new(c.clone(), Ivs::one(&s.iv)) {
            let r = m.set_iv(odd.clone());
            note(cx, "OFB vector", &r, &m.cur_iv());
        }
        let bits = match cx.rng.below(4) { 0 => bs * 8, 1 => cx.rng.below(300), 2 => usize::MAX - cx.rng.below(9), _ => 0 };
        let huge = bits > 1 << 20;
        if !huge {
            let r = DefaultCounter::new(odd.clone(), bits);
            note(cx, "counter parameters", &r, &[]);
            if let Ok(k) = r {
                let r = CTR::new(c.clone(), k);
                note(cx, "CTR parameters", &r, &[]);
                if let Ok(m) = r {
                    let mut out = vec![];
                    let r = m.encrypt(&mut out, &odd);
                    note(cx, "mode", &r, &out);
                }
            }
        }
        let p = if cx.rng.bool() { pad() } else { AnyPad::Emp(EmptyPadding::new()) };
        let mut buf = cx.rng.patterned(l);
        let r = p.unpadding(&mut buf);
        note(cx, "padding removal", &r, &buf);
        p.padding(&mut buf);
        cx.note(&[&buf]);
        cx.sample(|| s.describe());
    }
    Ok(())
}
fn drive(cx: &mut Cx, d: &mut dyn Digest, what: &str) {
    for _ in 0..n(10, 4) {
        let mut out = vec![];
        match cx.rng.below(6) {
            1 => d.reset(),
            2 => d.checksum(&mut out),
            _ => {
                let l = cx.rng.below(n(300, 90));
                let m = tight(cx.rng.patterned(l));
                d.write(&m);
                cx.case(&[what.as_bytes(), &m]);
            }
        }
        cx.note(&[&out, &(d.bits_len() as u64).to_le_bytes()]);
    }
    let mut out = vec![9; 3];
    d.checksum(&mut out);
    cx.note(&[&out]);
    cx.ev(&format!("{} driven", what));
}
/// a short history of one hash or MAC, for the interpreter
fn light_hash(cx: &mut Cx) -> R {
    let run = |d: &mut dyn Digest, cx: &mut Cx| {
        let m = tight(cx.rng.bytes(if cx.idx % 2 == 0 { 70 } else { 3 }));
        let mut out = vec![1, 2];
        d.write(&m);
        d.checksum(&mut out);
        d.reset();
        d.write(&[]);
        cx.case(&[&m, &out]);
    };
    match cx.idx % 28 {
        i @ 0..=15 => run(classic(i).obj.d(), cx),
        i @ 16..=23 => run(third(i).obj.d(), cx),
        24 | 25 => {
            if let Ok(mut m) = HMAC::new(vec![7; if cx.idx % 28 == 24 { 3 } else { 80 }], MD5::new()) {
                run(&mut m, cx);
            }
        }
        26 => {
            if let Ok(mut m) = CMAC::new(pair("AES128", &mut cx.rng).c) {
                run(&mut m, cx);
            }
        }
        _ => run(&mut sha3::Shake128::new(77), cx),
    }
    Ok(())
}
/// the schemes on keys that are cheap to make, for the interpreter
fn light_rsa(cx: &mut Cx) -> R {
    let mut nb = cx.rng.bytes(36);
    nb[0] |= 0x80;
    nb[35] |= 1;
    let m = tight(cx.rng.bytes(1));
    let mut out = vec![];
    if cx.idx % 2 == 0 {
        let pk = match PublicKey::from_be_bytes(&nb, &[3]) { Ok(p) => p, Err(_) => return broken("hostile:rsa-public", hex(&nb)) };
        if let Ok(mut o) = OAEP::new_uncheck(MD5::new(), Src::new(1), pk.clone().into(), vec![1], true) {
            let r = o.encrypt(&mut out, &m);
            note(cx, "OAEP encryption", &r, &out);
            o.set_label(vec![2, 3]);
            let r = o.decrypt(&mut vec![], &out);
            note(cx, "OAEP decryption", &r, &[]);
        }
        if let Ok(mut o) = PKCS1::new_uncheck(MD5::new(), Src::new(1), pk.clone().into(), true) {
            let r = o.encrypt(&mut out, &m);
            note(cx, "PKCS1 encryption", &r, &out);
            let r = o.decrypt(&mut vec![], &out);
            note(cx, "PKCS1 decryption", &r, &[]);
            let mut s = RsaSig::new();
            AsMut::<Vec<u8>>::as_mut(&mut s).extend_from_slice(&out);
            let r = o.verify(&s, &m);
            note(cx, "PKCS1 verification", &r, &[]);
        }
        if let Ok(mut o) = PSS::new_uncheck(MD5::new(), Src::new(1), pk.into(), None, true) {
            let mut s = RsaSig::new();
            AsMut::<Vec<u8>>::as_mut(&mut s).extend_from_slice(&out);
            let r = o.verify(&s, &m);
            note(cx, "PSS verification", &r, &[]);
        }
    } else {
        let sk = match rcrypto::rsa::PrivateKey::generate_key(88, 1, &mut Src::new(cx.rng.u64())) { Ok(k) => k, Err(_) => return broken("hostile:rsa-key", String::new()) };
        let k = super::rsa::Key::read(sk);
        if let Ok(o) = PKCS1::new_uncheck(MD5::new(), Src::new(1), k.pair(), true) {
            let r = o.encrypt(&mut out, &m);
            note(cx, "PKCS1 encryption", &r, &out);
            let mut back = vec![];
            let r = o.decrypt(&mut back, &out);
            note(cx, "PKCS1 decryption", &r, &back);
        }
        if let Ok(o) = OAEP::new_uncheck(MD5::new(), Src::new(1), k.pair(), vec![1], false) {
            let r = o.decrypt(&mut vec![], &out);
            note(cx, "OAEP decryption", &r, &[]);
        }
    }
    cx.case(&[&nb, &m]);
    Ok(())
}
fn h_hash(cx: &mut Cx) -> R {
    if cfg!(miri) {
        return light_hash(cx);
    }
    for k in 0..n(12, 1) {
        let i = cx.idx * 12 + k;
        let mut a = if i % 3 < 2 { classic(cx.rng.below(16)) } else { third(cx.rng.below(8)) };
        let name = a.name.clone();
        drive(cx, a.obj.d(), "hash");
        if let Some(mut b) = a.obj.cl() {
            drive(cx, b.d(), "hash clone");
        }
        let r = sha::SHA512T::new(if cx.rng.bool() { cx.rng.below(600) } else { cx.rng.u64() as usize });
        cx.note(&[&[r.is_some() as u8]]);
        if let Some(mut t) = r {
            drive(cx, &mut t, "SHA-512/t");
        }
        let l = cx.rng.below(300);
        let key = cx.rng.bytes(l);
        macro_rules! hm {
            ($h:expr) => {{
                let r = HMAC::new(key.clone(), $h);
                note(cx, "HMAC key", &r, &[]);
                if let Ok(mut m) = r {
                    drive(cx, &mut m, "HMAC");
                    drive(cx, &mut m.clone(), "HMAC clone");
                }
            }};
        }
        match cx.rng.below(3) {
            0 => hm!(SM3::new()),
            1 => hm!(sha3::SHA256::new()),
            _ => hm!(MD5::new()),
        }
        let p = any_pair(&mut cx.rng);
        let r = CMAC::new(p.c.clone());
        note(cx, "CMAC cipher", &r, &[]);
        if let Ok(mut m) = r {
            drive(cx, &mut m, "CMAC");
        }
        let want = if cx.rng.bool() { cx.rng.below(600) } else { 0 };
        let mut s = sha3::Shake128::new(want);
        drive(cx, &mut s, "SHAKE");
        let (b, nr) = (*cx.rng.pick(&[25usize, 50, 100, 200, 400, 800, 1600, 0, 24, 1601, usize::MAX]), *cx.rng.pick(&[0u32, 1, 12, 24, 30]));
        let r = Keccak::new(b, nr);
        note(cx, "Keccak parameters", &r, &[]);
        if let Ok(kk) = r {
            let rate = if cx.rng.bool() { cx.rng.below(b + 9) } else { 8 * cx.rng.below(b / 8 + 2) };
            let r = kk.sponge(rate);
            note(cx, "sponge rate", &r, &[]);
            if let Ok(mut s) = r {
                let l = cx.rng.below(n(100, 20));
                let m = tight(cx.rng.patterned(l));
                let bits = if l > 0 { 8 * l - cx.rng.below(8) } else { 0 };
                let want = cx.rng.below(n(800, 60));
                let mut out = vec![];
                s.sponge(&m, bits, want, &mut out);
                cx.note(&[&out]);
            }
            let mut kk = kk;
            let l = cx.rng.below(220);
            let m = tight(cx.rng.bytes(l));
            let mut out = vec![];
            let r = kk.permutation(&m, &mut out);
            note(cx, "Keccak block", &r, &out);
        }
        cx.sample(|| name.clone());
    }
    Ok(())
}
fn h_zuc(cx: &mut Cx) -> R {
    for _ in 0..n(20, 1) {
        let l = if cx.rng.chance(3, 4) { 16 } else { cx.rng.below(40) };
        let ck = tight(cx.rng.bytes(l));
        let (count, bearer, dir) = (cx.rng.u32(), cx.rng.u8(), cx.rng.bool());
        let r = ZUCCipher::from_slice(count, bearer, dir, &ck);
        note(cx, "EEA3 key", &r, &[]);
        if let Ok(mut c) = r {
            for _ in 0..n(8, 4) {
                let l = cx.rng.below(40);
                let d = tight(cx.rng.patterned(l));
                let mut out = vec![5; cx.rng.below(20)];
                match cx.rng.below(6) {
                    0 => c.reset(),
                    1 => c = c.clone(),
                    2 => {
                        let r = c.decrypt(&mut out, &d);
                        note(cx, "EEA3", &r, &out);
                    }
                    _ => {
                        let r = c.encrypt(&mut out, &d);
                        note(cx, "EEA3", &r, &out);
                    }
                }
                cx.case(&[&ck, &d]);
            }
        }
        let r = ZUCMac::from_slice(count, bearer, dir, &ck);
        note(cx, "EIA3 key", &r, &[]);
        if let Ok(mut m) = r {
            drive(cx, &mut m, "EIA3");
        }
        cx.sample(|| format!("key {} count {:08x}", hex(&ck), count));
    }
    Ok(())
}
/// any integer a caller can build
fn wild(cx: &mut Cx, near: &[Big]) -> BigInt {
    let v = match cx.rng.below(10) {
        0 => Big::from_u64(cx.rng.below(4) as u64),
        1 => {
            let l = cx.rng.below(120);
            Big::from_be(&cx.rng.patterned(l))
        }
        2 => Big::one().shl(cx.rng.below(700)),
        3 => Big::one().shl(32 * cx.rng.range(1, 20)).sub(&Big::one()),
        4 | 5 => {
            let a = cx.rng.pick(near).clone();
            a.add(&Big::from_u64(cx.rng.below(3) as u64))
        }
        6 => {
            let a = cx.rng.pick(near).clone();
            if a.is_zero() { a } else { a.sub(&Big::one()) }
        }
        _ => {
            let a = cx.rng.pick(near).add(&Big::one());
            Big::random_below(&a, &mut cx.rng)
        }
    };
    cx.case(&[&v.to_be(), b"integer"]);
    let mut b = bint(&v);
    if cx.rng.chance(1, 40) {
        return BigInt::from(Nat::from_be_bytes(&[]));
    }
    if cx.rng.chance(1, 12) {
        b = BigInt::from(0u32) - b;
    }
    b
}
fn shown(b: &BigInt) -> Vec<u8> {
    if b.is_nan() { b"nan".to_vec() } else { [&[is_neg(b) as u8][..], &big(b).to_be()].concat() }
}
fn h_rsa(cx: &mut Cx) -> R {
    if cfg!(miri) {
        return light_rsa(cx);
    }
    for _ in 0..n(2, 1) {
        let (l, e) = (cx.rng.below(50), cx.rng.below(9));
        let (nb, eb) = (tight(cx.rng.patterned(l)), tight(cx.rng.patterned(e)));
        let r = if cx.rng.bool() { PublicKey::from_be_bytes(&nb, &eb) } else { PublicKey::from_le_bytes(&nb, &eb) };
        note(cx, "RSA public key", &r, &[]);
        if let Ok(pk) = r {
            let near = [Big::from_be(&nb)];
            for _ in 0..n(4, 1) {
                let m = wild(cx, &near);
                let r = pk.encrypt(&m);
                cx.note(&[&shown(&r)]);
                cx.ev("arbitrary RSA encryptions");
            }
        }
        let bits = cx.rng.range(280, 560);
        let k = gen(bits, if cx.rng.bool() { 2 } else { 3 }, cx.rng.u64())?;
        let near = [k.n.clone(), k.d.clone(), k.e.clone(), k.n.shl(40)];
        for j in 0..n(6, 2) {
            let c = wild(cx, &near);
            let mut src = Src::new(cx.rng.u64());
            let r = match j % 3 { 0 => k.sk.decrypt(&c, None::<&mut Src>), 1 => k.sk.decrypt(&c, Some(&mut src)), _ => k.sk.decrypt_and_check(&c, Some(&mut src)) };
            note(cx, "RSA decryption", &r, &r.as_ref().map(|b| shown(b)).unwrap_or_default());
        }
        let kk = k.k();
        let oaep = OAEP::new_uncheck(MD5::new(), Src::new(1), k.pair(), vec![], cx.rng.bool());
        let pkcs = PKCS1::new_uncheck(MD5::new(), Src::new(2), k.pair(), cx.rng.bool());
        let salt = if cx.rng.bool() { Some(cx.rng.below(kk + 4)) } else { None };
        let pss = PSS::new_uncheck(MD5::new(), Src::new(3), k.pair(), salt, cx.rng.bool());
        note(cx, "PSS parameters", &pss, &[]);
        let (oaep, mut pkcs) = match (oaep, pkcs) { (Ok(a), Ok(b)) => (a, b), _ => continue };
        let mut pss = pss.ok();
        for j in 0..n(8, 2) {
            // ciphertexts and signatures: any bytes, encodings gone wrong, own ones damaged
            let c = match j % 4 {
                0 => {
                    let l = cx.rng.below(2 * kk);
                    cx.rng.patterned(l)
                }
                1 => Big::random_below(&k.n, &mut cx.rng).to_be_n(kk),
                2 => {
                    // a well-chosen plaintext block, encrypted
                    let mut em = cx.rng.bytes(kk);
                    em[0] = 0;
                    em[1] = cx.rng.below(3) as u8;
                    for b in em[2..].iter_mut() {
                        if cx.idx % 2 == 0 {
                            *b = if *b == 0 || cx.idx % 4 == 0 { 0xff } else { *b };
                        }
                    }
                    if cx.rng.bool() {
                        let at = cx.rng.range(2, kk - 1);
                        em[at] = 0;
                    }
                    let m = Big::from_be(&em);
                    if m < k.n { m.powm(&k.e, &k.n).to_be_n(kk) } else { em }
                }
                _ => {
                    let mut out = vec![];
                    let _ = oaep.encrypt(&mut out, &[1, 2]);
                    if let Some(b) = out.last_mut() {
                        *b ^= 1;
                    }
                    out
                }
            };
            let c = tight(c);
            let mut out = vec![];
            let r = oaep.decrypt(&mut out, &c);
            note(cx, "OAEP decryption", &r, &out);
            let r = pkcs.decrypt(&mut out, &c);
            note(cx, "PKCS1 decryption", &r, &out);
            let mut s = RsaSig::new();
            AsMut::<Vec<u8>>::as_mut(&mut s).extend_from_slice(&c);
            let r = pkcs.verify(&s, &c);
            note(cx, "PKCS1 verification", &r, &[]);
            if let Some(p) = &mut pss {
                let r = p.verify(&s, &c);
                note(cx, "PSS verification", &r, &[]);
            }
            let l = cx.rng.below(kk + 20);
            let m = tight(cx.rng.patterned(l));
            let mut out = vec![];
            let r = oaep.encrypt(&mut out, &m);
            note(cx, "OAEP encryption", &r, &out);
            let r = pkcs.encrypt(&mut out, &m);
            note(cx, "PKCS1 encryption", &r, &out);
            let r = pkcs.sign(&mut s, &m);
            note(cx, "PKCS1 signature", &r, s.as_ref());
            if let Some(p) = &mut pss {
                let r = p.sign(&mut s, &m);
                note(cx, "PSS signature", &r, s.as_ref());
            }
            cx.case(&[&k.n.to_be(), &c, &m]);
        }
        // keys too short for the scheme
        {
            let b = cx.rng.range(40, 300);
            let small = gen(b, 2, cx.rng.u64())?;
            let m = cx.rng.bytes(3);
            let mut out = vec![];
            if let Ok(o) = OAEP::new_uncheck(sha::SHA256::new(), Src::new(4), small.pair(), vec![1], true) {
                cx.note(&[&(o.max_message_len() as u64).to_le_bytes()]);
                let r = o.encrypt(&mut out, &m);
                note(cx, "short key", &r, &out);
                let r = o.decrypt(&mut out, &m);
                note(cx, "short key", &r, &out);
                let r = o.decrypt(&mut out, &vec![1; small.k()]);
                note(cx, "short key", &r, &out);
            }
            if let Ok(mut o) = PKCS1::new_uncheck(sha::SHA256::new(), Src::new(4), small.pair(), true) {
                cx.note(&[&(o.encrypt_max_message_len() as u64).to_le_bytes(), &(o.sign_max_message_len() as u64).to_le_bytes()]);
                let r = o.encrypt(&mut out, &m);
                note(cx, "short key", &r, &out);
                let r = o.decrypt(&mut out, &vec![1; small.k()]);
                note(cx, "short key", &r, &out);
                let mut s = RsaSig::new();
                let r = o.sign(&mut s, &m);
                note(cx, "short key", &r, s.as_ref());
                let r = o.verify(&s, &m);
                note(cx, "short key", &r, &[]);
            }
            if let Ok(mut o) = PSS::new_uncheck(sha::SHA256::new(), Src::new(4), small.pair(), salt, true) {
                cx.note(&[&(o.max_message_len() as u64).to_le_bytes(), &(o.salt_len() as u64).to_le_bytes()]);
                let mut s = RsaSig::new();
                let r = o.sign(&mut s, &m);
                note(cx, "short key", &r, s.as_ref());
                AsMut::<Vec<u8>>::as_mut(&mut s).extend_from_slice(&vec![1; small.k()]);
                let r = o.verify(&s, &m);
                note(cx, "short key", &r, &[]);
            }
        }
        cx.sample(|| format!("{}", k.sk));
    }
    Ok(())
}
/// keys just too short and just long enough for each scheme, messages around the longest
fn h_limits(cx: &mut Cx) -> R {
    if cfg!(miri) {
        return light_rsa(cx);
    }
    match cx.rng.below(3) {
        0 => limits(cx, MD5::new, 16),
        1 => limits(cx, sha::SHA1::new, 20),
        _ => limits(cx, sha::SHA224::new, 28),
    }
}
fn limits<H: Digest + Clone + 'static>(cx: &mut Cx, mk: fn() -> H, h: usize) -> R {
    for kind in 0..4 {
        let salt = match cx.rng.below(5) { 0 => None, 1 => Some(0), 2 => Some(h), _ => Some(cx.rng.below(24)) };
        let limit = match kind {
            0 => 2 * h + 2,
            1 => 11,
            2 => h + 19 + 11,
            _ => h + salt.unwrap_or(0) + 2,
        };
        let k = (limit + cx.rng.below(6)).max(12) - 3;
        let bits = 8 * k - cx.rng.below(8);
        let key = gen(bits, 2, cx.rng.u64())?;
        let blind = cx.rng.bool();
        let (seed, auto) = (cx.rng.u64(), cx.rng.chance(1, 4));
        let src = || Src::new(seed);
        let pair = || key.pair();
        let mut out = vec![];
        let lens = |max: usize| vec![0, 1, max.wrapping_sub(1).min(99), max.min(100), max.min(100) + 1, max.min(100) + 7];
        if kind == 0 {
            let o = if auto { OAEP::auto_generate_key(bits, 10, mk(), src(), vec![1, 2], blind) } else if seed & 2 == 0 { OAEP::new_uncheck(mk(), src(), pair(), vec![], blind) } else { OAEP::new(mk(), src(), pair(), vec![7; 40], blind) };
            note(cx, "key near the limit", &o, &[]);
            if let Ok(mut o) = o {
                let max = o.max_message_len();
                cx.note(&[&(max as u64).to_le_bytes(), &(o.digest_len() as u64).to_le_bytes(), &(o.modulus_len() as u64).to_le_bytes()]);
                for l in lens(max) {
                    let m = tight(cx.rng.patterned(l));
                    let r = o.encrypt(&mut out, &m);
                    note(cx, "OAEP near the limit", &r, &out);
                    let c = tight(out.clone());
                    let r = o.decrypt(&mut out, &c);
                    note(cx, "OAEP near the limit", &r, &out);
                    o.set_label(cx.rng.bytes(l));
                }
                let r = o.decrypt(&mut out, &vec![1; k]);
                note(cx, "OAEP near the limit", &r, &out);
            }
        } else if kind < 3 {
            let o = if auto { PKCS1::auto_generate_key(bits, 10, mk(), src(), blind) } else if seed & 2 == 0 { PKCS1::new_uncheck(mk(), src(), pair(), blind) } else { PKCS1::new(mk(), src(), pair(), blind) };
            note(cx, "key near the limit", &o, &[]);
            if let Ok(mut o) = o {
                let (max, smax) = (o.encrypt_max_message_len(), o.sign_max_message_len());
                cx.note(&[&(max as u64).to_le_bytes(), &(smax as u64).to_le_bytes(), &(o.digest_len() as u64).to_le_bytes()]);
                for l in lens(max) {
                    let m = tight(cx.rng.patterned(l));
                    let r = o.encrypt(&mut out, &m);
                    note(cx, "PKCS1 near the limit", &r, &out);
                    let c = tight(out.clone());
                    let r = o.decrypt(&mut out, &c);
                    note(cx, "PKCS1 near the limit", &r, &out);
                    let mut s = RsaSig::new();
                    let r = o.sign(&mut s, &m);
                    note(cx, "PKCS1 near the limit", &r, s.as_ref());
                    let r = o.verify(&s, &m);
                    note(cx, "PKCS1 near the limit", &r, &[]);
                }
            }
        } else {
            let o = if auto { PSS::auto_generate_key(bits, 10, mk(), src(), salt, blind) } else if seed & 2 == 0 { PSS::new_uncheck(mk(), src(), pair(), salt, blind) } else { PSS::new(mk(), src(), pair(), salt, blind) };
            note(cx, "key near the limit", &o, &[]);
            if let Ok(mut o) = o {
                cx.note(&[&(o.max_message_len() as u64).to_le_bytes(), &(o.salt_len() as u64).to_le_bytes()]);
                for l in lens(20) {
                    let m = tight(cx.rng.patterned(l));
                    let mut s = RsaSig::new();
                    let r = o.sign(&mut s, &m);
                    note(cx, "PSS near the limit", &r, s.as_ref());
                    let r = o.verify(&s, &m);
                    note(cx, "PSS near the limit", &r, &[]);
                }
            }
        }
        cx.case(&[&key.n.to_be(), &[kind as u8]]);
    }
    Ok(())
}
/// signature contents of any kind
fn scrap(cx: &mut Cx, near: &[Big]) -> SignatureContent {
    match cx.rng.below(4) {
        0 => {
            let l = cx.rng.below(90);
            let mut s = SignatureContent::new();
            AsMut::<Vec<u8>>::as_mut(&mut s).extend_from_slice(&cx.rng.patterned(l));
            s
        }
        1 => {
            let (r, s) = (wild(cx, near), wild(cx, near));
            let mut c = SignatureContent::with_capacity(cx.rng.below(9));
            c.set(r, s);
            c
        }
        _ => {
            let (r, s) = (wild(cx, near), wild(cx, near));
            SignatureContent::form_bigint(&r, &s)
        }
    }
}
fn h_dsa(cx: &mut Cx) -> R {
    let mut d = pick_dom(&mut cx.rng);
    while d.p.bits() > 1100 {
        d = pick_dom(&mut cx.rng);
    }
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let near = [d.q.clone(), d.p.clone(), Big::zero()];
    let made: Result<DsaPrivate, CryptoError> = (|| {
        let dp = DomainParameters::new_uncheck(&bint(&d.p), &bint(&d.q), &bint(&d.g))?;
        DsaPrivate::new_uncheck(&DsaPublic::new_uncheck(&dp, &bint(&y))?, &bint(&x))
    })();
    let sk = match made { Ok(s) => s, Err(_) => return broken("hostile:dsa-key", d.show()) };
    let mut o = match DSA::new_uncheck(sha::SHA1::new(), Src::new(1), DsaPair::from(sk)) { Ok(o) => o, Err(_) => return broken("hostile:dsa-key", d.show()) };
    for _ in 0..n(12, 1) {
        let s = scrap(cx, &near);
        let (a, b) = s.to_bigint();
        cx.note(&[&shown(&a), &shown(&b)]);
        let l = cx.rng.below(60);
        let m = cx.rng.patterned(l);
        let r = o.verify(&s, &m);
        note(cx, "DSA verification", &r, &[]);
    }
    let (a, b, c, e) = (wild(cx, &near), wild(cx, &near), wild(cx, &near), wild(cx, &near));
    let r = DomainParameters::new_uncheck(&a, &b, &c);
    note(cx, "DSA domain", &r, &[]);
    if let Ok(dp) = r {
        let r = DsaPublic::new_uncheck(&dp, &e);
        note(cx, "DSA public key", &r, &[]);
        cx.note(&[format!("{}", dp).as_bytes()]);
    }
    cx.sample(|| d.show());
    Ok(())
}
fn h_ec(cx: &mut Cx) -> R {
    let i = match cx.idx % 8 { 0 => 0, 1 => 1, 2 => 2, 3 => 3, x => 4 + x % 2 };
    let i = if cfg!(miri) { 4 + cx.idx % 2 } else { i };
    let c = model(i);
    let (l, _) = curve(i)?;
    let near = [c.p.clone(), c.n.clone(), Big::zero(), c.p.sub(&c.n.sub(&Big::one()).min(c.p.clone()))];
    for k in 0..n(10, 1) {
        let (x1, y1) = if cx.rng.bool() { (wild(cx, &near), wild(cx, &near)) } else { xy(&c.g) };
        let (x2, y2) = if k % 2 == 0 { (wild(cx, &near), wild(cx, &near)) } else { xy(&c.g) };
        let on = [l.is_on_curve(&x1, &y1), l.is_on_curve(&x2, &y2)];
        cx.note(&[&[on[0] as u8, on[1] as u8]]);
        let a = l.add(&x1, &y1, &x2, &y2);
        let b = l.double(&x1, &y1);
        cx.note(&[&shown(&a.0), &shown(&a.1), &shown(&b.0), &shown(&b.1)]);
        cx.ev("arbitrary points added and doubled");
        if (!cfg!(miri) && k % 2 == 0) || (cfg!(miri) && cx.idx > 1) {
            let lim = cx.rng.below(n(80, 2));
            let s = Nat::from_be_bytes(&cx.rng.patterned(1 + lim));
            let a = l.scalar(&x1, &y1, &s);
            let b = l.scalar_base_point(&s);
            cx.note(&[&shown(&a.0), &shown(&a.1), &shown(&b.0), &shown(&b.1)]);
            cx.ev("arbitrary points multiplied");
        }
        cx.case(&[NAMES[i].as_bytes(), &shown(&x1), &shown(&y1), &shown(&x2), &shown(&y2)]);
    }
    if cfg!(miri) {
        return Ok(());
    }
    let d = unit(&c.n, &mut cx.rng);
    let (x, y) = xy(&c.mul(&d, &c.g));
    let pair = if cx.rng.bool() { EcPair::from(EcPrivate::new_uncheck(EcPublic::new_uncheck(&x, &y), &bint(&d))) } else { EcPair::from(EcPublic::new_uncheck(&wild(cx, &near), &wild(cx, &near))) };
    let r = ECDSA::new_unchcek(sha::SHA256::new(), Src::new(2), l.clone(), pair);
    note(cx, "ECDSA key", &r, &[]);
    if let Ok(mut o) = r {
        for _ in 0..n(4, 1) {
            let s = scrap(cx, &near);
            let r = o.verify(&s, &[1, 2, 3]);
            note(cx, "ECDSA verification", &r, &[]);
            let mut s = SignatureContent::new();
            let r = o.sign(&mut s, &[4]);
            note(cx, "ECDSA signature", &r, s.as_ref());
        }
        let r = o.verify(&content(&Big::zero(), &Big::zero()), &[]);
        note(cx, "ECDSA verification", &r, &[]);
    }
    cx.sample(|| NAMES[i].to_string());
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        rule: "a case is one call with arbitrary arguments",
        assumptions: &[],
        require: &[],
        jobs: vec![
            Job { name: "block", quick: 60, thorough: 1200, run: h_block },
            Job { name: "modes", quick: 600, thorough: 12000, run: h_modes },
            Job { name: "hash", quick: 200, thorough: 4000, run: h_hash },
            Job { name: "zuc", quick: 100, thorough: 2000, run: h_zuc },
            Job { name: "rsa", quick: 300, thorough: 6000, run: h_rsa },
            Job { name: "limits", quick: 150, thorough: 3000, run: h_limits },
            Job { name: "dsa", quick: 300, thorough: 6000, run: h_dsa },
            Job { name: "ec", quick: 160, thorough: 3200, run: h_ec },
        ],
    }]
}
