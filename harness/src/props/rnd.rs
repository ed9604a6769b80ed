//! C30-C31: use of the random source.
use super::dsa::{numbers, pick_dom, unit, Dom};
use super::ec::{curve, model, params, private, xy, NAMES};
use super::rsa::{gen, judge_key, Key, ROUNDS};
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::big::Big;
use crate::refs::ec::{self, bits2int};
use crate::refs::hashes::*;
use crate::refs::pk;
use rcrypto::cipher_mode::{DefaultInitialVec, InitialVec};
use rcrypto::dsa::{SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{KeyPair as EcPair, PublicKey as EcPublic};
use rcrypto::rsa::{PrivateKey, SignatureContent as RsaSig, OAEP, PKCS1, PSS};
use rcrypto::{sha, Cipher, CryptoError, Signature};
use std::collections::HashMap;

type Dk = rcrypto::dsa::KeyPair;

/// every bit position takes both values
struct Spread {
    ones: Vec<usize>,
    n: usize,
    /// end of the range, and how many values lie in each quarter of it
    below: Option<Big>,
    quarters: [usize; 4],
}
impl Spread {
    fn new(bits: usize) -> Spread {
        Spread { ones: vec![0; bits], n: 0, below: None, quarters: [0; 4] }
    }
    /// of numbers that can be anything below `n`
    fn of(n: &Big) -> Spread {
        Spread { below: Some(n.clone()), ..Spread::new(n.bits() - 1) }
    }
    fn add(&mut self, v: &Big) {
        self.n += 1;
        if let Some(n) = &self.below {
            let q = (0..3).filter(|i| v.shl(2) >= n.mul(&Big::from_u64(i + 1))).count();
            self.quarters[q] += 1;
        }
        for (i, c) in self.ones.iter_mut().enumerate() {
            *c += v.bit(i) as usize;
        }
    }
    fn bytes(&mut self, v: &[u8]) {
        self.add(&Big::from_be(v));
    }
    fn check(&self, sig: &str, what: &str) -> R {
        for (i, c) in self.ones.iter().enumerate() {
            ensure!(*c > 0 && *c < self.n, sig, "{}: bit {} was {} in all of {} random values", what, i, (*c > 0) as u8, self.n);
        }
        if self.below.is_some() {
            // by chance: 0.75^64, one in a hundred million
            ensure!(self.n < 64 || self.quarters.iter().all(|c| *c > 0), sig, "{}: {} random values fall into the quarters of the range like {:?}", what, self.n, self.quarters);
        }
        Ok(())
    }
}
fn fresh(seen: &mut HashMap<Vec<u8>, String>, v: Vec<u8>, label: String, sig: &str, what: &str) -> R {
    if let Some(old) = seen.get(&v) {
        if *old != label {
            return broken(sig, format!("{}: {} used for {} and for {}", what, hx(&v), old, label));
        }
    }
    seen.insert(v, label);
    Ok(())
}
/// messages that are the hash values themselves, some differing in a few bits only
fn hashes(n: usize, len: usize, nb: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut v = vec![rng.patterned(len)];
    while v.len() < n {
        let h = match rng.below(4) {
            0 => rng.bytes(len),
            _ => {
                let mut h = v[rng.below(v.len())].clone();
                let b = match rng.below(4) { 0 => 0, 1 => (8 * len).min(nb) - 1, _ => rng.below((8 * len).min(nb)) };
                h[b / 8] ^= 0x80 >> (b % 8);
                h
            }
        };
        if !v.contains(&h) {
            v.push(h);
        }
    }
    v
}
fn c30_ecdsa(cx: &mut Cx) -> R {
    let i = match cx.idx % 8 { 0 => 2, 1 => 3, 2 => 0, 3 => 1, x => 4 + x % 2 };
    let (l, c) = curve(i)?;
    let nb = c.n.bits();
    let mut seen = HashMap::new();
    let mut firsts = HashMap::new();
    let mut spread = Spread::of(&c.n);
    let hl = *cx.rng.pick(&[20, 28, 32, 48, 64, 66]);
    let per = if i < 4 { 8 } else { 12 };
    let seed = cx.rng.u64();
    let base = unit(&c.n, &mut cx.rng);
    for kind in 0..4 {
        // keys that differ little share the repeating sources
        let d = match kind {
            0 | 1 => base.clone(),
            2 => base.addm(&Big::one(), &c.n),
            _ => base.addm(&Big::one().shl(cx.rng.below(nb - 1)), &c.n),
        };
        if d.is_zero() {
            continue;
        }
        let mut src = Src::new(if kind == 0 { cx.rng.u64() } else { seed });
        let constant = kind == 3 && cx.rng.bool();
        if constant {
            src.pool = Some((vec![*cx.rng.pick(&[0u32, 0xffff_ffff, 0x0101_0101])], 1, 1));
        }
        let rewind = src.rewind.clone();
        let what = format!("ECDSA on {} d={} with {} random source", NAMES[i], d.to_hex(), if kind == 0 { "an honest" } else { "a repeating" });
        let mut s = match ECDSA::new_unchcek(Given::new(hl), src, l.clone(), EcPair::from(private(&c, &d))) {
            Ok(s) => s,
            Err(e) => return broken("ecdsa:ctor", format!("{}: {}", what, e)),
        };
        for h in hashes(2 * per, hl, nb, &mut cx.rng) {
            let mut sc = SignatureContent::new();
            if kind > 0 {
                rewind.set(true);
            }
            match no_panic(|| s.sign(&mut sc, &h)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return broken("rnd:ecdsa-refused", format!("{} hash {}: {}", what, hex(&h), e)),
                Err(p) => return broken("rnd:ecdsa-panic", format!("{} hash {}: {}", what, hex(&h), p)),
            }
            let (r, sv) = numbers(&sc);
            let e = bits2int(&h, &c.n);
            let k = match sv.invm(&c.n) {
                Some(i) => i.mulm(&e.add(&d.mul(&r)).rem(&c.n), &c.n),
                None => return broken("rnd:ecdsa-range", format!("{} hash {}: s={}", what, hex(&h), sv.to_hex())),
            };
            // the nonce must be the one behind r, or the recovery says nothing
            if cx.rng.chance(1, 4) {
                ensure!(c.mul(&k, &c.g).map(|p| p.0.rem(&c.n)) == Some(r.clone()), "rnd:ecdsa-equation", "{} hash {}: r={} s={}", what, hex(&h), r.to_hex(), sv.to_hex());
            }
            let label = format!("hash {} key {}", hex(&h), d.to_hex());
            fresh(&mut seen, k.to_be(), label.clone(), "rnd:ecdsa-nonce", &what)?;
            fresh(&mut firsts, r.to_be(), label, "rnd:ecdsa-first", &what)?;
            spread.add(&k);
            cx.case(&[NAMES[i].as_bytes(), &h, &d.to_be(), &[kind as u8]]);
            cx.ev(match (kind, constant) { (0, _) => "ECDSA signatures with an honest source", (_, false) => "ECDSA signatures with a repeating source", _ => "ECDSA signatures with a constant source" });
        }
        cx.sample(|| what.clone());
    }
    spread.check("rnd:ecdsa-spread", &format!("nonces on {}", NAMES[i]))?;
    cx.ev(if i < 4 { "generic curves" } else { "fast curves" });
    Ok(())
}
fn c30_dsa(cx: &mut Cx) -> R {
    let mut d = pick_dom(&mut cx.rng);
    while d.q.bits() < 64 || d.p.bits() > 700 {
        let n = *cx.rng.pick(&[64, 128, 160, 192, 224, 256]);
        d = Dom::make(n + 60 + cx.rng.below(100), n, &mut cx.rng);
    }
    let nb = d.q.bits();
    let x = unit(&d.q, &mut cx.rng);
    let hl = *cx.rng.pick(&[8, 20, 28, 32, 48]);
    let what = format!("DSA {} x={}", d.show(), x.to_hex());
    let mut s = match DSA::new_uncheck(Given::new(hl), Src::new(cx.rng.u64()), Dk::from(d.private(&x))) {
        Ok(s) => s,
        Err(e) => return broken("dsa:ctor", format!("{}: {}", what, e)),
    };
    let mut seen = HashMap::new();
    let mut firsts = HashMap::new();
    let mut spread = Spread::of(&d.q);
    for h in hashes(100, hl, nb, &mut cx.rng) {
        let mut sc = SignatureContent::new();
        match no_panic(|| s.sign(&mut sc, &h)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return broken("rnd:dsa-refused", format!("{} hash {}: {}", what, hex(&h), e)),
            Err(p) => return broken("rnd:dsa-panic", format!("{} hash {}: {}", what, hex(&h), p)),
        }
        let (r, sv) = numbers(&sc);
        let e = bits2int(&h, &d.q);
        let k = match sv.invm(&d.q) {
            Some(i) => i.mulm(&e.add(&x.mul(&r)).rem(&d.q), &d.q),
            None => return broken("rnd:dsa-range", format!("{} hash {}: s={}", what, hex(&h), sv.to_hex())),
        };
        ensure!(d.g.powm(&k, &d.p).rem(&d.q) == r, "rnd:dsa-equation", "{} hash {}: r={} s={}", what, hex(&h), r.to_hex(), sv.to_hex());
        fresh(&mut seen, k.to_be(), hex(&h), "rnd:dsa-nonce", &what)?;
        fresh(&mut firsts, r.to_be(), hex(&h), "rnd:dsa-first", &what)?;
        spread.add(&k);
        cx.case(&[&d.p.to_be(), &x.to_be(), &h]);
        cx.ev("DSA signatures");
    }
    spread.check("rnd:dsa-spread", &what)
}
fn c30_rsa(cx: &mut Cx) -> R {
    let hl = 20;
    let bits = cx.rng.range(8 * (2 * hl + 4), 480);
    let k = gen(bits, 2, cx.rng.u64())?;
    let kk = k.k();
    let seed = cx.rng.u64();
    let n = cx.rng.below(kk - 2 * hl - 1);
    let m = cx.rng.patterned(n);
    let rounds = 80;
    let mut seen = HashMap::new();
    let what = format!("{} bits, message {}", bits, hex(&m));
    match cx.idx % 3 {
        0 => {
            let o = match OAEP::new_uncheck(sha::SHA1::new(), Src::new(seed), k.pair(), vec![], false) {
                Ok(o) => o,
                Err(e) => return broken("oaep:ctor", format!("{}: {}", what, e)),
            };
            let mut spread = Spread::new(8 * hl);
            for i in 0..rounds {
                let mut c = vec![];
                match no_panic(|| o.encrypt(&mut c, &m)) {
                    Ok(Ok(_)) => {}
                    r => return broken("rnd:oaep", format!("{}: {:?}", what, r.map(|x| x.map(|_| ())))),
                }
                let em = Big::from_be(&c).powm(&k.d, &k.n).to_be_n(kk);
                ensure!(pk::oaep_decode(sha1, hl, &[], &em).as_ref() == Some(&m), "rnd:oaep-decoding", "{}: ciphertext {}", what, hex(&c));
                let mask = pk::mgf1(sha1, &em[1 + hl..], hl);
                let s: Vec<u8> = em[1..1 + hl].iter().zip(mask).map(|(a, b)| a ^ b).collect();
                spread.bytes(&s);
                fresh(&mut seen, c.clone(), format!("encryption {}", i), "rnd:oaep-repeated", &what)?;
                fresh(&mut seen, s, format!("encryption {}", i), "rnd:oaep-seed", &what)?;
                cx.case(&[b"oaep", &c]);
                cx.ev("OAEP encryptions");
            }
            spread.check("rnd:oaep-spread", &format!("OAEP seeds, {}", what))
        }
        1 => {
            let o = match PKCS1::new_uncheck(sha::SHA1::new(), Src::new(seed), k.pair(), false) {
                Ok(o) => o,
                Err(e) => return broken("pkcs1:ctor", format!("{}: {}", what, e)),
            };
            let mut vals = vec![[false; 256]; kk];
            for i in 0..rounds {
                let mut c = vec![];
                match no_panic(|| o.encrypt(&mut c, &m)) {
                    Ok(Ok(_)) => {}
                    r => return broken("rnd:pkcs1", format!("{}: {:?}", what, r.map(|x| x.map(|_| ())))),
                }
                let em = Big::from_be(&c).powm(&k.d, &k.n).to_be_n(kk);
                ensure!(pk::pkcs1_dec(&em).as_ref() == Some(&m), "rnd:pkcs1-decoding", "{}: ciphertext {}", what, hex(&c));
                for (j, b) in em[2..kk - m.len() - 1].iter().enumerate() {
                    vals[j][*b as usize] = true;
                }
                fresh(&mut seen, em[2..kk - m.len() - 1].to_vec(), format!("encryption {}", i), "rnd:pkcs1-repeated", &what)?;
                cx.case(&[b"pkcs1", &c]);
                cx.ev("PKCS1 encryptions");
            }
            for (j, v) in vals.iter().enumerate().take(kk - m.len() - 3) {
                // 80 draws from 255 values: about 69 different ones
                let d = v.iter().filter(|x| **x).count();
                ensure!(d > 30, "rnd:pkcs1-spread", "{}: padding byte {} took {} values in {} encryptions", what, j, d, rounds);
            }
            Ok(())
        }
        _ => {
            let emlen = (bits + 6) / 8;
            let slen = cx.rng.range(8, emlen - hl - 2);
            let mut o = match PSS::new_uncheck(sha::SHA1::new(), Src::new(seed), k.pair(), Some(slen), false) {
                Ok(o) => o,
                Err(e) => return broken("pss:ctor", format!("{}: {}", what, e)),
            };
            let mut spread = Spread::new(8 * slen);
            for i in 0..rounds {
                let mut sc = RsaSig::new();
                match no_panic(|| o.sign(&mut sc, &m)) {
                    Ok(Ok(())) => {}
                    r => return broken("rnd:pss", format!("{}: {:?}", what, r)),
                }
                let em = Big::from_be(sc.as_slice()).powm(&k.e, &k.n);
                let s = match pk::pss_verify(sha1, hl, &sha1(&m), &em.to_be_n(emlen), bits - 1, Some(slen)) {
                    Some(s) => s,
                    None => return broken("rnd:pss-encoding", format!("{}: signature {}", what, hex(sc.as_slice()))),
                };
                spread.bytes(&s);
                fresh(&mut seen, s, format!("signature {}", i), "rnd:pss-repeated", &what)?;
                cx.case(&[b"pss", sc.as_slice()]);
                cx.ev("PSS signatures");
            }
            spread.check("rnd:pss-spread", &format!("PSS salts, {}", what))
        }
    }
}

/// What a randomised operation gave, judged: Ok(true) a valid result, Ok(false) an error.
type Judged = Result<bool, Broken>;
/// Runs `op` with a source that dies after `after` words. `need` is the number of bytes the
/// result must owe to the source.
fn with_fault(cx: &mut Cx, name: &str, seed: u64, after: Option<u64>, need: usize, op: &mut dyn FnMut(&mut Cx, Src) -> Judged) -> Result<u64, Broken> {
    let mut src = Src::new(seed);
    src.cap = 300_000_000;
    src.fail_after = after;
    let (draws, failed) = (src.draws.clone(), src.failed.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(cx, src)));
    let at = match after { Some(a) => format!("{} with a source that fails after {} words", name, a), None => format!("{} with a working source", name) };
    let ok = match r {
        Err(_) => {
            let m = last_panic();
            if m.contains(HARNESS_ERR) {
                panic!("{}", m);
            }
            let endless = m.contains(ENDLESS);
            return Err(Broken { sig: format!("rnd:{}:{}", if endless { "endless" } else { "panic" }, name), detail: format!("{}: {}", at, if endless { "asked the dead source for ever".to_string() } else { m }) });
        }
        Ok(Err(b)) => return Err(Broken { sig: format!("rnd:{}", b.sig), detail: format!("{}: {}", at, b.detail) }),
        Ok(Ok(ok)) => ok,
    };
    let supplied = draws.get() - failed.get();
    if failed.get() == 0 {
        ensure!(ok, format!("rnd:refused:{}", name), "{}: refused although the source answered all of {} requests", at, draws.get());
        cx.ev("operations the failure came too late for");
    } else if ok {
        ensure!(4 * supplied as usize >= need, format!("rnd:weak:{}", name), "{}: a result from {} random bytes where {} are needed", at, 4 * supplied, need);
        cx.ev("results that had enough random bytes");
    } else {
        cx.ev("operations ended by an error");
        let e = format!("{}: failures reported", name);
        cx.ev(&e);
    }
    cx.case(&[name.as_bytes(), &seed.to_le_bytes(), &after.unwrap_or(u64::MAX).to_le_bytes()]);
    Ok(draws.get())
}
/// a working run to count the requests, then failures at chosen and random positions
fn faults(cx: &mut Cx, name: &str, need: usize, tries: usize, op: &mut dyn FnMut(&mut Cx, Src) -> Judged) -> R {
    let seed = cx.rng.u64();
    let n = with_fault(cx, name, seed, None, need, op)?;
    let mut at = vec![0, 1, n.saturating_sub(1), n / 2];
    while at.len() < tries {
        at.push(match cx.rng.below(3) {
            0 => cx.rng.below(12) as u64,
            1 => n.saturating_sub(1 + cx.rng.below(12) as u64),
            _ => cx.rng.below(n as usize + 1) as u64,
        });
    }
    at.truncate(tries);
    at.sort();
    at.dedup();
    let last = at.len() - 1;
    for (k, a) in at.into_iter().enumerate() {
        with_fault(cx, name, seed, Some(a), need, op)?;
        if k == last {
            let s = format!("{}: {} words in a working run, failed after {}", name, n, a);
            cx.sample(|| s);
        }
    }
    Ok(())
}
fn outcome<T>(r: Result<T, CryptoError>) -> Option<T> {
    r.ok()
}
fn c31_rsa_key(cx: &mut Cx) -> R {
    let primes = if cx.rng.chance(1, 3) { cx.rng.range(3, 4) } else { 2 };
    let bits = if cx.rng.chance(1, 6) { cx.rng.range(257, 520) } else { cx.rng.range(32 * primes, 100 * primes) };
    // two leading bits and the last one of every prime are fixed, and the search for a prime adds a little
    let need = (bits / 8).saturating_sub(4 * primes);
    faults(cx, "rsa-key", need, 10, &mut |cx, mut src| {
        let r = if primes == 2 { PrivateKey::generate_key(bits, ROUNDS, &mut src) } else { PrivateKey::generate_multi_prime_key(primes, bits, ROUNDS, &mut src) };
        match r {
            Err(_) => Ok(false),
            Ok(sk) => {
                let k = Key::read(sk);
                judge_key(&k, bits, primes, "generated with a failing source", &mut cx.rng)?;
                Ok(true)
            }
        }
    })
}
fn c31_rsa_ops(cx: &mut Cx) -> R {
    let hl = 16;
    let bits = cx.rng.range(8 * (2 * hl + 3) + 1, 420);
    let k = gen(bits, if cx.rng.chance(1, 4) { 3 } else { 2 }, cx.rng.u64())?;
    let kk = k.k();
    let m = Big::random_below(&k.n, &mut cx.rng);
    let c = m.powm(&k.e, &k.n);
    let checked = cx.rng.bool();
    faults(cx, if checked { "rsa-blinded-checked" } else { "rsa-blinded" }, bits / 8 - 4, 8, &mut |_, mut src| {
        let r = if checked { k.sk.decrypt_and_check(&bint(&c), Some(&mut src)) } else { k.sk.decrypt(&bint(&c), Some(&mut src)) };
        match outcome(r) {
            None => Ok(false),
            Some(x) => {
                ensure!(big(&x) == m, "rsa-blinded-value", "{} for {} under {}", big(&x).to_hex(), m.to_hex(), k.sk);
                Ok(true)
            }
        }
    })?;
    let n = cx.rng.below(kk - 2 * hl - 1);
    let msg = cx.rng.patterned(n);
    faults(cx, "oaep-encrypt", hl, 10, &mut |_, src| {
        let o = match OAEP::new_uncheck(rcrypto::MD5::new(), src, k.pair(), vec![7], false) { Ok(o) => o, Err(_) => return Ok(false) };
        let mut c = vec![];
        if o.encrypt(&mut c, &msg).is_err() {
            return Ok(false);
        }
        let em = Big::from_be(&c).powm(&k.d, &k.n).to_be_n(kk);
        ensure!(pk::oaep_decode(md5, hl, &[7], &em).as_ref() == Some(&msg), "oaep-decoding", "ciphertext {} under {}", hex(&c), k.sk);
        Ok(true)
    })?;
    let n = cx.rng.below(kk - 10);
    let msg = cx.rng.patterned(n);
    faults(cx, "pkcs1-encrypt", kk - 3 - n, 12, &mut |_, src| {
        let o = match PKCS1::new_uncheck(rcrypto::MD5::new(), src, k.pair(), false) { Ok(o) => o, Err(_) => return Ok(false) };
        let mut c = vec![];
        if o.encrypt(&mut c, &msg).is_err() {
            return Ok(false);
        }
        let em = Big::from_be(&c).powm(&k.d, &k.n).to_be_n(kk);
        ensure!(pk::pkcs1_dec(&em).as_ref() == Some(&msg), "pkcs1-decoding", "ciphertext {} decodes to block {} under {}", hex(&c), hex(&em), k.sk);
        ensure!(em[2..kk - 1 - n].iter().all(|b| *b != 0), "pkcs1-padding", "block {}", hex(&em));
        Ok(true)
    })?;
    // decryption with blinding
    let em = { let mut e = vec![0, 2]; e.extend(vec![9; kk - 3 - n]); e.push(0); e.extend(&msg); e };
    let c = Big::from_be(&em).powm(&k.e, &k.n).to_be_n(kk);
    faults(cx, "pkcs1-decrypt", bits / 8 - 4, 6, &mut |_, src| {
        let o = match PKCS1::new_uncheck(rcrypto::MD5::new(), src, k.pair(), true) { Ok(o) => o, Err(_) => return Ok(false) };
        let mut out = vec![];
        if o.decrypt(&mut out, &c).is_err() {
            return Ok(false);
        }
        ensure!(out == msg, "pkcs1-decrypt-value", "ciphertext {} gives {} under {}", hex(&c), hex(&out), k.sk);
        Ok(true)
    })?;
    let seed = cx.rng.bytes(hl);
    let n = cx.rng.below(kk - 2 * hl - 1);
    let msg2 = cx.rng.patterned(n);
    let mut db = md5(&[]);
    db.extend(vec![0; kk - 2 * hl - 2 - n]);
    db.push(1);
    db.extend(&msg2);
    let em = pk::oaep_mask(md5, hl, 0, &seed, &db);
    let c = Big::from_be(&em).powm(&k.e, &k.n).to_be_n(kk);
    faults(cx, "oaep-decrypt", bits / 8 - 4, 6, &mut |_, src| {
        let o = match OAEP::new_uncheck(rcrypto::MD5::new(), src, k.pair(), vec![], true) { Ok(o) => o, Err(_) => return Ok(false) };
        let mut out = vec![];
        if o.decrypt(&mut out, &c).is_err() {
            return Ok(false);
        }
        ensure!(out == msg2, "oaep-decrypt-value", "ciphertext {} gives {} under {}", hex(&c), hex(&out), k.sk);
        Ok(true)
    })?;
    let prefix = pk::digest_info("MD5").unwrap_or_else(|| panic!("HARNESS-ERROR no MD5 identifier"));
    if kk >= prefix.len() + hl + 11 {
        for blind in [false, true] {
            let need = if blind { bits / 8 - 4 } else { 0 };
            faults(cx, if blind { "pkcs1-sign-blinded" } else { "pkcs1-sign" }, need, 6, &mut |_, src| {
                let mut o = match PKCS1::new_uncheck(rcrypto::MD5::new(), src, k.pair(), blind) { Ok(o) => o, Err(_) => return Ok(false) };
                let mut sc = RsaSig::new();
                if o.sign(&mut sc, &msg).is_err() {
                    return Ok(false);
                }
                let em = Big::from_be(sc.as_slice()).powm(&k.e, &k.n).to_be_n(kk);
                ensure!(em == pk::pkcs1_sig_em(&prefix, &md5(&msg), kk), "pkcs1-signature", "signature {} under {}", hex(sc.as_slice()), k.sk);
                Ok(true)
            })?;
        }
    }
    let emlen = (bits + 6) / 8;
    let room = emlen - hl - 2;
    for blind in [false, true] {
        let slen = 1 + cx.rng.below(room);
        let need = if blind { slen.max(bits / 8 - 4) } else { slen };
        faults(cx, if blind { "pss-sign-blinded" } else { "pss-sign" }, need, 8, &mut |_, src| {
            let mut o = match PSS::new_uncheck(rcrypto::MD5::new(), src, k.pair(), Some(slen), blind) { Ok(o) => o, Err(_) => return Ok(false) };
            let mut sc = RsaSig::new();
            if o.sign(&mut sc, &msg).is_err() {
                return Ok(false);
            }
            let em = Big::from_be(sc.as_slice()).powm(&k.e, &k.n);
            let good = (em.bits() + 7) / 8 <= emlen && pk::pss_verify(md5, hl, &md5(&msg), &em.to_be_n(emlen), bits - 1, Some(slen)).is_some();
            ensure!(good, "pss-signature", "signature {} with salt of {} bytes under {}", hex(sc.as_slice()), slen, k.sk);
            Ok(true)
        })?;
    }
    // constructors that generate the key
    let bits = 8 * (2 * hl + 3) + cx.rng.below(40);
    let need = bits / 8 - 8;
    let which = cx.rng.below(3);
    faults(cx, ["oaep-auto", "pkcs1-auto", "pss-auto"][which], need, 4, &mut |_, src| {
        Ok(match which {
            0 => OAEP::auto_generate_key(bits, 10, rcrypto::MD5::new(), src, vec![], true).is_ok(),
            1 => PKCS1::auto_generate_key(bits.max(400), 10, rcrypto::MD5::new(), src, true).is_ok(),
            _ => PSS::auto_generate_key(bits, 10, rcrypto::MD5::new(), src, Some(4), true).is_ok(),
        })
    })?;
    Ok(())
}
fn c31_dsa_sign(cx: &mut Cx) -> R {
    let mut d = pick_dom(&mut cx.rng);
    while d.q.bits() < 64 {
        d = pick_dom(&mut cx.rng);
    }
    let x = unit(&d.q, &mut cx.rng);
    let y = d.g.powm(&x, &d.p);
    let n = cx.rng.below(50);
    let m = cx.rng.patterned(n);
    faults(cx, "dsa-sign", d.q.bits() / 8 - 4, 12, &mut |_, src| {
        let mut o = match DSA::new_uncheck(sha::SHA1::new(), src, Dk::from(d.private(&x))) { Ok(o) => o, Err(_) => return Ok(false) };
        let mut sc = SignatureContent::new();
        if o.sign(&mut sc, &m).is_err() {
            return Ok(false);
        }
        let (r, s) = numbers(&sc);
        ensure!(pk::dsa_verify(&d.p, &d.q, &d.g, &y, &sha1(&m), &r, &s), "dsa-signature", "r={} s={} for {} x={}", r.to_hex(), s.to_hex(), d.show(), x.to_hex());
        Ok(true)
    })
}
fn c31_dsa_key(cx: &mut Cx) -> R {
    faults(cx, "dsa-key", (1024 + 160) / 8 - 8, if cx.tier == Tier::Quick { 4 } else { 10 }, &mut |cx, mut src| {
        if cx.rng.bool() {
            let k = match DSA::<sha::SHA1, Src>::l1024_n160_key(&mut src) { Ok(k) => k, Err(_) => return Ok(false) };
            let s = format!("{}", k);
            let (p, q, g, y, x) = (field(&s, "p"), field(&s, "q"), field(&s, "g"), field(&s, "y"), field(&s, "x"));
            let one = Big::one();
            let good = p.bits() == 1024 && q.bits() == 160 && p.is_prime() && q.is_prime() && p.sub(&one).rem(&q).is_zero()
                && g > one && g.powm(&q, &p) == one && !x.is_zero() && x < q && g.powm(&x, &p) == y;
            ensure!(good, "dsa-key", "{}", s);
            Ok(true)
        } else {
            Ok(DSA::new_with_l1024_n160(sha::SHA1::new(), src).is_ok())
        }
    })
}
fn c31_ec(cx: &mut Cx) -> R {
    let i = match cx.idx % 8 { 0 => 2, 1 => 3, 2 => 0, 3 => 1, x => 4 + x % 2 };
    let c = model(i);
    let nb = c.n.bits();
    let (l, _) = curve(i)?;
    let tries = if i < 4 { 4 } else { 10 };
    let d = unit(&c.n, &mut cx.rng);
    let q = c.mul(&d, &c.g);
    let n = cx.rng.below(50);
    let m = cx.rng.patterned(n);
    faults(cx, "ecdsa-sign", (nb / 16).min(32), tries, &mut |_, src| {
        let mut o = match ECDSA::new_unchcek(sha::SHA256::new(), src, l.clone(), EcPair::from(private(&c, &d))) { Ok(o) => o, Err(_) => return Ok(false) };
        let mut sc = SignatureContent::new();
        if o.sign(&mut sc, &m).is_err() {
            return Ok(false);
        }
        let (r, s) = numbers(&sc);
        ensure!(ec::ecdsa_verify(&c, &q, &sha256(&m), &r, &s), "ecdsa-signature", "{} d={} r={} s={}", NAMES[i], d.to_hex(), r.to_hex(), s.to_hex());
        Ok(true)
    })?;
    // every failure position of the two key generators
    let most = ((nb + 64) / 32 + 2) as u64;
    for after in 0..most {
        if i < 4 && after > 3 && after + 4 < most {
            continue;
        }
        let seed = cx.rng.u64();
        with_fault(cx, "ecdsa-auto", seed, Some(after), nb / 8 - 4, &mut |_, src| {
            let o = match ECDSA::auto_generate_key(sha::SHA256::new(), src, l.clone()) { Ok(o) => o, Err(_) => return Ok(false) };
            let s = format!("{}", o.public_key());
            let (x, y) = (field(&s, "qx"), field(&s, "qy"));
            ensure!(c.on(&x, &y), "ecdsa-auto", "{}: public key {} off the curve", NAMES[i], s);
            Ok(true)
        })?;
        let p = params(i % 4)?;
        let mc = model(i % 4);
        with_fault(cx, "curve-key", seed, Some(after), mc.n.bits() / 8 - 4, &mut |_, mut src| {
            let k = match p.generate_key(&mut src) { Ok(k) => k, Err(_) => return Ok(false) };
            let s = format!("{}", k);
            let (d, x, y) = (field(&s, "d"), field(&s, "qx"), field(&s, "qy"));
            ensure!(!d.is_zero() && d < mc.n && mc.mul(&d, &mc.g) == Some((x, y)), "curve-key", "{}: key {}", NAMES[i % 4], s);
            Ok(true)
        })?;
    }
    Ok(())
}
fn c31_iv(cx: &mut Cx) -> R {
    let p = any_pair(&mut cx.rng);
    let bs = p.c.block_size().unwrap_or(0);
    for after in 0..(bs as u64 + 3) / 4 + 2 {
        let seed = cx.rng.u64();
        with_fault(cx, "iv", seed, Some(after), bs, &mut |_, src| {
            let mut iv = vec![1, 2, 3];
            let mut g = DefaultInitialVec::new(&p.c, src);
            if InitialVec::<AnyC>::initial_vec(&mut g, &mut iv).is_err() {
                return Ok(false);
            }
            ensure!(iv.len() == bs, "iv", "vector of {} bytes for blocks of {}", iv.len(), bs);
            Ok(true)
        })?;
    }
    Ok(())
}
/// operations that need no randomness work with a dead source
fn c31_dead(cx: &mut Cx) -> R {
    let dead = |cx: &mut Cx| Src::failing(cx.rng.u64(), 0);
    let k = gen(cx.rng.range(400, 440), 2, cx.rng.u64())?;
    let kk = k.k();
    let m = cx.rng.bytes(9);
    let bad = |what: &str, r: String| broken(&format!("rnd:dead:{}", what), format!("{} with a dead source, no randomness being needed: {}", what, r));
    let src = dead(cx);
    match no_panic(|| k.sk.decrypt(&bint(&Big::from_u64(5).powm(&k.e, &k.n)), None::<&mut Src>)) {
        Ok(Ok(x)) if big(&x) == Big::from_u64(5) => {}
        r => return bad("rsa-decrypt", format!("{:?}", r.map(|x| x.map(|v| big(&v).to_hex())))),
    }
    let mut o = match PKCS1::new_uncheck(rcrypto::MD5::new(), src.clone(), k.pair(), false) { Ok(o) => o, Err(e) => return bad("pkcs1", format!("{}", e)) };
    let mut sc = RsaSig::new();
    match no_panic(|| o.sign(&mut sc, &m).is_ok() && o.verify(&sc, &m).is_ok()) { Ok(true) => {} r => return bad("pkcs1", format!("{:?}", r)) }
    let mut em = vec![0, 2];
    em.extend(vec![1; kk - 3 - m.len()]);
    em.push(0);
    em.extend(&m);
    let c = Big::from_be(&em).powm(&k.e, &k.n).to_be_n(kk);
    let mut out = vec![];
    match no_panic(|| o.decrypt(&mut out, &c).is_ok()) { Ok(true) if out == m => {} r => return bad("pkcs1-decrypt", format!("{:?}", r)) }
    let d = Dom::make(200, 64, &mut cx.rng);
    let x = unit(&d.q, &mut cx.rng);
    let kn = unit(&d.q, &mut cx.rng);
    let r = d.g.powm(&kn, &d.p).rem(&d.q);
    if let (Some(ki), false) = (kn.invm(&d.q), r.is_zero()) {
        let s = ki.mulm(&bits2int(&sha1(&m), &d.q).add(&x.mul(&r)), &d.q);
        if !s.is_zero() {
            let mut v = match DSA::new_uncheck(sha::SHA1::new(), src.clone(), Dk::from(d.private(&x))) { Ok(v) => v, Err(e) => return bad("dsa", format!("{}", e)) };
            match no_panic(|| v.verify(&super::dsa::content(&r, &s), &m).is_ok()) { Ok(true) => {} r => return bad("dsa-verify", format!("{:?}", r)) }
        }
    }
    let (l, c) = curve(4 + cx.idx % 2)?;
    let d = unit(&c.n, &mut cx.rng);
    let kn = unit(&c.n, &mut cx.rng);
    if let Some((rx, _)) = c.mul(&kn, &c.g) {
        let r = rx.rem(&c.n);
        if let Some(ki) = kn.invm(&c.n) {
            let s = ki.mulm(&bits2int(&sha1(&m), &c.n).add(&d.mul(&r)), &c.n);
            if !s.is_zero() && !r.is_zero() {
                let (qx, qy) = xy(&c.mul(&d, &c.g));
                let mut v = match ECDSA::new_unchcek(sha::SHA1::new(), src, l, EcPair::from(EcPublic::new_uncheck(&qx, &qy))) { Ok(v) => v, Err(e) => return bad("ecdsa", format!("{}", e)) };
                match no_panic(|| v.verify(&super::dsa::content(&r, &s), &m).is_ok()) { Ok(true) => {} r => return bad("ecdsa-verify", format!("{:?}", r)) }
            }
        }
    }
    cx.case(&[&k.n.to_be(), &m]);
    cx.ev("operations without randomness on a dead source");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C30",
            rule: "a case is one randomised operation with its message, key and kind of source; the nonce, seed, padding or salt behind the result is recovered and compared with all earlier ones of the job",
            assumptions: &["nonces are recovered from signature, key and hash by the signature equation", "64 or more values with one bit never changing, or with a quarter of the range left out, do not happen by chance"],
            require: &["ECDSA signatures with an honest source", "ECDSA signatures with a repeating source", "ECDSA signatures with a constant source", "DSA signatures", "OAEP encryptions", "PKCS1 encryptions", "PSS signatures", "generic curves", "fast curves"],
            jobs: vec![
                Job { name: "ecdsa", quick: 32, thorough: 640, run: c30_ecdsa },
                Job { name: "dsa", quick: 24, thorough: 480, run: c30_dsa },
                Job { name: "rsa", quick: 45, thorough: 900, run: c30_rsa },
            ],
        },
        Prop {
            id: "C31",
            rule: "a case is one randomised operation with the position at which its random source starts to fail for good",
            assumptions: &["a source that was asked ten thousand times after it died is being asked for ever", "a result owes at least as many bytes to the source as its random part is long"],
            require: &["operations ended by an error", "operations the failure came too late for", "operations without randomness on a dead source"],
            jobs: vec![
                Job { name: "dsa-key", quick: 4, thorough: 40, run: c31_dsa_key },
                Job { name: "rsa-key", quick: 100, thorough: 2000, run: c31_rsa_key },
                Job { name: "rsa", quick: 60, thorough: 1200, run: c31_rsa_ops },
                Job { name: "dsa-sign", quick: 60, thorough: 1200, run: c31_dsa_sign },
                Job { name: "ec", quick: 32, thorough: 640, run: c31_ec },
                Job { name: "iv", quick: 40, thorough: 800, run: c31_iv },
                Job { name: "dead", quick: 10, thorough: 200, run: c31_dead },
            ],
        },
    ]
}
