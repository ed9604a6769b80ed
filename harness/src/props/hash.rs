//! C10-C16: hashes and MACs.
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::hashes::*;
use crate::refs::{keccak as rk, modes as rm, zuc as rz};
use rcrypto::{sha, sha3, Cipher, Digest, DigestXOF, Keccak, KeccakSponge, CMAC, HMAC, MD5, SHA, SHA3, SM3};

/// A digest object that may be cloneable.
pub trait Dg {
    fn d(&mut self) -> &mut dyn Digest;
    fn info(&self) -> (Option<usize>, usize);
    fn cl(&self) -> Option<Box<dyn Dg>>;
}
struct Cl<D>(D);
impl<D: Digest + Clone + 'static> Dg for Cl<D> {
    fn d(&mut self) -> &mut dyn Digest {
        &mut self.0
    }
    fn info(&self) -> (Option<usize>, usize) {
        (self.0.block_size(), self.0.bits_len())
    }
    fn cl(&self) -> Option<Box<dyn Dg>> {
        Some(Box::new(Cl(self.0.clone())))
    }
}
struct NoCl<D>(D);
impl<D: Digest + 'static> Dg for NoCl<D> {
    fn d(&mut self) -> &mut dyn Digest {
        &mut self.0
    }
    fn info(&self) -> (Option<usize>, usize) {
        (self.0.block_size(), self.0.bits_len())
    }
    fn cl(&self) -> Option<Box<dyn Dg>> {
        None
    }
}
pub type Model = Box<dyn Fn(&[u8]) -> Vec<u8>>;
/// (name, object through the plain type, object through the wrapper type, model, bits, block)
pub struct Alg {
    pub name: String,
    pub obj: Box<dyn Dg>,
    pub model: Model,
    pub bits: usize,
    pub block: Option<usize>,
}
fn alg<D: Digest + Clone + 'static>(name: &str, d: D, model: Model, bits: usize, block: Option<usize>) -> Alg {
    Alg { name: name.to_string(), obj: Box::new(Cl(d)), model, bits, block }
}
/// the hashes of C10 through the plain and the enum-like types
pub fn classic(i: usize) -> Alg {
    match i % 16 {
        0 => alg("MD5", MD5::new(), Box::new(md5), 128, Some(64)),
        1 => alg("SHA1", sha::SHA1::new(), Box::new(sha1), 160, Some(64)),
        2 => alg("SHA224", sha::SHA224::new(), Box::new(sha224), 224, Some(64)),
        3 => alg("SHA256", sha::SHA256::new(), Box::new(sha256), 256, Some(64)),
        4 => alg("SHA384", sha::SHA384::new(), Box::new(sha384), 384, Some(128)),
        5 => alg("SHA512", sha::SHA512::new(), Box::new(sha512), 512, Some(128)),
        6 => alg("SHA512T224", sha::SHA512T224::new(), Box::new(sha512_224), 224, Some(128)),
        7 => alg("SHA512T256", sha::SHA512T256::new(), Box::new(sha512_256), 256, Some(128)),
        8 => alg("SM3", SM3::new(), Box::new(sm3), 256, Some(64)),
        9 => alg("SHA::sha1", SHA::sha1(), Box::new(sha1), 160, Some(64)),
        10 => alg("SHA::sha224", SHA::sha224(), Box::new(sha224), 224, Some(64)),
        11 => alg("SHA::sha256", SHA::sha256(), Box::new(sha256), 256, Some(64)),
        12 => alg("SHA::sha384", SHA::sha384(), Box::new(sha384), 384, Some(128)),
        13 => alg("SHA::sha512", SHA::sha512(), Box::new(sha512), 512, Some(128)),
        14 => alg("SHA::sha512_224", SHA::sha512_224(), Box::new(sha512_224), 224, Some(128)),
        _ => alg("SHA::sha512_256", SHA::sha512_256(), Box::new(sha512_256), 256, Some(128)),
    }
}
pub fn third(i: usize) -> Alg {
    match i % 8 {
        0 => alg("SHA3-224", sha3::SHA224::new(), Box::new(rk::sha3_224), 224, Some(144)),
        1 => alg("SHA3-256", sha3::SHA256::new(), Box::new(rk::sha3_256), 256, Some(136)),
        2 => alg("SHA3-384", sha3::SHA384::new(), Box::new(rk::sha3_384), 384, Some(104)),
        3 => alg("SHA3-512", sha3::SHA512::new(), Box::new(rk::sha3_512), 512, Some(72)),
        4 => alg("SHA3::sha224", SHA3::sha224(), Box::new(rk::sha3_224), 224, Some(144)),
        5 => alg("SHA3::sha256", SHA3::sha256(), Box::new(rk::sha3_256), 256, Some(136)),
        6 => alg("SHA3::sha384", SHA3::sha384(), Box::new(rk::sha3_384), 384, Some(104)),
        _ => alg("SHA3::sha512", SHA3::sha512(), Box::new(rk::sha3_512), 512, Some(72)),
    }
}
fn msg_len(rng: &mut Rng, block: usize) -> usize {
    match rng.below(8) {
        0 => rng.below(block + 1),
        1 => block - 1 - rng.below(20.min(block)),
        2 => block * rng.range(1, 4),
        3 => block * rng.range(1, 4) - rng.below(20.min(block)),
        4 => block * rng.range(1, 4) + rng.below(20),
        5 => rng.below(block * 8),
        6 => rng.below(4),
        _ => rng.below(block * 3),
    }
}
fn feed(d: &mut dyn Digest, rng: &mut Rng, m: &[u8], unit: usize) -> usize {
    let mut at = 0;
    let mut w = 0;
    for n in rng.split(m.len(), unit) {
        d.write(&m[at..at + n]);
        at += n;
        w += 1;
    }
    w
}
fn sum(d: &mut dyn Digest, rng: &mut Rng) -> Vec<u8> {
    let n = rng.below(80);
    let mut out = rng.bytes(n);
    d.checksum(&mut out);
    out
}

fn c10_random(cx: &mut Cx) -> R {
    for i in 0..32 {
        let mut a = classic(i);
        let b = a.block.unwrap_or(64);
        ensure!(a.obj.info() == (a.block, a.bits), format!("{}:info", a.name), "{} advertises {:?}", a.name, a.obj.info());
        let n = msg_len(&mut cx.rng, b);
        let m = cx.rng.patterned(n);
        let w = feed(a.obj.d(), &mut cx.rng, &m, b);
        let got = sum(a.obj.d(), &mut cx.rng);
        same!(got, (a.model)(&m), a.name, "{} of {} in {} writes", a.name, hx(&m), w);
        cx.case(&[a.name.as_bytes(), &m, &(w as u32).to_le_bytes()]);
        cx.note(&[&got]);
        let e = format!("{} digests compared", a.name);
        cx.ev(&e);
        cx.evn("writes", w as u64);
        if n % b == 0 && n > 0 {
            cx.ev("messages of whole blocks");
        }
        if n % b >= b - b / 8 {
            cx.ev("messages whose padding needs another block");
        }
    }
    cx.sample(|| "16 hash types, random messages and splits".into());
    Ok(())
}
/// every length up to five blocks, in one write and in two
fn c10_lengths(cx: &mut Cx) -> R {
    let a = classic(cx.idx);
    let b = a.block.unwrap_or(64);
    let m = cx.rng.bytes(5 * b);
    for n in 0..=m.len() {
        let want = (a.model)(&m[..n]);
        let cut = cx.rng.below(n + 1);
        for two in [false, true] {
            let mut o = match a.obj.cl() {
                Some(o) => o,
                None => panic!("HARNESS-ERROR not cloneable"),
            };
            if two {
                o.d().write(&m[..cut]);
                o.d().write(&m[cut..n]);
            } else {
                o.d().write(&m[..n]);
            }
            let mut out = vec![];
            o.d().checksum(&mut out);
            same!(out, want, a.name, "{} of the first {} bytes of {} two={} cut={}", a.name, n, hx(&m), two, cut);
            cx.case(&[a.name.as_bytes(), &m[..n], &[two as u8]]);
        }
        cx.ev("lengths swept");
    }
    Ok(())
}
/// Messages of more than 2^32 bits: 536870919 bytes, byte i = low byte of (i*i>>7)+i over 1 MiB pages.
const HUGE: [(usize, &str); 9] = include!("huge.in");
/// The same pages, 4294967303 bytes.
const VAST: [(usize, &str); 9] = include!("vast.in");
fn c10_huge(cx: &mut Cx) -> R {
    let (i, want) = HUGE[cx.idx % 9];
    paged(cx, i, (1 << 29) + 7, want, "messages longer than 2^32 bits")
}
fn c10_vast(cx: &mut Cx) -> R {
    let (i, want) = VAST[cx.idx % 9];
    paged(cx, i, (1 << 32) + 7, want, "messages longer than 2^32 bytes")
}
fn paged(cx: &mut Cx, i: usize, total: usize, want: &str, ev: &str) -> R {
    let mut a = classic(i);
    let page: Vec<u8> = (0..1usize << 20).map(|i| ((i * i >> 7) + i) as u8).collect();
    let mut left = total;
    let mut k = 0usize;
    while left > 0 {
        let mut n = left.min(page.len());
        if k % 64 == 1 {
            // an unaligned write now and then
            let h = n.min(1000 + k);
            a.obj.d().write(&page[..h]);
            a.obj.d().write(&page[h..n]);
        } else {
            a.obj.d().write(&page[..n]);
        }
        k += 1;
        n = n.min(left);
        left -= n;
    }
    let mut out = vec![];
    a.obj.d().checksum(&mut out);
    same!(out, unhex(want), format!("{}:huge", a.name), "{} of {} bytes", a.name, total);
    cx.case(&[a.name.as_bytes(), &total.to_le_bytes()]);
    cx.ev(ev);
    Ok(())
}

fn c11_t(cx: &mut Cx) -> R {
    let ts: Vec<usize> = (0..520).filter(|t| t % 8 == cx.idx % 8 || cx.rng.chance(1, 8)).chain([520, 1000, 4096, usize::MAX, 1 << 32, (1 << 32) + 256]).collect();
    for t in ts {
        let legal = t > 0 && t < 512 && t != 384;
        let r = no_panic(|| (sha::SHA512T::new(t), SHA::sha512t(t)));
        let (a, b) = match r {
            Ok(x) => x,
            Err(m) => return broken("sha512t:panic", format!("t={}: {}", t, m)),
        };
        ensure!(a.is_some() == legal && b.is_some() == legal, "sha512t:accepted", "t={}: SHA512T {} SHA::sha512t {}", t, a.is_some(), b.is_some());
        if !legal {
            cx.ev("meaningless t refused");
            cx.case(&[&t.to_le_bytes()]);
            continue;
        }
        let (mut a, mut b) = match (a, b) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        for round in 0..3 {
            let n = msg_len(&mut cx.rng, 128);
            let m = cx.rng.patterned(n);
            let want = sha512t(&m, t);
            for d in [&mut a as &mut dyn Digest, &mut b as &mut dyn Digest] {
                ensure!(d.bits_len() == t && d.block_size() == Some(128), "sha512t:info", "t={}: advertises {} {:?}", t, d.bits_len(), d.block_size());
                if round == 2 || cx.rng.chance(1, 4) {
                    d.reset();
                    cx.ev("resets");
                } else if round == 1 && n == 0 {
                    d.reset();
                }
                feed(d, &mut cx.rng, &m, 128);
                if round == 1 && m.is_empty() {
                    cx.ev("empty messages");
                }
                let got = sum(d, &mut cx.rng);
                same!(got, want, "sha512t", "t={} round {} message {}", t, round, hx(&m));
                cx.note(&[&got]);
                // a fresh start for the next round unless it begins with a non-empty write
                d.reset();
            }
            if t == 224 || t == 256 {
                let mut dd: Box<dyn Digest> = if t == 224 { Box::new(sha::SHA512T224::new()) } else { Box::new(sha::SHA512T256::new()) };
                dd.write(&m);
                let mut out = vec![];
                dd.checksum(&mut out);
                same!(out, want, "sha512t:dedicated", "t={} message {}", t, hx(&m));
                cx.ev("dedicated types compared");
            }
            cx.case(&[&t.to_le_bytes(), &m]);
            cx.ev(if t % 8 == 0 { "whole-byte t" } else { "partial-byte t" });
        }
    }
    cx.sample(|| "t from 0 to 520 and huge values".into());
    Ok(())
}

enum S3 {
    A(sha3::SHA224),
    B(sha3::SHA256),
    C(sha3::SHA384),
    D(sha3::SHA512),
    W(SHA3),
}
impl S3 {
    fn dg(&mut self) -> &mut dyn Digest {
        match self {
            S3::A(x) => x,
            S3::B(x) => x,
            S3::C(x) => x,
            S3::D(x) => x,
            S3::W(x) => x,
        }
    }
    fn bit(&mut self, b: u8) {
        match self {
            S3::A(x) => x.write_bit(b),
            S3::B(x) => x.write_bit(b),
            S3::C(x) => x.write_bit(b),
            S3::D(x) => x.write_bit(b),
            S3::W(x) => x.write_bit(b),
        }
    }
}
fn c12_sha3(cx: &mut Cx) -> R {
    for _ in 0..4 {
        let (mut s, bits): (S3, usize) = match cx.rng.below(8) {
            0 => (S3::A(sha3::SHA224::new()), 224),
            1 => (S3::B(sha3::SHA256::new()), 256),
            2 => (S3::C(sha3::SHA384::new()), 384),
            3 => (S3::D(sha3::SHA512::new()), 512),
            4 => (S3::W(SHA3::sha224()), 224),
            5 => (S3::W(SHA3::sha256()), 256),
            6 => (S3::W(SHA3::sha384()), 384),
            _ => (S3::W(SHA3::sha512()), 512),
        };
        let rate = 1600 - 2 * bits;
        ensure!(s.dg().bits_len() == bits && s.dg().block_size() == Some(rate / 8), "sha3:info", "SHA3-{} advertises {} {:?}", bits, s.dg().bits_len(), s.dg().block_size());
        let with_bits = cx.rng.bool();
        let target = match cx.rng.below(3) {
            0 => rate - 6 + cx.rng.below(12),
            1 => 2 * rate - 6 + cx.rng.below(12),
            _ => cx.rng.below(3 * rate),
        };
        let mut msg: Vec<u8> = vec![];
        while msg.len() < target {
            let left = target - msg.len();
            if with_bits && (left < 8 || cx.rng.chance(1, 3)) {
                for _ in 0..cx.rng.range(1, 9).min(left) {
                    let b = cx.rng.u8();
                    s.bit(b);
                    msg.push(b & 1);
                    cx.ev("single bits written");
                }
            } else if left >= 8 {
                let n = cx.rng.below(left / 8 + 1);
                let d = cx.rng.patterned(n);
                s.dg().write(&d);
                msg.extend(rk::to_bits(&d));
                cx.ev("byte writes");
            } else {
                break;
            }
        }
        let got = sum(s.dg(), &mut cx.rng);
        let want = rk::sha3_bits(bits, &msg);
        same!(got, want, format!("sha3-{}", bits), "{} message bits {}", msg.len(), hx(&rk::from_bits(&msg)));
        cx.case(&[&[bits as u8, (bits >> 8) as u8], &msg]);
        cx.note(&[&got]);
        if msg.len() % 8 != 0 {
            cx.ev("bit-unaligned messages");
        }
        if msg.len() % rate >= rate - 4 {
            cx.ev("suffix and padding straddling a block");
        }
        cx.ev("SHA-3 digests compared");
    }
    Ok(())
}
fn c12_shake(cx: &mut Cx) -> R {
    for _ in 0..4 {
        let sec = if cx.rng.bool() { 128 } else { 256 };
        let rate = 1600 - 2 * sec;
        let pick = |rng: &mut Rng| match rng.below(4) {
            0 => rng.below(20),
            1 => rate - 9 + rng.below(18),
            2 => 2 * rate - 9 + rng.below(18),
            _ => rng.below(3 * rate),
        };
        let mut d = pick(&mut cx.rng);
        let mut raw = false;
        enum S {
            A(sha3::Shake128),
            B(sha3::Shake256),
        }
        let mut s = if sec == 128 { S::A(sha3::Shake128::new(d)) } else { S::B(sha3::Shake256::new(d)) };
        for round in 0..2 {
            if round == 1 {
                d = pick(&mut cx.rng);
                match &mut s {
                    S::A(x) => x.set_digest_len(d),
                    S::B(x) => x.set_digest_len(d),
                }
                cx.ev("output lengths changed");
            }
            let n = msg_len(&mut cx.rng, rate / 8);
            let m = cx.rng.patterned(n);
            let cut = cx.rng.below(n + 1);
            let make_raw = !raw && cx.rng.chance(1, 2);
            let dg: &mut dyn Digest = match &mut s {
                S::A(x) => x,
                S::B(x) => x,
            };
            feed(dg, &mut cx.rng, &m[..cut], rate / 8);
            if make_raw {
                s = match s {
                    S::A(x) => S::A(x.to_raw_shake()),
                    S::B(x) => S::B(x.to_raw_shake()),
                };
                raw = true;
            }
            let is_raw = match &s {
                S::A(x) => x.is_raw_shake(),
                S::B(x) => x.is_raw_shake(),
            };
            ensure!(is_raw == raw, "shake:is_raw", "is_raw_shake {} expected {}", is_raw, raw);
            let dg: &mut dyn Digest = match &mut s {
                S::A(x) => x,
                S::B(x) => x,
            };
            feed(dg, &mut cx.rng, &m[cut..], rate / 8);
            ensure!(dg.bits_len() == d, "shake:bits_len", "{} for {}", dg.bits_len(), d);
            let got = sum(dg, &mut cx.rng);
            let want = rk::shake_bits(sec, &rk::to_bits(&m), d, raw);
            same!(got, want, format!("shake{}", sec), "d={} raw={} message {}", d, raw, hx(&m));
            cx.case(&[&[sec as u8, raw as u8], &m, &(d as u32).to_le_bytes()]);
            cx.note(&[&got]);
            cx.ev(if raw { "raw SHAKE outputs compared" } else { "SHAKE outputs compared" });
            if d > rate {
                cx.ev("outputs longer than the rate");
            }
            if d % 8 != 0 {
                cx.ev("outputs of partial bytes");
            }
        }
    }
    Ok(())
}
/// outputs of many permutations
fn c12_outputs(cx: &mut Cx) -> R {
    let sec = if cx.rng.bool() { 128 } else { 256 };
    let d = match cx.rng.below(3) { 0 => (1usize << cx.rng.range(12, 17)) + cx.rng.below(40) - 20, 1 => cx.rng.below(20_000), _ => cx.rng.below(150_000) };
    let n = cx.rng.below(400);
    let m = cx.rng.patterned(n);
    let mut got = vec![5; 3];
    let raw = cx.rng.bool();
    if sec == 128 {
        let s = sha3::Shake128::new(d);
        let mut s = if raw { s.to_raw_shake() } else { s };
        s.write(&m);
        s.checksum(&mut got);
    } else {
        let s = sha3::Shake256::new(d);
        let mut s = if raw { s.to_raw_shake() } else { s };
        s.write(&m);
        s.checksum(&mut got);
    }
    same!(got, rk::shake_bits(sec, &rk::to_bits(&m), d, raw), format!("shake{}", sec), "d={} raw={} message {}", d, raw, hx(&m));
    cx.case(&[&[sec as u8, raw as u8], &m, &(d as u32).to_le_bytes()]);
    cx.note(&[&got]);
    cx.ev("outputs of many permutations");
    Ok(())
}

fn keccak(b: usize, nr: u32, named: bool) -> Result<Keccak, Broken> {
    if named {
        return Ok(match b {
            25 => Keccak::keccak_25(nr),
            50 => Keccak::keccak_50(nr),
            100 => Keccak::keccak_100(nr),
            200 => Keccak::keccak_200(nr),
            400 => Keccak::keccak_400(nr),
            800 => Keccak::keccak_800(nr),
            _ => Keccak::keccak_1600(nr),
        });
    }
    Keccak::new(b, nr).map_err(|e| Broken { sig: "keccak:ctor".into(), detail: format!("width {} refused: {}", b, e) })
}
fn c13_sponge(cx: &mut Cx) -> R {
    for _ in 0..6 {
        let b = *cx.rng.pick(&[25usize, 50, 100, 200, 400, 800, 1600]);
        let l = (b / 25).trailing_zeros() as usize;
        let std_nr = 12 + 2 * l;
        let nr = match cx.rng.below(6) {
            0 => std_nr,
            1 => cx.rng.below(std_nr + 1),
            2 => std_nr + cx.rng.range(1, 12),
            3 => std_nr + cx.rng.below(300),
            4 => cx.rng.below(3),
            _ => cx.rng.below(40),
        } as u32;
        let rate = match cx.rng.below(4) {
            0 => 1,
            1 => b - 1,
            2 => (b / 2).max(1),
            _ => cx.rng.range(1, b - 1),
        };
        let k = keccak(b, nr, cx.rng.bool())?;
        ensure!(k.widths() == b, "keccak:widths", "{} for {}", k.widths(), b);
        let sp = if cx.rng.bool() { k.sponge(rate) } else { KeccakSponge::new(k, rate) };
        let mut sp = match sp {
            Ok(s) => s,
            Err(e) => return broken("keccak:rate-refused", format!("width {} rate {}: {}", b, rate, e)),
        };
        let mut cl = if cx.rng.bool() { Some(sp.clone()) } else { None };
        for use_no in 0..3 {
            // keep the number of permutations bounded
            let max_bits = (rate * 5).min(3000).max(1);
            let nbits = cx.rng.below(max_bits);
            let data = cx.rng.patterned(nbits / 8 + 1 + cx.rng.clone().below(3));
            let want_bits = cx.rng.below((rate * 4).min(2000) + 9);
            let n = cx.rng.below(50);
            let mut out = cx.rng.bytes(n);
            let s = if use_no == 1 { cl.as_mut().unwrap_or(&mut sp) } else { &mut sp };
            s.sponge(&data, nbits, want_bits, &mut out);
            let bits = &rk::to_bits(&data)[..nbits];
            let want = rk::from_bits(&rk::sponge_bits(b, nr, rate, bits, want_bits));
            same!(out, want, "keccak:sponge", "width {} rounds {} rate {} use {}: {} bits of {} to {} bits", b, nr, rate, use_no, nbits, hx(&data), want_bits);
            cx.case(&[&(b as u32).to_le_bytes(), &nr.to_le_bytes(), &(rate as u32).to_le_bytes(), &data, &(nbits as u32).to_le_bytes(), &(want_bits as u32).to_le_bytes()]);
            cx.note(&[&out]);
            cx.ev("sponge outputs compared");
            if nr as usize > std_nr {
                cx.ev("more rounds than the standard number");
            }
            if use_no > 0 {
                cx.ev("repeated uses of one sponge");
            }
        }
        cx.sample(|| format!("width {} rounds {} rate {}", b, nr, rate));
    }
    Ok(())
}
fn c13_params(cx: &mut Cx) -> R {
    for b in 0..2000usize {
        let ok = [25, 50, 100, 200, 400, 800, 1600].contains(&b);
        let r = Keccak::new(b, 24);
        ensure!(r.is_ok() == ok, "keccak:width-accepted", "width {} accepted={}", b, r.is_ok());
        cx.ev(if ok { "widths accepted" } else { "widths refused" });
        if let Ok(k) = r {
            for rate in (0..=b + 10).chain([1 << 20, usize::MAX]) {
                // no construction of vectors of absurd capacity if the refusal is missing
                if rate > 1 << 21 {
                    continue;
                }
                let ok = rate > 0 && rate < b;
                let r = no_panic(|| k.sponge(rate).is_ok());
                ensure!(r == Ok(ok), "keccak:rate", "width {} rate {}: {:?}", b, rate, r);
                cx.case(&[&(b as u32).to_le_bytes(), &(rate as u32).to_le_bytes()]);
                cx.ev(if ok { "rates accepted" } else { "rates refused" });
            }
        }
    }
    Ok(())
}
/// the bare permutation on the zero state, whose packing is unambiguous
fn c13_perm(cx: &mut Cx) -> R {
    let b = [25usize, 50, 100, 200, 400, 800, 1600][cx.idx % 7];
    for nr in 0..60u32 {
        let mut k = keccak(b, nr, false)?;
        let want = {
            let mut a = [0u64; 25];
            rk::permute(&mut a, b / 25, nr);
            let w = b / 25;
            let bits: Vec<u8> = (0..b).map(|i| ((a[i / w] >> (i % w)) & 1) as u8).collect();
            rk::from_bits(&bits)
        };
        for again in 0..2 {
            let zero = vec![0u8; (b + 7) / 8 + again];
            let mut out = vec![9; 3];
            match k.permutation(&zero, &mut out) {
                Ok(n) => ensure!(n == b, "keccak:perm-len", "permutation of width {} reports {} bits", b, n),
                Err(e) => return broken("keccak:perm-refused", format!("width {}: {}", b, e)),
            }
            same!(out, want, "keccak:permutation", "width {} rounds {} on the zero state, use {}", b, nr, again);
        }
        let short = vec![0u8; (b + 7) / 8 - 1];
        ensure!(k.permutation(&short, &mut vec![]).is_err(), "keccak:short", "width {} accepts {} bytes", b, short.len());
        cx.case(&[&(b as u32).to_le_bytes(), &nr.to_le_bytes()]);
        cx.ev("permutations of the zero state compared");
    }
    Ok(())
}

/// any hash or MAC object with its model
fn shake_alg(rng: &mut Rng) -> Alg {
    let d = rng.range(1, 600);
    let raw = rng.bool();
    if rng.bool() {
        let s = sha3::Shake128::new(d);
        let s = if raw { s.to_raw_shake() } else { s };
        alg("Shake128", s, Box::new(move |m| rk::shake_bits(128, &rk::to_bits(m), d, raw)), d, None)
    } else {
        let s = sha3::Shake256::new(d);
        let s = if raw { s.to_raw_shake() } else { s };
        alg("Shake256", s, Box::new(move |m| rk::shake_bits(256, &rk::to_bits(m), d, raw)), d, None)
    }
}
fn sha512t_alg(rng: &mut Rng) -> Alg {
    let t = loop {
        let t = rng.range(1, 511);
        if t != 384 {
            break t;
        }
    };
    let model: Model = Box::new(move |m| sha512t(m, t));
    match (sha::SHA512T::new(t), SHA::sha512t(t), rng.bool()) {
        (Some(s), _, true) => alg("SHA512T", s, model, t, Some(128)),
        (_, Some(s), false) => alg("SHA::sha512t", s, model, t, Some(128)),
        _ => classic(5),
    }
}
fn any_alg(rng: &mut Rng) -> Alg {
    match rng.below(7) {
        0 | 1 => { let k = rng.below(16); classic(k) }
        2 => { let k = rng.below(8); third(k) }
        3 => shake_alg(rng),
        4 => sha512t_alg(rng),
        5 => hmac_alg(rng),
        _ => {
            if rng.bool() {
                zmac_alg(rng)
            } else {
                cmac_alg(rng)
            }
        }
    }
}
fn hmac_key(rng: &mut Rng, b: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => b,
        2 => b + 1,
        3 => b - 1,
        4 => rng.below(b),
        _ if rng.chance(1, 12) => rng.range(250, 2000),
        _ if rng.chance(1, 40) => 65536 - b + rng.below(3 * b),
        _ => b + rng.below(3 * b),
    };
    rng.patterned(n)
}
macro_rules! with_hash {
    ($i:expr, $d:ident, $h:ident, $b:ident, $n:ident => $e:expr) => {
        match $i % 14 {
            0 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (MD5::new(), md5, 64, "MD5"); $e }
            1 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA1::new(), sha1, 64, "SHA1"); $e }
            2 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA224::new(), sha224, 64, "SHA224"); $e }
            3 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA256::new(), sha256, 64, "SHA256"); $e }
            4 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA384::new(), sha384, 128, "SHA384"); $e }
            5 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA512::new(), sha512, 128, "SHA512"); $e }
            6 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA512T224::new(), sha512_224, 128, "SHA512T224"); $e }
            7 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha::SHA512T256::new(), sha512_256, 128, "SHA512T256"); $e }
            8 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (SM3::new(), sm3, 64, "SM3"); $e }
            9 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha3::SHA224::new(), rk::sha3_224, 144, "SHA3-224"); $e }
            10 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha3::SHA256::new(), rk::sha3_256, 136, "SHA3-256"); $e }
            11 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha3::SHA384::new(), rk::sha3_384, 104, "SHA3-384"); $e }
            12 => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (sha3::SHA512::new(), rk::sha3_512, 72, "SHA3-512"); $e }
            _ => { let ($d, $h, $b, $n): (_, HashFn, usize, &str) = (SHA::sha256(), sha256, 64, "SHA::sha256"); $e }
        }
    };
}
fn hmac_alg(rng: &mut Rng) -> Alg {
    let i = rng.below(14);
    with_hash!(i, d, h, b, n => {
        let key = hmac_key(rng, b);
        let bits = d.bits_len();
        match HMAC::new(key.clone(), d) {
            Ok(m) => alg(&format!("HMAC-{}", n), m, Box::new(move |x| hmac(h, b, &key, x)), bits, Some(b)),
            Err(_) => classic(3),
        }
    })
}
pub fn zmac_alg(rng: &mut Rng) -> Alg {
    let (count, bearer, dir, ck) = (rng.u32(), rng.u8() & 31, rng.bool(), rng.bytes(16));
    let o = rcrypto::ZUCMac::new(count, bearer, dir, arr(&ck));
    alg("ZUCMac", o, Box::new(move |m| rz::eia3(count, bearer, dir, &ck, m)), 32, None)
}
fn cmac_alg(rng: &mut Rng) -> Alg {
    loop {
        let p = any_pair(rng);
        let bs = p.r.bs();
        if rm::rb_for(bs).is_none() {
            continue;
        }
        let r = p.r;
        if let Ok(c) = CMAC::new(p.c) {
            return Alg { name: "CMAC".into(), obj: Box::new(NoCl(c)), model: Box::new(move |m| rm::cmac(&*r, m)), bits: bs * 8, block: Some(bs) };
        }
        return classic(0);
    }
}
/// random histories of write, checksum, reset and clone against the message since the last start
pub fn history(cx: &mut Cx, pick: fn(&mut Rng) -> Alg) -> R {
    for _ in 0..8 {
        let a = pick(&mut cx.rng);
        let unit = a.block.unwrap_or(16);
        // several live copies, each with its own message and a flag for "checked"
        let mut live: Vec<(Box<dyn Dg>, Vec<u8>, bool)> = vec![(a.obj, vec![], false)];
        let steps = cx.rng.range(8, 30);
        let mut trace: Vec<String> = vec![];
        for _ in 0..steps {
            let k = cx.rng.below(live.len());
            match cx.rng.below(10) {
                0..=4 => {
                    let n = msg_len(&mut cx.rng, unit);
                    let n = if live[k].2 && n == 0 { 1 } else { n };
                    let d = cx.rng.patterned(n);
                    live[k].0.d().write(&d);
                    if live[k].2 {
                        live[k].1.clear();
                        live[k].2 = false;
                        cx.ev("writes after a checksum");
                    }
                    live[k].1.extend_from_slice(&d);
                    trace.push(format!("{}:write({})", k, n));
                    cx.ev("writes");
                }
                5..=7 => {
                    let again = live[k].2;
                    let got = sum(live[k].0.d(), &mut cx.rng);
                    trace.push(format!("{}:checksum", k));
                    let want = (a.model)(&live[k].1);
                    same!(got, want, format!("{}:history", a.name), "{} after {}; message {}", a.name, trace.join(" "), hx(&live[k].1));
                    live[k].2 = true;
                    cx.case(&[a.name.as_bytes(), trace.join(" ").as_bytes(), &live[k].1]);
                    cx.note(&[&got]);
                    cx.ev(if again { "repeated checksums" } else { "checksums" });
                }
                8 => {
                    live[k].0.d().reset();
                    live[k].1.clear();
                    live[k].2 = false;
                    trace.push(format!("{}:reset", k));
                    cx.ev("resets");
                }
                _ => {
                    if live.len() < 4 {
                        if let Some(c) = live[k].0.cl() {
                            let (m, f) = (live[k].1.clone(), live[k].2);
                            live.push((c, m, f));
                            trace.push(format!("{}=clone({})", live.len() - 1, k));
                            cx.ev("clones");
                        }
                    }
                }
            }
        }
        let e = format!("histories of {}", a.name.split(|c| c == '-' || c == ':').next().unwrap_or(""));
        cx.ev(&e);
        cx.sample(|| format!("{}: {}", a.name, trace.join(" ")));
    }
    Ok(())
}

pub fn c14_history(cx: &mut Cx) -> R {
    history(cx, any_alg)
}
fn c10_history(cx: &mut Cx) -> R {
    history(cx, |r| { let k = r.below(16); classic(k) })
}
fn c11_history(cx: &mut Cx) -> R {
    history(cx, sha512t_alg)
}
fn c12_history(cx: &mut Cx) -> R {
    history(cx, |r| if r.bool() { shake_alg(r) } else { let k = r.below(8); third(k) })
}
fn c15_history(cx: &mut Cx) -> R {
    history(cx, hmac_alg)
}
fn c16_history(cx: &mut Cx) -> R {
    history(cx, cmac_alg)
}
/// messages of many blocks, around powers of two
pub fn long(cx: &mut Cx, pick: fn(&mut Rng) -> Alg) -> R {
    let mut a = pick(&mut cx.rng);
    let b = a.block.unwrap_or(16);
    let n = match cx.rng.below(3) {
        _ if cx.idx % 50 == 7 => (1usize << 20) - b.min(1000) + cx.rng.below(3 * b),
        0 => (1usize << cx.rng.range(10, 17)) + cx.rng.below(2 * b + 1) - b.min(1000),
        1 => cx.rng.below(5000),
        _ => cx.rng.below(140_000),
    };
    let m = cx.rng.patterned(n);
    if cx.rng.bool() {
        a.obj.d().write(&m);
    } else {
        let mut at = 0;
        while at < n {
            let most = *cx.rng.pick(&[200, 9000]);
            let k = (1 + cx.rng.below(most)).min(n - at);
            a.obj.d().write(&m[at..at + k]);
            at += k;
        }
    }
    let got = sum(a.obj.d(), &mut cx.rng);
    same!(got, (a.model)(&m), format!("{}:long", a.name), "{} of {} bytes {}", a.name, n, hx(&m));
    cx.case(&[a.name.as_bytes(), &m]);
    cx.note(&[&got]);
    cx.ev("long messages");
    cx.sample(|| format!("{}: {} bytes", a.name, n));
    Ok(())
}
fn c10_long(cx: &mut Cx) -> R {
    long(cx, |r| { let k = r.below(16); classic(k) })
}
fn c11_long(cx: &mut Cx) -> R {
    long(cx, sha512t_alg)
}
fn c12_long(cx: &mut Cx) -> R {
    long(cx, |r| if r.bool() { shake_alg(r) } else { let k = r.below(8); third(k) })
}
fn c15_long(cx: &mut Cx) -> R {
    long(cx, hmac_alg)
}
fn c16_long(cx: &mut Cx) -> R {
    long(cx, cmac_alg)
}

fn c15_hmac(cx: &mut Cx) -> R {
    for i in 0..14 {
        with_hash!(i, d, h, b, n => {
            let key = hmac_key(&mut cx.rng, b);
            let mut d = d;
            // the hash handed over may have been used before
            if cx.rng.chance(1, 3) {
                d.write(b"left over");
                if cx.rng.bool() { d.checksum(&mut vec![]); }
                cx.ev("used hash objects handed over");
            }
            let mut o = match HMAC::new(key.clone(), d) {
                Ok(o) => o,
                Err(e) => return broken("hmac:ctor", format!("HMAC-{}: {}", n, e)),
            };
            let mut key = key;
            let mut follows = false;
            for round in 0..4 {
                let mut len = msg_len(&mut cx.rng, b);
                if follows && len == 0 {
                    len = 1;
                }
                if follows {
                    cx.ev("messages following without a reset");
                }
                follows = false;
                let m = cx.rng.patterned(len);
                feed(&mut o, &mut cx.rng, &m, b);
                let got = sum(&mut o, &mut cx.rng);
                same!(got, hmac(h, b, &key, &m), format!("hmac-{}", n), "round {} key {} ({} bytes) message {}", round, hx(&key), key.len(), hx(&m));
                cx.case(&[n.as_bytes(), &key, &m]);
                cx.note(&[&got]);
                cx.ev(if key.is_empty() { "empty keys" } else if key.len() > b { "keys longer than the block" } else if key.len() == b { "keys of one block" } else { "short keys" });
                match cx.rng.below(4) {
                    0 => {
                        o.reset();
                        cx.ev("resets");
                    }
                    // the next message follows at once, or after this one was asked for again
                    k @ 1..=2 => {
                        if k == 2 {
                            let again = sum(&mut o, &mut cx.rng);
                            same!(again, got, format!("hmac-{}:again", n), "round {} key {} ({} bytes) message {}", round, hx(&key), key.len(), hx(&m));
                        }
                        follows = true;
                    }
                    _ => {
                        // change the key, sometimes in the middle of a message
                        if cx.rng.bool() {
                            o.write(b"abandoned");
                        }
                        key = hmac_key(&mut cx.rng, b);
                        o.set_key(key.clone());
                        cx.ev("key changes");
                    }
                }
            }
            let e = format!("HMAC-{} compared", n);
            cx.ev(&e);
        });
    }
    // no block size: refused
    ensure!(HMAC::new(vec![1; 16], rcrypto::ZUCMac::new(1, 2, true, [3; 16])).is_err(), "hmac:noblock", "HMAC over a hash without block size accepted");
    ensure!(HMAC::new(vec![1; 16], NoBlock).is_err(), "hmac:noblock", "HMAC over a hash without block size accepted");
    cx.ev("hashes without block size refused");
    cx.sample(|| "14 hashes, keys around the block size, key changes".into());
    Ok(())
}
struct NoBlock;
impl Digest for NoBlock {
    fn block_size(&self) -> Option<usize> {
        None
    }
    fn bits_len(&self) -> usize {
        128
    }
    fn write(&mut self, _: &[u8]) {}
    fn checksum(&mut self, d: &mut Vec<u8>) {
        d.clear();
        d.resize(16, 0);
    }
    fn reset(&mut self) {}
}

fn c16_cmac(cx: &mut Cx) -> R {
    for _ in 0..20 {
        let p = any_pair(&mut cx.rng);
        cmac_pair(cx, p)?;
    }
    Ok(())
}
fn cmac_pair(cx: &mut Cx, p: Pair) -> R {
    let bs = p.r.bs();
    let supported = rm::rb_for(bs).is_some();
    ensure!(CMAC::is_support(&p.c) == supported, "cmac:is_support", "block size {}: is_support {}", bs, !supported);
    let o = CMAC::new(p.c.clone());
    ensure!(o.is_ok() == supported, "cmac:support", "block size {}: accepted={}", bs, o.is_ok());
    let mut o = match o {
        Ok(o) => o,
        Err(_) => {
            cx.ev("unsupported block sizes refused");
            cx.case(&[&[bs as u8]]);
            return Ok(());
        }
    };
    ensure!(o.block_size() == Some(bs) && o.bits_len() == bs * 8, "cmac:info", "{:?} {}", o.block_size(), o.bits_len());
    for _ in 0..3 {
        let n = msg_len(&mut cx.rng, bs);
        let m = cx.rng.patterned(n);
        feed(&mut o, &mut cx.rng, &m, bs);
        let got = sum(&mut o, &mut cx.rng);
        same!(got, rm::cmac(&*p.r, &m), "cmac", "{} (block {}) key {} message {}", p.name, bs, hex(&p.key), hx(&m));
        cx.case(&[p.name.as_bytes(), &p.key, &m]);
        cx.note(&[&got]);
        cx.ev(if n == 0 { "empty messages" } else if n % bs == 0 { "whole-block messages" } else { "partial-block messages" });
        let e = format!("block size {}", bs);
        cx.ev(&e);
        o.reset();
    }
    Ok(())
}
/// every block size from 1 to 300 with toy ciphers, chosen so that the subkey carries are exercised
fn c16_sizes(cx: &mut Cx) -> R {
    for bs in 1..=260usize {
        let name = format!("TOY{}", bs);
        for _ in 0..if rm::rb_for(bs).is_some() { 4 } else { 1 } {
            let p = pair(&name, &mut cx.rng);
            let mut l = vec![];
            if rm::rb_for(bs).is_some() && p.c.encrypt(&mut l, &vec![0; bs]).is_ok() {
                cx.ev(match (l[0] >> 7, l[0] >> 6 & 1) {
                    (0, 0) => "subkeys without carry",
                    (0, 1) => "carry into the second subkey",
                    (1, 0) => "carry into the first subkey",
                    _ => "carry into both subkeys",
                });
            }
            cmac_pair(cx, p)?;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "one evaluation = one message hashed by one of 16 hash types in a random split (or swept length, or a message longer than 2^32 bits or bytes) and compared with an independent model; distinct (type, message, split) are counted",
            assumptions: &["the hash models of the harness (self-tested with published vectors); digests of the huge messages were computed with another implementation"],
            require: &["MD5 digests compared", "SHA1 digests compared", "SHA224 digests compared", "SHA256 digests compared", "SHA384 digests compared", "SHA512 digests compared", "SHA512T224 digests compared", "SHA512T256 digests compared", "SM3 digests compared",
                "SHA::sha1 digests compared", "SHA::sha512_256 digests compared", "messages of whole blocks", "messages whose padding needs another block", "lengths swept", "messages longer than 2^32 bits", "messages longer than 2^32 bytes", "writes after a checksum", "repeated checksums", "long messages"],
            jobs: vec![
                Job { name: "vast", quick: 9, thorough: 9, run: c10_vast },
                Job { name: "huge", quick: 9, thorough: 9, run: c10_huge },
                Job { name: "random", quick: 1500, thorough: 30000, run: c10_random },
                Job { name: "lengths", quick: 64, thorough: 640, run: c10_lengths },
                Job { name: "history", quick: 150, thorough: 4000, run: c10_history },
                Job { name: "long", quick: 300, thorough: 6000, run: c10_long },
            ],
        },
        Prop {
            id: "C11",
            rule: "one evaluation = one t refused, or one message hashed with SHA-512/t through both types and compared with a model; distinct (t, message) are counted",
            assumptions: &["the SHA-512/t model of the harness (self-tested with the published SHA-512/224 and /256 initial values)"],
            require: &["meaningless t refused", "whole-byte t", "partial-byte t", "dedicated types compared", "resets", "writes after a checksum", "repeated checksums", "long messages"],
            jobs: vec![
                Job { name: "t", quick: 1600, thorough: 19200, run: c11_t },
                Job { name: "history", quick: 1500, thorough: 18000, run: c11_history },
                Job { name: "long", quick: 600, thorough: 7200, run: c11_long },
            ],
        },
        Prop {
            id: "C12",
            rule: "one evaluation = one SHA-3 digest of a message made of byte and single-bit writes, or one SHAKE/RawSHAKE output of a random length, compared with a bit-level FIPS 202 model; distinct (variant, message, length) are counted",
            assumptions: &["the Keccak model of the harness (self-tested with FIPS 202 vectors)"],
            require: &["outputs of many permutations", "single bits written", "byte writes", "bit-unaligned messages", "suffix and padding straddling a block", "SHA-3 digests compared", "SHAKE outputs compared", "raw SHAKE outputs compared", "outputs longer than the rate", "outputs of partial bytes", "output lengths changed", "writes after a checksum", "repeated checksums", "long messages"],
            jobs: vec![
                Job { name: "sha3", quick: 1200, thorough: 14400, run: c12_sha3 },
                Job { name: "shake", quick: 900, thorough: 10800, run: c12_shake },
                Job { name: "history", quick: 450, thorough: 5400, run: c12_history },
                Job { name: "long", quick: 300, thorough: 3600, run: c12_long },
                Job { name: "outputs", quick: 300, thorough: 6000, run: c12_outputs },
            ],
        },
        Prop {
            id: "C13",
            rule: "one evaluation = one sponge call with a width, round number, rate, bit string and output length, or one permutation of the zero state, compared with a model, or one parameter pair accepted or refused; distinct inputs are counted",
            assumptions: &["the Keccak model of the harness", "the packing of non-zero input of the bare permutation is not judged, as its documentation leaves the bit order open"],
            require: &["sponge outputs compared", "more rounds than the standard number", "repeated uses of one sponge", "widths accepted", "widths refused", "rates accepted", "rates refused", "permutations of the zero state compared"],
            jobs: vec![
                Job { name: "sponge", quick: 1800, thorough: 21600, run: c13_sponge },
                Job { name: "params", quick: 1, thorough: 1, run: c13_params },
                Job { name: "perm", quick: 7, thorough: 7, run: c13_perm },
            ],
        },
        Prop {
            id: "C14",
            rule: "one evaluation = one checksum in a random history of write, checksum, reset and clone on a hash or MAC object, compared with the model applied to the message the history implies; distinct histories are counted",
            assumptions: &["the hash and MAC models of the harness", "a zero-length write directly after a checksum is not judged"],
            require: &["writes after a checksum", "repeated checksums", "checksums", "resets", "clones", "histories of MD5", "histories of SHA", "histories of SHA3", "histories of SHA512T", "histories of HMAC", "histories of CMAC", "histories of ZUCMac", "histories of Shake128", "histories of SM3"],
            jobs: vec![Job { name: "history", quick: 4000, thorough: 48000, run: c14_history }],
        },
        Prop {
            id: "C15",
            rule: "one evaluation = one HMAC value of a message in a random split, on an object with earlier messages and key changes, compared with RFC 2104 over the model hash; distinct (hash, key, message) are counted",
            assumptions: &["the hash models of the harness"],
            require: &["empty keys", "keys longer than the block", "keys of one block", "short keys", "key changes", "messages following without a reset", "resets", "used hash objects handed over", "hashes without block size refused", "writes after a checksum", "repeated checksums", "long messages", "HMAC-MD5 compared", "HMAC-SHA512 compared", "HMAC-SHA3-256 compared", "HMAC-SM3 compared"],
            jobs: vec![
                Job { name: "hmac", quick: 800, thorough: 9600, run: c15_hmac },
                Job { name: "history", quick: 300, thorough: 4000, run: c15_history },
                Job { name: "long", quick: 200, thorough: 2400, run: c15_long },
            ],
        },
        Prop {
            id: "C16",
            rule: "one evaluation = one CMAC value of a message in a random split compared with SP 800-38B over the model cipher, or one block size refused; distinct (cipher, key, message) are counted",
            assumptions: &["the CMAC model and its table of reduction constants"],
            require: &["unsupported block sizes refused", "empty messages", "whole-block messages", "partial-block messages", "subkeys without carry", "carry into the second subkey", "carry into the first subkey", "carry into both subkeys", "block size 8", "block size 16", "block size 256", "block size 4", "writes after a checksum", "repeated checksums", "long messages"],
            jobs: vec![
                Job { name: "cmac", quick: 8000, thorough: 96000, run: c16_cmac },
                Job { name: "sizes", quick: 600, thorough: 7200, run: c16_sizes },
                Job { name: "history", quick: 3000, thorough: 36000, run: c16_history },
                Job { name: "long", quick: 2000, thorough: 24000, run: c16_long },
            ],
        },
    ]
}
