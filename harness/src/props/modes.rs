//! C05-C09: modes of operation.
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::modes as rm;
use crate::refs::modes::Blk;
use rcrypto::cipher_mode::*;
use rcrypto::{Cipher, CryptoError};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub enum AnyPad {
    Def(DefaultPadding<AnyC>),
    Emp(EmptyPadding),
}
impl Padding for AnyPad {
    fn padding(&self, buf: &mut Vec<u8>) {
        match self {
            AnyPad::Def(p) => p.padding(buf),
            AnyPad::Emp(p) => p.padding(buf),
        }
    }
    fn unpadding(&self, buf: &mut Vec<u8>) -> Result<usize, CryptoError> {
        match self {
            AnyPad::Def(p) => p.unpadding(buf),
            AnyPad::Emp(p) => p.unpadding(buf),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Ecb,
    Cbc,
    Cfb(usize),
    Ofb,
    Ctr,
}
/// A mode with all its parameters.
pub struct Setup {
    pub p: Pair,
    pub kind: Kind,
    pub padded: bool,
    pub iv: Vec<u8>,
    /// initial counter as given and its full width in bytes
    pub ctr_init: Vec<u8>,
    pub ctr_width: usize,
}
pub type One = Box<dyn Cipher<Output = usize>>;

/// Both stream traits behind one face.
pub trait Strm {
    fn write(&mut self, d: &[u8]) -> Result<Pond, CryptoError>;
    fn finish(&mut self) -> Result<Pond, CryptoError>;
    fn reset(&mut self);
    fn one(&self, dst: &mut Vec<u8>, d: &[u8]) -> Result<usize, CryptoError>;
    fn either(&self, enc: bool, dst: &mut Vec<u8>, d: &[u8]) -> Result<usize, CryptoError>;
}
macro_rules! strm {
    ($t:ty, $tr:ident, $m:ident) => {
        impl Strm for $t {
            fn write(&mut self, d: &[u8]) -> Result<Pond, CryptoError> {
                $tr::write(self, d)
            }
            fn finish(&mut self) -> Result<Pond, CryptoError> {
                $tr::finish(self)
            }
            fn reset(&mut self) {
                <$t>::reset(self)
            }
            fn one(&self, dst: &mut Vec<u8>, d: &[u8]) -> Result<usize, CryptoError> {
                Cipher::$m(self, dst, d)
            }
            fn either(&self, enc: bool, dst: &mut Vec<u8>, d: &[u8]) -> Result<usize, CryptoError> {
                if enc { self.encrypt(dst, d) } else { self.decrypt(dst, d) }
            }
        }
    };
}
strm!(ECBEncrypt<AnyC, AnyPad>, EncryptStream, encrypt);
strm!(ECBDecrypt<AnyC, AnyPad>, DecryptStream, decrypt);
strm!(CBCEncrypt<AnyC, AnyPad, Ivs>, EncryptStream, encrypt);
strm!(CBCDecrypt<AnyC, AnyPad, Ivs>, DecryptStream, decrypt);
strm!(CFBEncrypt<AnyC, AnyPad, Ivs>, EncryptStream, encrypt);
strm!(CFBDecrypt<AnyC, AnyPad, Ivs>, DecryptStream, decrypt);
strm!(OFBEncrypt<AnyC, Ivs>, EncryptStream, encrypt);
strm!(OFBDecrypt<AnyC, Ivs>, DecryptStream, decrypt);
strm!(CTREncrypt<AnyC, DefaultCounter>, EncryptStream, encrypt);
strm!(CTRDecrypt<AnyC, DefaultCounter>, DecryptStream, decrypt);

fn ctor_err<T>(r: Result<T, CryptoError>, s: &Setup) -> Result<T, Broken> {
    r.map_err(|e| Broken { sig: format!("{}:ctor", s.tag()), detail: format!("valid parameters refused: {} ({})", e, s.describe()) })
}
impl Setup {
    pub fn random(rng: &mut Rng) -> Setup {
        let p = any_pair(rng);
        Setup::with(p, rng)
    }
    pub fn with(p: Pair, rng: &mut Rng) -> Setup {
        let bs = p.r.bs();
        let kind = match rng.below(5) {
            0 => Kind::Ecb,
            1 => Kind::Cbc,
            2 => Kind::Cfb(rng.range(1, bs)),
            3 => Kind::Ofb,
            _ => Kind::Ctr,
        };
        let mut padded = rng.bool();
        let kind = match kind {
            Kind::Cfb(s) if padded && bs % s != 0 => {
                // the default padding only fits segments that divide the block
                let divs: Vec<usize> = (1..=bs).filter(|d| bs % d == 0).collect();
                if rng.bool() {
                    Kind::Cfb(*rng.pick(&divs))
                } else {
                    padded = false;
                    Kind::Cfb(s)
                }
            }
            k => k,
        };
        let iv = rng.patterned(bs);
        let ctr_width = if rng.chance(1, 3) { bs + rng.range(1, 9) } else { bs };
        let mut ctr_init = match rng.below(5) {
            // close to a carry chain or to wrap-around
            0 => {
                let mut v = vec![0xff; bs];
                v[bs - 1] = 0xff - rng.below(4) as u8;
                if bs > 2 && rng.bool() {
                    let k = rng.below(bs - 1);
                    v[k] = rng.u8();
                }
                v
            }
            1 => {
                let l = rng.range(0, bs);
                rng.bytes(l)
            }
            _ => rng.patterned(bs),
        };
        if ctr_width > bs && rng.bool() {
            let extra = rng.bytes(ctr_width - bs);
            while ctr_init.len() < bs {
                ctr_init.insert(0, 0);
            }
            ctr_init = [extra, ctr_init].concat();
        }
        Setup { p, kind, padded, iv, ctr_init, ctr_width }
    }
    pub fn bs(&self) -> usize {
        self.p.r.bs()
    }
    pub fn tag(&self) -> String {
        match self.kind {
            Kind::Ecb => "ECB".into(),
            Kind::Cbc => "CBC".into(),
            Kind::Cfb(_) => "CFB".into(),
            Kind::Ofb => "OFB".into(),
            Kind::Ctr => "CTR".into(),
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "{} {:?} padded={} key {} iv {} counter {}/{}",
            self.p.name, self.kind, self.padded, hex(&self.p.key), hex(&self.iv), hex(&self.ctr_init), self.ctr_width
        )
    }
    pub fn unit(&self) -> usize {
        match self.kind {
            Kind::Cfb(s) => s,
            _ => self.bs(),
        }
    }
    pub fn pad(&self) -> AnyPad {
        if self.padded { AnyPad::Def(DefaultPadding::new(&self.p.c)) } else { AnyPad::Emp(EmptyPadding::new()) }
    }
    pub fn counter(&self) -> Result<DefaultCounter, Broken> {
        ctor_err(DefaultCounter::new(self.ctr_init.clone(), self.ctr_width * 8), self)
    }
    pub fn full_counter(&self) -> Vec<u8> {
        let mut v = vec![0; self.ctr_width - self.ctr_init.len()];
        v.extend_from_slice(&self.ctr_init);
        v
    }
    pub fn one(&self) -> Result<One, Broken> {
        let c = self.p.c.clone();
        let iv = Ivs::one(&self.iv);
        Ok(match self.kind {
            Kind::Ecb => Box::new(ECB::new(c, self.pad())),
            Kind::Cbc => Box::new(ctor_err(CBC::new(c, self.pad(), iv), self)?),
            Kind::Cfb(s) => Box::new(ctor_err(CFB::new(c, self.pad(), iv, s * 8), self)?),
            Kind::Ofb => Box::new(ctor_err(OFB::new(c, iv), self)?),
            Kind::Ctr => Box::new(ctor_err(CTR::new(c, self.counter()?), self)?),
        })
    }
    pub fn stream(&self, enc: bool) -> Result<Box<dyn Strm>, Broken> {
        let c = self.p.c.clone();
        let iv = Ivs::one(&self.iv);
        macro_rules! st {
            ($m:expr) => {{
                let m = $m;
                if enc { Box::new(m.encrypt_stream()) as Box<dyn Strm> } else { Box::new(m.decrypt_stream()) as Box<dyn Strm> }
            }};
        }
        Ok(match self.kind {
            Kind::Ecb => st!(ECB::new(c, self.pad())),
            Kind::Cbc => st!(ctor_err(CBC::new(c, self.pad(), iv), self)?),
            Kind::Cfb(s) => st!(ctor_err(CFB::new(c, self.pad(), iv, s * 8), self)?),
            Kind::Ofb => st!(ctor_err(OFB::new(c, iv), self)?),
            Kind::Ctr => st!(ctor_err(CTR::new(c, self.counter()?), self)?),
        })
    }
    /// the ciphertext, or None when the message cannot be processed
    pub fn enc(&self, m: &[u8], ctr: &mut Vec<u8>) -> Option<Vec<u8>> {
        let r = &*self.p.r;
        let u = self.unit();
        let padded = || -> Option<Vec<u8>> {
            if self.padded {
                let t = m.len() - m.len() % u;
                let mut v = m[..t].to_vec();
                v.extend(rm::pad10(&m[t..], self.bs()));
                Some(v)
            } else if m.len() % u == 0 {
                Some(m.to_vec())
            } else {
                None
            }
        };
        match self.kind {
            Kind::Ecb => padded().map(|m| rm::ecb_e(r, &m)),
            Kind::Cbc => padded().map(|m| rm::cbc_e(r, &self.iv, &m)),
            Kind::Cfb(s) => padded().map(|m| rm::cfb_e(r, &self.iv, s, &m)),
            Kind::Ofb => Some(rm::ofb(r, &self.iv, m)),
            Kind::Ctr => Some(rm::ctr(r, ctr, m)),
        }
    }
    pub fn dec(&self, ct: &[u8], ctr: &mut Vec<u8>) -> Option<Vec<u8>> {
        let r = &*self.p.r;
        if !matches!(self.kind, Kind::Ofb | Kind::Ctr) && ct.len() % self.unit() != 0 {
            return None;
        }
        let unpad = |m: Vec<u8>| -> Option<Vec<u8>> {
            if !self.padded {
                return Some(m);
            }
            let v = rm::unpad10(&m)?;
            if m.len() - v.len() > self.bs() { None } else { Some(v) }
        };
        match self.kind {
            Kind::Ecb => unpad(rm::ecb_d(r, ct)),
            Kind::Cbc => unpad(rm::cbc_d(r, &self.iv, ct)),
            Kind::Cfb(s) => unpad(rm::cfb_d(r, &self.iv, s, ct)),
            Kind::Ofb => Some(rm::ofb(r, &self.iv, ct)),
            Kind::Ctr => Some(rm::ctr(r, ctr, ct)),
        }
    }
    pub fn msg(&self, rng: &mut Rng) -> Vec<u8> {
        let (bs, u) = (self.bs(), self.unit());
        let n = match rng.below(6) {
            0 => rng.below(3 * bs + 2),
            1 => u * rng.below(6),
            2 => bs * rng.below(5) + bs - 1,
            3 => bs * rng.below(5) + 1,
            4 => bs * rng.below(9),
            _ => rng.below(12 * bs),
        };
        let mut m = rng.patterned(n);
        // messages ending like padding
        if n > 0 && rng.chance(1, 4) {
            let k = rng.below(n.min(2 * bs)) + 1;
            let at = n - k;
            m[at] = 0x80;
            for b in m[at + 1..].iter_mut() {
                *b = 0;
            }
        }
        m
    }
}

fn ev_kind(cx: &mut Cx, s: &Setup, what: &str) {
    let n = format!("{} {}", s.tag(), what);
    cx.ev(&n);
}

fn c05_oneshot(cx: &mut Cx) -> R {
    for _ in 0..60 {
        let s = Setup::random(&mut cx.rng);
        let o = s.one()?;
        ensure!(o.block_size() == Some(s.bs()), format!("{}:bs", s.tag()), "block_size {:?}", o.block_size());
        // CTR objects continue their counter, the others start over every time
        let mut ctr = s.full_counter();
        for _ in 0..cx.rng.range(1, 4) {
            let m = s.msg(&mut cx.rng);
            let junk = cx.rng.below(40);
            let mut dst = cx.rng.bytes(junk);
            let r = o.encrypt(&mut dst, &m);
            let before = ctr.clone();
            match s.enc(&m, &mut ctr) {
                Some(want) => {
                    ensure!(r.is_ok(), format!("{}:enc-refused", s.tag()), "message of {} bytes refused: {}", m.len(), s.describe());
                    same!(dst, want, format!("{}:enc", s.tag()), "{} message {}", s.describe(), hx(&m));
                    ensure!(r.unwrap_or(0) == dst.len(), format!("{}:enc-len", s.tag()), "reported length differs from {} ({})", dst.len(), s.describe());
                    let (back, mut c2) = (s.one()?, before);
                    let dec: &One = if s.kind == Kind::Ctr { &back } else if cx.rng.bool() { &o } else { &back };
                    if s.kind == Kind::Ctr {
                        // bring the second object to the same counter
                        let mut skip = s.full_counter();
                        let mut sink = Vec::new();
                        let mut guard = 0;
                        while skip != c2 && guard < 300 {
                            let z = vec![0u8; s.bs()];
                            let _ = dec.decrypt(&mut sink, &z);
                            rm::inc(&mut skip);
                            guard += 1;
                        }
                    }
                    let mut pt = vec![7; cx.rng.below(30)];
                    let r = dec.decrypt(&mut pt, &want);
                    ensure!(r.is_ok(), format!("{}:dec-refused", s.tag()), "own ciphertext refused: {} message {}", s.describe(), hx(&m));
                    same!(pt, m, format!("{}:roundtrip", s.tag()), "{} ciphertext {}", s.describe(), hx(&want));
                    ensure!(r.unwrap_or(usize::MAX) == pt.len(), format!("{}:dec-len", s.tag()), "reported length differs from {}", pt.len());
                    let _ = s.dec(&want, &mut c2);
                    cx.case(&[s.describe().as_bytes(), &m]);
                    cx.note(&[&want]);
                    ev_kind(cx, &s, "messages compared");
                    if m.len() % s.unit() == s.unit() - 1 {
                        cx.ev("messages one byte short of a unit");
                    }
                    cx.sample(|| format!("{} message {}", s.describe(), hx(&m)));
                }
                None => {
                    ensure!(r.is_err(), format!("{}:unpaddable-accepted", s.tag()), "message of {} bytes accepted without padding, {} bytes out: {}", m.len(), dst.len(), s.describe());
                    cx.ev("unpaddable messages refused");
                    cx.case(&[s.describe().as_bytes(), &m]);
                }
            }
        }
    }
    Ok(())
}
/// every length around the first blocks for every cipher, mode and padding
fn c05_lengths(cx: &mut Cx) -> R {
    let name = CIPHERS[cx.idx % CIPHERS.len()];
    for kind in 0..5 {
        for padded in [true, false] {
            let p = pair(name, &mut cx.rng);
            let bs = p.r.bs();
            let mut s = Setup::with(p, &mut cx.rng);
            let divs: Vec<usize> = (1..=bs).filter(|d| !padded || bs % d == 0).collect();
            s.kind = [Kind::Ecb, Kind::Cbc, Kind::Cfb(*cx.rng.pick(&divs)), Kind::Ofb, Kind::Ctr][kind];
            s.padded = padded;
            for n in 0..=(4 * bs + 1) {
                let m = cx.rng.patterned(n);
                let o = s.one()?;
                let mut dst = Vec::new();
                let r = o.encrypt(&mut dst, &m);
                match s.enc(&m, &mut s.full_counter()) {
                    Some(want) => {
                        ensure!(r.is_ok(), format!("{}:enc-refused", s.tag()), "{} bytes refused: {}", n, s.describe());
                        same!(dst, want, format!("{}:enc", s.tag()), "{} message {}", s.describe(), hx(&m));
                        let mut pt = Vec::new();
                        let r = s.one()?.decrypt(&mut pt, &want);
                        ensure!(r.is_ok(), format!("{}:dec-refused", s.tag()), "own ciphertext refused: {}", s.describe());
                        same!(pt, m, format!("{}:roundtrip", s.tag()), "{}", s.describe());
                    }
                    None => ensure!(r.is_err(), format!("{}:unpaddable-accepted", s.tag()), "{} bytes accepted: {}", n, s.describe()),
                }
                cx.case(&[s.describe().as_bytes(), &m]);
                cx.ev("length sweep cases");
            }
        }
    }
    Ok(())
}
fn long_msg(s: &Setup, rng: &mut Rng) -> Vec<u8> {
    let u = s.unit();
    if rng.chance(1, 60) {
        // more than 65536 blocks
        let n = (65_534 + rng.below(5)) * u;
        let more = if s.padded { rng.below(u) } else { 0 };
        return rng.patterned(n + more);
    }
    let units = match rng.below(4) {
        0 => 255 + rng.below(4),
        1 => (1 << rng.range(8, 13)) + rng.below(5) - 2,
        _ => rng.below(8000),
    };
    let n = (units * u).min(140_000) / u * u + if s.padded || rng.chance(1, 4) { rng.below(u) } else { 0 };
    rng.patterned(n)
}
/// hundreds to thousands of blocks in one call
fn c05_long(cx: &mut Cx) -> R {
    let s = Setup::random(&mut cx.rng);
    let m = long_msg(&s, &mut cx.rng);
    let mut dst = vec![3; 5];
    let r = s.one()?.encrypt(&mut dst, &m);
    match s.enc(&m, &mut s.full_counter()) {
        Some(want) => {
            ensure!(r.is_ok(), format!("{}:enc-refused", s.tag()), "{} bytes refused: {}", m.len(), s.describe());
            same!(dst, want, format!("{}:enc-long", s.tag()), "{} message {}", s.describe(), hx(&m));
            let mut pt = vec![1; 3];
            let r = s.one()?.decrypt(&mut pt, &want);
            ensure!(r.is_ok(), format!("{}:dec-refused", s.tag()), "own ciphertext of {} bytes refused: {}", want.len(), s.describe());
            same!(pt, m, format!("{}:roundtrip-long", s.tag()), "{}", s.describe());
            cx.note(&[&want]);
            cx.ev("long messages");
        }
        None => ensure!(r.is_err(), format!("{}:unpaddable-accepted", s.tag()), "{} bytes accepted: {}", m.len(), s.describe()),
    }
    cx.case(&[s.describe().as_bytes(), &m]);
    Ok(())
}
/// the same through a stream in large and small pieces
fn c06_long(cx: &mut Cx) -> R {
    let s = Setup::random(&mut cx.rng);
    let m = long_msg(&s, &mut cx.rng);
    let ct = match s.enc(&m, &mut s.full_counter()) {
        Some(c) => c,
        None => return Ok(()),
    };
    for (enc, input, want) in [(true, &m, &ct), (false, &ct, &m)] {
        let mut st = s.stream(enc)?;
        let mut out = Vec::new();
        let mut at = 0;
        let mut ok = true;
        while at < input.len() && ok {
            let most = *cx.rng.pick(&[40, 600, 30_000]);
            let n = (1 + cx.rng.below(most)).min(input.len() - at);
            match st.write(&input[at..at + n]) {
                Ok(p) => {
                    if most != 40 {
                        p.draw_off(&mut out);
                    }
                }
                Err(_) => ok = false,
            }
            at += n;
        }
        ok = ok && match st.finish() {
            Ok(p) => {
                p.draw_off(&mut out);
                true
            }
            Err(_) => false,
        };
        let dir = if enc { "enc" } else { "dec" };
        ensure!(ok, format!("{}:stream-{}-refused", s.tag(), dir), "{} bytes refused: {}", input.len(), s.describe());
        same!(out, *want, format!("{}:stream-{}-long", s.tag(), dir), "{} input {}", s.describe(), hx(input));
        cx.case(&[s.describe().as_bytes(), input, &[enc as u8]]);
        cx.note(&[&out]);
        cx.ev("long streams");
    }
    Ok(())
}

/// drive one message through a stream in random pieces; Ok(None) means the stream reported an error
fn drive(st: &mut dyn Strm, s: &Setup, rng: &mut Rng, data: &[u8], cx_ev: &mut [u64; 2]) -> Result<Option<Vec<u8>>, Broken> {
    let mut out = Vec::new();
    let mut at = 0;
    let aside = rng.chance(1, 6) && !matches!(s.kind, Kind::Ctr);
    for n in rng.split(data.len(), s.unit()) {
        // one-shot calls on the stream object in mid message (CTR ones take the stream's counter values)
        if aside && rng.chance(1, 3) {
            let m = s.msg(rng);
            if let Some(ct) = s.enc(&m, &mut s.full_counter()) {
                let mut got = rng.bytes(3);
                let r = if rng.bool() { st.either(true, &mut got, &m).map(|_| got == ct) } else { st.either(false, &mut got, &ct).map(|_| got == m) };
                ensure!(matches!(r, Ok(true)), format!("{}:aside", s.tag()), "one-shot call during a stream: {} message {}", s.describe(), hx(&m));
                cx_ev[1] += 1;
            }
        }
        let draw = rng.below(3);
        let r = st.write(&data[at..at + n]);
        at += n;
        match r {
            Ok(pond) => {
                if draw == 0 {
                    let before = out.len();
                    let k = pond.draw_off(&mut out);
                    ensure!(k == out.len() - before, "draw_off", "draw_off reported {} for {} new bytes", k, out.len() - before);
                }
            }
            Err(_) => return Ok(None),
        }
        cx_ev[0] += 1;
    }
    match st.finish() {
        Ok(p) => {
            p.draw_off(&mut out);
            Ok(Some(out))
        }
        Err(_) => Ok(None),
    }
}
fn c06_stream(cx: &mut Cx) -> R {
    for _ in 0..50 {
        let s = Setup::random(&mut cx.rng);
        let enc = cx.rng.bool();
        let mut st = s.stream(enc)?;
        let mut ctr = s.full_counter();
        let mut writes = [0u64; 2];
        for msg_no in 0..cx.rng.range(1, 4) {
            // sometimes abandon a message and reset
            if cx.rng.chance(1, 4) {
                let n = cx.rng.below(3 * s.bs() + 1);
                let junk = cx.rng.bytes(n);
                if let Ok(p) = st.write(&junk) {
                    if cx.rng.bool() {
                        p.draw_off(&mut Vec::new());
                    }
                }
                st.reset();
                ctr = s.full_counter();
                cx.ev("streams reset in mid message");
            }
            // or finish one without taking its output, which is then lost
            if cx.rng.chance(1, 5) {
                let m = s.msg(&mut cx.rng);
                let mut c0 = ctr.clone();
                if let Some(ct) = s.enc(&m, &mut c0) {
                    let input = if enc { &m } else { &ct };
                    let ok = matches!(st.write(input), Ok(_)) && matches!(st.finish(), Ok(_));
                    ensure!(ok, format!("{}:stream-undrawn", s.tag()), "refused: {} input {}", s.describe(), hx(input));
                    ctr = c0;
                    cx.ev("messages finished without taking their output");
                }
            }
            let m = s.msg(&mut cx.rng);
            let (input, want) = if enc {
                (m.clone(), s.enc(&m, &mut ctr))
            } else {
                let mut c0 = ctr.clone();
                match s.enc(&m, &mut c0) {
                    Some(ct) => {
                        ctr = c0;
                        (ct, Some(m.clone()))
                    }
                    None => continue,
                }
            };
            let got = drive(&mut *st, &s, &mut cx.rng, &input, &mut writes)?;
            let dir = if enc { "enc" } else { "dec" };
            match (got, want) {
                (Some(g), Some(w)) => {
                    same!(g, w, format!("{}:stream-{}", s.tag(), dir), "message {} of the stream, {} input {}", msg_no, s.describe(), hx(&input));
                    cx.case(&[s.describe().as_bytes(), &input, &[enc as u8, msg_no as u8]]);
                    cx.note(&[&g]);
                    let n = format!("{} streamed messages compared ({})", s.tag(), dir);
                    cx.ev(&n);
                    if msg_no > 0 {
                        cx.ev("later messages on one stream");
                    }
                }
                (None, None) => {
                    st.reset();
                    ctr = s.full_counter();
                    cx.ev("unpaddable messages refused");
                }
                (Some(g), None) => {
                    return broken(&format!("{}:stream-unpaddable", s.tag()), format!("{} bytes accepted without padding, {} out: {}", input.len(), g.len(), s.describe()))
                }
                (None, Some(_)) => {
                    return broken(&format!("{}:stream-{}-refused", s.tag(), dir), format!("message {} refused: {} input {}", msg_no, s.describe(), hx(&input)))
                }
            }
        }
        cx.evn("stream writes", writes[0]);
        cx.evn("one-shot calls during a stream", writes[1]);
        cx.sample(|| format!("stream {} encrypt={}", s.describe(), enc));
    }
    Ok(())
}
/// every two-way split of a short message, in every mode
fn c06_splits(cx: &mut Cx) -> R {
    let mut s = Setup::random(&mut cx.rng);
    let bs = s.bs().min(16);
    if bs < s.bs() {
        let p = pair("DES", &mut cx.rng);
        s = Setup::with(p, &mut cx.rng);
    }
    let n = 3 * s.unit().max(2) + cx.rng.below(3);
    let m = cx.rng.bytes(if s.padded { n } else { n - n % s.unit() });
    let ct = match s.enc(&m, &mut s.full_counter()) {
        Some(c) => c,
        None => return broken("HARNESS-ERROR", "model refused".into()),
    };
    for enc in [true, false] {
        let (input, want) = if enc { (&m, &ct) } else { (&ct, &m) };
        for cut in 0..=input.len() {
            for draw in 0..4 {
                let mut st = s.stream(enc)?;
                let mut out = Vec::new();
                for (i, part) in [&input[..cut], &input[cut..]].iter().enumerate() {
                    match st.write(part) {
                        Ok(p) => {
                            if draw >> i & 1 == 1 {
                                p.draw_off(&mut out);
                            }
                        }
                        Err(e) => return broken(&format!("{}:split-write", s.tag()), format!("{}: {}", e, s.describe())),
                    }
                }
                match st.finish() {
                    Ok(p) => {
                        p.draw_off(&mut out);
                    }
                    Err(e) => return broken(&format!("{}:split-finish", s.tag()), format!("cut {} draw {}: {}: {}", cut, draw, e, s.describe())),
                }
                same!(out, *want, format!("{}:split", s.tag()), "cut {} draw {} encrypt={} {} input {}", cut, draw, enc, s.describe(), hx(input));
                cx.case(&[s.describe().as_bytes(), input, &[enc as u8, draw as u8], &(cut as u32).to_le_bytes()]);
                cx.ev("two-way splits enumerated");
            }
        }
    }
    Ok(())
}

fn c07_padding(cx: &mut Cx) -> R {
    let bs = *cx.rng.pick(&[1usize, 2, 3, 8, 16, 16, 16, 20, 64]);
    let p = if bs == 16 { pair("AES128", &mut cx.rng) } else if bs == 8 { pair("DES", &mut cx.rng) } else { pair(&format!("TOY{}", bs), &mut cx.rng) };
    let pad = DefaultPadding::new(&p.c);
    for n in 0..=4 * bs + 1 {
        let mut m = cx.rng.patterned(n);
        if n > 0 && cx.rng.chance(1, 3) {
            m[n - 1] = *cx.rng.pick(&[0x80, 0, 1, 0x40, 0xff]);
        }
        let mut b = m.clone();
        pad.padding(&mut b);
        same!(b, rm::pad10(&m, bs), "padding", "block {} message {}", bs, hx(&m));
        let r = pad.unpadding(&mut b);
        ensure!(r.is_ok(), "unpadding:refused", "block {} own padding refused for {}", bs, hx(&m));
        same!(b, m, "unpadding", "block {}", bs);
        ensure!(r.unwrap_or(usize::MAX) == m.len(), "unpadding:len", "reported length differs from {}", m.len());
        cx.case(&[&[bs as u8], &m]);
        cx.ev("padded and unpadded strings");
    }
    // malformed tails: nothing, zeros only, a byte that is not 80 before the zeros, too many zeros
    for i in 0..200 {
        let blocks = cx.rng.below(4);
        let n = blocks * bs;
        let mut b = cx.rng.bytes(n);
        match i % 5 {
            0 => b = vec![0; n],
            1 if n > 0 => {
                let z = cx.rng.below(bs.min(n));
                let at = n - 1 - z;
                for x in b[at..].iter_mut() {
                    *x = 0;
                }
                b[at] = *cx.rng.pick(&[1, 2, 0x40, 0x81, 0xc0, 0xff, 0x7f, 0x08]);
            }
            2 if n > bs => {
                let z = cx.rng.range(bs, n - 1);
                let at = n - 1 - z;
                for x in b[at..].iter_mut() {
                    *x = 0;
                }
                b[at] = 0x80;
            }
            3 if n > 1 => {
                // a stray 80 further left must not be found
                let k = cx.rng.below(n - 1);
                b[k] = 0x80;
                b[n - 1] = cx.rng.u8() | 1;
            }
            _ => {}
        }
        let want = rm::unpad10(&b).filter(|v| b.len() - v.len() <= bs);
        let orig = b.clone();
        let r = no_panic(|| pad.unpadding(&mut b));
        match (r, want) {
            (Err(m), _) => return broken("unpadding:panic", format!("block {} buffer {}: {}", bs, hx(&orig), m)),
            (Ok(Ok(_)), Some(w)) => {
                same!(b, w, "unpadding", "block {} buffer {}", bs, hx(&orig));
                cx.ev("random buffers that happened to be padded");
            }
            (Ok(Err(_)), None) => {
                same!(b, orig, "unpadding:changed", "block {} refused buffer changed", bs);
                cx.ev("malformed padding refused and left unchanged");
            }
            (Ok(Ok(k)), None) => return broken("unpadding:accepted", format!("block {} buffer {} accepted with {} bytes", bs, hx(&orig), k)),
            (Ok(Err(_)), Some(_)) => return broken("unpadding:refused", format!("block {} buffer {} refused", bs, hx(&orig))),
        }
        cx.case(&[&[bs as u8, 1], &orig]);
    }
    Ok(())
}
fn c07_ciphertext(cx: &mut Cx) -> R {
    for _ in 0..40 {
        let mut s = Setup::random(&mut cx.rng);
        if matches!(s.kind, Kind::Ofb | Kind::Ctr) {
            s.kind = *cx.rng.pick(&[Kind::Ecb, Kind::Cbc]);
        }
        if !s.padded {
            match s.kind {
                Kind::Cfb(x) if s.bs() % x != 0 => {}
                _ => s.padded = cx.rng.chance(3, 4),
            }
        }
        let bs = s.bs();
        let m = s.msg(&mut cx.rng);
        let mut c0 = vec![];
        let good = match s.enc(&m, &mut c0) {
            Some(c) => c,
            None => { let n = cx.rng.below(6) * s.unit(); cx.rng.bytes(n) }
        };
        for _ in 0..8 {
            let mut ct = good.clone();
            match cx.rng.below(8) {
                0 => {
                    let k = cx.rng.below(ct.len() + 1);
                    ct.truncate(k);
                }
                1 => {
                    let k = cx.rng.range(1, 2 * bs);
                    let e = cx.rng.bytes(k);
                    ct.extend(e);
                }
                2 | 3 if !ct.is_empty() => {
                    let k = ct.len() - 1 - cx.rng.below(ct.len().min(2 * bs));
                    ct[k] ^= 1 << cx.rng.below(8);
                }
                4 => { let n = cx.rng.below(5 * bs); ct = cx.rng.bytes(n) }
                5 => ct.clear(),
                6 => {
                    // encrypt a chosen, badly padded plaintext
                    let k = cx.rng.range(1, 4) * bs;
                    let mut pt = cx.rng.bytes(k);
                    let z = cx.rng.below(k);
                    for x in pt[z..].iter_mut() {
                        *x = 0;
                    }
                    pt[z] = *cx.rng.pick(&[0, 1, 0x80, 0x80, 0x80, 0xc0, 0xff]);
                    let raw = Setup { p: Pair { c: s.p.c.clone(), r: Box::new(RefShim(&*s.p.r as *const dyn Blk)), name: s.p.name.clone(), key: s.p.key.clone() }, kind: s.kind, padded: false, iv: s.iv.clone(), ctr_init: vec![], ctr_width: bs };
                    ct = raw.enc(&pt, &mut vec![]).unwrap_or_default();
                }
                _ => {}
            }
            let want = s.dec(&ct, &mut vec![]);
            let mut dst = vec![];
            let o = s.one()?;
            let r = match no_panic(|| o.decrypt(&mut dst, &ct)) {
                Ok(r) => r,
                Err(e) => return broken(&format!("{}:dec-panic", s.tag()), format!("{}: {} ciphertext {}", e, s.describe(), hx(&ct))),
            };
            ensure!(r.is_ok() == want.is_some(), format!("{}:dec-verdict", s.tag()), "one-shot accepted={} model={}: {} ciphertext {}", r.is_ok(), want.is_some(), s.describe(), hx(&ct));
            if let Some(w) = &want {
                same!(dst, *w, format!("{}:dec", s.tag()), "{} ciphertext {}", s.describe(), hx(&ct));
            }
            let mut st = s.stream(false)?;
            let mut w = [0; 2];
            let rng = &mut cx.rng;
            let got = match no_panic(|| drive(&mut *st, &s, rng, &ct, &mut w)) {
                Ok(g) => g?,
                Err(e) => return broken(&format!("{}:stream-panic", s.tag()), format!("{}: {} ciphertext {}", e, s.describe(), hx(&ct))),
            };
            ensure!(got.is_some() == want.is_some(), format!("{}:stream-verdict", s.tag()), "stream accepted={} model={}: {} ciphertext {}", got.is_some(), want.is_some(), s.describe(), hx(&ct));
            match (&got, &want) {
                (Some(g), Some(w)) => {
                    same!(*g, *w, format!("{}:stream-dec", s.tag()), "{} ciphertext {}", s.describe(), hx(&ct));
                    cx.ev("altered ciphertexts that decode");
                }
                _ => {
                    cx.ev("malformed ciphertexts refused by one-shot and stream");
                    // the stream is usable again after a reset
                    st.reset();
                    if let Some(g) = s.enc(&m, &mut vec![]) {
                        let again = drive(&mut *st, &s, &mut cx.rng, &g, &mut w)?;
                        ensure!(again.as_ref() == Some(&m), format!("{}:after-error", s.tag()), "after a refused ciphertext and reset, a good one does not decrypt: {}", s.describe());
                        cx.ev("good messages after a refused one");
                    }
                }
            }
            cx.case(&[s.describe().as_bytes(), &ct]);
            cx.sample(|| format!("{} ciphertext {}", s.describe(), hx(&ct)));
        }
    }
    Ok(())
}
/// lets a second Setup borrow the same reference cipher
struct RefShim(*const dyn Blk);
impl Blk for RefShim {
    fn bs(&self) -> usize {
        unsafe { (*self.0).bs() }
    }
    fn e(&self, b: &[u8]) -> Vec<u8> {
        unsafe { (*self.0).e(b) }
    }
    fn d(&self, b: &[u8]) -> Vec<u8> {
        unsafe { (*self.0).d(b) }
    }
}

/// one message or one-shot call of a counter-mode object: its key stream as far as seen
struct Run {
    what: &'static str,
    ks: Vec<u8>,
}
/// Finds for every block of every run the counter value behind it. The values used must be the
/// first ones from the initial value on, each for one block, ascending within a run.
fn judge_counters(runs: &[Run], s: &Setup) -> Result<Vec<Vec<u8>>, Broken> {
    let bs = s.bs();
    let total: usize = runs.iter().map(|r| (r.ks.len() + bs - 1) / bs).sum();
    let mut ctr = s.full_counter();
    let (mut vals, mut keys) = (vec![], vec![]);
    for _ in 0..total {
        let v = ctr[ctr.len() - bs..].to_vec();
        keys.push(s.p.r.e(&v));
        vals.push(v);
        rm::inc(&mut ctr);
    }
    let mut at = std::collections::HashMap::new();
    for (i, k) in keys.iter().enumerate() {
        at.insert(k.clone(), i);
    }
    let mut used = vec![None; total];
    // what is left: (run, last full block's index, bytes)
    let mut partial = vec![];
    for (no, r) in runs.iter().enumerate() {
        let mut last = None;
        for k in r.ks.chunks(bs) {
            if k.len() < bs {
                partial.push((no, last, k));
                continue;
            }
            let i = match at.get(k) {
                Some(i) => *i,
                None => return Err(Broken { sig: "CTR:counter-blocks".into(), detail: format!("call {} ({}): a block is encrypted under none of the first {} counter values from the initial one: {}", no, r.what, total, s.describe()) }),
            };
            if let Some(by) = used[i] {
                return Err(Broken { sig: "CTR:reuse".into(), detail: format!("calls {} and {} ({}) both use counter value {}: {}", by, no, r.what, hex(&vals[i]), s.describe()) });
            }
            if last.map_or(false, |l| l >= i) {
                return Err(Broken { sig: "CTR:order".into(), detail: format!("call {} ({}): counter value {} comes after a later one: {}", no, r.what, hex(&vals[i]), s.describe()) });
            }
            used[i] = Some(no);
            last = Some(i);
        }
    }
    // short last blocks: a matching of the remaining values
    let mut owner: Vec<Option<usize>> = vec![None; total];
    fn place(p: usize, fits: &dyn Fn(usize, usize) -> bool, owner: &mut Vec<Option<usize>>, tried: &mut Vec<bool>) -> bool {
        for i in 0..owner.len() {
            if tried[i] || !fits(p, i) {
                continue;
            }
            tried[i] = true;
            if owner[i].map_or(true, |q| place(q, fits, owner, tried)) {
                owner[i] = Some(p);
                return true;
            }
        }
        false
    }
    let fits = |p: usize, i: usize| {
        let (_, last, k) = partial[p];
        used[i].is_none() && last.map_or(true, |l| l < i) && keys[i].starts_with(k)
    };
    for p in 0..partial.len() {
        if !place(p, &fits, &mut owner, &mut vec![false; total]) {
            let (no, _, k) = partial[p];
            return Err(Broken { sig: "CTR:counter-blocks".into(), detail: format!("call {} ({}): the last {} bytes are encrypted under no unused counter value: {}", no, runs[no].what, k.len(), s.describe()) });
        }
    }
    Ok(vals)
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
/// watches the key stream of a counter-mode object over a history of calls
fn c08_history(cx: &mut Cx) -> R {
    for _ in 0..40 {
        let mut s = Setup::random(&mut cx.rng);
        s.kind = Kind::Ctr;
        let bs = s.bs();
        if bs < 4 {
            continue;
        }
        let use_stream = cx.rng.bool();
        let one = s.one()?;
        let enc_dir = cx.rng.bool();
        let mut st = s.stream(enc_dir)?;
        let mut runs: Vec<Run> = vec![];
        // the message in progress on the stream
        let (mut msg, mut got) = (vec![], vec![]);
        let ops = 25;
        for op in 0..=ops {
            let n = cx.rng.below(4 * bs);
            let d = cx.rng.bytes(n);
            let mut out = Vec::new();
            if !use_stream {
                let r = if cx.rng.bool() { one.encrypt(&mut out, &d) } else { one.decrypt(&mut out, &d) };
                ensure!(r.is_ok() && out.len() == n, "CTR:refused", "one-shot call on {} bytes: {:?} and {} bytes: {}", n, r.is_ok(), out.len(), s.describe());
                runs.push(Run { what: "one-shot", ks: xor(&d, &out) });
                cx.ev("one-shot calls watched");
                continue;
            }
            match if op == ops { 0 } else { cx.rng.below(8) } {
                0 => {
                    st.finish().map_err(|e| Broken { sig: "CTR:finish".into(), detail: format!("{}", e) })?.draw_off(&mut got);
                    ensure!(got.len() == msg.len(), "CTR:length", "{} bytes for a message of {}: {}", got.len(), msg.len(), s.describe());
                    runs.push(Run { what: "stream message", ks: xor(&msg, &got) });
                    msg.clear();
                    got.clear();
                    cx.ev("stream finishes watched");
                }
                1 => {
                    let r = st.one(&mut out, &d);
                    ensure!(r.is_ok() && out.len() == n, "CTR:refused", "one-shot on the stream object refused");
                    runs.push(Run { what: "one-shot on the stream", ks: xor(&d, &out) });
                    cx.ev("one-shot calls on a stream watched");
                }
                _ => {
                    st.write(&d).map_err(|e| Broken { sig: "CTR:write".into(), detail: format!("{}", e) })?.draw_off(&mut got);
                    msg.extend(d);
                    cx.ev("stream writes watched");
                }
            }
        }
        let vals = judge_counters(&runs, &s)?;
        cx.evn("counter values in use", vals.len() as u64);
        if s.ctr_width > bs {
            cx.ev("counters wider than the block");
        }
        if vals.windows(2).any(|w| w[1] < w[0]) {
            cx.ev("counter wrap-arounds crossed");
        }
        cx.case(&[s.describe().as_bytes(), &[use_stream as u8, enc_dir as u8]]);
        cx.sample(|| format!("{} operations: {} counter values, {}", ops, vals.len(), s.describe()));
    }
    Ok(())
}
/// long runs: carries out of two low bytes
fn c08_long(cx: &mut Cx) -> R {
    let p = pair("TOY8", &mut cx.rng);
    let mut s = Setup::with(p, &mut cx.rng);
    s.kind = Kind::Ctr;
    s.ctr_width = 8 + cx.idx % 3;
    let mut init = cx.rng.bytes(8);
    init[7] = 0;
    if cx.idx % 2 == 0 {
        init[..5].copy_from_slice(&[0xff; 5]);
        init[5] = 0xff;
        init[6] = 0xff;
    }
    s.ctr_init = init;
    let mut st = s.stream(true)?;
    let (mut msg, mut out) = (vec![], vec![]);
    for _ in 0..70 {
        let d = cx.rng.bytes(8 * 1000);
        st.write(&d).map_err(|e| Broken { sig: "CTR:write".into(), detail: format!("{}", e) })?.draw_off(&mut out);
        msg.extend(d);
    }
    st.finish().map_err(|e| Broken { sig: "CTR:finish".into(), detail: format!("{}", e) })?.draw_off(&mut out);
    ensure!(out.len() == msg.len(), "CTR:length", "{} bytes for a message of {}: {}", out.len(), msg.len(), s.describe());
    let mut ctr = s.full_counter();
    for (i, x) in xor(&msg, &out).chunks(8).enumerate() {
        same!(s.p.r.d(x), ctr[ctr.len() - 8..].to_vec(), "CTR:long", "counter value of block {} of a long run: {}", i, s.describe());
        rm::inc(&mut ctr);
    }
    cx.evn("blocks in long runs", 70_000);
    cx.case(&[s.describe().as_bytes()]);
    Ok(())
}
/// a counter of the caller's own that runs out of values
struct Steps {
    vals: Vec<Vec<u8>>,
    at: usize,
}
impl Counter for Steps {
    fn reset(&mut self) {
        self.at = 0;
    }
    fn next(&mut self) -> Option<&Vec<u8>> {
        self.at += 1;
        self.vals.get(self.at - 1)
    }
    fn bits_len(&self) -> usize {
        8 * self.vals[0].len()
    }
}
fn c08_ends(cx: &mut Cx) -> R {
    for _ in 0..20 {
        let p = any_pair(&mut cx.rng);
        let bs = p.r.bs();
        let wide = bs + if cx.rng.chance(1, 3) { cx.rng.range(1, 9) } else { 0 };
        let have = 1 + cx.rng.below(9);
        let vals: Vec<Vec<u8>> = (0..have).map(|_| cx.rng.bytes(wide)).collect();
        let ks: Vec<u8> = vals.iter().flat_map(|v| p.r.e(&v[wide - bs..])).collect();
        let what = format!("{} key {} and a counter of {} values of {} bytes", p.name, hex(&p.key), have, wide);
        let m = CTR::new(p.c.clone(), Steps { vals, at: 0 }).map_err(|e| Broken { sig: "CTR:ctor".into(), detail: format!("{}: {}", what, e) })?;
        if cx.rng.bool() {
            let mut blocks = 0;
            loop {
                let n = cx.rng.below(3 * bs + 1);
                let d = cx.rng.bytes(n);
                let mut out = vec![9];
                let r = if cx.rng.bool() { m.encrypt(&mut out, &d) } else { m.decrypt(&mut out, &d) };
                let need = (n + bs - 1) / bs;
                if blocks + need > have {
                    ensure!(r.is_err(), "CTR:exhausted", "{}: {} bytes processed after {} blocks", what, n, blocks);
                    break;
                }
                ensure!(r.is_ok(), "CTR:refused", "{}: {} bytes refused after {} blocks", what, n, blocks);
                same!(out, xor(&d, &ks[blocks * bs..]), "CTR:own-counter", "{}: {} bytes after {} blocks", what, n, blocks);
                blocks += need;
            }
            cx.ev("one-shot calls past the end of a counter refused");
        } else {
            let mut st = m.encrypt_stream();
            for round in 0..2 {
                let more = if round == 0 { cx.rng.below(have * bs + 1) } else { have * bs + 1 + cx.rng.below(2 * bs) };
                let d = cx.rng.bytes(more);
                let mut out = vec![];
                let mut ok = true;
                for c in d.chunks(1 + cx.rng.below(2 * bs)) {
                    match EncryptStream::write(&mut st, c) {
                        Ok(p) => { p.draw_off(&mut out); }
                        Err(_) => { ok = false; break; }
                    }
                }
                if ok {
                    ok = match EncryptStream::finish(&mut st) {
                        Ok(p) => { p.draw_off(&mut out); true }
                        Err(_) => false,
                    };
                }
                if round == 0 {
                    ensure!(ok, "CTR:refused", "{}: a stream of {} bytes refused", what, more);
                    same!(out, xor(&d, &ks), "CTR:own-counter", "{}: stream of {} bytes", what, more);
                    st.reset();
                } else {
                    ensure!(!ok, "CTR:exhausted", "{}: a stream of {} bytes processed", what, more);
                }
            }
            cx.ev("streams past the end of a counter refused");
        }
        cx.case(&[what.as_bytes()]);
    }
    Ok(())
}
fn c08_ctor(cx: &mut Cx) -> R {
    for _ in 0..100 {
        let p = any_pair(&mut cx.rng);
        let bs = p.r.bs();
        let bits = cx.rng.below(bs * 16 + 20);
        let l = cx.rng.below((bits + 7) / 8 + 1);
        let init = cx.rng.bytes(l);
        let c = match DefaultCounter::new(init.clone(), bits) {
            Ok(c) => c,
            Err(e) => return broken("counter:refused", format!("{} bytes in {} bits: {}", l, bits, e)),
        };
        ensure!(c.bits_len() == bits, "counter:bits_len", "{} for {}", c.bits_len(), bits);
        let r = CTR::new(p.c.clone(), c);
        ensure!(r.is_ok() == (bits >= bs * 8), "CTR:short-counter", "counter of {} bits for a {}-byte block: accepted={}", bits, bs, r.is_ok());
        cx.ev(if r.is_ok() { "long enough counters accepted" } else { "short counters refused" });
        let too = cx.rng.bytes((bits + 7) / 8 + 1);
        ensure!(DefaultCounter::new(too, bits).is_err(), "counter:oversize", "initial value longer than {} bits accepted", bits);
        cx.case(&[&init, &(bits as u32).to_le_bytes(), &[bs as u8]]);
    }
    Ok(())
}

/// IV-carrying modes with their setters
enum Iv {
    Cbc(CBC<AnyC, AnyPad, Ivs>),
    Cfb(CFB<AnyC, AnyPad, Ivs>),
    Ofb(OFB<AnyC, Ivs>),
}
macro_rules! each {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Iv::Cbc($m) => $e,
            Iv::Cfb($m) => $e,
            Iv::Ofb($m) => $e,
        }
    };
}
fn mk_iv(s: &Setup, ivs: Ivs) -> Result<Iv, CryptoError> {
    let c = s.p.c.clone();
    Ok(match s.kind {
        Kind::Cbc => Iv::Cbc(CBC::new(c, s.pad(), ivs)?),
        Kind::Cfb(x) => Iv::Cfb(CFB::new(c, s.pad(), ivs, x * 8)?),
        _ => Iv::Ofb(OFB::new(c, ivs)?),
    })
}
fn c09_setters(cx: &mut Cx) -> R {
    for _ in 0..30 {
        let mut s = Setup::random(&mut cx.rng);
        if matches!(s.kind, Kind::Ecb | Kind::Ctr) {
            s.kind = *cx.rng.pick(&[Kind::Cbc, Kind::Ofb]);
        }
        let bs = s.bs();
        let bad_len = |rng: &mut Rng| {
            let mut l = rng.below(2 * bs + 3);
            if l == bs {
                l += 1;
            }
            l
        };
        // constructor with a failing or ill-fitting source
        let l = bad_len(&mut cx.rng);
        let wrong = cx.rng.bytes(l);
        ensure!(mk_iv(&s, Ivs::one(&wrong)).is_err(), format!("{}:ctor-iv-length", s.tag()), "IV of {} bytes accepted: {}", l, s.describe());
        ensure!(mk_iv(&s, Ivs { list: vec![None], at: 0, dirty: cx.rng.bool() }).is_err(), format!("{}:ctor-iv-failure", s.tag()), "failing IV source accepted");
        cx.evn("constructor refusals", 2);
        // a scripted source for update_iv
        let mut list = vec![Some(s.iv.clone())];
        for _ in 0..12 {
            list.push(match cx.rng.below(4) {
                0 => None,
                1 => { let l = bad_len(&mut cx.rng); Some(cx.rng.bytes(l)) }
                _ => Some(cx.rng.bytes(bs)),
            });
        }
        let script = list.clone();
        let mut next = 1;
        let dirty = cx.rng.bool();
        let mut obj = ctor_err(mk_iv(&s, Ivs { list, at: 0, dirty }), &s)?;
        for step in 0..12 {
            match cx.rng.below(4) {
                0 => {
                    let iv = cx.rng.patterned(bs);
                    let r = each!(&mut obj, m => m.set_iv(iv.clone()));
                    ensure!(r.is_ok(), format!("{}:set_iv", s.tag()), "valid IV refused: {}", s.describe());
                    s.iv = iv;
                    cx.ev("IVs set");
                }
                1 => {
                    let l = bad_len(&mut cx.rng);
                    let iv = cx.rng.bytes(l);
                    let r = each!(&mut obj, m => m.set_iv(iv));
                    ensure!(r.is_err(), format!("{}:set_iv-length", s.tag()), "IV of {} bytes accepted: {}", l, s.describe());
                    cx.ev("IV changes refused");
                }
                _ => {
                    let r = each!(&mut obj, m => m.update_iv().map(|v| v.clone()));
                    let slot = script[next.min(script.len() - 1)].clone();
                    next += 1;
                    match slot {
                        Some(v) if v.len() == bs => {
                            ensure!(r.as_ref().ok() == Some(&v), format!("{}:update_iv", s.tag()), "update_iv did not return the new IV: {}", s.describe());
                            s.iv = v;
                            cx.ev("IVs updated");
                        }
                        _ => {
                            ensure!(r.is_err(), format!("{}:update_iv-bad", s.tag()), "failing or ill-fitting IV source accepted: {}", s.describe());
                            cx.ev("IV updates refused");
                        }
                    }
                }
            }
            let cur = each!(&obj, m => m.cur_iv());
            same!(cur, s.iv, format!("{}:cur_iv", s.tag()), "step {}: cur_iv", step);
            let mut m = s.msg(&mut cx.rng);
            if !s.padded && s.kind != Kind::Ofb {
                m.truncate(m.len() - m.len() % s.unit());
            }
            let want = s.enc(&m, &mut vec![]).unwrap_or_default();
            let mut dst = vec![];
            let r = each!(&obj, o => o.encrypt(&mut dst, &m));
            ensure!(r.is_ok(), format!("{}:after-set", s.tag()), "encryption refused after IV changes: {}", s.describe());
            same!(dst, want, format!("{}:after-set", s.tag()), "step {} {} message {}", step, s.describe(), hx(&m));
            if step % 4 == 3 {
                // a stream made from a clone uses the same IV
                let cl = each!(&obj, o => ClonedStream::of(o.clone()));
                let mut st = cl.0;
                let mut w = [0; 2];
                let got = drive(&mut *st, &s, &mut cx.rng, &m, &mut w)?;
                ensure!(got.as_ref() == Some(&want), format!("{}:stream-after-set", s.tag()), "stream after IV changes differs: {}", s.describe());
                cx.ev("streams opened after IV changes");
            }
            cx.case(&[s.describe().as_bytes(), &m, &[step as u8]]);
            cx.ev("messages compared after a change");
        }
        cx.sample(|| format!("IV history on {}", s.describe()));
    }
    Ok(())
}
struct ClonedStream(Box<dyn Strm>);
trait IntoStrm {
    fn into_strm(self) -> Box<dyn Strm>;
}
impl IntoStrm for CBC<AnyC, AnyPad, Ivs> {
    fn into_strm(self) -> Box<dyn Strm> {
        Box::new(self.encrypt_stream())
    }
}
impl IntoStrm for CFB<AnyC, AnyPad, Ivs> {
    fn into_strm(self) -> Box<dyn Strm> {
        Box::new(self.encrypt_stream())
    }
}
impl IntoStrm for OFB<AnyC, Ivs> {
    fn into_strm(self) -> Box<dyn Strm> {
        Box::new(self.encrypt_stream())
    }
}
impl ClonedStream {
    fn of<T: IntoStrm>(t: T) -> ClonedStream {
        ClonedStream(t.into_strm())
    }
}
fn c09_segments(cx: &mut Cx) -> R {
    let p = any_pair(&mut cx.rng);
    let bs = p.r.bs();
    let iv = cx.rng.bytes(bs);
    for bits in 0..=(bs + 3) * 8 {
        for padded in [true, false] {
            let pad = if padded { AnyPad::Def(DefaultPadding::new(&p.c)) } else { AnyPad::Emp(EmptyPadding::new()) };
            let r = no_panic(|| CFB::new(p.c.clone(), pad, Ivs::one(&iv), bits).map(|_| ()));
            let s = bits / 8;
            let want = bits % 8 == 0 && s >= 1 && s <= bs && (!padded || bs % s == 0);
            match r {
                Ok(r) => ensure!(r.is_ok() == want, "CFB:segment", "segment of {} bits with a {}-byte block padded={}: accepted={}", bits, bs, padded, r.is_ok()),
                Err(m) => return broken("CFB:segment-panic", format!("segment of {} bits: {}", bits, m)),
            }
            cx.case(&[p.name.as_bytes(), &p.key, &(bits as u32).to_le_bytes(), &[padded as u8]]);
            cx.ev(if want { "segment sizes accepted" } else { "segment sizes refused" });
        }
    }
    for bits in [usize::MAX, usize::MAX - 7, 1 << 40] {
        let r = no_panic(|| CFB::new(p.c.clone(), AnyPad::Emp(EmptyPadding::new()), Ivs::one(&iv), bits).is_ok());
        ensure!(r == Ok(false), "CFB:segment-huge", "segment of {} bits: {:?}", bits, r);
    }
    Ok(())
}
fn c09_counter(cx: &mut Cx) -> R {
    for _ in 0..30 {
        let mut s = Setup::random(&mut cx.rng);
        s.kind = Kind::Ctr;
        let bs = s.bs();
        let mut obj = ctor_err(CTR::new(s.p.c.clone(), s.counter()?), &s)?;
        let mut ctr = s.full_counter();
        for step in 0..12 {
            match cx.rng.below(3) {
                0 => {
                    let w = bs + cx.rng.below(3);
                    let l = cx.rng.below(w + 1);
                    s.ctr_init = cx.rng.bytes(l);
                    s.ctr_width = w;
                    let r = obj.set_counter(s.counter()?);
                    ensure!(r.is_ok(), "CTR:set_counter", "counter of {} bytes refused", w);
                    ctr = s.full_counter();
                    cx.ev("counters replaced");
                }
                1 => {
                    let bits = cx.rng.below(bs * 8);
                    let c = match DefaultCounter::new(vec![], bits) {
                        Ok(c) => c,
                        Err(e) => return broken("counter:empty", format!("{}", e)),
                    };
                    ensure!(obj.set_counter(c).is_err(), "CTR:set_counter-short", "counter of {} bits accepted", bits);
                    cx.ev("counter changes refused");
                }
                _ => {}
            }
            let m = s.msg(&mut cx.rng);
            let want = s.enc(&m, &mut ctr).unwrap_or_default();
            let mut dst = vec![1];
            ensure!(obj.encrypt(&mut dst, &m).is_ok(), "CTR:enc-refused", "refused: {}", s.describe());
            same!(dst, want, "CTR:after-set", "step {} {} message {}", step, s.describe(), hx(&m));
            cx.case(&[s.describe().as_bytes(), &m, &[step as u8]]);
            cx.ev("messages compared after a counter change");
        }
    }
    Ok(())
}
/// the library's own random IV source over scripted and failing random sources
fn c09_default_iv(cx: &mut Cx) -> R {
    for _ in 0..60 {
        let p = any_pair(&mut cx.rng);
        let bs = p.r.bs();
        let seed = cx.rng.u64();
        let words = (bs + 3) / 4;
        let after = cx.rng.below(4 * words + 1) as u64;
        let fails = cx.rng.bool();
        let src = if fails { Src::failing(seed, after) } else { Src::new(seed) };
        let failed = src.failed.clone();
        let draws = src.draws.clone();
        let r = no_panic(|| OFB::new(p.c.clone(), DefaultInitialVec::new(&p.c, src)));
        let r = match r {
            Ok(r) => r,
            Err(m) => return broken("iv-source:panic", m),
        };
        match r {
            Ok(mut o) => {
                ensure!(failed.get() == 0, "iv-source:weak", "an IV was made although the source failed");
                ensure!(o.cur_iv().len() == bs, "iv-source:length", "IV of {} bytes for block {}", o.cur_iv().len(), bs);
                let mut seen = vec![o.cur_iv()];
                for _ in 0..3 {
                    let before = o.cur_iv();
                    let (f0, d0) = (failed.get(), draws.get());
                    match o.update_iv().map(|v| v.clone()) {
                        Ok(v) => {
                            ensure!(failed.get() == f0, "iv-source:weak", "an IV was made although the source failed");
                            ensure!(v.len() == bs && draws.get() - d0 >= words as u64, "iv-source:fresh", "IV of {} bytes from {} words", v.len(), draws.get() - d0);
                            if bs >= 8 {
                                ensure!(!seen.contains(&v), "iv-source:repeat", "random IV repeated");
                            }
                            seen.push(v);
                            cx.ev("random IVs drawn");
                        }
                        Err(_) => {
                            ensure!(failed.get() > f0, "iv-source:refused", "a working source was reported as failing");
                            same!(o.cur_iv(), before, "iv-source:kept", "IV after a failed update");
                            cx.ev("failing IV sources reported");
                        }
                    }
                }
            }
            Err(_) => {
                ensure!(failed.get() > 0, "iv-source:refused", "a working source was reported as failing");
                cx.ev("failing IV sources reported");
            }
        }
        cx.case(&[p.name.as_bytes(), &seed.to_le_bytes()]);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "one evaluation = one message encrypted (and decrypted again) in one call by a mode object with random cipher, key, padding, segment size, IV or counter, compared with an SP 800-38A model; distinct (parameters, message) pairs are counted",
            assumptions: &["the mode models of the harness (self-tested with SP 800-38A vectors)", "CFB pads the incomplete last segment to a whole block, as the default padding does"],
            require: &["ECB messages compared", "CBC messages compared", "CFB messages compared", "OFB messages compared", "CTR messages compared", "messages one byte short of a unit", "unpaddable messages refused", "length sweep cases", "long messages"],
            jobs: vec![
                Job { name: "oneshot", quick: 3000, thorough: 36000, run: c05_oneshot },
                Job { name: "lengths", quick: 700, thorough: 8400, run: c05_lengths },
                Job { name: "long", quick: 2000, thorough: 24000, run: c05_long },
            ],
        },
        Prop {
            id: "C06",
            rule: "one evaluation = one message driven through a stream in a random or enumerated split with random draws, on a stream with history (earlier messages, resets), compared with the one-shot model; distinct (parameters, input, position in history) are counted",
            assumptions: &["the mode models of the harness"],
            require: &["ECB streamed messages compared (enc)", "CBC streamed messages compared (enc)", "CFB streamed messages compared (enc)", "OFB streamed messages compared (enc)", "CTR streamed messages compared (enc)",
                "ECB streamed messages compared (dec)", "CBC streamed messages compared (dec)", "CFB streamed messages compared (dec)", "OFB streamed messages compared (dec)", "CTR streamed messages compared (dec)",
                "later messages on one stream", "streams reset in mid message", "stream writes", "two-way splits enumerated", "long streams", "messages finished without taking their output", "one-shot calls during a stream"],
            jobs: vec![
                Job { name: "stream", quick: 4800, thorough: 57600, run: c06_stream },
                Job { name: "splits", quick: 960, thorough: 11520, run: c06_splits },
                Job { name: "long", quick: 1440, thorough: 17280, run: c06_long },
            ],
        },
        Prop {
            id: "C07",
            rule: "one evaluation = one buffer through padding/unpadding, or one altered, truncated, extended, random or chosen badly padded ciphertext through one-shot and stream decryption, judged by a model that accepts or refuses; distinct inputs are counted",
            assumptions: &["the padding model: 80 followed by fewer zeros than a block"],
            require: &["padded and unpadded strings", "malformed padding refused and left unchanged", "malformed ciphertexts refused by one-shot and stream", "good messages after a refused one", "altered ciphertexts that decode"],
            jobs: vec![
                Job { name: "padding", quick: 2400, thorough: 28800, run: c07_padding },
                Job { name: "ciphertext", quick: 2400, thorough: 28800, run: c07_ciphertext },
            ],
        },
        Prop {
            id: "C08",
            rule: "one evaluation = one history of calls on a counter-mode object; the key stream of every block is traced back to its counter value, and these must be the successive values from the initial one, each used once; histories distinct by parameters are counted, and the number of counter values is in the events",
            assumptions: &["the low block-size bytes of a wider counter form the block"],
            require: &["one-shot calls watched", "stream writes watched", "stream finishes watched", "one-shot calls on a stream watched", "counter values in use", "one-shot calls past the end of a counter refused", "streams past the end of a counter refused", "counters wider than the block", "counter wrap-arounds crossed", "blocks in long runs", "short counters refused", "long enough counters accepted"],
            jobs: vec![
                Job { name: "history", quick: 3600, thorough: 43200, run: c08_history },
                Job { name: "long", quick: 288, thorough: 3456, run: c08_long },
                Job { name: "ctor", quick: 480, thorough: 5760, run: c08_ctor },
                Job { name: "ends", quick: 2000, thorough: 24000, run: c08_ends },
            ],
        },
        Prop {
            id: "C09",
            rule: "one evaluation = one message encrypted after a step in a history of accepted and refused parameter changes (set_iv, update_iv with a scripted failing source, set_counter), or one constructor call with a segment size; distinct cases are counted",
            assumptions: &["the mode models of the harness"],
            require: &["constructor refusals", "IVs set", "IV changes refused", "IVs updated", "IV updates refused", "streams opened after IV changes", "segment sizes accepted", "segment sizes refused", "counters replaced", "counter changes refused", "random IVs drawn", "failing IV sources reported"],
            jobs: vec![
                Job { name: "setters", quick: 2400, thorough: 28800, run: c09_setters },
                Job { name: "segments", quick: 720, thorough: 8640, run: c09_segments },
                Job { name: "counter", quick: 1200, thorough: 14400, run: c09_counter },
                Job { name: "default-iv", quick: 720, thorough: 8640, run: c09_default_iv },
            ],
        },
    ]
}
