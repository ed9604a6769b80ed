//! SP 800-38A modes and CMAC over any block permutation.
pub trait Blk {
    fn bs(&self) -> usize;
    fn e(&self, b: &[u8]) -> Vec<u8>;
    fn d(&self, b: &[u8]) -> Vec<u8>;
}
impl Blk for super::aes::Aes {
    fn bs(&self) -> usize { 16 }
    fn e(&self, b: &[u8]) -> Vec<u8> { self.enc(b) }
    fn d(&self, b: &[u8]) -> Vec<u8> { self.dec(b) }
}
impl Blk for super::des::Des {
    fn bs(&self) -> usize { 8 }
    fn e(&self, b: &[u8]) -> Vec<u8> { self.enc(b) }
    fn d(&self, b: &[u8]) -> Vec<u8> { self.dec(b) }
}
impl Blk for super::des::Tdes {
    fn bs(&self) -> usize { 8 }
    fn e(&self, b: &[u8]) -> Vec<u8> { self.enc(b) }
    fn d(&self, b: &[u8]) -> Vec<u8> { self.dec(b) }
}
impl Blk for super::sm4::Sm4 {
    fn bs(&self) -> usize { 16 }
    fn e(&self, b: &[u8]) -> Vec<u8> { self.enc(b) }
    fn d(&self, b: &[u8]) -> Vec<u8> { self.dec(b) }
}

pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
/// 10* padding to a multiple of `bs`
pub fn pad10(m: &[u8], bs: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % bs != 0 {
        v.push(0);
    }
    v
}
pub fn unpad10(m: &[u8]) -> Option<Vec<u8>> {
    let z = m.iter().rev().take_while(|b| **b == 0).count();
    if z < m.len() && m[m.len() - 1 - z] == 0x80 {
        Some(m[..m.len() - 1 - z].to_vec())
    } else {
        None
    }
}
pub fn ecb_e(c: &dyn Blk, m: &[u8]) -> Vec<u8> {
    m.chunks(c.bs()).flat_map(|b| c.e(b)).collect()
}
pub fn ecb_d(c: &dyn Blk, m: &[u8]) -> Vec<u8> {
    m.chunks(c.bs()).flat_map(|b| c.d(b)).collect()
}
pub fn cbc_e(c: &dyn Blk, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut o = Vec::new();
    for b in m.chunks(c.bs()) {
        prev = c.e(&xor(b, &prev));
        o.extend_from_slice(&prev);
    }
    o
}
pub fn cbc_d(c: &dyn Blk, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut o = Vec::new();
    for b in m.chunks(c.bs()) {
        o.extend(xor(&c.d(b), &prev));
        prev = b.to_vec();
    }
    o
}
pub fn cfb_e(c: &dyn Blk, iv: &[u8], s: usize, m: &[u8]) -> Vec<u8> {
    let mut reg = iv.to_vec();
    let mut o = Vec::new();
    for b in m.chunks(s) {
        let ct = xor(b, &c.e(&reg)[..b.len()]);
        reg.drain(..s);
        reg.extend_from_slice(&ct);
        o.extend(ct);
    }
    o
}
pub fn cfb_d(c: &dyn Blk, iv: &[u8], s: usize, m: &[u8]) -> Vec<u8> {
    let mut reg = iv.to_vec();
    let mut o = Vec::new();
    for b in m.chunks(s) {
        o.extend(xor(b, &c.e(&reg)[..b.len()]));
        reg.drain(..s);
        reg.extend_from_slice(b);
    }
    o
}
pub fn ofb(c: &dyn Blk, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut reg = iv.to_vec();
    let mut o = Vec::new();
    for b in m.chunks(c.bs()) {
        reg = c.e(&reg);
        o.extend(xor(b, &reg));
    }
    o
}
/// big-endian increment modulo 2^(8*len)
pub fn inc(c: &mut [u8]) {
    for b in c.iter_mut().rev() {
        *b = b.wrapping_add(1);
        if *b != 0 {
            break;
        }
    }
}
/// counter of any width; the low `bs` bytes are the block
pub fn ctr(c: &dyn Blk, counter: &mut Vec<u8>, m: &[u8]) -> Vec<u8> {
    let bs = c.bs();
    let mut o = Vec::new();
    for b in m.chunks(bs) {
        let blk = counter[counter.len() - bs..].to_vec();
        o.extend(xor(b, &c.e(&blk)));
        inc(counter);
    }
    o
}

fn dbl(x: &[u8], rb: u64) -> Vec<u8> {
    let carry = x[0] >> 7;
    let mut o: Vec<u8> = (0..x.len()).map(|i| x[i] << 1 | x.get(i + 1).map(|y| y >> 7).unwrap_or(0)).collect();
    if carry == 1 {
        let n = o.len();
        for (i, b) in rb.to_be_bytes().iter().rev().enumerate() {
            if i < n {
                o[n - 1 - i] ^= b;
            }
        }
    }
    o
}
/// lexicographically first irreducible polynomial with minimal weight, without the leading term
pub fn rb_for(bs: usize) -> Option<u64> {
    Some(match bs {
        8 => 0x1b,
        16 => 0x87,
        4 => 0x8d,
        6 => 0x2d,
        12 => 0x641,
        20 => 0x2d,
        24 => 0x87,
        28 => 0x309,
        32 => 0x425,
        40 => 0x1b,
        48 => 0x100d,
        56 => 0x851,
        64 => 0x125,
        96 => 0xa0011,
        128 => 0x80043,
        256 => 0x86001,
        _ => return None,
    })
}
pub fn cmac(c: &dyn Blk, m: &[u8]) -> Vec<u8> {
    let bs = c.bs();
    let rb = rb_for(bs).expect("HARNESS-ERROR rb");
    let l = c.e(&vec![0; bs]);
    let k1 = dbl(&l, rb);
    let k2 = dbl(&k1, rb);
    let n = if m.is_empty() { 1 } else { (m.len() + bs - 1) / bs };
    let mut x = vec![0u8; bs];
    for i in 0..n - 1 {
        x = c.e(&xor(&x, &m[i * bs..(i + 1) * bs]));
    }
    let last = &m[(n - 1) * bs..];
    let mn = if last.len() == bs { xor(last, &k1) } else { xor(&pad10(last, bs), &k2) };
    c.e(&xor(&x, &mn))
}
