//! MD5, SHA-1, SHA-2 (with SHA-512/t), SM3, HMAC: whole-message functions.
//! Constants are derived (sines, prime roots) where the standard allows it.
use super::big::Big;
use std::sync::OnceLock;

fn pad(m: &[u8], block: usize, lenbytes: usize, be: bool) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % block != block - lenbytes {
        v.push(0);
    }
    let bits = (m.len() as u128) * 8;
    if be {
        v.extend_from_slice(&bits.to_be_bytes()[16 - lenbytes..]);
    } else {
        v.extend_from_slice(&bits.to_le_bytes()[..lenbytes]);
    }
    v
}

pub fn md5(m: &[u8]) -> Vec<u8> {
    static K: OnceLock<[u32; 64]> = OnceLock::new();
    let k = K.get_or_init(|| {
        let mut k = [0u32; 64];
        for i in 0..64 {
            k[i] = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
        }
        k
    });
    const R: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for blk in pad(m, 64, 8, false).chunks(64) {
        let w: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let [mut a, mut b, mut c, mut d] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]).rotate_left(R[i / 16][i % 4]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(t);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
}

pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for i in 16..80 {
            w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}

fn primes(n: usize) -> Vec<u64> {
    let mut v = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// first 64 fractional bits of the k-th root of p
fn root_frac(p: u64, k: usize) -> u64 {
    // floor(p^(1/k) * 2^64) by bisection over big integers
    let target = Big::from_u64(p).shl(64 * k);
    let (mut lo, mut hi) = (Big::zero(), Big::one().shl(64 + 10));
    while hi.sub(&lo) > Big::one() {
        let mid = lo.add(&hi).shr(1);
        let mut x = mid.clone();
        for _ in 1..k {
            x = x.mul(&mid);
        }
        if x <= target {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo.low_u64()
}
struct K2 {
    k: Vec<u64>,
    h512: [u64; 8],
    h384: [u64; 8],
}
fn k2() -> &'static K2 {
    static K: OnceLock<K2> = OnceLock::new();
    K.get_or_init(|| {
        let p = primes(80);
        let mut h512 = [0; 8];
        let mut h384 = [0; 8];
        for i in 0..8 {
            h512[i] = root_frac(p[i], 2);
            h384[i] = root_frac(p[i + 8], 2);
        }
        K2 { k: p.iter().map(|x| root_frac(*x, 3)).collect(), h512, h384 }
    })
}

fn sha256_core(m: &[u8], mut h: [u32; 8]) -> Vec<u8> {
    let kk = &k2().k;
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((kk[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = (k2().h512[i] >> 32) as u32;
    }
    sha256_core(m, h)
}
pub fn sha224(m: &[u8]) -> Vec<u8> {
    // second 32 bits of the fractional parts of the square roots of the 9th..16th primes
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = k2().h384[i] as u32;
    }
    let mut v = sha256_core(m, h);
    v.truncate(28);
    v
}
fn sha512_core(m: &[u8], mut h: [u64; 8]) -> Vec<u8> {
    let kk = &k2().k;
    for blk in pad(m, 128, 16, true).chunks(128) {
        let mut w: Vec<u64> =
            blk.chunks(8).map(|c| u64::from_be_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(kk[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
pub fn sha512(m: &[u8]) -> Vec<u8> {
    sha512_core(m, k2().h512)
}
pub fn sha384(m: &[u8]) -> Vec<u8> {
    let mut v = sha512_core(m, k2().h384);
    v.truncate(48);
    v
}
pub fn sha512t(m: &[u8], t: usize) -> Vec<u8> {
    let mut h = k2().h512;
    for x in h.iter_mut() {
        *x ^= 0xa5a5a5a5a5a5a5a5;
    }
    let iv = sha512_core(format!("SHA-512/{}", t).as_bytes(), h);
    for i in 0..8 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&iv[8 * i..8 * i + 8]);
        h[i] = u64::from_be_bytes(b);
    }
    let mut v = sha512_core(m, h);
    v.truncate((t + 7) / 8);
    if t % 8 != 0 {
        let n = v.len();
        v[n - 1] &= 0xffu8 << (8 - t % 8);
    }
    v
}
pub fn sha512_224(m: &[u8]) -> Vec<u8> {
    sha512t(m, 224)
}
pub fn sha512_256(m: &[u8]) -> Vec<u8> {
    sha512t(m, 256)
}
pub fn sm3(m: &[u8]) -> Vec<u8> {
    let mut v = [
        0x7380166fu32, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e,
    ];
    let p0 = |x: u32| x ^ x.rotate_left(9) ^ x.rotate_left(17);
    let p1 = |x: u32| x ^ x.rotate_left(15) ^ x.rotate_left(23);
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for j in 16..68 {
            w.push(p1(w[j - 16] ^ w[j - 9] ^ w[j - 3].rotate_left(15)) ^ w[j - 13].rotate_left(7) ^ w[j - 6]);
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = v;
        for j in 0..64usize {
            let t: u32 = if j < 16 { 0x79cc4519 } else { 0x7a879d8a };
            let ss1 = a.rotate_left(12).wrapping_add(e).wrapping_add(t.rotate_left((j % 32) as u32)).rotate_left(7);
            let ss2 = ss1 ^ a.rotate_left(12);
            let (ff, gg) = if j < 16 {
                (a ^ b ^ c, e ^ f ^ g)
            } else {
                ((a & b) | (a & c) | (b & c), (e & f) | (!e & g))
            };
            let tt1 = ff.wrapping_add(d).wrapping_add(ss2).wrapping_add(w[j] ^ w[j + 4]);
            let tt2 = gg.wrapping_add(h).wrapping_add(ss1).wrapping_add(w[j]);
            d = c;
            c = b.rotate_left(9);
            b = a;
            a = tt1;
            h = g;
            g = f.rotate_left(19);
            f = e;
            e = p0(tt2);
        }
        for (x, y) in v.iter_mut().zip([a, b, c, d, e, f, g, h]) {
            *x ^= y;
        }
    }
    v.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}

pub type HashFn = fn(&[u8]) -> Vec<u8>;

pub fn hmac(h: HashFn, block: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(m);
    let inner = h(&i);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&inner);
    h(&o)
}
