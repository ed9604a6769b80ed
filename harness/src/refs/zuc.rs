//! ZUC, 128-EEA3 and 128-EIA3 from the ETSI/SAGE specification.
//! S-boxes are generated from their structure (Feistel network / field inversion).
use std::sync::OnceLock;

fn mul(mut a: u16, mut b: u16) -> u8 {
    let mut r = 0u16;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x18b;
        }
        b >>= 1;
    }
    r as u8
}

fn boxes() -> &'static ([u8; 256], [u8; 256]) {
    static B: OnceLock<([u8; 256], [u8; 256])> = OnceLock::new();
    B.get_or_init(|| {
        const P1: [u8; 16] = [0, 6, 9, 7, 6, 6, 11, 3, 9, 13, 9, 5, 14, 12, 10, 0];
        const P2: [u8; 16] = [1, 11, 10, 14, 3, 15, 2, 9, 13, 8, 5, 6, 0, 7, 4, 12];
        const P3: [u8; 16] = [11, 15, 3, 15, 9, 4, 3, 6, 10, 10, 4, 12, 9, 0, 5, 4];
        const L: [u8; 8] = [0x97, 0x3e, 0x6d, 0xcb, 0xee, 0xdd, 0xbb, 0x77];
        let (mut s0, mut s1) = ([0u8; 256], [0u8; 256]);
        for x in 0..256usize {
            let (mut a, mut b) = ((x >> 4) as u8, (x & 15) as u8);
            a ^= P1[b as usize];
            b ^= P2[a as usize];
            a ^= P3[b as usize];
            s0[x] = ((a << 4) | b).rotate_left(5);
            let mut r = 1u8;
            for _ in 0..254 {
                r = mul(r as u16, x as u16);
            }
            let inv = if x == 0 { 0 } else { r };
            let mut y = 0x55;
            for i in 0..8 {
                if inv >> i & 1 == 1 {
                    y ^= L[i];
                }
            }
            s1[x] = y;
        }
        (s0, s1)
    })
}

const D: [u64; 16] = [
    0x44D7, 0x26BC, 0x626B, 0x135E, 0x5789, 0x35E2, 0x7135, 0x09AF, 0x4D78, 0x2F13, 0x6BC4, 0x1AF1, 0x5E26, 0x3C4D, 0x789A, 0x47AC,
];
const M31: u64 = (1 << 31) - 1;

#[derive(Clone)]
pub struct Zuc {
    s: [u64; 16],
    r1: u32,
    r2: u32,
}

impl Zuc {
    pub fn new(key: &[u8], iv: &[u8]) -> Zuc {
        let mut s = [0u64; 16];
        for i in 0..16 {
            s[i] = ((key[i] as u64) << 23) | (D[i] << 8) | iv[i] as u64;
        }
        let mut z = Zuc { s, r1: 0, r2: 0 };
        for _ in 0..32 {
            let x = z.br();
            let w = z.f(x[0], x[1], x[2]);
            z.lfsr((w >> 1) as u64);
        }
        let x = z.br();
        z.f(x[0], x[1], x[2]);
        z.lfsr(0);
        z
    }
    fn lfsr(&mut self, u: u64) {
        let s = &self.s;
        let v = ((s[15] as u128) << 15)
            + ((s[13] as u128) << 17)
            + ((s[10] as u128) << 21)
            + ((s[4] as u128) << 20)
            + ((s[0] as u128) << 8)
            + s[0] as u128
            + u as u128;
        let mut n = (v % M31 as u128) as u64;
        if n == 0 {
            n = M31;
        }
        self.s.rotate_left(1);
        self.s[15] = n;
    }
    fn br(&self) -> [u32; 4] {
        let hi = |x: u64| ((x >> 15) & 0xffff) as u32;
        let lo = |x: u64| (x & 0xffff) as u32;
        let s = &self.s;
        [hi(s[15]) << 16 | lo(s[14]), lo(s[11]) << 16 | hi(s[9]), lo(s[7]) << 16 | hi(s[5]), lo(s[2]) << 16 | hi(s[0])]
    }
    fn f(&mut self, x0: u32, x1: u32, x2: u32) -> u32 {
        let w = (x0 ^ self.r1).wrapping_add(self.r2);
        let w1 = self.r1.wrapping_add(x1);
        let w2 = self.r2 ^ x2;
        let u = w1 << 16 | w2 >> 16;
        let v = w2 << 16 | w1 >> 16;
        let l1 = u ^ u.rotate_left(2) ^ u.rotate_left(10) ^ u.rotate_left(18) ^ u.rotate_left(24);
        let l2 = v ^ v.rotate_left(8) ^ v.rotate_left(14) ^ v.rotate_left(22) ^ v.rotate_left(30);
        let sb = |x: u32| {
            let (s0, s1) = boxes();
            let b = x.to_be_bytes();
            u32::from_be_bytes([s0[b[0] as usize], s1[b[1] as usize], s0[b[2] as usize], s1[b[3] as usize]])
        };
        self.r1 = sb(l1);
        self.r2 = sb(l2);
        w
    }
    pub fn word(&mut self) -> u32 {
        let x = self.br();
        let z = self.f(x[0], x[1], x[2]) ^ x[3];
        self.lfsr(0);
        z
    }
}

pub fn eea3_stream(count: u32, bearer: u8, dir: bool, ck: &[u8], n: usize) -> Vec<u8> {
    let c = count.to_be_bytes();
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&c);
    iv[4] = ((bearer & 0x1f) << 3) | ((dir as u8) << 2);
    for i in 0..8 {
        iv[i + 8] = iv[i];
    }
    let mut z = Zuc::new(ck, &iv);
    let mut v = Vec::new();
    while v.len() < n {
        v.extend_from_slice(&z.word().to_be_bytes());
    }
    v.truncate(n);
    v
}

pub fn eia3(count: u32, bearer: u8, dir: bool, ck: &[u8], m: &[u8]) -> Vec<u8> {
    eia3_bits(count, bearer, dir, ck, m, m.len() * 8)
}
pub fn eia3_bits(count: u32, bearer: u8, dir: bool, ck: &[u8], m: &[u8], bits: usize) -> Vec<u8> {
    let c = count.to_be_bytes();
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&c);
    iv[4] = (bearer & 0x1f) << 3;
    for i in 0..8 {
        iv[i + 8] = iv[i];
    }
    iv[8] ^= (dir as u8) << 7;
    iv[14] ^= (dir as u8) << 7;
    let l = (bits + 31) / 32 + 2;
    let mut z = Zuc::new(ck, &iv);
    let ks: Vec<u32> = (0..l).map(|_| z.word()).collect();
    let zi = |i: usize| -> u32 {
        let (w, r) = (i / 32, i % 32);
        if r == 0 { ks[w] } else { ks[w] << r | ks[w + 1] >> (32 - r) }
    };
    let mut t = 0u32;
    for i in 0..bits {
        if m[i / 8] >> (7 - i % 8) & 1 == 1 {
            t ^= zi(i);
        }
    }
    t ^= zi(bits);
    (t ^ ks[l - 1]).to_be_bytes().to_vec()
}
