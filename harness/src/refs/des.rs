//! DES and TDEA from FIPS 46-3 (bit-by-bit).
const IP: [u8; 64] = [
    58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
    57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7,
];
const P: [u8; 32] = [
    16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25,
];
const PC1: [u8; 56] = [
    57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
    63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4,
];
const PC2: [u8; 48] = [
    14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
    41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
];
const SH: [u8; 16] = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1];
const S: [[u8; 64]; 8] = [
    [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
     4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
    [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
     0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
    [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
     13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
    [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
     10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
    [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
     4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
    [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
     9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
    [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
     1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
    [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
     7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11],
];

fn perm(x: u64, inbits: u32, t: &[u8]) -> u64 {
    let mut r = 0;
    for &p in t {
        r = (r << 1) | ((x >> (inbits - p as u32)) & 1);
    }
    r
}

pub struct Des {
    k: [u64; 16],
}

impl Des {
    pub fn new(key: &[u8]) -> Des {
        let k = u64::from_be_bytes([key[0], key[1], key[2], key[3], key[4], key[5], key[6], key[7]]);
        let cd = perm(k, 64, &PC1);
        let (mut c, mut d) = (cd >> 28, cd & 0xfffffff);
        let mut ks = [0u64; 16];
        for i in 0..16 {
            for _ in 0..SH[i] {
                c = ((c << 1) | (c >> 27)) & 0xfffffff;
                d = ((d << 1) | (d >> 27)) & 0xfffffff;
            }
            ks[i] = perm((c << 28) | d, 56, &PC2);
        }
        Des { k: ks }
    }
    fn f(r: u64, k: u64) -> u64 {
        let mut out = 0u64;
        for i in 0..8 {
            // expansion: bits 4i .. 4i+5 (1-based 32,1..5 for i=0)
            let mut six = 0u64;
            for j in 0..6 {
                let pos = (4 * i + j + 31) % 32; // 0-based from the left
                six = (six << 1) | ((r >> (31 - pos)) & 1);
            }
            six ^= (k >> (42 - 6 * i)) & 0x3f;
            let row = ((six >> 4) & 2) | (six & 1);
            let col = (six >> 1) & 0xf;
            out = (out << 4) | S[i as usize][(row * 16 + col) as usize] as u64;
        }
        perm(out, 32, &P)
    }
    fn run(&self, b: &[u8], dec: bool) -> Vec<u8> {
        let x = u64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
        let y = perm(x, 64, &IP);
        let (mut l, mut r) = (y >> 32, y & 0xffffffff);
        for i in 0..16 {
            let k = self.k[if dec { 15 - i } else { i }];
            let t = l ^ Self::f(r, k);
            l = r;
            r = t;
        }
        let pre = (r << 32) | l;
        // inverse of IP
        let mut out = 0u64;
        for (i, &p) in IP.iter().enumerate() {
            out |= ((pre >> (63 - i)) & 1) << (64 - p as u32);
        }
        out.to_be_bytes().to_vec()
    }
    pub fn enc(&self, b: &[u8]) -> Vec<u8> {
        self.run(b, false)
    }
    pub fn dec(&self, b: &[u8]) -> Vec<u8> {
        self.run(b, true)
    }
}

pub struct Tdes(pub Des, pub Des, pub Des);
impl Tdes {
    pub fn new(k: &[u8]) -> Tdes {
        Tdes(Des::new(&k[..8]), Des::new(&k[8..16]), Des::new(&k[16..24]))
    }
    pub fn enc(&self, b: &[u8]) -> Vec<u8> {
        self.2.enc(&self.1.dec(&self.0.enc(b)))
    }
    pub fn dec(&self, b: &[u8]) -> Vec<u8> {
        self.0.dec(&self.1.enc(&self.2.dec(b)))
    }
}
