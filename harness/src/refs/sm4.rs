//! SM4 from GB/T 32907-2016. The S-box is computed: affine, inversion in GF(2^8)
//! modulo x^8+x^7+x^6+x^5+x^4+x^2+1, affine.
fn mul(mut a: u16, mut b: u16) -> u8 {
    let mut r = 0u16;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x1f5;
        }
        b >>= 1;
    }
    r as u8
}
fn affine(x: u8) -> u8 {
    // circulant matrix with first row 11010011 (0xd3) applied to the bit vector, plus 0xd3
    let mut r = 0u8;
    for i in 0..8 {
        let row = 0xA7u8.rotate_left(i);
        let bit = (row & x).count_ones() as u8 & 1;
        r |= bit << i;
    }
    r ^ 0xd3
}
static SB: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
pub fn sbox() -> &'static [u8; 256] {
    SB.get_or_init(|| {
        let mut s = [0u8; 256];
        for a in 0..256u16 {
            let x = affine(a as u8);
            let mut r = 1u8;
            for _ in 0..254 {
                r = mul(r as u16, x as u16);
            }
            let inv = if x == 0 { 0 } else { r };
            s[a as usize] = affine(inv);
        }
        s
    })
}
fn tau(x: u32) -> u32 {
    let s = sbox();
    let b = x.to_be_bytes();
    u32::from_be_bytes([s[b[0] as usize], s[b[1] as usize], s[b[2] as usize], s[b[3] as usize]])
}
pub struct Sm4 {
    rk: [u32; 32],
}
impl Sm4 {
    pub fn new(key: &[u8]) -> Sm4 {
        const FK: [u32; 4] = [0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC];
        let mut k = [0u32; 36];
        for i in 0..4 {
            k[i] = u32::from_be_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]) ^ FK[i];
        }
        let mut rk = [0u32; 32];
        for i in 0..32usize {
            let mut ck = [0u8; 4];
            for j in 0..4 {
                ck[j] = (((4 * i + j) * 7) % 256) as u8;
            }
            let t = tau(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ u32::from_be_bytes(ck));
            k[i + 4] = k[i] ^ t ^ t.rotate_left(13) ^ t.rotate_left(23);
            rk[i] = k[i + 4];
        }
        Sm4 { rk }
    }
    fn run(&self, b: &[u8], dec: bool) -> Vec<u8> {
        let mut x: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for i in 0..32 {
            let rk = self.rk[if dec { 31 - i } else { i }];
            let t = tau(x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ rk);
            x.push(x[i] ^ t ^ t.rotate_left(2) ^ t.rotate_left(10) ^ t.rotate_left(18) ^ t.rotate_left(24));
        }
        (0..4).flat_map(|i| x[35 - i].to_be_bytes().to_vec()).collect()
    }
    pub fn enc(&self, b: &[u8]) -> Vec<u8> {
        self.run(b, false)
    }
    pub fn dec(&self, b: &[u8]) -> Vec<u8> {
        self.run(b, true)
    }
}
