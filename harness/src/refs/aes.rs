//! AES from FIPS-197, computing the S-box from field arithmetic.
fn xt(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}

pub struct Tables {
    s: [u8; 256],
    inv: [u8; 256],
    m: [[u8; 256]; 16],
}

static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();

pub fn tables() -> &'static Tables {
    T.get_or_init(|| {
        let mut s = [0u8; 256];
        let mut inv = [0u8; 256];
        for a in 0..256usize {
            // multiplicative inverse as a^254
            let mut r = 1u8;
            for _ in 0..254 {
                r = gmul(r, a as u8);
            }
            let b = if a == 0 { 0 } else { r };
            s[a] = b ^ b.rotate_left(1) ^ b.rotate_left(2) ^ b.rotate_left(3) ^ b.rotate_left(4) ^ 0x63;
        }
        for a in 0..256usize {
            inv[s[a] as usize] = a as u8;
        }
        let mut m = [[0u8; 256]; 16];
        for k in 0..16 {
            for a in 0..256usize {
                m[k][a] = gmul(a as u8, k as u8);
            }
        }
        Tables { s, inv, m }
    })
}

pub struct Aes {
    rk: Vec<[u8; 4]>,
    nr: usize,
}

impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tables();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [t.s[x[1] as usize] ^ rc, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                for b in x.iter_mut() {
                    *b = t.s[*b as usize];
                }
            }
            let p = w[i - nk];
            w.push([x[0] ^ p[0], x[1] ^ p[1], x[2] ^ p[2], x[3] ^ p[3]]);
        }
        Aes { rk: w, nr }
    }
    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for c in 0..4 {
            for i in 0..4 {
                s[4 * c + i] ^= self.rk[4 * r + c][i];
            }
        }
    }
    pub fn enc(&self, b: &[u8]) -> Vec<u8> {
        let t = tables();
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        self.ark(&mut s, 0);
        for r in 1..=self.nr {
            let mut x = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    x[4 * c + i] = t.s[s[4 * ((c + i) % 4) + i] as usize];
                }
            }
            if r < self.nr {
                let y = x;
                for c in 0..4 {
                    for i in 0..4 {
                        x[4 * c + i] = t.m[2][y[4 * c + i] as usize]
                            ^ t.m[3][y[4 * c + (i + 1) % 4] as usize]
                            ^ y[4 * c + (i + 2) % 4]
                            ^ y[4 * c + (i + 3) % 4];
                    }
                }
            }
            s = x;
            self.ark(&mut s, r);
        }
        s.to_vec()
    }
    pub fn dec(&self, b: &[u8]) -> Vec<u8> {
        let t = tables();
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        self.ark(&mut s, self.nr);
        for r in (0..self.nr).rev() {
            let mut x = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    x[4 * ((c + i) % 4) + i] = t.inv[s[4 * c + i] as usize];
                }
            }
            s = x;
            self.ark(&mut s, r);
            if r > 0 {
                let y = s;
                for c in 0..4 {
                    for i in 0..4 {
                        s[4 * c + i] = t.m[14][y[4 * c + i] as usize]
                            ^ t.m[11][y[4 * c + (i + 1) % 4] as usize]
                            ^ t.m[13][y[4 * c + (i + 2) % 4] as usize]
                            ^ t.m[9][y[4 * c + (i + 3) % 4] as usize];
                    }
                }
            }
        }
        s.to_vec()
    }
}
