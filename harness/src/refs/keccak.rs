//! Keccak-p[b, nr] and sponge on lanes, from FIPS 202.
pub fn rc_bit(t: i64) -> u64 {
    let t = t.rem_euclid(255);
    let mut r = 1u16; // bit i of r is R[i]
    for _ in 0..t {
        // R = 0 || R
        r <<= 1;
        if r & 0x100 != 0 {
            r ^= 0x171; // R[0],R[4],R[5],R[6] ^= R[8], drop R[8]
        }
    }
    (r & 1) as u64
}

pub fn permute(a: &mut [u64; 25], w: usize, nr: u32) {
    let l = w.trailing_zeros() as i64;
    let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let rot = |x: u64, n: usize| -> u64 {
        let n = n % w;
        if n == 0 { x } else { ((x << n) | (x >> (w - n))) & mask }
    };
    for ir in (12 + 2 * l - nr as i64)..(12 + 2 * l) {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        // rho
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24usize {
            a[x + 5 * y] = rot(a[x + 5 * y], (t + 1) * (t + 2) / 2);
            let nx = y;
            y = (2 * x + 3 * y) % 5;
            x = nx;
        }
        // pi
        let b = *a;
        for x in 0..5 {
            for y in 0..5 {
                a[x + 5 * y] = b[(x + 3 * y) % 5 + 5 * x];
            }
        }
        // chi
        let b = *a;
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y] & mask);
            }
        }
        // iota
        for j in 0..=l {
            a[0] ^= rc_bit(j + 7 * ir) << ((1u64 << j) - 1);
        }
    }
}

fn get(a: &[u64; 25], w: usize, i: usize) -> u8 {
    ((a[i / w] >> (i % w)) & 1) as u8
}

/// bits in (each 0/1), bits out
pub fn sponge_bits(b: usize, nr: u32, rate: usize, msg: &[u8], d: usize) -> Vec<u8> {
    let w = b / 25;
    let mut p = msg.to_vec();
    p.push(1);
    while (p.len() + 1) % rate != 0 {
        p.push(0);
    }
    p.push(1);
    let mut a = [0u64; 25];
    for blk in p.chunks(rate) {
        for (i, &x) in blk.iter().enumerate() {
            a[i / w] ^= (x as u64) << (i % w);
        }
        permute(&mut a, w, nr);
    }
    let mut out = Vec::with_capacity(d);
    loop {
        for i in 0..rate {
            if out.len() == d {
                return out;
            }
            out.push(get(&a, w, i));
        }
        if out.len() >= d {
            out.truncate(d);
            return out;
        }
        permute(&mut a, w, nr);
    }
}

pub fn to_bits(m: &[u8]) -> Vec<u8> {
    m.iter().flat_map(|b| (0..8).map(move |i| (b >> i) & 1)).collect()
}
pub fn from_bits(b: &[u8]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | (x << i))).collect()
}

pub fn sha3_bits(bits: usize, m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    v.extend_from_slice(&[0, 1]);
    from_bits(&sponge_bits(1600, 24, 1600 - 2 * bits, &v, bits))
}
pub fn shake_bits(sec: usize, m: &[u8], d: usize, raw: bool) -> Vec<u8> {
    let mut v = m.to_vec();
    if raw {
        v.extend_from_slice(&[1, 1]);
    } else {
        v.extend_from_slice(&[1, 1, 1, 1]);
    }
    from_bits(&sponge_bits(1600, 24, 1600 - 2 * sec, &v, d))
}
pub fn sha3_224(m: &[u8]) -> Vec<u8> {
    sha3_bits(224, &to_bits(m))
}
pub fn sha3_256(m: &[u8]) -> Vec<u8> {
    sha3_bits(256, &to_bits(m))
}
pub fn sha3_384(m: &[u8]) -> Vec<u8> {
    sha3_bits(384, &to_bits(m))
}
pub fn sha3_512(m: &[u8]) -> Vec<u8> {
    sha3_bits(512, &to_bits(m))
}
