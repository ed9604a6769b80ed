//! Short Weierstrass curves y^2 = x^3 - 3x + b over big integers.
use super::big::Big;

#[derive(Clone)]
pub struct Curve {
    pub name: &'static str,
    pub bits: usize,
    pub p: Big,
    pub b: Big,
    pub n: Big,
    pub g: Pt,
}
/// None is the point at infinity
pub type Pt = Option<(Big, Big)>;

fn mk(name: &'static str, bits: usize, p: &str, b: &str, gx: &str, gy: &str, n: &str) -> Curve {
    Curve {
        name,
        bits,
        p: Big::from_hex(p),
        b: Big::from_hex(b),
        n: Big::from_hex(n),
        g: Some((Big::from_hex(gx), Big::from_hex(gy))),
    }
}
pub fn p224() -> Curve {
    mk("P-224", 224,
       "ffffffffffffffffffffffffffffffff000000000000000000000001",
       "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
       "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21",
       "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34",
       "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d")
}
pub fn p256() -> Curve {
    mk("P-256", 256,
       "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
       "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
       "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
       "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
       "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
}
pub fn p384() -> Curve {
    mk("P-384", 384,
       "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
       "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
       "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
       "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f",
       "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973")
}
pub fn p521() -> Curve {
    mk("P-521", 521,
       "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
       "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
       "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
       "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650",
       "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409")
}

impl Curve {
    pub fn on(&self, x: &Big, y: &Big) -> bool {
        if *x >= self.p || *y >= self.p {
            return false;
        }
        let p = &self.p;
        let r = x.mulm(x, p).mulm(x, p).subm(&x.mulm(&Big::from_u64(3), p), p).addm(&self.b, p);
        y.mulm(y, p) == r
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        a.as_ref().map(|(x, y)| (x.clone(), Big::zero().subm(y, &self.p)))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let p = &self.p;
        match (a, b) {
            (None, _) => b.clone(),
            (_, None) => a.clone(),
            (Some((x1, y1)), Some((x2, y2))) => {
                let lam = if x1 == x2 {
                    if y1.addm(y2, p).is_zero() {
                        return None;
                    }
                    let num = x1.mulm(x1, p).mulm(&Big::from_u64(3), p).subm(&Big::from_u64(3), p);
                    num.mulm(&y1.addm(y1, p).invm(p).expect("HARNESS-ERROR inv"), p)
                } else {
                    y2.subm(y1, p).mulm(&x2.subm(x1, p).invm(p).expect("HARNESS-ERROR inv"), p)
                };
                let x3 = lam.mulm(&lam, p).subm(x1, p).subm(x2, p);
                let y3 = lam.mulm(&x1.subm(&x3, p), p).subm(y1, p);
                Some((x3, y3))
            }
        }
    }
    /// textbook affine double-and-add (slow, for cross-checking)
    pub fn mul_affine(&self, k: &Big, q: &Pt) -> Pt {
        let mut r: Pt = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, q);
            }
        }
        r
    }
    fn jdbl(&self, a: &(Big, Big, Big)) -> (Big, Big, Big) {
        let p = &self.p;
        let (x, y, z) = a;
        if z.is_zero() || y.is_zero() {
            return (Big::one(), Big::one(), Big::zero());
        }
        let zz = z.mulm(z, p);
        let m = x.subm(&zz, p).mulm(&x.addm(&zz, p), p).mulm(&Big::from_u64(3), p);
        let yy = y.mulm(y, p);
        let s = x.mulm(&yy, p).mulm(&Big::from_u64(4), p);
        let x3 = m.mulm(&m, p).subm(&s.addm(&s, p), p);
        let y4 = yy.mulm(&yy, p).mulm(&Big::from_u64(8), p);
        let y3 = m.mulm(&s.subm(&x3, p), p).subm(&y4, p);
        let z3 = y.mulm(z, p).mulm(&Big::from_u64(2), p);
        (x3, y3, z3)
    }
    fn jadd(&self, a: &(Big, Big, Big), q: &(Big, Big)) -> (Big, Big, Big) {
        let p = &self.p;
        let (x1, y1, z1) = a;
        let (x2, y2) = q;
        if z1.is_zero() {
            return (x2.clone(), y2.clone(), Big::one());
        }
        let zz = z1.mulm(z1, p);
        let u2 = x2.mulm(&zz, p);
        let s2 = y2.mulm(&zz, p).mulm(z1, p);
        let h = u2.subm(x1, p);
        let r = s2.subm(y1, p);
        if h.is_zero() {
            if r.is_zero() {
                return self.jdbl(a);
            }
            return (Big::one(), Big::one(), Big::zero());
        }
        let hh = h.mulm(&h, p);
        let hhh = hh.mulm(&h, p);
        let v = x1.mulm(&hh, p);
        let x3 = r.mulm(&r, p).subm(&hhh, p).subm(&v.addm(&v, p), p);
        let y3 = r.mulm(&v.subm(&x3, p), p).subm(&y1.mulm(&hhh, p), p);
        let z3 = z1.mulm(&h, p);
        (x3, y3, z3)
    }
    pub fn mul(&self, k: &Big, q: &Pt) -> Pt {
        let q = q.as_ref()?;
        let p = &self.p;
        let mut r = (Big::one(), Big::one(), Big::zero());
        for i in (0..k.bits()).rev() {
            r = self.jdbl(&r);
            if k.bit(i) {
                r = self.jadd(&r, q);
            }
        }
        if r.2.is_zero() {
            return None;
        }
        let zi = r.2.invm(p).expect("HARNESS-ERROR inv");
        let zz = zi.mulm(&zi, p);
        Some((r.0.mulm(&zz, p), r.1.mulm(&zz, p).mulm(&zi, p)))
    }
    /// a y for the abscissa x, if there is one
    pub fn lift(&self, x: &Big) -> Option<Big> {
        let p = &self.p;
        let rhs = x.mulm(x, p).mulm(x, p).addm(&self.b, p).subm(&x.mulm(&Big::from_u64(3), p), p);
        let y = sqrtm(&rhs, p)?;
        if self.on(x, &y) { Some(y) } else { None }
    }
    /// an x for this y, by splitting off the linear factors of x^3 - 3x + b - y^2
    pub fn lift_y(&self, y: &Big, rng: &mut crate::fw::Rng) -> Option<Big> {
        let p = &self.p;
        let one = Big::one();
        let f = vec![self.b.subm(&y.mulm(y, p), p), p.sub(&Big::from_u64(3)), Big::zero(), one.clone()];
        let mut h = poly_pow(&[Big::zero(), one.clone()], p, &f, p);
        h.resize(h.len().max(2), Big::zero());
        h[1] = h[1].subm(&one, p);
        let mut g = poly_gcd(f, h, p);
        for _ in 0..100 {
            match g.len() {
                0 | 1 => return None,
                2 => {
                    let x = Big::zero().subm(&g[0].mulm(&g[1].invm(p)?, p), p);
                    return if self.on(&x, y) { Some(x) } else { None };
                }
                _ => {
                    let r = Big::random_below(p, rng);
                    let mut h = poly_pow(&[r, one.clone()], &p.sub(&one).shr(1), &g, p);
                    h.resize(h.len().max(1), Big::zero());
                    h[0] = h[0].subm(&one, p);
                    let k = poly_gcd(g.clone(), h, p);
                    if k.len() > 1 && k.len() < g.len() {
                        g = k;
                    }
                }
            }
        }
        None
    }
    /// a random point from a random scalar
    pub fn random_point(&self, rng: &mut crate::fw::Rng) -> Pt {
        self.mul(&Big::random_below(&self.n, rng), &self.g)
    }
}

/// polynomials modulo p, lowest coefficient first, without leading zeros
fn poly_rem(mut a: Vec<Big>, m: &[Big], p: &Big) -> Vec<Big> {
    let inv = m[m.len() - 1].invm(p).expect("leading coefficient");
    loop {
        while a.last().map_or(false, |c| c.is_zero()) {
            a.pop();
        }
        if a.len() < m.len() {
            return a;
        }
        let (q, at) = (a[a.len() - 1].mulm(&inv, p), a.len() - m.len());
        for (i, c) in m.iter().enumerate() {
            a[at + i] = a[at + i].subm(&q.mulm(c, p), p);
        }
    }
}
fn poly_mul(a: &[Big], b: &[Big], m: &[Big], p: &Big) -> Vec<Big> {
    let mut r = vec![Big::zero(); a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].addm(&x.mulm(y, p), p);
        }
    }
    poly_rem(r, m, p)
}
fn poly_pow(a: &[Big], e: &Big, m: &[Big], p: &Big) -> Vec<Big> {
    let mut r = vec![Big::one()];
    for i in (0..e.bits()).rev() {
        r = poly_mul(&r, &r, m, p);
        if e.bit(i) {
            r = poly_mul(&r, a, m, p);
        }
    }
    r
}
fn poly_gcd(mut a: Vec<Big>, mut b: Vec<Big>, p: &Big) -> Vec<Big> {
    while b.last().map_or(false, |c| c.is_zero()) {
        b.pop();
    }
    while !b.is_empty() {
        let r = poly_rem(a, &b, p);
        a = b;
        b = r;
    }
    a
}

/// leftmost min(bits(n), 8*len) bits of the hash as an integer
pub fn bits2int(h: &[u8], n: &Big) -> Big {
    let v = Big::from_be(h);
    let (hb, nb) = (h.len() * 8, n.bits());
    if hb > nb { v.shr(hb - nb) } else { v }
}

pub fn ecdsa_verify(c: &Curve, q: &Pt, hash: &[u8], r: &Big, s: &Big) -> bool {
    if r.is_zero() || s.is_zero() || *r >= c.n || *s >= c.n {
        return false;
    }
    let e = bits2int(hash, &c.n);
    let w = match s.invm(&c.n) {
        Some(w) => w,
        None => return false,
    };
    let u1 = e.mulm(&w, &c.n);
    let u2 = r.mulm(&w, &c.n);
    match c.add(&c.mul(&u1, &c.g), &c.mul(&u2, q)) {
        None => false,
        Some((x, _)) => x.rem(&c.n) == *r,
    }
}

/// square root modulo an odd prime (Tonelli-Shanks)
pub fn sqrtm(a: &Big, p: &Big) -> Option<Big> {
    let one = Big::one();
    if a.is_zero() {
        return Some(Big::zero());
    }
    let pm1 = p.sub(&one);
    if a.powm(&pm1.shr(1), p) != one {
        return None;
    }
    let s = (0..pm1.bits()).take_while(|i| !pm1.bit(*i)).count();
    let t = pm1.shr(s);
    let mut z = Big::from_u64(2);
    while z.powm(&pm1.shr(1), p) == one {
        z = z.add(&one);
    }
    let (mut m, mut c, mut tt, mut r) = (s, z.powm(&t, p), a.powm(&t, p), a.powm(&t.add(&one).shr(1), p));
    while tt != one {
        let mut i = 0;
        let mut x = tt.clone();
        while x != one {
            x = x.mulm(&x, p);
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..m - i - 1 {
            b = b.mulm(&b, p);
        }
        m = i;
        c = b.mulm(&b, p);
        tt = tt.mulm(&c, p);
        r = r.mulm(&b, p);
    }
    Some(r)
}
