//! Small arbitrary-precision unsigned integers (u32 limbs, little endian).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Big {
    l: Vec<u32>,
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        if self.l.len() != o.l.len() {
            return self.l.len().cmp(&o.l.len());
        }
        for i in (0..self.l.len()).rev() {
            if self.l[i] != o.l[i] {
                return self.l[i].cmp(&o.l[i]);
            }
        }
        Ordering::Equal
    }
}

impl Big {
    fn norm(mut l: Vec<u32>) -> Big {
        while l.last() == Some(&0) {
            l.pop();
        }
        Big { l }
    }
    pub fn zero() -> Big {
        Big { l: vec![] }
    }
    pub fn one() -> Big {
        Big::from_u64(1)
    }
    pub fn from_u64(x: u64) -> Big {
        Big::norm(vec![x as u32, (x >> 32) as u32])
    }
    pub fn from_be(b: &[u8]) -> Big {
        let mut l = Vec::with_capacity(b.len() / 4 + 1);
        for c in b.rchunks(4) {
            let mut x = 0u32;
            for &y in c {
                x = (x << 8) | y as u32;
            }
            l.push(x);
        }
        Big::norm(l)
    }
    pub fn from_hex(s: &str) -> Big {
        let s: String = s.chars().filter(|c| c.is_ascii_hexdigit()).collect();
        let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s };
        Big::from_be(&crate::fw::unhex(&s))
    }
    pub fn to_hex(&self) -> String {
        crate::fw::hex(&self.to_be())
    }
    /// minimal big-endian bytes, empty for zero
    pub fn to_be(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.l.iter().rev().flat_map(|x| x.to_be_bytes().to_vec()).collect();
        let z = v.iter().take_while(|x| **x == 0).count();
        v.drain(..z);
        v
    }
    /// big-endian bytes left-padded to `n`
    pub fn to_be_n(&self, n: usize) -> Vec<u8> {
        let v = self.to_be();
        assert!(v.len() <= n, "HARNESS-ERROR to_be_n");
        let mut o = vec![0; n - v.len()];
        o.extend(v);
        o
    }
    pub fn is_zero(&self) -> bool {
        self.l.is_empty()
    }
    pub fn is_odd(&self) -> bool {
        self.l.first().map(|x| x & 1 == 1).unwrap_or(false)
    }
    pub fn bits(&self) -> usize {
        match self.l.last() {
            None => 0,
            Some(x) => self.l.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.l.get(i / 32).map(|x| (x >> (i % 32)) & 1 == 1).unwrap_or(false)
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.l.len().max(o.l.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.l.get(i).unwrap_or(&0) as u64 + *o.l.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Big::norm(r)
    }
    /// panics if negative
    pub fn sub(&self, o: &Big) -> Big {
        assert!(*self >= *o, "HARNESS-ERROR negative");
        let mut r = Vec::with_capacity(self.l.len());
        let mut b = 0i64;
        for i in 0..self.l.len() {
            let mut d = self.l[i] as i64 - *o.l.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            r.push(d as u32);
        }
        Big::norm(r)
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u32; self.l.len() + o.l.len()];
        for i in 0..self.l.len() {
            let mut c = 0u64;
            for j in 0..o.l.len() {
                c += r[i + j] as u64 + self.l[i] as u64 * o.l[j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.l.len()] = c as u32;
        }
        Big::norm(r)
    }
    pub fn shl(&self, n: usize) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let (w, b) = (n / 32, n % 32);
        let mut r = vec![0u32; w];
        let mut c = 0u64;
        for &x in &self.l {
            c |= (x as u64) << b;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Big::norm(r)
    }
    pub fn shr(&self, n: usize) -> Big {
        let (w, b) = (n / 32, n % 32);
        if w >= self.l.len() {
            return Big::zero();
        }
        let mut r = Vec::new();
        for i in w..self.l.len() {
            let hi = *self.l.get(i + 1).unwrap_or(&0) as u64;
            r.push(((((hi << 32) | self.l[i] as u64) >> b) & 0xffffffff) as u32);
        }
        Big::norm(r)
    }
    /// Knuth algorithm D
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "HARNESS-ERROR div0");
        if *self < *d {
            return (Big::zero(), self.clone());
        }
        if d.l.len() == 1 {
            let dv = d.l[0] as u64;
            let mut q = vec![0u32; self.l.len()];
            let mut r = 0u64;
            for i in (0..self.l.len()).rev() {
                let cur = (r << 32) | self.l[i] as u64;
                q[i] = (cur / dv) as u32;
                r = cur % dv;
            }
            return (Big::norm(q), Big::from_u64(r));
        }
        let s = d.l.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s).l;
        let mut u = self.shl(s).l;
        let n = v.len();
        while u.len() < self.l.len() + 1 {
            u.push(0);
        }
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= 1 << 32 {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffffffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Big::norm(q), Big::norm(u).shr(s))
    }
    pub fn rem(&self, m: &Big) -> Big {
        self.divrem(m).1
    }
    pub fn addm(&self, o: &Big, m: &Big) -> Big {
        self.add(o).rem(m)
    }
    pub fn subm(&self, o: &Big, m: &Big) -> Big {
        self.rem(m).add(m).sub(&o.rem(m)).rem(m)
    }
    pub fn mulm(&self, o: &Big, m: &Big) -> Big {
        self.mul(o).rem(m)
    }
    pub fn powm(&self, e: &Big, m: &Big) -> Big {
        if *m == Big::one() {
            return Big::zero();
        }
        if m.is_odd() {
            return Mont::new(m).pow(&self.rem(m), e);
        }
        let mut r = Big::one();
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulm(&r, m);
            if e.bit(i) {
                r = r.mulm(&b, m);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    /// inverse modulo m, None if not invertible
    pub fn invm(&self, m: &Big) -> Option<Big> {
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        // t values kept modulo m
        let (mut t0, mut t1) = (Big::zero(), Big::one());
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let t = t0.subm(&q.mulm(&t1, m), m);
            r0 = r1;
            r1 = r;
            t0 = t1;
            t1 = t;
        }
        if r0 == Big::one() {
            Some(t0.rem(m))
        } else {
            None
        }
    }
    /// Miller-Rabin with the first 24 primes as bases plus trial division
    pub fn is_prime(&self) -> bool {
        const SP: [u64; 24] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89];
        if *self < Big::from_u64(2) {
            return false;
        }
        for p in SP {
            let p = Big::from_u64(p);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        let one = Big::one();
        let n1 = self.sub(&one);
        let mut s = 0;
        while !n1.bit(s) {
            s += 1;
        }
        let d = n1.shr(s);
        let mt = Mont::new(self);
        'o: for p in SP {
            let mut x = mt.pow(&Big::from_u64(p), &d);
            if x == one || x == n1 {
                continue;
            }
            for _ in 1..s {
                x = x.mulm(&x, self);
                if x == n1 {
                    continue 'o;
                }
            }
            return false;
        }
        true
    }
    pub fn random_below(m: &Big, rng: &mut crate::fw::Rng) -> Big {
        Big::from_be(&rng.bytes((m.bits() + 7) / 8 + 8)).rem(m)
    }
    pub fn low_u64(&self) -> u64 {
        *self.l.first().unwrap_or(&0) as u64 | (*self.l.get(1).unwrap_or(&0) as u64) << 32
    }
}

/// Montgomery context for odd moduli (64-bit limbs), used for exponentiation.
pub struct Mont {
    n: Vec<u64>,
    n0: u64,
    m: Big,
    rr: Vec<u64>,
}

impl Mont {
    fn limbs(b: &Big, k: usize) -> Vec<u64> {
        let mut v = vec![0u64; k];
        for (i, x) in b.l.iter().enumerate() {
            v[i / 2] |= (*x as u64) << (32 * (i % 2));
        }
        v
    }
    pub fn new(m: &Big) -> Mont {
        assert!(m.is_odd(), "HARNESS-ERROR mont");
        let k = (m.l.len() + 1) / 2;
        let n = Self::limbs(m, k);
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(n[0].wrapping_mul(inv)));
        }
        let rr = Self::limbs(&Big::one().shl(128 * k).rem(m), k);
        Mont { n, n0: inv.wrapping_neg(), m: m.clone(), rr }
    }
    fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let k = self.n.len();
        let mut t = vec![0u64; k + 2];
        for i in 0..k {
            let mut c = 0u128;
            for j in 0..k {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[k] as u128;
            t[k] = c as u64;
            t[k + 1] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + q as u128 * self.n[0] as u128) >> 64;
            for j in 1..k {
                c += t[j] as u128 + q as u128 * self.n[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[k] as u128;
            t[k - 1] = c as u64;
            t[k] = t[k + 1].wrapping_add((c >> 64) as u64);
            t[k + 1] = 0;
        }
        // conditional subtraction
        let ge = t[k] != 0 || {
            let mut g = true;
            for i in (0..k).rev() {
                if t[i] != self.n[i] {
                    g = t[i] > self.n[i];
                    break;
                }
            }
            g
        };
        if ge {
            let mut b = 0u64;
            for i in 0..k {
                let (x, b1) = t[i].overflowing_sub(self.n[i]);
                let (x, b2) = x.overflowing_sub(b);
                t[i] = x;
                b = (b1 | b2) as u64;
            }
        }
        t.truncate(k);
        t
    }
    fn big(v: &[u64]) -> Big {
        Big::norm(v.iter().flat_map(|x| vec![*x as u32, (*x >> 32) as u32]).collect())
    }
    pub fn pow(&self, b: &Big, e: &Big) -> Big {
        let k = self.n.len();
        let b = Self::limbs(&b.rem(&self.m), k);
        let one = Self::limbs(&Big::one().rem(&self.m), k);
        let bm = self.mul(&b, &self.rr);
        let mut r = self.mul(&one, &self.rr);
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, &bm);
            }
        }
        let r = self.mul(&r, &one);
        Self::big(&r)
    }
}
