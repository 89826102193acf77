//! Fixed-capacity unsigned integers for the oracle: 18 base-2^64 limbs (346 decimal digits).
//! Deliberately a different radix from fxd's base 10^9, and every division is verified by
//! multiplying back before it is used.
use std::cmp::Ordering;

pub const N: usize = 18;

#[derive(Clone, Copy)]
pub struct Big {
    l: [u64; N],
    n: usize, // limbs in use
}

impl Big {
    pub const ZERO: Big = Big { l: [0; N], n: 0 };
    pub fn from_u64(v: u64) -> Big {
        let mut b = Big::ZERO;
        if v != 0 {
            b.l[0] = v;
            b.n = 1;
        }
        b
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    #[allow(dead_code)]
    pub fn to_u64(&self) -> Option<u64> {
        match self.n {
            0 => Some(0),
            1 => Some(self.l[0]),
            _ => None,
        }
    }
    fn push(&mut self, v: u64) {
        assert!(self.n < N, "oracle capacity exceeded");
        self.l[self.n] = v;
        self.n += 1;
    }
    fn trim(&mut self) {
        while self.n > 0 && self.l[self.n - 1] == 0 {
            self.n -= 1;
        }
    }
    pub fn mul_add_small(&mut self, m: u64, a: u64) {
        let mut c = a as u128;
        for i in 0..self.n {
            c += self.l[i] as u128 * m as u128;
            self.l[i] = c as u64;
            c >>= 64;
        }
        if c != 0 {
            self.push(c as u64);
        }
        self.trim();
    }
    pub fn divrem_small(&mut self, d: u64) -> u64 {
        let mut r = 0u128;
        for i in (0..self.n).rev() {
            r = (r << 64) | self.l[i] as u128;
            self.l[i] = (r / d as u128) as u64;
            r %= d as u128;
        }
        self.trim();
        r as u64
    }
    /// decimal digits only
    pub fn from_digits(s: &[u8]) -> Big {
        let mut b = Big::ZERO;
        let mut i = 0;
        while i < s.len() {
            let e = (i + 18).min(s.len());
            let mut v = 0u64;
            let mut m = 1u64;
            for c in &s[i..e] {
                debug_assert!(c.is_ascii_digit());
                v = v * 10 + (c - b'0') as u64;
                m *= 10;
            }
            b.mul_add_small(m, v);
            i = e;
        }
        b
    }
    pub fn to_digits(mut self) -> String {
        if self.n == 0 {
            return "0".into();
        }
        let mut parts = vec![];
        while self.n > 0 {
            parts.push(self.divrem_small(1_000_000_000_000_000_000));
        }
        let mut s = format!("{}", parts.pop().unwrap());
        for p in parts.iter().rev() {
            s.push_str(&format!("{:018}", p));
        }
        s
    }
    pub fn digits(&self) -> usize {
        // number of decimal digits, 0 for zero
        if self.n == 0 {
            return 0;
        }
        let bits = self.bits();
        let mut e = ((bits as u64 - 1) * 30103 / 100000) as usize; // floor lower bound
        while e < POW_MAX && pow10(e).cmp(self) != Ordering::Greater {
            e += 1;
        }
        e
    }
    pub fn bits(&self) -> usize {
        if self.n == 0 {
            0
        } else {
            self.n * 64 - self.l[self.n - 1].leading_zeros() as usize
        }
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = Big::ZERO;
        let n = self.n.max(o.n);
        let mut c = 0u128;
        for i in 0..n {
            c += self.l[i] as u128 + o.l[i] as u128;
            r.l[i] = c as u64;
            c >>= 64;
        }
        r.n = n;
        if c != 0 {
            r.push(c as u64);
        }
        r
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        assert!(self.cmp(o) != Ordering::Less, "oracle subtraction underflow");
        let mut r = Big::ZERO;
        let mut b = false;
        for i in 0..self.n {
            let (x, b1) = self.l[i].overflowing_sub(o.l[i]);
            let (y, b2) = x.overflowing_sub(b as u64);
            r.l[i] = y;
            b = b1 | b2;
        }
        r.n = self.n;
        r.trim();
        r
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.n == 0 || o.n == 0 {
            return Big::ZERO;
        }
        assert!(self.n + o.n <= N + 1, "oracle capacity exceeded");
        let mut t = [0u64; N + 2];
        for i in 0..self.n {
            let mut c = 0u128;
            for j in 0..o.n {
                c += t[i + j] as u128 + self.l[i] as u128 * o.l[j] as u128;
                t[i + j] = c as u64;
                c >>= 64;
            }
            t[i + o.n] = c as u64;
        }
        assert!(t[N] == 0 && t[N + 1] == 0, "oracle capacity exceeded");
        let mut r = Big::ZERO;
        r.l.copy_from_slice(&t[..N]);
        r.n = (self.n + o.n).min(N);
        r.trim();
        r
    }
    pub fn mul_pow10(&self, e: usize) -> Big {
        if e == 0 {
            *self
        } else {
            self.mul(pow10(e))
        }
    }
    /// (quotient, remainder); the result is checked by multiplication
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Big::ZERO, *self);
        }
        let (q, r) = if d.n == 1 {
            let mut q = *self;
            let r = q.divrem_small(d.l[0]);
            (q, Big::from_u64(r))
        } else {
            self.knuth(d)
        };
        let back = q.mul(d).add(&r);
        assert!(back.cmp(self) == Ordering::Equal && r.cmp(d) == Ordering::Less, "oracle division self-check failed");
        (q, r)
    }
    fn knuth(&self, d: &Big) -> (Big, Big) {
        let s = d.l[d.n - 1].leading_zeros();
        let shl = |x: &Big| -> [u64; N + 1] {
            let mut o = [0u64; N + 1];
            for i in 0..x.n {
                o[i] |= x.l[i] << s;
                if s > 0 {
                    o[i + 1] = x.l[i] >> (64 - s);
                }
            }
            o
        };
        let mut u = shl(self);
        let v = shl(d);
        let n = d.n;
        let m = self.n - n;
        let mut q = Big::ZERO;
        for j in (0..=m).rev() {
            let top = (u[j + n] as u128) << 64 | u[j + n - 1] as u128;
            let (mut qh, mut rh);
            if u[j + n] >= v[n - 1] {
                qh = u64::MAX as u128;
                rh = top - qh * v[n - 1] as u128;
            } else {
                qh = top / v[n - 1] as u128;
                rh = top % v[n - 1] as u128;
            }
            while rh >> 64 == 0 && qh * v[n - 2] as u128 > (rh << 64 | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u128;
            }
            let mut borrow = 0i128;
            let mut carry = 0u128;
            for i in 0..n {
                let p = qh * v[i] as u128 + carry;
                carry = p >> 64;
                let t = u[i + j] as i128 - (p as u64) as i128 + borrow;
                u[i + j] = t as u64;
                borrow = t >> 64;
            }
            let t = u[j + n] as i128 - carry as i128 + borrow;
            u[j + n] = t as u64;
            if t < 0 {
                qh -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    c += u[i + j] as u128 + v[i] as u128;
                    u[i + j] = c as u64;
                    c >>= 64;
                }
                u[j + n] = u[j + n].wrapping_add(c as u64);
            }
            q.l[j] = qh as u64;
        }
        q.n = m + 1;
        q.trim();
        let mut r = Big::ZERO;
        for i in 0..n {
            r.l[i] = u[i] >> s | if s > 0 { u[i + 1] << (64 - s) } else { 0 };
        }
        r.n = n;
        r.trim();
        (q, r)
    }
}

impl PartialEq for Big {
    fn eq(&self, o: &Big) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Big {}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        if self.n != o.n {
            return self.n.cmp(&o.n);
        }
        for i in (0..self.n).rev() {
            if self.l[i] != o.l[i] {
                return self.l[i].cmp(&o.l[i]);
            }
        }
        Ordering::Equal
    }
}
impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_digits())
    }
}

pub const POW_MAX: usize = 340;
pub fn pow10(e: usize) -> &'static Big {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<Big>> = OnceLock::new();
    &T.get_or_init(|| {
        let mut v = vec![Big::from_u64(1)];
        for i in 0..POW_MAX {
            let mut b = v[i];
            b.mul_add_small(10, 0);
            v.push(b);
        }
        v
    })[e]
}

/// Cross-checks the oracle against itself and u128 arithmetic before it is trusted.
pub fn self_test(next: &mut dyn FnMut() -> u64) {
    for _ in 0..2000 {
        let (a, b) = ((next() as u128) << 64 | next() as u128, (next() as u128) << (next() % 64) | next() as u128);
        let (a, b) = (a >> (next() % 127), b >> (next() % 127));
        let f = |v: u128| Big::from_digits(v.to_string().as_bytes());
        let (ba, bb) = (f(a), f(b));
        assert_eq!(ba.to_digits(), a.to_string());
        assert_eq!(ba.cmp(&bb), a.cmp(&b));
        assert_eq!(ba.digits(), if a == 0 { 0 } else { a.to_string().len() });
        if let Some(s) = a.checked_add(b) {
            assert_eq!(ba.add(&bb).to_digits(), s.to_string());
        }
        if let Some(s) = a.checked_mul(b) {
            assert_eq!(ba.mul(&bb).to_digits(), s.to_string());
        }
        if let Some(s) = a.checked_sub(b) {
            assert_eq!(ba.sub(&bb).to_digits(), s.to_string());
        }
        if b != 0 {
            let (q, r) = ba.divrem(&bb);
            assert_eq!(q.to_digits(), (a / b).to_string());
            assert_eq!(r.to_digits(), (a % b).to_string());
            // wide dividend: (a*10^k + r0) / b
            let k = (next() % 150) as usize;
            let w = ba.mul(&bb).mul_pow10(k).add(&r);
            let (q2, r2) = w.divrem(&bb);
            assert_eq!(q2, ba.mul_pow10(k));
            assert_eq!(r2, r);
        }
    }
}
