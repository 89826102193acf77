//! Exact decimal arithmetic: the reference every observed result is compared with.
use crate::big::{pow10, Big};
use std::cmp::Ordering;

/// (-1)^neg * mag / 10^scale
#[derive(Clone, Copy)]
pub struct Dec {
    pub neg: bool,
    pub mag: Big,
    pub scale: usize,
}

impl std::fmt::Debug for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text())
    }
}

impl Dec {
    pub fn new(neg: bool, mag: Big, scale: usize) -> Dec {
        Dec { neg: neg && !mag.is_zero(), mag, scale }
    }
    pub fn zero() -> Dec {
        Dec::new(false, Big::ZERO, 0)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    /// number of digits of the integer part (0 when |v| < 1)
    pub fn int_digits(&self) -> usize {
        self.mag.digits().saturating_sub(self.scale)
    }
    pub fn negate(&self) -> Dec {
        Dec::new(!self.neg, self.mag, self.scale)
    }
    /// canonical text: sign, integer digits without leading zeros, exactly `scale` fraction digits
    pub fn text(&self) -> String {
        text_of(self.neg, &self.mag, self.scale)
    }
    pub fn at_scale(&self, s: usize) -> Big {
        assert!(s >= self.scale);
        self.mag.mul_pow10(s - self.scale)
    }
    /// truncated toward zero to `s` fraction digits (or extended with zeros)
    pub fn trunc(&self, s: usize) -> Dec {
        if s >= self.scale {
            Dec::new(self.neg, self.at_scale(s), s)
        } else {
            Dec::new(self.neg, self.mag.divrem(pow10(self.scale - s)).0, s)
        }
    }
    pub fn cmp_abs(&self, o: &Dec) -> Ordering {
        let s = self.scale.max(o.scale);
        self.at_scale(s).cmp(&o.at_scale(s))
    }
    pub fn cmp(&self, o: &Dec) -> Ordering {
        if self.is_zero() && o.is_zero() {
            return Ordering::Equal;
        }
        match (self.neg && !self.is_zero(), o.neg && !o.is_zero()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.cmp_abs(o),
            (true, true) => o.cmp_abs(self),
        }
    }
    pub fn same(&self, o: &Dec) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let s = self.scale.max(o.scale);
        let (a, b) = (self.at_scale(s), o.at_scale(s));
        if self.neg == o.neg {
            return Dec::new(self.neg, a.add(&b), s);
        }
        if a >= b {
            Dec::new(self.neg, a.sub(&b), s)
        } else {
            Dec::new(o.neg, b.sub(&a), s)
        }
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        self.add(&Dec { neg: !o.neg, ..*o })
    }
    pub fn mul(&self, o: &Dec) -> Dec {
        Dec::new(self.neg != o.neg, self.mag.mul(&o.mag), self.scale + o.scale)
    }
    /// quotient truncated toward zero at scale s
    pub fn div(&self, o: &Dec, s: usize) -> Dec {
        // self.mag/10^ls / (o.mag/10^rs) * 10^s
        let up = o.scale + s;
        let (n, d) = if up >= self.scale {
            (self.mag.mul_pow10(up - self.scale), o.mag)
        } else {
            (self.mag, o.mag.mul_pow10(self.scale - up))
        };
        Dec::new(self.neg != o.neg, n.divrem(&d).0, s)
    }
    /// remainder of truncated division, sign of the dividend
    pub fn rem(&self, o: &Dec) -> Dec {
        let s = self.scale.max(o.scale);
        Dec::new(self.neg, self.at_scale(s).divrem(&o.at_scale(s)).1, s)
    }
    /// rounded half away from zero; f < 0 rounds to a power of ten left of the point.
    /// The scale of the result is max(f, 0).
    pub fn round(&self, f: isize) -> Dec {
        if f >= self.scale as isize {
            return self.trunc(f as usize);
        }
        if f < -200 {
            return Dec::zero();
        }
        let drop = self.scale as isize - f;
        let p = pow10(drop as usize);
        let (mut q, r) = self.mag.divrem(p);
        if r.add(&r) >= *p {
            q = q.add(&Big::from_u64(1));
        }
        if f < 0 {
            q = q.mul_pow10((-f) as usize);
        }
        Dec::new(self.neg, q, f.max(0) as usize)
    }
    /// text form with exactly f fraction digits, cut or zero padded
    pub fn text_at(&self, f: usize) -> String {
        let t = if f <= self.scale { self.mag.divrem(pow10(self.scale - f)).0 } else { self.mag };
        let s = self.scale.min(f);
        let mut out = text_of(self.neg, &t, s);
        if f > s {
            if s == 0 {
                out.push('.');
            }
            out.extend(std::iter::repeat('0').take(f - s));
        }
        out
    }
    /// strict reader for canonical text; None if the text is not canonical
    pub fn read(t: &[u8]) -> Option<Dec> {
        let (neg, r) = match t.first()? {
            b'-' => (true, &t[1..]),
            _ => (false, t),
        };
        let dot = r.iter().position(|c| *c == b'.');
        let (i, f) = match dot {
            Some(p) => (&r[..p], &r[p + 1..]),
            None => (r, &r[..0]),
        };
        if i.is_empty() || (dot.is_some() && f.is_empty()) {
            return None;
        }
        if i.len() > 1 && i[0] == b'0' {
            return None;
        }
        if !i.iter().chain(f.iter()).all(|c| c.is_ascii_digit()) || i.len() + f.len() > 300 {
            return None;
        }
        let mut mag = Big::from_digits(i);
        let mut p = 0;
        while p < f.len() {
            let e = (p + 18).min(f.len());
            let v: u64 = f[p..e].iter().fold(0, |a, c| a * 10 + (c - b'0') as u64);
            mag.mul_add_small(10u64.pow((e - p) as u32), v);
            p = e;
        }
        Some(Dec { neg, mag, scale: f.len() })
    }
}

fn text_of(neg: bool, mag: &Big, scale: usize) -> String {
    let mut d = mag.to_digits();
    if d.len() <= scale {
        d = format!("{}{}", "0".repeat(scale + 1 - d.len()), d);
    }
    let p = d.len() - scale;
    let mut o = String::with_capacity(d.len() + 2);
    if neg {
        o.push('-');
    }
    o.push_str(&d[..p]);
    if scale > 0 {
        o.push('.');
        o.push_str(&d[p..]);
    }
    o
}

pub fn units(d: usize) -> usize {
    (d + 8) / 9
}

/// What the parser must do with a byte string.
#[derive(Clone, Debug)]
pub enum Numeral {
    /// value, and the number of digits the numeral declares in total
    Accept(Dec, usize),
    Reject(&'static str),
}

/// Reference reader of the numeral grammar
///   [+-] (digits with at most one '.', at least one digit) [ (e|E) [+-] digits ]
/// with the exponent in -30..=65 and at most 65 digits once the exponent is applied.
pub fn read_numeral(b: &[u8]) -> Numeral {
    let mut p = 0;
    let mut neg = false;
    if p < b.len() && (b[p] == b'-' || b[p] == b'+') {
        neg = b[p] == b'-';
        p += 1;
    }
    let mut digits: Vec<u8> = Vec::new();
    let mut frac = 0usize;
    let mut dot = false;
    while p < b.len() {
        match b[p] {
            b'0'..=b'9' => {
                digits.push(b[p]);
                if dot {
                    frac += 1;
                }
            }
            b'.' if !dot => dot = true,
            _ => break,
        }
        p += 1;
    }
    if digits.is_empty() {
        return Numeral::Reject("no digits");
    }
    let mut exp: i64 = 0;
    if p < b.len() {
        if b[p] != b'e' && b[p] != b'E' {
            return Numeral::Reject("unexpected byte");
        }
        p += 1;
        let mut eneg = false;
        if p < b.len() && (b[p] == b'-' || b[p] == b'+') {
            eneg = b[p] == b'-';
            p += 1;
        }
        if p == b.len() {
            return Numeral::Reject("empty exponent");
        }
        for c in &b[p..] {
            if !c.is_ascii_digit() {
                return Numeral::Reject("bad exponent");
            }
            exp = (exp * 10 + (c - b'0') as i64).min(1_000_000);
        }
        if (!eneg && exp > 65) || (eneg && exp > 30) {
            return Numeral::Reject("exponent out of range");
        }
        if eneg {
            exp = -exp;
        }
    }
    let n = digits.len() as i64;
    let f = frac as i64 - exp;
    let total = if f <= 0 { n - f } else { n.max(f) };
    if total > 65 {
        return Numeral::Reject("more than 65 digits");
    }
    let mut mag = Big::from_digits(&digits);
    if f < 0 {
        mag = mag.mul_pow10((-f) as usize);
    }
    Numeral::Accept(Dec::new(neg, mag, f.max(0) as usize), total as usize)
}
