//! Workload generation. Values are produced as text, unit-aligned (9 digits) around the decimal
//! point, with corner-biased shapes and unit contents, and with operands related to each other.
use crate::big::{pow10, Big};
use crate::model::Dec;
use crate::rng::Rng;

/// A workload item: arguments as byte strings; what they mean depends on the property.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub args: Vec<Vec<u8>>,
}

impl Case {
    #[allow(dead_code)]
    pub fn new(a: &[&[u8]]) -> Case {
        Case { args: a.iter().map(|x| x.to_vec()).collect() }
    }
    pub fn strs(a: Vec<String>) -> Case {
        Case { args: a.into_iter().map(|x| x.into_bytes()).collect() }
    }
    pub fn s(&self, i: usize) -> &str {
        self.args.get(i).and_then(|a| std::str::from_utf8(a).ok()).unwrap_or("")
    }
    pub fn int(&self, i: usize) -> i64 {
        self.s(i).parse().unwrap_or(0)
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        for a in &self.args {
            for c in a {
                match c {
                    b'\\' => o.extend_from_slice(b"\\\\"),
                    0x20..=0x7e if *c != b'%' => o.push(*c),
                    _ => o.extend_from_slice(format!("\\x{:02x}", c).as_bytes()),
                }
            }
            o.push(b'\n');
        }
        o
    }
    pub fn decode(b: &[u8]) -> Case {
        let mut args = vec![];
        let mut cur = vec![];
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'\n' => args.push(std::mem::take(&mut cur)),
                b'\\' if b.get(i + 1) == Some(&b'\\') => {
                    cur.push(b'\\');
                    i += 1;
                }
                b'\\' if b.get(i + 1) == Some(&b'x') && i + 3 < b.len() => {
                    let h = std::str::from_utf8(&b[i + 2..i + 4]).unwrap_or("00");
                    cur.push(u8::from_str_radix(h, 16).unwrap_or(0));
                    i += 3;
                }
                c => cur.push(c),
            }
            i += 1;
        }
        if !cur.is_empty() {
            args.push(cur);
        }
        Case { args }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for a in &self.args {
            for c in a {
                h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3);
            }
            h = (h ^ 0x1ff).wrapping_mul(0x100_0000_01b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        h ^ (h >> 32)
    }
    pub fn show(&self) -> String {
        String::from_utf8(self.encode()).unwrap().trim_end().replace('\n', " ; ")
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    /// at most 65 digits of which at most 30 fractional: the documented range
    Doc,
    /// anything the parser accepts (up to 65 fractional digits)
    Ext,
    /// small: few units, for dense combination coverage
    Small,
}

pub struct Gen {
    pub r: Rng,
    pub dict: Vec<u64>,
}

impl Gen {
    pub fn unit(&mut self, prev: u32) -> u32 {
        const B: u32 = 1_000_000_000;
        let r = &mut self.r;
        match r.below(28) {
            26 => {
                // powers of two, and sums of two
                let v = (1u32 << r.below(30)) + if r.one_in(3) { 1u32 << r.below(30) } else { 0 } + r.below(3) as u32;
                (v - (v > 0) as u32) % B
            }
            // near the previous unit: a distance that is a power of two or of ten
            27 => {
                let d = if r.one_in(2) { 1u32 << r.below(30) } else { 10u32.pow(r.below(9) as u32) };
                if r.one_in(2) { (prev + d) % B } else { (prev + B - d) % B }
            }
            0 | 1 => 0,
            2 | 3 => B - 1,
            4 => 500_000_000,
            5 => 499_999_999,
            6 => 500_000_001,
            7 => 1,
            8 => 10u32.pow(r.below(9) as u32),
            9 => 10u32.pow(1 + r.below(8) as u32) - 1,
            10 => (1 + r.below(9) as u32) * 10u32.pow(r.below(9) as u32),
            11 => B - 10u32.pow(r.below(9) as u32),
            12 => {
                let k = 1 + r.below(9) as u32;
                r.below(10usize.pow(k)) as u32
            }
            13 => {
                let k = r.below(9) as u32;
                (r.below(10usize.pow(9 - k)) as u32) * 10u32.pow(k)
            }
            14 | 15 if !self.dict.is_empty() => {
                let v = *r.pick(&self.dict);
                let v = v.wrapping_add((r.below(3) as u64).wrapping_sub(1));
                (v % B as u64) as u32
            }
            16 => {
                let mut v = 0;
                for _ in 0..3 {
                    let g = match r.below(8) {
                        0 | 1 => 0,
                        2 => 999,
                        3 => 1,
                        4 => 500,
                        5 => 99,
                        6 => 100,
                        _ => r.below(1000) as u32,
                    };
                    v = v * 1000 + g;
                }
                v
            }
            17 => prev,
            18 => (B - prev) % B,
            19 => B - 1 - prev.min(B - 1),
            20 => 5 * 10u32.pow(r.below(9) as u32) - r.below(2) as u32,
            _ => r.below(B as usize) as u32,
        }
    }

    pub fn layout(&mut self, sh: Shape) -> (usize, usize) {
        let r = &mut self.r;
        let near9 = |r: &mut Rng, max: usize| -> usize {
            let v = 9 * r.below(max / 9 + 1) + r.below(3);
            v.saturating_sub(1).min(max)
        };
        loop {
            let (i, f) = match sh {
                Shape::Small => (r.below(20), r.below(20)),
                Shape::Doc => match r.below(10) {
                    0 | 1 => (r.below(12), r.below(12)),
                    2 | 3 => (near9(r, 65), near9(r, 30)),
                    4 => (r.below(66), r.below(31)),
                    5 => {
                        let f = r.below(31);
                        (65 - f, f)
                    }
                    6 => (r.below(66), 0),
                    7 => (0, 1 + r.below(30)),
                    8 => (r.below(20), r.below(31)),
                    _ => (9 * r.below(8), 9 * r.below(4)),
                },
                Shape::Ext => match r.below(8) {
                    0 => (0, 1 + r.below(65)),
                    1 => {
                        let f = r.below(66);
                        (65 - f, f)
                    }
                    2 => (near9(r, 65), near9(r, 65)),
                    3 => (r.below(66), r.below(66)),
                    4 => (r.below(5), 30 + r.below(36)),
                    _ => (r.below(30), r.below(36)),
                },
            };
            let lim = if sh == Shape::Ext { 65 } else { 30 };
            if i + f >= 1 && i + f <= 65 && f <= lim {
                return (i, f);
            }
        }
    }

    /// unsigned digits with the given layout; `i` integer digits, `f` fraction digits
    pub fn digits(&mut self, i: usize, f: usize) -> (String, String) {
        let style = self.r.below(16);
        let mut prev = 0u32;
        let nu = (i + 8) / 9 + (f + 8) / 9;
        let hot = self.r.below(nu.max(1));
        let mut k = 0;
        let set = *self.r.pick(&["09", "01", "0459", "05", "9", "49", "089"]);
        let mut next = |g: &mut Gen| -> String {
            let v = match style {
                0 => {
                    if k == hot {
                        g.unit(prev)
                    } else {
                        0
                    }
                }
                1 => {
                    if k == hot {
                        g.unit(prev)
                    } else {
                        999_999_999
                    }
                }
                2 => {
                    let mut s = String::new();
                    for _ in 0..9 {
                        s.push(set.as_bytes()[g.r.below(set.len())] as char);
                    }
                    s.parse().unwrap()
                }
                3 => g.r.below(1_000_000_000) as u32,
                4 => {
                    if g.r.one_in(2) {
                        0
                    } else {
                        999_999_999
                    }
                }
                _ => g.unit(prev),
            };
            k += 1;
            prev = v;
            format!("{:09}", v)
        };
        let mut ip = String::new();
        let iu = (i + 8) / 9;
        for u in 0..iu {
            let s = next(self);
            if u == 0 {
                let w = i - 9 * (iu - 1);
                ip.push_str(&s[9 - w..]);
            } else {
                ip.push_str(&s);
            }
        }
        let mut fp = String::new();
        let mut left = f;
        while left > 0 {
            let s = next(self);
            let w = left.min(9);
            fp.push_str(&s[..w]);
            left -= w;
        }
        if nu >= 2 && self.r.one_in(24) {
            self.balance(&mut ip, &mut fp);
        }
        (ip, fp)
    }

    /// rewrites the whole units so that a summary of all units (their sum in some modulus, their
    /// exclusive or) is zero although they are not: a short cut over such a summary takes the value for zero
    fn balance(&mut self, ip: &mut String, fp: &mut String) {
        let head = ip.len() % 9;
        let tail = fp.len() % 9;
        let mut txt: Vec<String> = vec![];
        txt.extend(ip.as_bytes()[head..].chunks(9).map(|c| String::from_utf8(c.to_vec()).unwrap()));
        let cut = txt.len();
        txt.extend(fp.as_bytes()[..fp.len() - tail].chunks(9).map(|c| String::from_utf8(c.to_vec()).unwrap()));
        let n = txt.len();
        if n == 0 {
            return;
        }
        let mut u: Vec<u64> = txt.iter().map(|t| t.parse().unwrap()).collect();
        let mut rest: Vec<u64> = vec![];
        if head > 0 {
            rest.push(ip[..head].parse().unwrap());
        }
        if tail > 0 {
            rest.push(fp[fp.len() - tail..].parse::<u64>().unwrap() * 10u64.pow(9 - tail as u32));
        }
        if self.r.one_in(4) {
            // exclusive or
            let k = self.r.below(n);
            u[k] = 0;
            let v = u.iter().chain(&rest).fold(0, |a, b| a ^ b);
            if v < 1_000_000_000 {
                u[k] = v;
            }
        } else {
            let m: u64 = *self.r.pick(&[1 << 32, 1 << 32, 1 << 31, 1 << 16, 1 << 8, 1_000_000_000, 999_999_999, 1_000_000_007]);
            let fixed: u64 = rest.iter().sum();
            let most = n as u64 * 999_999_999;
            // the sum to reach with the whole units
            let first = (m - fixed % m) % m;
            if first > most {
                return;
            }
            let mut left = first + m * (self.r.next() % ((most - first) / m + 1));
            for k in 0..n {
                let after = (n - 1 - k) as u64 * 999_999_999;
                let (lo, hi) = (left.saturating_sub(after), left.min(999_999_999));
                let v = if k + 1 == n { left } else { lo + self.r.next() % (hi - lo + 1) };
                u[k] = v;
                left -= v;
            }
        }
        let t: Vec<String> = u.iter().map(|v| format!("{:09}", v)).collect();
        *ip = format!("{}{}", &ip[..head], t[..cut].concat());
        *fp = format!("{}{}", t[cut..].concat(), &fp[fp.len() - tail..]);
    }

    /// number text with explicit layout
    pub fn num_at(&mut self, i: usize, f: usize) -> String {
        let (mut ip, fp) = self.digits(i, f);
        // leading zeros are legal; usually avoid them so that the declared digits are significant
        if !self.r.one_in(12) && !ip.is_empty() && ip.as_bytes()[0] == b'0' {
            let d = (b'1' + self.r.below(9) as u8) as char;
            ip.replace_range(0..1, &d.to_string());
        }
        let mut s = String::new();
        if self.r.one_in(3) {
            s.push('-');
        }
        if ip.is_empty() && self.r.one_in(2) && f < 65 {
            ip.push('0');
        }
        s.push_str(&ip);
        if !fp.is_empty() {
            s.push('.');
            s.push_str(&fp);
        }
        s
    }

    pub fn num(&mut self, sh: Shape) -> String {
        let (i, f) = self.layout(sh);
        self.num_at(i, f)
    }

    fn two(&mut self) -> Big {
        let k = match self.r.below(4) {
            0 => 1 + self.r.below(215),
            _ => *self.r.pick(&[15usize, 16, 24, 30, 31, 32, 52, 53, 54, 62, 63, 64, 65, 95, 96, 126, 127, 128, 191, 192]),
        };
        let mut p = Big::from_u64(1);
        for _ in 0..k {
            p = p.add(&p);
        }
        p
    }

    /// a value, mostly in the documented range, sometimes tiny/special
    pub fn value(&mut self, ext: bool) -> String {
        match self.r.below(20) {
            0 => (*self.r.pick(&[
                "0", "1", "-1", "0.0", "0.000000000", "0.0000000000", "1.0", "10", "0.1", "-0.1", "0.5", "-0.5", "2",
                "1000000000", "999999999", "0.000000001", "0.999999999", "1.000000000", "9223372036854775807",
                "-9223372036854775808", "18446744073709551615", "0.000000000000000000000000000001",
                "99999999999999999999999999999999999999999999999999999999999999999",
                "10000000000000000000000000000000000000000000000000000000000000000",
            ]))
            .to_string(),
            1 if self.r.one_in(2) => {
                // around a power of two, which is where narrow machine arithmetic ends
                let p = self.two();
                let k = Big::from_u64(self.r.below(3) as u64);
                let m = if self.r.one_in(2) || p < k { p.add(&k) } else { p.sub(&k) };
                let f = match self.r.below(4) {
                    0 => 0,
                    1 => 9 * self.r.below(4),
                    _ => self.r.below(31),
                };
                let f = f.min(65usize.saturating_sub(m.digits()).max(f.min(m.digits())));
                let neg = self.r.one_in(3);
                Dec::new(neg, m, f.min(30)).text()
            }
            1..=3 if ext => self.num(Shape::Ext),
            4..=6 => self.num(Shape::Small),
            _ => self.num(Shape::Doc),
        }
    }

    /// operand expression: a value, optionally reached through identity-like operations so that its
    /// internal representation differs from what parsing gives (see `ops::build`)
    pub fn operand(&mut self, ext: bool) -> String {
        let v = self.value(ext);
        self.dress(v, ext)
    }

    pub fn dress(&mut self, v: String, ext: bool) -> String {
        match self.r.below(24) {
            0 => {
                let n = 1 + self.r.below(3);
                let f: String = (0..n).map(|_| *self.r.pick(&['a', 'm', 'n', 'd', 'r', 'i', 's', 'q', 'x', 'y', 'R', 'u', 'o', 'p', 'w', 'W'])).collect();
                format!("{}|{}", f, v)
            }
            1 => {
                // leading zeros: more declared digits than significant ones
                let (sg, b) = match v.strip_prefix('-') {
                    Some(b) => ("-", b),
                    None => ("", v.as_str()),
                };
                let nd = b.bytes().filter(|c| c.is_ascii_digit()).count();
                if nd < 65 {
                    let z = 1 + self.r.below(65 - nd);
                    return format!("{}{}{}", sg, "0".repeat(z), b);
                }
                v
            }
            2 if ext => {
                // more than 65 digits: integer part and fraction joined by an addition
                let iu = self.r.below(10);
                let i = (9 * iu).saturating_sub(self.r.below(9)).min(65);
                let f = (9 * (9 - iu)).saturating_sub(self.r.below(9)).min(65);
                let a = self.num_at(i.max(1), 0);
                let b = self.num_at(0, f.max(1));
                let b = b.trim_start_matches('-').to_string();
                if a.starts_with('-') {
                    format!("{}&-{}", a, b)
                } else {
                    format!("{}&{}", a, b)
                }
            }
            3 if ext && self.r.one_in(2) => {
                // more than 65 integer digits: a product
                let i = 64 + self.r.below(19);
                let a = 1 + self.r.below(i.min(65) - 1).max(i.saturating_sub(66));
                let a = a.min(65);
                let (p, q) = if self.r.one_in(2) { (self.num_at(a, 0), self.num_at((i - a).clamp(1, 65), 0)) } else { (self.num_at(a, 0), format!("1{}", "0".repeat((i - a).clamp(0, 64)))) };
                format!("{}*{}", p, q)
            }
            4 if ext && self.r.one_in(2) => {
                // a product of long fractions: more fraction digits than can be held
                let f1 = 1 + self.r.below(30);
                let f2 = 1 + self.r.below(30);
                let i1 = if self.r.one_in(3) { self.r.below(30) } else { 0 };
                let i2 = if self.r.one_in(3) { self.r.below(30) } else { 0 };
                format!("{}*{}", self.num_at(i1, f1), self.num_at(i2, f2))
            }
            5 if ext && self.r.one_in(2) => {
                // nines (but for one digit, sometimes) over the whole of the storage
                let iu = self.r.below(10);
                let i = (9 * iu).saturating_sub(self.r.below(3) * self.r.below(5));
                let f = (9 * (9 - iu)).min(36).saturating_sub(self.r.below(3) * self.r.below(5));
                let sg = if self.r.one_in(3) { "-" } else { "" };
                let (mut a, mut b) = ("9".repeat(i).into_bytes(), "9".repeat(f).into_bytes());
                if self.r.one_in(3) {
                    let d = b'0' + self.r.below(9) as u8;
                    let k = self.r.below((i + f).max(1));
                    if k < i {
                        a[k] = d;
                    } else if k < i + f {
                        b[k - i] = d;
                    }
                }
                let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
                let mut t = vec![];
                if i > 65 {
                    t.push(format!("{}{}*1{}", sg, &a[..i - 16], "0".repeat(16)));
                    t.push(format!("{}{}", sg, &a[i - 16..]));
                } else if i > 0 {
                    t.push(format!("{}{}", sg, a));
                }
                if f > 0 {
                    t.push(format!("{}.{}", sg, b));
                }
                if t.is_empty() { v } else { t.join("&") }
            }
            _ => v,
        }
    }

    /// second operand related to the first (whose text is `a`)
    pub fn related(&mut self, a: &str, ext: bool) -> String {
        if let (Some(p), true) = (a.find('*'), self.r.one_in(2)) {
            // a relative of a wide value: same magnitude class
            let sg = if self.r.one_in(2) { "-" } else { "" };
            let t = a[..p].trim_start_matches(|c: char| !c.is_ascii_digit()).to_string();
            let q = a[p + 1..].trim_start_matches('-').to_string();
            let mut t = t.into_bytes();
            if !t.is_empty() && self.r.one_in(2) {
                let k = self.r.below(t.len());
                t[k] = b'0' + self.r.below(10) as u8;
            }
            return format!("{}{}*{}", sg, String::from_utf8(t).unwrap(), q);
        }
        if self.r.below(5) < 2 || a.contains(['|', '&', '*']) {
            return self.operand(ext);
        }
        let neg = a.starts_with('-');
        let body = a.trim_start_matches(&['-', '+'][..]).to_string();
        let Some(d) = read_loose(&body) else { return self.operand(ext) };
        let sign = |g: &mut Gen, s: String| if g.r.one_in(2) ^ neg { format!("-{}", s) } else { s };
        let out = match self.r.below(19) {
            0 => body,
            17 | 18 => {
                // sum, difference or product with the first lies around a power of two
                let p = self.two();
                let e = Big::from_u64(self.r.below(2) as u64);
                let m = match self.r.below(3) {
                    0 if d.mag < p => p.sub(&d.mag),
                    1 => d.mag.add(&p),
                    _ if !d.mag.is_zero() && d.mag < p => p.divrem(&d.mag).0,
                    _ => p,
                };
                let m = if self.r.one_in(2) || m < e { m.add(&e) } else { m.sub(&e) };
                let sc = if self.r.one_in(2) { d.scale } else { self.r.below(31) };
                Dec::new(false, m, sc).text()
            }
            15 | 16 => {
                // the units in another order, or one unit's excess given to another: same sum
                let p = body.find('.');
                let (i, f) = match p {
                    Some(p) => (p, body.len() - p - 1),
                    None => (body.len(), 0),
                };
                let mut s = body.clone().into_bytes();
                let head = i % 9;
                // start of the k-th whole unit
                let at = |k: usize| if k < i / 9 { head + 9 * k } else { i + 1 + 9 * (k - i / 9) };
                let n = i / 9 + f / 9;
                if n < 2 {
                    return self.operand(ext);
                }
                let j = self.r.below(n);
                let k = (j + 1 + self.r.below(n - 1)) % n;
                let get = |s: &[u8], k: usize| -> u64 { std::str::from_utf8(&s[at(k)..at(k) + 9]).unwrap().parse().unwrap_or(0) };
                let (mut a, mut b) = (get(&s, j), get(&s, k));
                if self.r.one_in(2) {
                    std::mem::swap(&mut a, &mut b);
                } else {
                    let m = self.r.next() % (a.min(999_999_999 - b) + 1);
                    a -= m;
                    b += m;
                }
                s[at(j)..at(j) + 9].copy_from_slice(format!("{:09}", a).as_bytes());
                s[at(k)..at(k) + 9].copy_from_slice(format!("{:09}", b).as_bytes());
                String::from_utf8(s).unwrap()
            }
            13 | 14 => {
                // one unit moved by a power of two or a chosen amount, the others kept
                let un = Big::from_u64(1_000_000_000);
                let pad = (9 - d.scale % 9) % 9;
                let units = (d.mag.digits() + pad + 8) / 9;
                let k = self.r.below(units.max(1));
                let step = if self.r.one_in(2) { 1u64 << self.r.below(30) } else { self.unit(0) as u64 };
                let mut e = Big::from_u64(step);
                for _ in 0..k {
                    e = e.mul(&un);
                }
                let m = d.mag.mul(pow10(pad));
                let m = if self.r.one_in(2) || m < e { m.add(&e) } else { m.sub(&e) };
                let m = if pad > 0 && k > 0 { m.divrem(pow10(pad)).0 } else { m };
                let sc = if pad > 0 && k > 0 { d.scale } else { d.scale + pad };
                Dec::new(false, m, sc).text()
            }
            1 => {
                // one ulp (of some digit) away
                let k = self.r.below(d.mag.digits().max(1));
                let e = *pow10(k);
                let m = if self.r.one_in(2) || d.mag < e { d.mag.add(&e) } else { d.mag.sub(&e) };
                Dec::new(false, m, d.scale).text()
            }
            2 => {
                // same value, other scale
                let z = self.r.below(20);
                let mut s = body.clone();
                if !s.contains('.') {
                    s.push('.');
                }
                format!("{}{}", s, "0".repeat(z.max(1)))
            }
            3 => {
                // complement: a + b is a power of ten
                let k = d.mag.digits() + if self.r.one_in(3) { self.r.below(10) } else { 0 };
                let p = pow10(k.min(80));
                if *p < d.mag {
                    body
                } else {
                    Dec::new(false, p.sub(&d.mag), d.scale).text()
                }
            }
            4 => {
                // 10^k complement plus/minus one
                let k = d.mag.digits();
                let m = pow10(k).sub(&d.mag).add(&Big::from_u64(1));
                Dec::new(false, m, d.scale).text()
            }
            5 => {
                // shifted copy
                let sc = self.r.below(31);
                Dec::new(false, d.mag, sc).text()
            }
            6 => {
                // a multiple
                let mut m = d.mag;
                m.mul_add_small(1 + self.r.below(2_000_000_000) as u64, 0);
                let m = if self.r.one_in(2) { m.add(&Big::from_u64(self.r.below(3) as u64)) } else { m };
                Dec::new(false, m, d.scale).text()
            }
            7 => {
                // a divisor
                let k = 1 + self.r.below(2_000_000_000) as u64;
                let mut m = d.mag;
                m.divrem_small(k);
                Dec::new(false, m, d.scale).text()
            }
            8 => {
                // cut to fewer digits
                let n = 1 + self.r.below(body.len());
                let mut s = body[..n].to_string();
                if s.ends_with('.') {
                    s.push('0');
                }
                if s.starts_with('.') {
                    s.insert(0, '0');
                }
                s
            }
            9 => {
                // one digit replaced
                let mut b = body.into_bytes();
                let k = self.r.below(b.len());
                if b[k] != b'.' {
                    b[k] = b'0' + self.r.below(10) as u8;
                }
                String::from_utf8(b).unwrap()
            }
            10 => {
                // same layout, fresh content
                let p = body.find('.');
                let (i, f) = match p {
                    Some(p) => (p, body.len() - p - 1),
                    None => (body.len(), 0),
                };
                let (ip, fp) = self.digits(i.min(65), f.min(65));
                let mut s = ip;
                if !fp.is_empty() {
                    s.push('.');
                    s.push_str(&fp);
                }
                if s.is_empty() {
                    s.push('0');
                }
                s
            }
            11 => {
                // same trailing part, different top
                let k = self.r.below(10);
                format!("{}{}", 1 + self.r.below(10usize.pow(k as u32)), body)
            }
            _ => {
                let i = 1 + self.r.below(30);
                let f = self.r.below(20);
                return self.num_at(i, f);
            }
        };
        let out = sign(self, out);
        if out.bytes().filter(|c| c.is_ascii_digit()).count() > 65 {
            return self.operand(ext);
        }
        out
    }

    pub fn pair(&mut self, ext: bool) -> (String, String) {
        let a = self.operand(ext);
        let b = self.related(&a, ext);
        let b = if self.r.one_in(10) { self.dress_plain(b, ext) } else { b };
        if self.r.one_in(2) {
            (a, b)
        } else {
            (b, a)
        }
    }

    /// operands whose sum or difference is near the largest storable integer part, 10^81
    pub fn brim(&mut self) -> (String, String) {
        let n16 = "9".repeat(16);
        let z = "0".repeat(15);
        // 10^81 - 10^16, or an 81-digit value with other digits
        let a = match self.r.below(4) {
            0 | 1 => format!("{}*{}&{}", "9".repeat(65), n16, "9".repeat(65)),
            2 => format!("{}*9{}&{}", "9".repeat(65), z, self.num_at(65, 0).trim_start_matches('-')),
            _ => format!("{}*{}", self.num_at(65, 0).trim_start_matches('-'), n16),
        };
        let b = match self.r.below(7) {
            0 => format!("1{}0", z),
            1 => n16.clone(),
            2 => format!("1{}1", z),
            3 => {
                let f = 1 + self.r.below(20);
                format!("{}.{}", n16, self.digits(0, f).1)
            }
            4 => a.clone(),
            5 => format!("{}*9{}", self.num_at(65, 0).trim_start_matches('-'), z),
            _ => { let i = 17 + self.r.below(40); self.num_at(i, 0) }.trim_start_matches('-').to_string(),
        };
        let s = |g: &mut Gen, t: String| {
            if g.r.one_in(2) {
                // every term of a sum changes sign (one factor of a product)
                t.split('&').map(|x| format!("-{}", x)).collect::<Vec<_>>().join("&")
            } else {
                t
            }
        };
        let (a, b) = (s(self, a), s(self, b));
        if self.r.one_in(2) {
            (a, b)
        } else {
            (b, a)
        }
    }

    fn dress_plain(&mut self, b: String, ext: bool) -> String {
        if b.contains(['|', '&', '*']) {
            b
        } else {
            self.dress(b, ext)
        }
    }

    /// a long division in which one digit of the quotient is guessed too large although the lowest units
    /// of the partial remainder do not tell: the divisor is chosen so that digit times divisor ends in
    /// almost nothing but zeros, the partial remainder is just below that product
    fn overshoot(&mut self, units: &[u32], above: &Big) -> Option<(Big, Big)> {
        let n = units.len();
        if n < 3 {
            return None;
        }
        let b = 1_000_000_000u64;
        let top = if self.r.one_in(2) { 500_000_000 + self.r.below(500_000_000) as u32 } else { units[0] };
        let f = b / (top as u64 + 1);
        let txt: String = std::iter::once(&top).chain(&units[1..]).map(|u| format!("{:09}", u)).collect();
        let d = Big::from_digits(txt.as_bytes());
        let q = match self.r.below(3) {
            0 => 1 + self.r.below(1000) as u64,
            1 => b - 1 - self.r.below(1000) as u64,
            _ => 1 + self.r.below(b as usize - 1) as u64,
        };
        let qf = Big::from_u64(q * f);
        // a multiple of b^m for m = n, or of a lower power, next to q * d
        let m = if self.r.one_in(4) { n - 1 } else { n };
        let p = pow10(9 * m);
        let k = qf.mul(&d).divrem(p).0;
        if k.is_zero() {
            return None;
        }
        let goal = k.mul(p);
        let (v, rest) = goal.divrem(&qf);
        let v = if rest.is_zero() { v } else { v.add(&Big::from_u64(1)) };
        if v.divrem(pow10(9 * (n - 1))).0.to_u64() != Some(top as u64) {
            return None;
        }
        let less = Big::from_u64(match self.r.below(3) {
            0 => 1,
            1 => 1 + self.r.below(1000) as u64,
            _ => 1 + self.r.next() % 1_000_000_000_000_000_000,
        });
        let u = goal.divrem(&Big::from_u64(f)).0;
        if u < less {
            return None;
        }
        let mut x = u.sub(&less);
        if self.r.one_in(2) {
            // quotient digits above and below this one
            x = above.divrem(pow10(9)).1.mul(&v).mul_pow10(9).add(&x);
        }
        if self.r.one_in(3) {
            x = x.mul_pow10(9).add(&Big::from_u64(self.r.below(b as usize) as u64));
        }
        Some((x, v))
    }

    /// dividend and divisor built from a chosen quotient and remainder, so that quotient digits hit
    /// their extremes and trial quotients overshoot
    pub fn div_pair(&mut self) -> (String, String) {
        for _ in 0..20 {
            let du = 1 + self.r.below(5);
            let mut units: Vec<u32> = vec![];
            let mut prev = 0;
            for k in 0..du {
                let mut u = self.unit(prev);
                if k == 0 {
                    // top unit: also the normalisation corner cases
                    u = match self.r.below(6) {
                        0 => 499_999_999 + self.r.below(3) as u32,
                        1 => 999_999_999,
                        2 => 1 + self.r.below(3) as u32,
                        _ => u.max(1),
                    };
                } else if k == 1 && self.r.one_in(3) {
                    u = if self.r.one_in(2) { 0 } else { self.r.below(3) as u32 };
                } else if k >= 2 && self.r.one_in(3) {
                    u = 999_999_999 - self.r.below(3) as u32;
                }
                units.push(u);
                prev = u;
            }
            let txt: String = units.iter().map(|u| format!("{:09}", u)).collect();
            let d = Big::from_digits(txt.as_bytes());
            if d.is_zero() {
                continue;
            }
            let qu = 1 + self.r.below(4);
            let mut qt = String::new();
            let mut prev = 0;
            for _ in 0..qu {
                let u = match self.r.below(5) {
                    0 => 999_999_999 - self.r.below(3) as u32,
                    1 => self.r.below(3) as u32,
                    _ => self.unit(prev),
                };
                prev = u;
                qt.push_str(&format!("{:09}", u));
            }
            let q = Big::from_digits(qt.as_bytes());
            let small = Big::from_u64(match self.r.below(4) {
                0 => 1,
                1 => 1 + self.r.below(1000) as u64,
                2 => self.r.below(1_000_000_000) as u64,
                _ => self.r.next() % 1_000_000_000_000_000_000,
            });
            let r = match self.r.below(6) {
                0 => Big::ZERO,
                1 => Big::from_u64(1),
                2 | 3 if small < d => d.sub(&small),
                4 => d.divrem(&Big::from_u64(2)).0,
                _ => small.divrem(&d).1,
            };
            let (n, d) = match self.r.one_in(3).then(|| self.overshoot(&units, &q)) {
                Some(Some(x)) => x,
                _ => (q.mul(&d).add(&r), d),
            };
            // scales: keep the units aligned most of the time
            let sc = |g: &mut Gen, digits: usize| -> usize {
                let s = if g.r.one_in(4) { g.r.below(37) } else { 9 * g.r.below(5) };
                if g.r.one_in(8) { s } else { s.min(30).max(digits.saturating_sub(65).min(30)) }
            };
            let (sn, sd) = (sc(self, n.digits()), sc(self, d.digits()));
            let (sn, sd) = if self.r.one_in(3) { (0, 0) } else { (sn, sd) };
            let a = Dec::new(self.r.one_in(4), n, sn).text();
            let b = Dec::new(self.r.one_in(4), d, sd).text();
            let nd = |s: &str| s.bytes().filter(|c| c.is_ascii_digit()).count();
            if nd(&a) <= 65 && nd(&b) <= 65 {
                return (a, b);
            }
        }
        self.pair(false)
    }

    /// bytes for the parser: valid numerals, near misses, and noise
    pub fn numeral(&mut self) -> Vec<u8> {
        let mut s: Vec<u8> = match self.r.below(12) {
            0 => {
                // exact limit of digits
                let n = 60 + self.r.below(10);
                let (a, b) = self.digits(n.min(65), 0);
                let mut v = (a + &b).into_bytes();
                while v.len() < n {
                    v.push(b'0' + self.r.below(10) as u8);
                }
                v
            }
            1 => {
                let (i, f) = self.layout(Shape::Ext);
                self.num_at(i, f).into_bytes()
            }
            2 => {
                // long runs
                let n = *self.r.pick(&[66usize, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 321, 384, 512, 577, 1000]);
                let n = if self.r.one_in(200) { *self.r.pick(&[32767usize, 32768, 32769, 65534, 65535, 65536, 65537, 65540, 65545, 65600, 65601]) } else { n };
                let z = self.r.one_in(2);
                (0..n).map(|_| if z { b'0' } else { b'0' + self.r.below(10) as u8 }).collect()
            }
            _ => {
                let sh = if self.r.one_in(3) { Shape::Small } else { Shape::Doc };
                self.num(sh).into_bytes()
            }
        };
        // dot placement variants
        match self.r.below(12) {
            0 => s.push(b'.'),
            1 => s.insert(0, b'.'),
            2 => {
                let k = self.r.below(s.len() + 1);
                s.insert(k, b'.');
            }
            3 => {
                if let Some(p) = s.iter().position(|c| *c == b'.') {
                    s.remove(p);
                }
            }
            4 => {
                let z = 1 + self.r.below(12);
                let p = s.iter().take_while(|c| **c == b'-').count();
                for _ in 0..z {
                    s.insert(p, b'0');
                }
            }
            _ => {}
        }
        if !s.starts_with(b"-") && self.r.one_in(8) {
            s.insert(0, b'+');
        }
        // exponents
        match self.r.below(8) {
            0 | 1 => {
                let e = self.r.range(-35, 70);
                s.push(if self.r.one_in(2) { b'e' } else { b'E' });
                if e >= 0 && self.r.one_in(3) {
                    s.push(b'+');
                }
                if e < 0 {
                    s.push(b'-');
                }
                if self.r.one_in(4) {
                    let z = 1 + if self.r.one_in(20) { self.r.below(300) } else { self.r.below(6) };
                    for _ in 0..z {
                        s.push(b'0');
                    }
                }
                s.extend_from_slice(e.abs().to_string().as_bytes());
            }
            2 if self.r.one_in(2) => {
                // exponent that keeps the total near the limits
                let nd = s.iter().filter(|c| c.is_ascii_digit()).count() as isize;
                let e = if self.r.one_in(2) { 65 - nd } else { -30 } + self.r.range(-2, 2);
                s.extend_from_slice(format!("e{}", e).as_bytes());
            }
            3 if self.r.one_in(4) => {
                // an exponent that is small only modulo a machine word
                let w = *self.r.pick(&[8u32, 15, 16, 31, 32, 63, 64]);
                let e = self.r.range(-30, 65) as i128 + (1i128 << w) * (1 + self.r.below(2) as i128);
                s.extend_from_slice(format!("e{}{}", if self.r.one_in(3) { "-" } else { "" }, e).as_bytes());
            }
            3 if self.r.one_in(3) => {
                let t: &[&[u8]] = &[
                    b"e", b"E", b"e+", b"e-", b"e1234", b"e99999999999", b"e-99999999999999999999", b"e2147483648", b"e4294967296",
                    b"e65", b"e66", b"e-30", b"e-31", b"e+065", b"e-0", b"e0000", b"e256", b"e-256", b"e1.5", b"e 1", b"e1 ", b"f1", b"ee1",
                    b"e+-1", b"e128", b"e127", b"e-128", b"e-129", b"e257",
                ];
                let t = *self.r.pick(t);
                s.extend_from_slice(t);
            }
            _ => {}
        }
        // noise
        match self.r.below(14) {
            0 | 3 => {
                // one byte inserted or replaced, often next to where the scanner changes its mind
                let marks: Vec<usize> = (0..s.len()).filter(|k| !s[*k].is_ascii_digit()).collect();
                let k = if !marks.is_empty() && self.r.one_in(2) {
                    *self.r.pick(&marks) + self.r.below(3)
                } else if self.r.one_in(3) {
                    s.len() - self.r.below(3).min(s.len())
                } else {
                    self.r.below(s.len() + 1)
                };
                let k = k.min(s.len());
                let old = s.get(k).copied().unwrap_or(b'0');
                let c = match self.r.below(5) {
                    0 => self.r.below(256) as u8,
                    1 => *self.r.pick(b"+-.eE xX_,/:;\0\xff"),
                    2 => b'/' + (self.r.below(2) * 11) as u8,
                    // a digit with one bit flipped
                    3 => old ^ (1 << self.r.below(8)),
                    _ => 0xe0,
                };
                if k < s.len() && self.r.one_in(2) {
                    s[k] = c;
                } else {
                    s.insert(k, c);
                }
            }
            1 if !s.is_empty() => {
                let k = self.r.below(s.len());
                s.remove(k);
            }
            2 if self.r.one_in(3) => {
                let n = self.r.below(12);
                s = (0..n).map(|_| *self.r.pick(b"0159+-.eE")).collect();
            }
            _ => {}
        }
        s
    }

    // ---- mutation --------------------------------------------------------------------------
    /// mutate numeric-looking arguments; `pairs` are operand pairs of comparisons the code under
    /// test executed on this case
    pub fn mutate(&mut self, c: &Case, pairs: &[[u64; 2]], other: Option<&Case>) -> Case {
        let mut c = c.clone();
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            if c.args.is_empty() {
                return c;
            }
            let k = self.r.below(c.args.len());
            if let Some(o) = other {
                if self.r.one_in(8) && k < o.args.len() {
                    c.args[k] = o.args[k].clone();
                    continue;
                }
            }
            let mut t = std::mem::take(&mut c.args[k]);
            self.mutate_arg(&mut t, pairs);
            c.args[k] = t;
        }
        c
    }

    fn mutate_arg(&mut self, t: &mut Vec<u8>, pairs: &[[u64; 2]]) {
        // parameters (short integers) mutate as integers
        let short = t.len() <= 5 && !t.is_empty() && std::str::from_utf8(t).ok().and_then(|s| s.parse::<i64>().ok()).is_some();
        if short && self.r.one_in(2) {
            let v: i64 = std::str::from_utf8(t).unwrap().parse().unwrap();
            let v = match self.r.below(5) {
                0 => v + 1,
                1 => v - 1,
                2 => -v,
                3 => self.r.range(-40, 90) as i64,
                _ => 9 * self.r.range(-4, 9) as i64,
            };
            *t = v.to_string().into_bytes();
            return;
        }
        // digit runs
        let start = t.iter().position(|c| c.is_ascii_digit() || *c == b'.').unwrap_or(t.len());
        let end = start + t[start..].iter().take_while(|c| c.is_ascii_digit() || **c == b'.').count();
        let dot = t[start..end].iter().position(|c| *c == b'.').map(|p| start + p).unwrap_or(end);
        match self.r.below(13) {
            0 | 1 | 2 => {
                // a whole unit
                let iu = (dot - start + 8) / 9;
                let fu = (end.saturating_sub(dot + 1) + 8) / 9;
                if iu + fu == 0 {
                    return;
                }
                let k = self.r.below(iu + fu);
                let (s, e) = if k < iu {
                    let e = dot - 9 * k;
                    (e.saturating_sub(9).max(start), e)
                } else {
                    let s = dot + 1 + 9 * (k - iu);
                    (s, (s + 9).min(end))
                };
                let old: u32 = std::str::from_utf8(&t[s..e]).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
                let v = if !pairs.is_empty() && self.r.one_in(2) {
                    let p = self.r.pick(pairs);
                    let w = if self.r.one_in(2) { p[0] } else { p[1] };
                    let w = (w as i64).wrapping_add(self.r.range(-1, 1) as i64);
                    (w.unsigned_abs() % 1_000_000_000) as u32
                } else {
                    self.unit(old)
                };
                let f = format!("{:09}", v);
                let w = e - s;
                if k < iu {
                    t[s..e].copy_from_slice(&f.as_bytes()[9 - w..]);
                } else {
                    t[s..e].copy_from_slice(&f.as_bytes()[..w]);
                }
            }
            3 => {
                // input-to-state: replace a value seen in a comparison by what it was compared with
                for _ in 0..8 {
                    if pairs.is_empty() {
                        break;
                    }
                    let p = *self.r.pick(pairs);
                    let (a, b) = if self.r.one_in(2) { (p[0], p[1]) } else { (p[1], p[0]) };
                    if a > 999_999_999 || b > 999_999_999 {
                        continue;
                    }
                    let f = format!("{:09}", a).into_bytes();
                    let f2 = format!("{:09}", b).into_bytes();
                    for w in [9usize, 8, 7, 6, 5, 4, 3] {
                        let needle = &f[9 - w..];
                        if let Some(p) = t.windows(w).position(|x| x == needle) {
                            t[p..p + w].copy_from_slice(&f2[9 - w..]);
                            return;
                        }
                    }
                }
            }
            4 | 5 => {
                if end > start {
                    let k = start + self.r.below(end - start);
                    if t[k] != b'.' {
                        t[k] = *self.r.pick(b"0123456789059");
                    }
                }
            }
            6 => {
                // toggle sign
                if t.first() == Some(&b'-') {
                    t.remove(0);
                } else if t.first().map_or(false, |c| c.is_ascii_digit()) {
                    t.insert(0, b'-');
                }
            }
            7 => {
                // grow
                let k = start + self.r.below(end - start + 1);
                let n = if self.r.one_in(2) { 9 } else { 1 + self.r.below(9) };
                let ch = *self.r.pick(b"0909r");
                for _ in 0..n {
                    let c = if ch == b'r' { b'0' + self.r.below(10) as u8 } else { ch };
                    t.insert(k, c);
                }
            }
            8 => {
                // shrink
                if end > start + 1 {
                    let k = start + self.r.below(end - start);
                    let n = if self.r.one_in(2) { 9 } else { 1 + self.r.below(9) };
                    t.drain(k..(k + n).min(end));
                }
            }
            9 => {
                // move the point
                if dot < end {
                    t.remove(dot);
                    let e2 = end - 1;
                    let k = start + self.r.below(e2 - start + 1);
                    if k < e2 && k > start {
                        t.insert(k, b'.');
                    }
                } else if end > start + 1 {
                    let k = start + 1 + self.r.below(end - start - 1);
                    t.insert(k, b'.');
                }
            }
            10 => {
                // run of zeros / nines / fives
                if end > start {
                    let k = start + self.r.below(end - start);
                    let e = (k + 1 + self.r.below(20)).min(end);
                    let ch = *self.r.pick(b"0959");
                    for c in &mut t[k..e] {
                        if *c != b'.' {
                            *c = ch;
                        }
                    }
                }
            }
            11 => {
                if !t.is_empty() && self.r.one_in(3) {
                    let k = self.r.below(t.len());
                    t[k] = *self.r.pick(b"0123456789.-+eE|&amndriq ");
                }
            }
            _ => {
                // flip a bit of a digit's value: +-1 with carry
                if end > start {
                    let k = start + self.r.below(end - start);
                    if t[k].is_ascii_digit() {
                        t[k] = if self.r.one_in(2) { b'0' + (t[k] - b'0' + 1) % 10 } else { b'0' + (t[k] - b'0' + 9) % 10 };
                    }
                }
            }
        }
    }
}

pub fn read_loose(b: &str) -> Option<Dec> {
    match crate::model::read_numeral(b.as_bytes()) {
        crate::model::Numeral::Accept(d, _) => Some(d),
        _ => None,
    }
}
