//! One generator and one oracle per property.
use crate::big::Big;
use crate::gen::{Case, Gen, Shape};
use crate::model::{read_numeral, units, Dec, Numeral};
use crate::ops::*;
use fxdshim as x;
use fxdshim::FD;
use std::cmp::Ordering;

pub enum Out {
    /// held; the string names the class of behaviour observed
    Held(String),
    /// nothing was observed (operand not constructible, degenerate case)
    Skip,
    Viol(String),
}
use Out::*;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Gen) -> Case,
    pub run: fn(&Case) -> Out,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: g_numeral, run: c01 },
    Prop { id: "C02", gen: g_numeral_dirty, run: c02 },
    Prop { id: "C03", gen: g_format, run: c03 },
    Prop { id: "C04", gen: g_operand, run: c04 },
    Prop { id: "C05", gen: g_triple, run: c05 },
    Prop { id: "C06", gen: g_pair, run: c06 },
    Prop { id: "C07", gen: g_addsub, run: binop },
    Prop { id: "C08", gen: g_mul, run: binop },
    Prop { id: "C09", gen: g_div, run: binop },
    Prop { id: "C10", gen: g_rem, run: binop },
    Prop { id: "C11", gen: g_round, run: c11 },
    Prop { id: "C12", gen: g_dest, run: c12 },
    Prop { id: "C13", gen: g_int, run: c13 },
    Prop { id: "C14", gen: g_toint, run: c14 },
    Prop { id: "C15", gen: g_any, run: c15 },
    Prop { id: "C16", gen: g_hostile, run: c16 },
    Prop { id: "C17", gen: g_hostile, run: c17 },
    Prop { id: "C18", gen: g_history, run: c18 },
    Prop { id: "C20", gen: g_access, run: c20 },
    Prop { id: "C21", gen: g_laws, run: c21 },
    Prop { id: "C22", gen: g_cost, run: c22 },
    Prop { id: "C24", gen: g_access, run: c24 },
];

fn shape(d: &Dec) -> String {
    format!("{}{}.{}", if d.neg { "-" } else { "" }, units(d.int_digits()), units(d.scale))
}

// ---- C01 / C02: parsing ------------------------------------------------------------------------

fn g_numeral(g: &mut Gen) -> Case {
    Case { args: vec![g.numeral()] }
}

fn g_numeral_dirty(g: &mut Gen) -> Case {
    let n = g.numeral();
    let d = g.operand(true);
    Case { args: vec![n, d.into_bytes()] }
}

fn c01(c: &Case) -> Out {
    let b = &c.args[0];
    let (d, total) = match read_numeral(b) {
        Numeral::Accept(d, t) => (d, t),
        Numeral::Reject(_) => return Skip,
    };
    let v = match std::str::from_utf8(b) {
        Ok(s) => call_r(|| x::parse(s)),
        Err(_) => return Skip,
    };
    let v = match v {
        Ok(v) => v,
        Err(f) => return Viol(format!("numeral of {} digits not accepted: {}", total, f)),
    };
    match observe(&v) {
        Err(m) => Viol(m),
        Ok(o) => {
            if o.mag != d.mag || o.neg != d.neg || o.scale != d.scale {
                return Viol(format!("denotes {} but was read as {}", d.text(), o.text()));
            }
            let e = b.iter().any(|c| *c == b'e' || *c == b'E');
            Held(format!("{}{}{}", shape(&d), if e { "e" } else { "" }, if d.is_zero() { "z" } else { "" }))
        }
    }
}

fn c02(c: &Case) -> Out {
    let b = &c.args[0];
    let exp = read_numeral(b);
    let Some(dirty) = c.args.get(1).and_then(|a| std::str::from_utf8(a).ok()).and_then(build) else { return Skip };
    // fresh, reset over existing content, no reset over existing content
    let mut fresh = FD::zero();
    let r1 = call_r(|| x::parse_bytes(&mut fresh, b, true));
    let mut reset = dirty.clone();
    let r2 = call_r(|| x::parse_bytes(&mut reset, b, true));
    let mut keep = dirty.clone();
    let r3 = call_r(|| x::parse_bytes(&mut keep, b, false));
    for r in [&r1, &r2, &r3] {
        if let Err(f) = r {
            if *f != Fail::Syntax {
                return Viol(format!("parse ended with {}", f));
            }
        }
        if r.is_ok() != matches!(exp, Numeral::Accept(..)) {
            return match &exp {
                Numeral::Accept(d, t) => Viol(format!("rejected a numeral of {} digits denoting {}", t, d.text())),
                Numeral::Reject(why) => Viol(format!(
                    "accepted a malformed numeral ({}) as {}",
                    why,
                    observe(&fresh).map(|d| d.text()).unwrap_or_else(|m| m)
                )),
            };
        }
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let r4 = call_r(|| x::parse(s));
        let mut a = dirty.clone();
        let r5 = call_r(|| x::parse_ascii(&mut a, s, true));
        if r4.is_ok() != r1.is_ok() || r5.is_ok() != r1.is_ok() {
            return Viol("the parsing entry points disagree on acceptance".into());
        }
    }
    match exp {
        Numeral::Accept(d, _) => {
            for v in [&fresh, &reset] {
                match observe(v) {
                    Err(m) => return Viol(m),
                    Ok(o) if !(o.same(&d) && o.scale == d.scale) => return Viol(format!("denotes {} but was read as {}", d.text(), o.text())),
                    _ => {}
                }
            }
            Held(format!("acc{}", shape(&d)))
        }
        Numeral::Reject(w) => {
            // nothing half-parsed is left behind
            let pz = probe(&FD::zero());
            if probe(&fresh) != pz || probe(&reset) != pz {
                return Viol("a rejected numeral left a value other than zero in a reset destination".into());
            }
            if probe(&keep) != probe(&dirty) {
                return Viol("a rejected numeral changed a destination that was not to be reset".into());
            }
            Held(format!("rej:{}", w))
        }
    }
}

// ---- C03 / C04: formatting ---------------------------------------------------------------------

fn g_format(g: &mut Gen) -> Case {
    let v = g.operand(true);
    let f = match g.r.below(6) {
        0 => -1 - g.r.below(5) as isize,
        1 => 0,
        2 => 9 * g.r.range(0, 9) + g.r.range(-1, 1),
        3 if g.r.one_in(40) => {
            (*g.r.pick(&[1000, 4096, 32767, 32768, 65535, 65536, 131072, isize::MIN, isize::MIN + 1, wide(-(1 << 32)), wide(-(1 << 32) + 5), -65536, -65530])) as isize + if g.r.one_in(2) { 0 } else { g.r.below(40) as isize }
        }
        3 => *g.r.pick(&[80, 81, 82, 90, 99, 126, 127, 128, 129, 255, 256, 257, 384, 512, 600, -128, -256, -1000]),
        _ => g.r.range(0, 40),
    };
    Case::strs(vec![v, f.to_string(), format!("{}", g.r.below(210))])
}

fn c03(c: &Case) -> Out {
    let Some((v, d)) = operand(c.s(0)) else {
        // the value exists but is not printed as a canonical decimal: that is this property
        return match build(c.s(0)).map(|v| observe(&v)) {
            Some(Err(m)) => Viol(m),
            _ => Skip,
        };
    };
    let f = c.int(1) as isize;
    if f > 140_000 {
        return Skip;
    }
    let want = if f < 0 { d.text() } else { d.text_at(f as usize) };
    let got = match call(|| x::to_string(&v, f)) {
        Ok(s) => s,
        Err(e) => return Viol(format!("to_string({}) of {}: {}", f, d.text(), e)),
    };
    if std::str::from_utf8(got.as_bytes()).is_err() || got != want {
        return Viol(format!("to_string({}) of {} gave {:?}, expected {}", f, d.text(), got, want));
    }
    // appending never touches what is already in the buffer
    let sel = c.int(2).unsigned_abs() as usize % 210;
    let n = (sel / 8 % 25).max(1) - 1;
    let n = if sel >= 200 { [31, 63, 127, 128, 255, 256, 300, 511, 1023, 65535][sel % 10] } else { n };
    const TEXT: [&[u8]; 8] = [b"\xc8\xff\x80\xf0", b"0", b"7", b".", b"-", b"12.50", b"+ e0", b"\0\n,"];
    let pre: Vec<u8> = (0..n).map(|i| TEXT[sel % 8][i % TEXT[sel % 8].len()]).collect();
    let mut buf = if sel & 1 == 0 { pre.clone() } else { Vec::with_capacity(n + sel) };
    if sel & 1 == 1 {
        buf.extend_from_slice(&pre);
    }
    if let Err(e) = call(|| x::append(&v, &mut buf, f)) {
        return Viol(format!("append_str_buf({}) of {}: {}", f, d.text(), e));
    }
    if buf[..n.min(buf.len())] != pre[..] || buf[n..] != *want.as_bytes() {
        return Viol(format!("append_str_buf({}) of {} produced {:?} after a {}-byte prefix", f, d.text(), String::from_utf8_lossy(&buf), n));
    }
    let k = if f < 0 {
        "full"
    } else if (f as usize) < d.scale {
        "cut"
    } else {
        "pad"
    };
    Held(format!("{}{}", k, shape(&d)))
}

fn g_operand(g: &mut Gen) -> Case {
    Case::strs(vec![g.operand(true)])
}

fn c04(c: &Case) -> Out {
    let Some(v) = build(c.s(0)) else { return Skip };
    let d = match observe(&v) {
        Ok(d) => d,
        Err(m) => return Viol(m),
    };
    if d.int_digits().max(1) + d.scale > 65 {
        return Skip;
    }
    let t = d.text();
    let w = match call_r(|| x::parse(&t)) {
        Ok(w) => w,
        Err(f) => return Viol(format!("{} was printed but is not read back: {}", t, f)),
    };
    if call(|| x::cmp(&v, &w)) != Ok(Ordering::Equal) || call(|| x::eq(&v, &w)) != Ok(true) {
        return Viol(format!("{} read back does not compare equal", t));
    }
    let (a, b) = (probe(&v), probe(&w));
    if a != b {
        return Viol(format!("{} read back behaves differently: {}", t, first_diff(&a, &b)));
    }
    Held(shape(&d))
}

pub fn first_diff(a: &str, b: &str) -> String {
    let (pa, pb): (Vec<_>, Vec<_>) = (a.split('/').collect(), b.split('/').collect());
    for (i, (p, q)) in pa.iter().zip(pb.iter()).enumerate() {
        if p != q {
            return format!("observation {}: {} vs {}", i, p, q);
        }
    }
    "different length".into()
}

// ---- C05 / C06: order, equality, hash -----------------------------------------------------------

fn g_pair(g: &mut Gen) -> Case {
    let (a, b) = g.pair(true);
    Case::strs(vec![a, b])
}

fn g_triple(g: &mut Gen) -> Case {
    let (a, b) = g.pair(true);
    let c = g.related(&a, true);
    Case::strs(vec![a, b, c])
}

fn c05(c: &Case) -> Out {
    let mut vs = vec![];
    for i in 0..c.args.len().min(3) {
        let Some(v) = operand(c.s(i)) else { return Skip };
        vs.push(v);
    }
    let mut sig = String::new();
    for (v, dv) in &vs {
        for (w, dw) in &vs {
            let e = dv.cmp(dw);
            let got = call(|| x::relations(v, w));
            let want = (
                e,
                Some(e),
                e == Ordering::Equal,
                e == Ordering::Less,
                e != Ordering::Greater,
                e != Ordering::Equal,
                e == Ordering::Greater,
                e != Ordering::Less,
            );
            match got {
                Ok(g) if g == want => {}
                Ok(g) => return Viol(format!("{} ? {}: (cmp, partial_cmp, ==, <, <=, !=, >, >=) = {:?}, expected {:?}", dv.text(), dw.text(), g, want)),
                Err(f) => return Viol(format!("comparing {} with {}: {}", dv.text(), dw.text(), f)),
            }
        }
    }
    for w in vs.windows(2) {
        sig.push_str(&format!("{:?}{}{}", w[0].1.cmp(&w[1].1), shape(&w[0].1), shape(&w[1].1)));
    }
    // the larger and the smaller of two values
    if c.hash() % 4 == 0 && vs.len() > 1 {
        let ((v, dv), (w, dw)) = (&vs[0], &vs[1]);
        let (hi, lo) = if dv.cmp(dw) == Ordering::Less { (dw, dv) } else { (dv, dw) };
        for (n, want, got) in [("max", hi, call(|| x::max(v.clone(), w.clone()))), ("min", lo, call(|| x::min(v.clone(), w.clone())))] {
            match got.as_ref().map(observe) {
                Ok(Ok(d)) if d.same(want) => {}
                o => return Viol(format!("the {} of {} and {} is {:?}", n, dv.text(), dw.text(), o.map(|r| r.map(|d| d.text())))),
            }
        }
    }
    if c.hash() % 4 == 1 && vs.len() > 2 {
        let ((v, dv), mut lo, mut hi) = (&vs[0], &vs[1], &vs[2]);
        if lo.1.cmp(&hi.1) == Ordering::Greater {
            std::mem::swap(&mut lo, &mut hi);
        }
        let want = if dv.cmp(&lo.1) == Ordering::Less {
            &lo.1
        } else if dv.cmp(&hi.1) == Ordering::Greater {
            &hi.1
        } else {
            dv
        };
        match call(|| x::clamp(v.clone(), lo.0.clone(), hi.0.clone())).as_ref().map(observe) {
            Ok(Ok(d)) if d.same(want) => {}
            o => return Viol(format!("{} kept between {} and {} is {:?}", dv.text(), lo.1.text(), hi.1.text(), o.map(|r| r.map(|d| d.text())))),
        }
    }
    // an order of a set of values is one order: sorting agrees with the model
    let mut s: Vec<&(FD, Dec)> = vs.iter().collect();
    if call(|| s.sort_by(|a, b| x::cmp(&a.0, &b.0))).is_err() {
        return Viol("sorting panicked".into());
    }
    for w in s.windows(2) {
        if w[0].1.cmp(&w[1].1) == Ordering::Greater {
            return Viol(format!("sorted {} before {}", w[0].1.text(), w[1].1.text()));
        }
    }
    Held(sig)
}

fn c06(c: &Case) -> Out {
    let (Some((a, da)), Some((b, db))) = (operand(c.s(0)), operand(c.s(1))) else { return Skip };
    // force equality often: compare also every value with a differently written self
    let mut forms: Vec<(FD, Dec)> = vec![(a.clone(), da), (b.clone(), db)];
    for d in [da, db] {
        let t = d.text();
        let nd = t.bytes().filter(|c| c.is_ascii_digit()).count();
        let (sg, body) = match t.strip_prefix('-') {
            Some(b) => ("-", b.to_string()),
            None => ("", t.clone()),
        };
        let h = c.hash();
        let room = 65usize.saturating_sub(nd);
        if room > 0 {
            let z = 1 + (h as usize) % room;
            let mut e = body.clone();
            if !e.contains('.') {
                e.push('.');
            }
            for s in [
                format!("{}{}{}", sg, "0".repeat(z), body),
                format!("{}{}{}", sg, e, "0".repeat(z)),
                format!("{}{}{}{}", sg, "0".repeat(z / 2), e, "0".repeat(z - z / 2)),
            ] {
                if let Some(v) = operand(s.trim_end_matches('.')) {
                    forms.push(v);
                }
            }
        }
        for f in ["m", "d", "a", "n", "r"] {
            if nd <= 65 {
                if let Some(v) = operand(&format!("{}|{}", f, t)) {
                    forms.push(v);
                }
            }
        }
    }
    let mut equal = 0;
    for i in 0..forms.len() {
        for j in i + 1..forms.len() {
            let ((v, dv), (w, dw)) = (&forms[i], &forms[j]);
            let eq = match call(|| x::eq(v, w)) {
                Ok(e) => e,
                Err(f) => return Viol(format!("comparing {} with {}: {}", dv.text(), dw.text(), f)),
            };
            if eq || dv.same(dw) {
                equal += 1;
                let h = call(|| (x::hash_stream(v), x::hash_stream(w), x::hash64(v), x::hash64(w)));
                match h {
                    Ok((a, b, p, q)) if a == b && p == q => {
                        // in lists of values, too
                        let (l, m) = ([v.clone(), w.clone(), v.clone()], [w.clone(), v.clone(), w.clone()]);
                        match call(|| (x::hash_slice_stream(&l), x::hash_slice_stream(&m))) {
                            Ok((a, b)) if a == b => {}
                            _ => return Viol(format!("lists of {} and {}, which are equal, hash differently", dv.text(), dw.text())),
                        }
                    }
                    Ok(_) => return Viol(format!("{} (intg {}, frac {}) and {} (intg {}, frac {}) are equal but hash differently", dv.text(), x::intg(v), x::frac(v), dw.text(), x::intg(w), x::frac(w))),
                    Err(f) => return Viol(format!("hashing {} or {}: {}", dv.text(), dw.text(), f)),
                }
            }
        }
    }
    // what it means for a user: a set keyed by these values has one entry per numeric value
    let n_model = {
        let mut r: Vec<Dec> = vec![];
        for (_, d) in &forms {
            if !r.iter().any(|e| e.same(d)) {
                r.push(*d);
            }
        }
        r.len()
    };
    let n_set = match call(|| forms.iter().map(|f| f.0.clone()).collect::<std::collections::HashSet<FD>>().len()) {
        Ok(n) => n,
        Err(f) => return Viol(format!("building a HashSet: {}", f)),
    };
    if n_set != n_model {
        return Viol(format!("a HashSet of {} representations of {} distinct values has {} entries", forms.len(), n_model, n_set));
    }
    if equal == 0 {
        return Skip;
    }
    Held(format!("{}{}", shape(&da), shape(&db)))
}

// ---- C07..C10: arithmetic -----------------------------------------------------------------------

fn g_bin(g: &mut Gen, op: &str, a: String, b: String) -> Case {
    // now and then both operands are one and the same value (see binop)
    let b = if g.r.one_in(40) { a.clone() } else { b };
    let dirty = if g.r.one_in(3) { g.operand(true) } else { "0".into() };
    let incr = match g.r.below(8) {
        0 => 0,
        1 => g.r.below(20),
        2 => g.r.below(40),
        3 => 9 * g.r.below(4),
        4 if g.r.one_in(3) => *g.r.pick(&[64, 65, 100, 126, 127, 128, 129, 200, 255, 256, 257, 260, 512, 32767, 32768, 65535, 65536, 65540, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, wide(1 << 32) as usize, wide((1 << 32) + 4) as usize, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 8, usize::MAX]),
        _ => 4,
    };
    Case::strs(vec![op.to_string(), a, b, dirty, incr.to_string()])
}

fn g_addsub(g: &mut Gen) -> Case {
    let ext = g.r.one_in(4);
    let (a, b) = if g.r.one_in(30) { g.brim() } else { g.pair(ext) };
    let op = if g.r.one_in(2) { "add" } else { "sub" };
    g_bin(g, op, a, b)
}

fn g_mul(g: &mut Gen) -> Case {
    let (a, b) = match g.r.below(4) {
        0 => {
            // products that end near a capacity limit
            let ia = 1 + g.r.below(65);
            let ib = (*g.r.pick(&[65usize, 72, 81, 80, 64, 66, 36]) as isize - ia as isize + g.r.range(-2, 2)).clamp(1, 65) as usize;
            let fa = g.r.below(31).min(65 - ia);
            let fb = g.r.below(31).min(65 - ib);
            (g.num_at(ia, fa), g.num_at(ib, fb))
        }
        1 => {
            let fa = 1 + g.r.below(30);
            let fb = 1 + g.r.below(30);
            let ia = g.r.below(10);
            let ib = g.r.below(10);
            (g.num_at(ia, fa), g.num_at(ib, fb))
        }
        _ => {
            let ext = g.r.one_in(4);
            g.pair(ext)
        }
    };
    g_bin(g, "mul", a, b)
}

fn g_div(g: &mut Gen) -> Case {
    let (a, b) = match g.r.below(4) {
        0 | 1 => g.div_pair(),
        _ => {
            let ext = g.r.one_in(4);
            g.pair(ext)
        }
    };
    g_bin(g, "div", a, b)
}

fn g_rem(g: &mut Gen) -> Case {
    let (a, b) = match g.r.below(4) {
        0 | 1 => g.div_pair(),
        _ => {
            let ext = g.r.one_in(4);
            g.pair(ext)
        }
    };
    g_bin(g, "rem", a, b)
}

fn binop(c: &Case) -> Out {
    let Some(op) = Bin::parse(c.s(0)) else { return Skip };
    let (Some((a, da)), Some((b0, db))) = (operand(c.s(1)), operand(c.s(2))) else { return Skip };
    // operands written alike are passed as one object: the same reference twice
    let b = if c.s(1) == c.s(2) { &a } else { &b0 };
    let dirty = build(c.s(3)).unwrap_or_else(FD::zero);
    let incr = c.s(4).parse::<u64>().unwrap_or(4) as usize;
    let e = expect_bin(op, &da, &db, incr);
    let got = match run_bin(op, &a, b, &dirty, incr) {
        Ok(g) => g,
        Err(m) => return Viol(format!("{} {} {}: {}", da.text(), op.name(), db.text(), m)),
    };
    let k = match judge(&e, &got) {
        Ok(k) => k,
        Err(m) => return Viol(format!("{} {} {} (incr {}): {}", da.text(), op.name(), db.text(), incr, m)),
    };
    if op == Bin::Div || op == Bin::Rem {
        if let Ok(r) = &got {
            // |remainder| < |divisor|, sign of the dividend, and it is a whole multiple away: the
            // division identity, checked independently of how either was computed
            if op == Bin::Rem && r.cmp_abs(&db) != Ordering::Less {
                return Viol(format!("{} rem {} = {} is not smaller than the divisor", da.text(), db.text(), r.text()));
            }
        }
    }
    // the operator form must deliver the same (div: with its default of 4 more digits)
    let eo = if op == Bin::Div { expect_bin(op, &da, &db, 4) } else { e };
    let go = match op.op(&a, b) {
        Ok(v) => match observe(&v) {
            Ok(d) => Ok(d),
            Err(m) => return Viol(format!("{} {} {} (operator): malformed result: {}", da.text(), op.name(), db.text(), m)),
        },
        Err(f) => Err(f),
    };
    match (&eo, &go) {
        (Expect::DivZero | Expect::Overflow | Expect::OrOverflow(_), Err(Fail::Panic(_))) => {}
        _ => {
            if let Err(m) = judge(&eo, &go) {
                return Viol(format!("{} {} {} (operator): {}", da.text(), op.name(), db.text(), m));
            }
        }
    }
    Held(format!("{}{}{}{}", op.name(), k, shape(&da), shape(&db)))
}

// ---- C11: rounding ------------------------------------------------------------------------------

/// a value that is at a half, or just beside it, at the position that goes with it
fn at_half(g: &mut Gen) -> (String, isize) {
    let ext = g.r.one_in(4);
    let t = if ext {
        let i = g.r.below(36);
        let f = g.r.below(31);
        g.num_at(i, f)
    } else {
        let (i, f) = g.layout(Shape::Doc);
        g.num_at(i, f)
    };
    let mut b = t.into_bytes();
    let ds: Vec<usize> = (0..b.len()).filter(|k| b[*k].is_ascii_digit()).collect();
    let point = b.iter().position(|c| *c == b'.').unwrap_or(b.len());
    let wholes = ds.iter().filter(|p| **p < point).count() as isize;
    let mut k = g.r.below(ds.len());
    if g.r.one_in(2) {
        // at the edge of a unit
        let e = (k as isize - wholes).div_euclid(9) * 9 + wholes;
        k = if e >= 0 { e as usize } else { k };
    }
    let n = k as isize - wholes;
    let style = g.r.below(6);
    for (m, p) in ds.iter().enumerate().skip(k) {
        // where in its unit
        let at = (m as isize - wholes).rem_euclid(9);
        b[*p] = if m == k {
            if style == 0 || style == 4 { b'5' } else { b'4' }
        } else {
            match style {
                0 => b'0',
                1 => b'9',
                // 4999.. to the end of the unit, then a half or more
                2 if m < k + 9 && (m as isize - k as isize) <= 8 - (k as isize - wholes).rem_euclid(9) => b'9',
                2 => if at == 0 { b'5' + g.r.below(5) as u8 } else { b'0' + g.r.below(10) as u8 },
                3 => if m + 1 == ds.len() { b'0' + g.r.below(10) as u8 } else { b'9' },
                4 => if m + 1 == ds.len() { b'1' } else { b'0' },
                _ => b'0' + g.r.below(10) as u8,
            }
        };
    }
    if g.r.one_in(3) {
        for p in ds.iter().take(k) {
            b[*p] = b'9';
        }
    }
    (String::from_utf8(b).unwrap(), n)
}

fn g_round(g: &mut Gen) -> Case {
    if g.r.one_in(4) {
        let (v, n) = at_half(g);
        let dirty = if g.r.one_in(2) { g.operand(true) } else { "0".into() };
        return Case::strs(vec![v, n.to_string(), dirty]);
    }
    let v = match g.r.below(5) {
        0 => {
            // exactly at or next to a tie
            let (i, f) = g.layout(Shape::Doc);
            let t = g.num_at(i, f);
            let mut b = t.into_bytes();
            let ds: Vec<usize> = (0..b.len()).filter(|k| b[*k].is_ascii_digit()).collect();
            let k = g.r.below(ds.len());
            let style = g.r.below(3);
            for (n, p) in ds.iter().enumerate() {
                if n == k {
                    b[*p] = if style == 1 { b'4' } else { b'5' };
                } else if n > k {
                    b[*p] = if style == 1 { b'9' } else { b'0' };
                } else if g.r.one_in(3) || style == 2 {
                    b[*p] = b'9';
                }
            }
            String::from_utf8(b).unwrap()
        }
        _ => {
            let ext = g.r.one_in(4);
            g.operand(ext)
        }
    };
    let f = match g.r.below(8) {
        0 => 9 * g.r.range(-9, 4),
        1 => 9 * g.r.range(-8, 4) + g.r.range(-1, 1),
        2 => g.r.range(-90, 66),
        3 => *g.r.pick(&[-128, -127, -129, -256, -257, 127, 128, 129, 255, 256, 1000, -1000, isize::MAX, isize::MIN, isize::MIN + 1, wide(1 << 32), wide(-(1 << 32))]),
        _ => g.r.range(-30, 31),
    };
    let dirty = if g.r.one_in(2) { g.operand(true) } else { "0".into() };
    Case::strs(vec![v, f.to_string(), dirty])
}

fn c11(c: &Case) -> Out {
    let Some((v, d)) = operand(c.s(0)) else { return Skip };
    let Ok(f) = c.s(1).parse::<isize>() else { return Skip };
    let dirty = build(c.s(2)).unwrap_or_else(FD::zero);
    let mut a = v.clone();
    let r1 = call(|| x::round(&mut a, f));
    let mut b = dirty;
    let r2 = call(|| x::round_to(&v, &mut b, f));
    // how many fraction digits the result can have at all
    let want = if f >= d.scale as isize { d } else { d.round(f) };
    let Some(room) = CAP_UNITS.checked_sub(units(want.int_digits())).map(|u| u * 9) else {
        // rounded up beyond the largest integer part: reported as the operators report it
        for (r, v2, n) in [(r1, &a, "round"), (r2, &b, "round_to")] {
            match r {
                Err(Fail::Panic(m)) if m.to_lowercase().contains("overflow") => {}
                r => return Viol(format!("{}({}) of {}: does not fit, but {:?}", n, f, d.text(), r)),
            }
            if let Err(m) = observe(v2) {
                return Viol(format!("{}({}) of {} failed and left {}", n, f, d.text(), m));
            }
        }
        return Held(format!("over{}at{}", shape(&d), f.clamp(-100, 100)));
    };
    for (r, v2, n) in [(r1, &a, "round"), (r2, &b, "round_to")] {
        if let Err(e) = r {
            return Viol(format!("{}({}) of {}: {}", n, f, d.text(), e));
        }
        let o = match observe(v2) {
            Ok(o) => o,
            Err(m) => return Viol(format!("{}({}) of {}: {}", n, f, d.text(), m)),
        };
        if f >= d.scale as isize {
            // nothing to drop: the value stays; the scale becomes f when that is a legal scale
            let legal = f <= 30 && d.int_digits() as isize + f <= 65;
            if !o.same(&d) || (legal && o.scale != f as usize) || o.scale < d.scale || (o.scale as isize) > f {
                return Viol(format!("{}({}) of {} gave {}", n, f, d.text(), o.text()));
            }
        } else {
            // a carry into a new group can leave less room than the position asks for
            if !o.same(&want) || o.scale != want.scale.min(room) {
                return Viol(format!("{}({}) of {} gave {}, expected {}", n, f, d.text(), o.text(), want.text()));
            }
        }
    }
    let cls = if f >= d.scale as isize {
        "ext"
    } else if want.is_zero() {
        "zero"
    } else if want.same(&d) {
        "same"
    } else if want.cmp_abs(&d) == Ordering::Greater {
        "up"
    } else {
        "down"
    };
    Held(format!("{}{}at{}", cls, shape(&d), f.clamp(-100, 100)))
}

// ---- C12: destinations and call forms -----------------------------------------------------------

fn g_dest(g: &mut Gen) -> Case {
    let op = *g.r.pick(&["add", "sub", "mul", "div", "rem", "round", "parse", "consts"]);
    let (a, b) = if (op == "div" || op == "rem") && g.r.one_in(3) { g.div_pair() } else { g.pair(true) };
    let mut a = a;
    let p = match op {
        "round" if g.r.one_in(4) => {
            let (v, n) = at_half(g);
            a = v;
            n
        }
        "round" => g.r.range(-40, 31),
        "div" => *g.r.pick(&[0isize, 1, 4, 4, 4, 9, 18, 30]),
        _ => 0,
    };
    let d1 = if g.r.one_in(3) {
        // a destination with every unit occupied
        let i = 1 + g.r.below(35);
        format!("{}&{}", g.num_at(i, 0).trim_start_matches('-'), g.num_at(0, 36).trim_start_matches('-'))
    } else {
        g.operand(true)
    };
    let b = if op == "parse" { String::from_utf8_lossy(&g.numeral()).into_owned() } else { b };
    Case::strs(vec![op.to_string(), a, b, d1, p.to_string()])
}

fn same_outcome(a: &Result<(), Fail>, b: &Result<(), Fail>) -> bool {
    match (a, b) {
        (Err(Fail::Panic(_)), Err(Fail::Panic(_))) => true,
        _ => a == b,
    }
}

fn c12(c: &Case) -> Out {
    let op = c.s(0);
    let Some(a) = build(c.s(1)) else { return Skip };
    let Some(dirty) = build(c.s(3)) else { return Skip };
    let mut neg_dirty = dirty.clone();
    if !x::is_zero(&neg_dirty) {
        x::set_neg(&mut neg_dirty);
    }
    let p = c.int(4) as isize;
    let dests = |_: ()| -> Vec<FD> { vec![FD::zero(), dirty.clone(), neg_dirty.clone(), a.clone()] };
    let before = probe(&a);
    let mut kinds = String::new();
    if let Some(bop) = Bin::parse(op) {
        let Some(b) = build(c.s(2)) else { return Skip };
        let bb = probe(&b);
        let mut first: Option<(Result<(), Fail>, String)> = None;
        let mut ds = dests(());
        ds.push(b.clone());
        for mut r in ds {
            let o = bop.to(&a, &b, &mut r, p.max(0) as usize);
            let pr = if o.is_ok() { probe(&r) } else { String::new() };
            match &first {
                None => first = Some((o, pr)),
                Some((fo, fp)) => {
                    if !same_outcome(fo, &o) || *fp != pr {
                        return Viol(format!("{}_to: the destination's previous content shows through: {}", op, first_diff(fp, &pr)));
                    }
                }
            }
        }
        let (fo, fp) = first.unwrap();
        if bop != Bin::Div || p == 4 {
            match (bop.op(&a, &b), &fo) {
                (Ok(v), Ok(())) => {
                    let q = probe(&v);
                    if q != fp {
                        return Viol(format!("operator and {}_to disagree: {}", op, first_diff(&fp, &q)));
                    }
                }
                (Err(Fail::Panic(_)), Err(_)) => {}
                (o, f) => return Viol(format!("operator {:?} but {}_to {:?}", o.map(|_| ()), op, f)),
            }
        }
        if probe(&b) != bb {
            return Viol("the right operand changed".into());
        }
        // one object as both operands, or two that are alike
        if c.hash() % 4 == 0 {
            let (mut r, mut s) = (dirty.clone(), dirty.clone());
            let o1 = bop.to(&a, &a, &mut r, p.max(0) as usize);
            let o2 = bop.to(&a, &a.clone(), &mut s, p.max(0) as usize);
            if !same_outcome(&o1, &o2) || (o1.is_ok() && probe(&r) != probe(&s)) {
                return Viol(format!("{}_to of a value and itself differs from {}_to of a value and its clone", op, op));
            }
        }
        kinds.push_str(if fo.is_ok() { "ok" } else { "err" });
    } else if op == "round" {
        let mut w = a.clone();
        let r0 = call(|| x::round(&mut w, p));
        let pw = if r0.is_ok() { probe(&w) } else { String::new() };
        for mut r in dests(()) {
            let o = call(|| x::round_to(&a, &mut r, p));
            let pr = if o.is_ok() { probe(&r) } else { String::new() };
            if !same_outcome(&r0, &o) || pr != pw {
                return Viol(format!("round({}) and round_to({}) disagree: {}", p, p, first_diff(&pw, &pr)));
            }
        }
        kinds.push_str(&p.to_string());
    } else if op == "parse" {
        let t = c.s(2).to_string();
        let r0 = call_r(|| x::parse(&t));
        let p0 = r0.as_ref().map(probe).unwrap_or_default();
        for d in dests(()) {
            let (mut u, mut v) = (d.clone(), d);
            let o1 = call_r(|| x::parse_ascii(&mut u, &t, true));
            let o2 = call_r(|| x::parse_bytes(&mut v, t.as_bytes(), true));
            let want: Result<(), Fail> = r0.as_ref().map(|_| ()).map_err(|e| e.clone());
            if !same_outcome(&want, &o1) || !same_outcome(&want, &o2) {
                return Viol("parsing entry points disagree".into());
            }
            if o1.is_ok() && (probe(&u) != p0 || probe(&v) != p0) {
                return Viol(format!("parsing {:?} over an existing value differs from parsing it afresh: {}", t, first_diff(&p0, &probe(&u))));
            }
        }
        kinds.push_str(if r0.is_ok() { "ok" } else { "err" });
    } else {
        let (pz, po) = (probe(&FD::zero()), probe(&FD::one()));
        for d in dests(()) {
            let mut z = d.clone();
            x::set_zero(&mut z);
            let mut o = d.clone();
            x::set_one(&mut o);
            if probe(&z) != pz || probe(&z) != probe(&x::zero()) {
                return Viol(format!("set_zero leaves a trace: {}", first_diff(&pz, &probe(&z))));
            }
            if probe(&o) != po || probe(&o) != probe(&x::one()) {
                return Viol(format!("set_one leaves a trace: {}", first_diff(&po, &probe(&o))));
            }
            // sign setters change the sign and nothing else
            let Ok(dd) = observe(&d) else { return Skip };
            if !dd.is_zero() {
                let mut s = d.clone();
                x::set_neg(&mut s);
                let n = observe(&s).map(|v| v.same(&Dec::new(true, dd.mag, dd.scale)) && v.scale == dd.scale);
                x::set_pos(&mut s);
                let q = observe(&s).map(|v| v.same(&Dec::new(false, dd.mag, dd.scale)) && v.scale == dd.scale);
                if n != Ok(true) || q != Ok(true) {
                    return Viol(format!("setting the sign of {} changed its magnitude", dd.text()));
                }
            }
            if probe(&d.clone()) != probe(&d) {
                return Viol("a clone behaves differently".into());
            }
            for (u, v) in [(&d, &a), (&a, &d)] {
                let mut w = u.clone();
                x::clone_from(&mut w, v);
                if probe(&w) != probe(v) {
                    return Viol(format!("cloning over an existing value leaves a trace: {}", first_diff(&probe(v), &probe(&w))));
                }
            }
        }
        let (z, o) = (observe(&FD::zero()), observe(&FD::one()));
        if z.map(|d| d.text()) != Ok("0".into()) || o.map(|d| d.text()) != Ok("1".into()) {
            return Viol("zero() or one() is not 0 or 1".into());
        }
    }
    if probe(&a) != before {
        return Viol("the left operand changed".into());
    }
    let d = observe(&a).map(|d| shape(&d)).unwrap_or_default();
    let e = observe(&dirty).map(|d| shape(&d)).unwrap_or_default();
    Held(format!("{}{}{}{}", op, kinds, d, e))
}

// ---- C13 / C14: integers ------------------------------------------------------------------------

fn interesting_int(g: &mut Gen) -> i128 {
    let p = |k: usize| 10i128.pow(k as u32);
    match g.r.below(12) {
        0 => p(g.r.below(20)) + g.r.range(-2, 2) as i128,
        1 => i64::MAX as i128 + g.r.range(-3, 3) as i128,
        2 => i64::MIN as i128 + g.r.range(-3, 3) as i128,
        3 => u64::MAX as i128 + g.r.range(-3, 3) as i128,
        4 => (1i128 << g.r.below(65)) + g.r.range(-1, 1) as i128,
        5 => g.r.below(2000) as i128 - 1000,
        6 => {
            let a = g.unit(0) as i128;
            let b = g.unit(a as u32) as i128;
            let c = g.r.below(19) as i128;
            (c * p(9) + b) * p(9) + a
        }
        7 => {
            let a = g.unit(0) as i128;
            let b = g.unit(a as u32) as i128;
            b * p(9) + a
        }
        8 => g.r.below(1_000_000_000) as i128 * p(9),
        9 => -(g.r.next() as i128 >> g.r.below(64)),
        _ => g.r.next() as i128 >> g.r.below(64),
    }
}

fn g_int(g: &mut Gen) -> Case {
    let v = interesting_int(g);
    let v = if v > 0 && g.r.below(5) < 2 { -v } else { v };
    let v = if v < i64::MIN as i128 { v % (1i128 << 63) } else { v };
    let v = v.min(u64::MAX as i128);
    Case::strs(vec![v.to_string()])
}

fn c13(c: &Case) -> Out {
    let Ok(i) = c.s(0).parse::<i128>() else { return Skip };
    let mut seen = 0;
    let text = i.to_string();
    let mut check = |v: Result<FD, Fail>, kind: &str| -> Option<String> {
        seen += 1;
        let v = match v {
            Ok(v) => v,
            Err(f) => return Some(format!("from {} {}: {}", kind, text, f)),
        };
        let d = match observe(&v) {
            Ok(d) => d,
            Err(m) => return Some(format!("from {} {}: {}", kind, text, m)),
        };
        if d.text() != text || d.scale != 0 {
            return Some(format!("from {} {} gave {}", kind, text, d.text()));
        }
        let w = match call_r(|| x::parse(&text)) {
            Ok(w) => w,
            Err(f) => return Some(format!("parse {}: {}", text, f)),
        };
        let (a, b) = (probe(&v), probe(&w));
        if a != b {
            return Some(format!("from {} {} behaves differently from the parsed number: {}", kind, text, first_diff(&a, &b)));
        }
        // and back
        if let Ok(n) = i64::try_from(i) {
            if call_r(|| x::as_i64(&v)) != Ok(n) {
                return Some(format!("{} does not convert back to i64: {:?}", text, call_r(|| x::as_i64(&v))));
            }
        }
        if let Ok(n) = u64::try_from(i) {
            if call_r(|| x::as_u64(&v)) != Ok(n) {
                return Some(format!("{} does not convert back to u64: {:?}", text, call_r(|| x::as_u64(&v))));
            }
        }
        None
    };
    if let Ok(n) = i64::try_from(i) {
        if let Some(m) = check(call(|| x::from_i64(n)), "i64") {
            return Viol(m);
        }
    }
    if let Ok(n) = u64::try_from(i) {
        if let Some(m) = check(call(|| x::from_u64(n)), "u64") {
            return Viol(m);
        }
    }
    if seen == 0 {
        return Skip;
    }
    Held(format!("{}{}", if i < 0 { "-" } else { "" }, text.len()))
}

fn g_toint(g: &mut Gen) -> Case {
    if g.r.one_in(5) {
        return Case::strs(vec![g.operand(true)]);
    }
    let v = interesting_int(g);
    let f = match g.r.below(5) {
        0 => 0,
        1 => 1,
        2 => 9 * g.r.below(4),
        _ => g.r.below(31),
    };
    let mut s = v.to_string();
    if f > 0 {
        let fr = match g.r.below(6) {
            0 => format!("5{}", "0".repeat(f - 1)),
            1 => format!("4{}", "9".repeat(f - 1)),
            2 => format!("{}1", "0".repeat(f - 1)),
            3 => format!("5{}1", "0".repeat(f.max(2) - 2)),
            4 => "9".repeat(f),
            _ => g.digits(0, f).1,
        };
        s = format!("{}.{}", s, fr);
    }
    Case::strs(vec![g.dress(s, true)])
}

fn c14(c: &Case) -> Out {
    let Some((v, d)) = operand(c.s(0)) else { return Skip };
    let int = |n: i128| Dec::new(n < 0, Big::from_digits(n.unsigned_abs().to_string().as_bytes()), 0);
    let r = d.round(0);
    let rn = || r.text().parse::<i128>().ok();
    let inr = |lo: i128, hi: i128| d.cmp(&int(lo)) != Ordering::Less && d.cmp(&int(hi)) != Ordering::Greater;
    let wi: Result<i64, Fail> = if inr(i64::MIN as i128, i64::MAX as i128) { Ok(rn().unwrap() as i64) } else { Err(Fail::Range) };
    let wu: Result<u64, Fail> = if inr(0, u64::MAX as i128) { Ok(rn().unwrap() as u64) } else { Err(Fail::Range) };
    let before = d.text();
    let (gi, gu) = (call_r(|| x::as_i64(&v)), call_r(|| x::as_u64(&v)));
    if gi != wi {
        return Viol(format!("as_i64 of {} gave {:?}, expected {:?}", before, gi, wi));
    }
    if gu != wu {
        return Viol(format!("as_u64 of {} gave {:?}, expected {:?}", before, gu, wu));
    }
    Held(format!("{}{}{}{}", shape(&d), wi.is_ok(), wu.is_ok(), r.cmp_abs(&d) as i32))
}

// ---- C15 / C16: hostile calls -------------------------------------------------------------------

pub fn g_hostile(g: &mut Gen) -> Case {
    let op = *g.r.pick(&["add", "sub", "mul", "div", "rem", "round", "fmt", "cmp", "toint", "parse"]);
    let (a, b) = match op {
        "parse" => (String::new(), String::new()),
        "div" | "rem" if g.r.one_in(3) => g.div_pair(),
        "add" | "sub" if g.r.one_in(20) => g.brim(),
        _ => g.pair(true),
    };
    let p: String = match op {
        "div" => match g.r.below(3) {
            0 => g.r.below(300).to_string(),
            1 => (*g.r.pick(&[0u64, 4, 36, 37, 119, 120, 127, 128, 255, 256, 65535, 1 << 31, 1 << 32, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])).to_string(),
            _ => "4".into(),
        },
        "round" => match g.r.below(3) {
            0 => g.r.range(-300, 300).to_string(),
            1 => (*g.r.pick(&[isize::MAX, isize::MIN, wide(1 << 32), wide(-(1 << 32)), 127, 128, -128, -129, 255, 256, -256, 63, 64, 65, 66, 81, 82])).to_string(),
            _ => g.r.range(-81, 40).to_string(),
        },
        "fmt" if g.r.one_in(60) => (*g.r.pick(&[isize::MIN, isize::MIN + 1, wide(-(1 << 32)), -65536, 1000, 32767, 32768, 65536, 65545])).to_string(),
        "fmt" => g.r.range(-300, 600).to_string(),
        _ => "0".into(),
    };
    let (mut a, mut p) = (a, p);
    if op == "round" && g.r.one_in(5) {
        let (v, n) = at_half(g);
        (a, p) = (v, n.to_string());
    }
    let a = if op == "parse" { g.numeral() } else { a.into_bytes() };
    let mut args = vec![op.as_bytes().to_vec(), a, b.into_bytes(), p.into_bytes()];
    if g.r.one_in(3) {
        args.push(g.operand(true).into_bytes());
    }
    Case { args }
}

/// numbers of 64 bits, as far as the target has them
fn wide(v: i64) -> isize {
    v as isize
}

/// hostile calls, some with texts of hundreds of kilobytes
fn g_any(g: &mut Gen) -> Case {
    if g.r.one_in(4000) {
        return long_text(g, 400_000);
    }
    g_hostile(g)
}

fn long_text(g: &mut Gen, max: usize) -> Case {
    let n = if g.r.one_in(6) { max / 4 + g.r.below(max * 3 / 4) } else { 300 + g.r.below(4000) };
    let fill: &[u8] = *g.r.pick(&[&b"0"[..], b"9", b"0123456789", b"1", b" ", b".", b"-", b"e", b"0.", b"e9", b"\xff", b"+-"]);
    let mut t: Vec<u8> = (*g.r.pick(&[&b""[..], b"-", b"0.", b"1.", b"1e", b"1e-", b"1e+", b".", b"0e", b"1.5e", b"9"])).to_vec();
    t.extend((0..n).map(|i| fill[i % fill.len()]));
    t.extend_from_slice(*g.r.pick(&[&b""[..], b"1", b".", b".5", b"e5", b"x", b"e", b"1e-5"]));
    Case { args: vec![b"parse".to_vec(), t, vec![], b"0".to_vec()] }
}

/// what the destination of a hostile call held before
pub fn dirty_dest(c: &Case) -> FD {
    build(c.s(4)).unwrap_or_else(FD::zero)
}

/// After a failed operation the destination can be printed and reused: None, or what is wrong
fn unusable(r: &FD) -> Option<String> {
    if let Err(e) = call(|| x::to_string(r, -1)) {
        return Some(format!("printing the destination of a failed operation: {}", e));
    }
    // it holds some number, and behaves like that number
    let d = match observe(r) {
        Ok(d) => d,
        Err(m) => return Some(format!("the destination of a failed operation: {}", m)),
    };
    if d.int_digits().max(1) + d.scale <= 65 {
        match call_r(|| x::parse(&d.text())) {
            Ok(v) => {
                let (p, q) = (probe(&v), probe(r));
                if p != q {
                    return Some(format!("the destination of a failed operation prints as {} but behaves differently: {}", d.text(), first_diff(&p, &q)));
                }
            }
            Err(e) => return Some(format!("the destination of a failed operation prints as {}: {}", d.text(), e)),
        }
    }
    let mut w = r.clone();
    let (a, b): (FD, FD) = ("12.5".parse().ok()?, "-0.25".parse().ok()?);
    if let Err(e) = call_r(|| x::add_to(&a, &b, &mut w)) {
        return Some(format!("reusing the destination of a failed operation: {}", e));
    }
    if probe(&w) != probe(&"12.25".parse().ok()?) {
        return Some("the destination of a failed operation spoils the next result".into());
    }
    None
}

fn c15(c: &Case) -> Out {
    hostile(c, true)
}
/// C16 runs the same calls; the verdict there is the sanitizer's plus "text is valid UTF-8"
fn c16(c: &Case) -> Out {
    hostile(c, false)
}

/// C17: in one build there is nothing to compare; this only selects cases for the comparison
fn c17(c: &Case) -> Out {
    match crate::trans::transcript(c) {
        Some(t) => Held(t.chars().take(12).collect()),
        None => Skip,
    }
}

fn hostile(c: &Case, strict: bool) -> Out {
    let op = c.s(0);
    let bad = |m: String| if strict { Viol(m) } else { Held("failed".into()) };
    if op == "parse" {
        let b = &c.args[1];
        let mut v = dirty_dest(c);
        return match call_r(|| x::parse_bytes(&mut v, b, true)) {
            Ok(()) => Held(format!("parse{}", b.len() / 8)),
            Err(Fail::Syntax) => match if strict { unusable(&v) } else { None } {
                Some(m) => Viol(m),
                None => Held(format!("reject{}", b.len() / 8)),
            },
            Err(f) => bad(format!("parse: {}", f)),
        };
    }
    let Some(a) = build(c.s(1)) else { return Skip };
    let da = match observe(&a) {
        Ok(d) => d,
        Err(_) => return Skip,
    };
    let sa = shape(&da);
    if let Some(bop) = Bin::parse(op) {
        let Some((b, db)) = operand(c.s(2)) else { return Skip };
        let incr = c.s(3).parse::<u64>().unwrap_or(4) as usize;
        let mut r = dirty_dest(c);
        let o = bop.to(&a, &b, &mut r, incr);
        let zero_div = matches!(bop, Bin::Div | Bin::Rem) && db.is_zero();
        // is an Overflow report legitimate? only when the integer part needs more than 65 digits
        let big = match bop {
            Bin::Add => da.add(&db).int_digits() > 65,
            Bin::Sub => da.sub(&db).int_digits() > 65,
            Bin::Mul => da.mul(&db).int_digits() > 65,
            Bin::Div => !zero_div && da.div(&db, 0).int_digits() > 65,
            Bin::Rem => false,
        };
        let cls;
        match &o {
            Ok(()) => {
                if zero_div {
                    return bad(format!("{} by zero succeeded", op));
                }
                let t = call(|| x::to_string(&r, -1));
                match t {
                    Ok(t) if std::str::from_utf8(t.as_bytes()).is_err() => return Viol(format!("text is not UTF-8: {:?}", t.as_bytes())),
                    Ok(_) => {}
                    Err(f) => return bad(format!("printing the result of {} {} {}: {}", da.text(), op, db.text(), f)),
                }
                cls = "ok";
            }
            Err(Fail::DivZero) if zero_div => cls = "divzero",
            Err(Fail::Overflow) if big => cls = "overflow",
            Err(f) => return bad(format!("{} {} {} (incr {}): {}", da.text(), op, db.text(), incr, f)),
        }
        if o.is_err() && strict {
            if let Some(m) = unusable(&r) {
                return Viol(format!("{} {} {}: {}", da.text(), op, db.text(), m));
            }
        }
        // operators fail exactly when the reporting form fails, and say why
        if bop != Bin::Div || incr == 4 {
            match (bop.op(&a, &b), &o) {
                (Ok(_), Ok(())) => {}
                (Err(Fail::Panic(m)), Err(e)) => {
                    let why = match e {
                        Fail::DivZero => "division by zero",
                        _ => "overflow",
                    };
                    if !m.to_lowercase().contains(why) {
                        return bad(format!("operator {} failed for {} but panicked with {:?}", op, e, m));
                    }
                }
                (p, q) => return bad(format!("operator {} gave {:?}, {}_to gave {:?}", op, p.map(|_| ()), op, q)),
            }
        }
        return Held(format!("{}{}{}{}", op, cls, sa, shape(&db)));
    }
    match op {
        "round" => {
            let Ok(f) = c.s(3).parse::<isize>() else { return Skip };
            let mut r = dirty_dest(c);
            let mut v = a.clone();
            let over = f < 0 && da.round(f).int_digits() > 81;
            for (n, e) in [("round_to", call(|| x::round_to(&a, &mut r, f))), ("round", call(|| x::round(&mut v, f)))] {
                match e {
                    Ok(()) if !over => {}
                    Err(Fail::Panic(m)) if over && m.to_lowercase().contains("overflow") => {}
                    e => return bad(format!("{}({}) of {}: {:?}", n, f, da.text(), e)),
                }
            }
            for w in [&r, &v] {
                match call(|| x::to_string(w, -1)) {
                    Ok(t) if std::str::from_utf8(t.as_bytes()).is_err() => return Viol("text is not UTF-8".into()),
                    Err(e) => return bad(format!("printing round({}) of {}: {}", f, da.text(), e)),
                    _ => {}
                }
            }
        }
        "fmt" => {
            let f = (c.int(3) as isize).min(70_000);
            match call(|| x::to_string(&a, f)) {
                Ok(t) if std::str::from_utf8(t.as_bytes()).is_err() => return Viol("text is not UTF-8".into()),
                Ok(_) => {}
                Err(e) => return bad(format!("to_string({}) of {}: {}", f, da.text(), e)),
            }
        }
        "cmp" => {
            let Some((b, db)) = operand(c.s(2)) else { return Skip };
            if let Err(e) = call(|| (x::relations(&a, &b), x::max(a.clone(), b.clone()), x::min(a.clone(), b.clone()), x::hash_stream(&a))) {
                return bad(format!("comparing {} with {}: {}", da.text(), db.text(), e));
            }
        }
        "toint" => {
            for r in [call_r(|| x::as_i64(&a)).map(|_| ()), call_r(|| x::as_u64(&a)).map(|_| ())] {
                if let Err(f) = r {
                    if f != Fail::Range {
                        return bad(format!("integer conversion of {}: {}", da.text(), f));
                    }
                }
            }
        }
        _ => return Skip,
    }
    Held(format!("{}{}", op, sa))
}

// ---- C22: cost of a call -------------------------------------------------------------------------

/// comparisons, nanoseconds and bytes of heap that any call may cost, and per byte of text it reads
/// or writes; far above what the code needs, far below what a runaway loop or allocation takes
const COST_CMPS: (u64, u64) = (40_000, 64);
const COST_CPU: (u64, u64) = (5_000_000, 1_000);
const COST_HEAP: (usize, usize) = (32 << 10, 16);
const COST_KEPT: isize = 12 << 10;
const COST_STACK: (usize, usize) = (128 << 10, 64);

fn g_cost(g: &mut Gen) -> Case {
    if g.r.one_in(4000) {
        let n = 500 + g.r.below(1500);
        return Case::strs(vec!["soak".into(), g.r.below(1 << 30).to_string(), n.to_string()]);
    }
    if g.r.one_in(24) {
        // long texts: what is in them must not matter beyond their length
        return long_text(g, 70_000);
    }
    if g.r.one_in(100) {
        let ext = g.r.one_in(3);
        let v = g.operand(ext);
        let n = if g.r.one_in(2) { 600 + g.r.below(20_000) } else { 20_000 + g.r.below(300_000) };
        return Case::strs(vec!["fmt".into(), v, "0".into(), n.to_string(), String::new(), "1".into()]);
    }
    g_hostile(g)
}

fn c22(c: &Case) -> Out {
    use crate::cost::{measure, Cost};
    let op = c.s(0);
    if op == "soak" {
        return soak(c);
    }
    // worst cost seen so far, to describe what was observed
    let mut top = Cost::default();
    let mut judge = |what: &str, bytes: usize, f: &mut dyn FnMut() -> Result<usize, Fail>| -> Option<String> {
        let mut best: Option<Cost> = None;
        let mut n = 0;
        loop {
            let (r, k) = measure(|| (*f)().map_err(|e| matches!(e, Fail::Panic(_))));
            n += 1;
            let panicked = matches!(r, Err(true));
            let bytes = bytes + r.unwrap_or(0);
            let b = *best.get_or_insert(k);
            // the least of several attempts: other work on the machine does not count
            let m = Cost { cmps: k.cmps.min(b.cmps), cpu_ns: k.cpu_ns.min(b.cpu_ns), peak: k.peak.min(b.peak), kept: k.kept.min(b.kept), stack: 0 };
            best = Some(m);
            let over = if m.cmps > COST_CMPS.0 + COST_CMPS.1 * bytes as u64 {
                format!("{} comparisons", m.cmps)
            } else if m.cpu_ns > COST_CPU.0 + COST_CPU.1 * bytes as u64 {
                format!("{} us of CPU time", m.cpu_ns / 1000)
            } else if !panicked && m.peak > COST_HEAP.0 + COST_HEAP.1 * bytes {
                format!("{} bytes of heap", m.peak)
            } else {
                top = Cost { cmps: top.cmps.max(m.cmps), cpu_ns: top.cpu_ns.max(m.cpu_ns), peak: top.peak.max(m.peak), kept: 0, stack: top.stack };
                if c.hash() % 4 == 0 {
                    let (_, st) = crate::cost::stack_of(|| (*f)().is_ok());
                    top.stack = top.stack.max(st);
                    if st > COST_STACK.0 + COST_STACK.1 * bytes && bytes * COST_STACK.1 < crate::cost::STACK {
                        return Some(format!("{} uses {} bytes of stack or more (texts of {} bytes)", what, st, bytes));
                    }
                }
                if k.kept <= 0 {
                    return None;
                }
                // this call left memory behind: does it each time?
                let t0 = std::time::Instant::now();
                let mut grown = vec![];
                for _ in 0..6 {
                    let mut i = 0;
                    let (_, k) = measure(|| {
                        while i < 5000 && t0.elapsed().as_secs() < 5 {
                            let _ = f();
                            i += 1;
                        }
                    });
                    grown.push(k.kept);
                }
                if grown[3..].iter().sum::<isize>() > COST_KEPT {
                    return Some(format!("{}: each call leaves memory allocated: {:?} bytes in six rounds of 5000", what, grown));
                }
                return None;
            };
            if n >= 5 || m.cpu_ns > 1_000_000_000 {
                return Some(format!("{} costs at least {} (texts of {} bytes, {} attempts)", what, over, bytes, n));
            }
        }
    };
    if op == "parse" {
        let b = &c.args[1];
        let mut v = dirty_dest(c);
        if let Some(m) = judge("from_bytes_str", b.len(), &mut || call_r(|| x::parse_bytes(&mut v, b, true)).map(|_| 0)) {
            return Viol(m);
        }
        if let Ok(t) = std::str::from_utf8(b) {
            if let Some(m) = judge("parse", b.len(), &mut || call_r(|| x::parse(t)).map(|_| 0)) {
                return Viol(m);
            }
        }
        return Held(format!("parse{}c{}", b.len() / 64, 64 - top.cmps.leading_zeros()));
    }
    let (Some((a, da)), Some((b, db))) = (operand(c.s(1)), operand(c.s(2))) else { return Skip };
    let d = dirty_dest(c);
    let p = c.s(3).to_string();
    let m = if let Some(bop) = Bin::parse(op) {
        let incr = p.parse::<u64>().unwrap_or(4) as usize;
        judge(&format!("{} {} {} (incr {})", da.text(), op, db.text(), incr), 0, &mut || {
            let mut r = d.clone();
            bop.to(&a, &b, &mut r, incr).map(|_| 0)
        })
        .or_else(|| judge(&format!("{} {} {} (operator)", da.text(), op, db.text()), 0, &mut || bop.op(&a, &b).map(|_| 0)))
    } else {
        match op {
            "round" => {
                let Ok(f) = p.parse::<isize>() else { return Skip };
                judge(&format!("round({}) of {}", f, da.text()), 0, &mut || {
                    let (mut r, mut v) = (d.clone(), a.clone());
                    call(|| x::round_to(&a, &mut r, f))?;
                    call(|| x::round(&mut v, f)).map(|_| 0)
                })
            }
            "fmt" => {
                let f = (c.int(3) as isize).min(400_000);
                let mut old = vec![b'7'; if c.int(3) % 16 == 3 { 300_000 } else { 0 }];
                old.reserve(1000);
                let had = old.len();
                judge(&format!("printing {} with {} digits", da.text(), f), 0, &mut || {
                    let n = call(|| x::to_string(&a, f).len())?;
                    let mut buf = vec![];
                    call(|| x::append(&a, &mut buf, f))?;
                    Ok(n + buf.len())
                })
                .or_else(|| {
                    // what is in the buffer already is neither read nor written
                    if had == 0 || f > 600 {
                        return None;
                    }
                    judge(&format!("appending {} with {} digits to {} bytes", da.text(), f, had), 0, &mut || {
                        old.truncate(had);
                        call(|| x::append(&a, &mut old, f))?;
                        Ok(old.len() - had)
                    })
                })
            }
            "cmp" => judge(&format!("comparing {} with {}", da.text(), db.text()), 0, &mut || {
                call(|| {
                    x::relations(&a, &b);
                    x::max(a.clone(), b.clone());
                    x::hash64(&a);
                    0
                })
            }),
            "toint" => judge(&format!("integer conversion of {}", da.text()), 0, &mut || {
                let i = call_r(|| x::as_i64(&a));
                let u = call_r(|| x::as_u64(&a));
                call(|| x::from_i64(i.unwrap_or(-7)))?;
                call(|| x::from_u64(u.unwrap_or(u64::MAX)))?;
                Ok(0)
            }),
            _ => return Skip,
        }
    };
    match m {
        Some(m) => Viol(m),
        None => Held(format!("{}c{}h{}s{}", op, 64 - top.cmps.leading_zeros(), usize::BITS - top.peak.leading_zeros(), top.stack >> 14)),
    }
}

/// Many calls one after another: once their results are gone, so is their memory. A cache that is
/// bounded fills up in the first rounds; only growth in the later half counts (which holds at least
/// one doubling of anything that grows by doubling).
fn soak(c: &Case) -> Out {
    let (seed, n) = (c.int(1) as u64, (c.int(2).unsigned_abs() as usize).min(4_000));
    let mut grown = vec![];
    for round in 0..6u64 {
        let mut g = Gen { r: crate::rng::Rng::new(seed.wrapping_mul(6).wrapping_add(round)), dict: vec![] };
        let (_, k) = crate::cost::measure(|| {
            for _ in 0..n {
                let c = g_hostile(&mut g);
                let _ = c17(&c);
                let t = g.numeral();
                if let Ok(t) = std::str::from_utf8(&t) {
                    if let Ok(v) = call_r(|| x::parse(t)) {
                        let f = g.r.below(40) as isize - 2;
                        let _ = call(|| (x::to_string(&v, f), x::hash64(&v), x::cmp(&v, &v)));
                    }
                }
            }
        });
        grown.push(k.kept);
    }
    if grown[3..].iter().sum::<isize>() > COST_KEPT {
        return Viol(format!("{} calls after another leave more and more memory allocated: {:?} bytes in six rounds", n, grown));
    }
    Held("soak".into())
}

// ---- C18: histories -----------------------------------------------------------------------------

const REGS: usize = 4;

fn g_history(g: &mut Gen) -> Case {
    let mut a = vec![];
    let small = g.r.one_in(2);
    for _ in 0..REGS {
        a.push(if small { g.num(Shape::Small) } else { g.operand(false) });
    }
    let n = 3 + g.r.below(14);
    let repeat = g.r.one_in(5);
    let mut last = String::new();
    for _ in 0..n {
        if repeat && !last.is_empty() {
            a.push(last.clone());
            continue;
        }
        let op = *g.r.pick(&["add", "sub", "mul", "div", "rem", "add", "sub", "mul", "div", "round", "round", "iround", "iround", "neg", "copy", "int", "uint", "oper", "reparse", "sign"]);
        let p = match op {
            "round" | "iround" => if g.r.one_in(2) { g.r.range(-2, 4) * 9 } else { g.r.range(-12, 30) },
            "div" => *g.r.pick(&[0isize, 4, 4, 9]),
            "oper" => g.r.range(0, 4),
            "sign" => g.r.range(0, 3),
            _ => 0,
        };
        last = format!("{} {} {} {} {}", op, g.r.below(REGS), g.r.below(REGS), g.r.below(REGS), p);
        a.push(last.clone());
    }
    Case::strs(a)
}

fn c18(c: &Case) -> Out {
    if c.args.len() <= REGS {
        return Skip;
    }
    // real registers, and twins: the same decimals freshly read from their text before every step
    let mut regs: Vec<FD> = vec![];
    let mut vals: Vec<Dec> = vec![];
    for i in 0..REGS {
        let Some((v, d)) = operand(c.s(i)) else { return Skip };
        regs.push(v);
        vals.push(d);
    }
    let mut steps = 0;
    let mut sig = String::new();
    for i in REGS..c.args.len() {
        let f: Vec<&str> = c.s(i).split(' ').collect();
        if f.len() < 5 {
            continue;
        }
        let ix = |k: usize| f[k].parse::<usize>().unwrap_or(0) % REGS;
        let (s, t, o) = (ix(1), ix(2), ix(3));
        let p: isize = f[4].parse().unwrap_or(0);
        let twin = |d: &Dec, v: &FD| -> Result<FD, String> {
            if d.int_digits().max(1) + d.scale <= 65 {
                call_r(|| x::parse(&d.text())).map_err(|e| format!("reading back {}: {}", d.text(), e))
            } else {
                Ok(v.clone())
            }
        };
        let step = |a: &FD, b: &FD, r: &mut FD| -> Result<(), Fail> {
            match f[0] {
                "round" => call(|| x::round_to(a, r, p))?,
                "neg" => Bin::Sub.to(&FD::zero(), a, r, 0)?,
                "copy" => *r = a.clone(),
                "int" => *r = x::from_i64(call_r(|| x::as_i64(a))?),
                "uint" => *r = x::from_u64(call_r(|| x::as_u64(a))?),
                "iround" => {
                    *r = a.clone();
                    call(|| x::round(r, p))?
                }
                "oper" => *r = Bin::ALL[p.clamp(0, 4) as usize].op(a, b)?,
                // read over the value that is in the register
                "reparse" => {
                    let t = call(|| x::to_string(a, -1))?;
                    call_r(|| x::parse_bytes(r, t.as_bytes(), true))?
                }
                "sign" => match p {
                    0 => call(|| x::set_zero(r))?,
                    1 => call(|| x::set_one(r))?,
                    _ => {
                        *r = a.clone();
                        if p == 2 || x::is_zero(r) {
                            call(|| x::set_pos(r))?
                        } else {
                            call(|| x::set_neg(r))?
                        }
                    }
                },
                op => match Bin::parse(op) {
                    Some(bop) => bop.to(a, b, r, p.max(0) as usize)?,
                    None => return Err(Fail::Syntax),
                },
            }
            Ok(())
        };
        let (ta, tb) = match (twin(&vals[s], &regs[s]), twin(&vals[t], &regs[t])) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(m), _) | (_, Err(m)) => return Viol(format!("step {}: {}", i - REGS + 1, m)),
        };
        let (mut v, mut w) = (regs[o].clone(), FD::zero());
        let r1 = step(&regs[s], &regs[t], &mut v);
        let r2 = step(&ta, &tb, &mut w);
        let what = || format!("step {}: {} on {} and {}", i - REGS + 1, f[0], vals[s].text(), vals[t].text());
        match (r1, r2) {
            (Ok(()), Ok(())) => {
                let (dv, dw) = match (observe(&v), observe(&w)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(m), _) | (_, Err(m)) => return Viol(format!("{}: {}", what(), m)),
                };
                if dv.text() != dw.text() {
                    return Viol(format!("{}: gives {} but {} when the operands are read from text", what(), dv.text(), dw.text()));
                }
                // exact result, when it needs no rounding decision
                if let Some(bop) = Bin::parse(f[0]) {
                    let e = expect_bin(bop, &vals[s], &vals[t], p.max(0) as usize);
                    if let Err(m) = judge(&e, &Ok(dv)) {
                        return Viol(format!("{}: {}", what(), m));
                    }
                }
                regs[o] = v;
                vals[o] = dv;
                sig.push(f[0].as_bytes()[0] as char);
                steps += 1;
            }
            (Err(a), Err(b)) => {
                let pa = matches!(a, Fail::Panic(_));
                let over = matches!(f[0], "round" | "iround") && p < 0 && vals[s].round(p).int_digits() > 81;
                if (f[0] == "oper" || over) && pa && matches!(b, Fail::Panic(_)) {
                    // judged by C15
                } else if pa || a != b {
                    return Viol(format!("{}: {} / {} when read from text", what(), a, b));
                }
                if let Some(bop) = Bin::parse(f[0]) {
                    let e = expect_bin(bop, &vals[s], &vals[t], p.max(0) as usize);
                    if let Err(m) = judge(&e, &Err(a)) {
                        return Viol(format!("{}: {}", what(), m));
                    }
                }
                // the history goes on with whatever number the failed step left
                match observe(&v) {
                    Ok(d) => {
                        regs[o] = v;
                        vals[o] = d;
                    }
                    Err(m) => return Viol(format!("{} failed and left a destination that is no decimal: {}", what(), m)),
                }
                sig.push('!');
            }
            (a, b) => return Viol(format!("{}: {:?} but {:?} when the operands are read from text", what(), a.map(|_| v.to_string(-1)), b.map(|_| w.to_string(-1)))),
        }
    }
    if steps == 0 {
        return Skip;
    }
    // at the end every register is indistinguishable from the decimal it prints as
    for (v, d) in regs.iter().zip(vals.iter()) {
        if d.int_digits().max(1) + d.scale <= 65 {
            let Ok(w) = call_r(|| x::parse(&d.text())) else { return Viol(format!("{} is not read back", d.text())) };
            let (a, b) = (probe(v), probe(&w));
            if a != b {
                return Viol(format!("after the history {} behaves differently from the parsed number: {}", d.text(), first_diff(&a, &b)));
            }
        }
    }
    Held(sig)
}

// ---- C20: accessors, sign setters, constants ----------------------------------------------------

fn g_access(g: &mut Gen) -> Case {
    let op = *g.r.pick(&["add", "sub", "mul", "div", "rem", "round", "roundin", "int", "parse"]);
    let (a, b) = match op {
        "div" | "rem" if g.r.one_in(3) => g.div_pair(),
        "add" | "sub" if g.r.one_in(20) => g.brim(),
        _ => g.pair(true),
    };
    let p = match op {
        "round" | "roundin" => g.r.range(-70, 40),
        "div" => *g.r.pick(&[0isize, 4, 4, 9, 18, 30]),
        _ => 0,
    };
    let a = if op == "parse" { g.numeral() } else { a.into_bytes() };
    let b = if op == "int" { interesting_int(g).to_string() } else { b };
    let d = g.operand(true);
    Case { args: vec![op.as_bytes().to_vec(), a, b.into_bytes(), p.to_string().into_bytes(), d.into_bytes()] }
}

fn judge_access(w: &FD, deep: bool) -> Result<Dec, String> {
    let d = observe(w)?;
    let t = d.text();
    if d.is_zero() {
        let mut z = w.clone();
        x::set_pos(&mut z);
        if observe(&z)?.text() != t {
            return Err(format!("making {} positive changed it", t));
        }
        return Ok(d);
    }
    for neg in [true, false] {
        let want = Dec::new(neg, d.mag, d.scale).text();
        let mut s = w.clone();
        for k in 0..3 {
            // again, and after the opposite
            if k == 2 {
                if neg {
                    x::set_pos(&mut s)
                } else {
                    x::set_neg(&mut s)
                }
            }
            if neg {
                x::set_neg(&mut s)
            } else {
                x::set_pos(&mut s)
            }
            let o = observe(&s)?;
            if o.text() != want {
                return Err(format!("{} made {} is {}", t, if neg { "negative" } else { "positive" }, o.text()));
            }
        }
        let digits = want.bytes().filter(|c| c.is_ascii_digit()).count();
        if deep && digits <= 65 {
            if let Ok(v) = call_r(|| x::parse(&want)) {
                let (a, b) = (probe(&s), probe(&v));
                if a != b {
                    return Err(format!("{} made {} behaves differently from the parsed number: {}", t, if neg { "negative" } else { "positive" }, first_diff(&b, &a)));
                }
            }
        }
    }
    Ok(d)
}

fn c20(c: &Case) -> Out {
    let op = c.s(0).to_string();
    let p = c.int(3) as isize;
    let dest = || build(c.s(4)).unwrap_or_else(FD::zero);
    let mut vals: Vec<(FD, &str)> = vec![];
    if op == "parse" {
        let mut d = dest();
        if call_r(|| x::parse_bytes(&mut d, &c.args[1], true)).is_ok() {
            vals.push((d, "parsed over a used destination"));
        }
        if let Ok(t) = std::str::from_utf8(&c.args[1]) {
            if let Ok(v) = call_r(|| x::parse(t)) {
                vals.push((v, "parsed"));
            }
        }
    } else if op == "int" {
        let n: i128 = c.s(2).parse().unwrap_or(0);
        if let Ok(n) = i64::try_from(n) {
            if let Ok(v) = call(|| x::from_i64(n)) {
                vals.push((v, "from i64"));
            }
        }
        if let Ok(n) = u64::try_from(n) {
            if let Ok(v) = call(|| x::from_u64(n)) {
                vals.push((v, "from u64"));
            }
        }
    } else {
        let Some(a) = build(c.s(1)) else { return Skip };
        let mut r = dest();
        if let Some(bop) = Bin::parse(&op) {
            let Some(b) = build(c.s(2)) else { return Skip };
            if bop.to(&a, &b, &mut r, p.max(0) as usize).is_ok() {
                vals.push((r, "result over a used destination"));
            }
            if let Ok(v) = bop.op(&a, &b) {
                vals.push((v, "result"));
            }
            vals.push((b, "operand"));
        } else {
            if op == "round" {
                if call(|| x::round_to(&a, &mut r, p)).is_ok() {
                    vals.push((r, "rounded"));
                }
            } else {
                let mut w = a.clone();
                if call(|| x::round(&mut w, p)).is_ok() {
                    vals.push((w, "rounded in place"));
                }
            }
        }
        vals.push((a, "operand"));
    }
    if vals.is_empty() {
        return Skip;
    }
    let mut sig = op.clone();
    let deep = c.hash() % 8 == 0;
    for (w, what) in &vals {
        match call(|| judge_access(w, deep)) {
            Ok(Ok(d)) => sig.push_str(&shape(&d)),
            Ok(Err(m)) => return Viol(format!("{}: {}", what, m)),
            Err(f) => return Viol(format!("{}: {}", what, f)),
        }
    }
    let (mut z, mut o) = (dest(), dest());
    x::set_zero(&mut z);
    x::set_one(&mut o);
    for (v, t, what) in [(&z, "0", "set_zero"), (&o, "1", "set_one"), (&x::zero(), "0", "zero"), (&x::one(), "1", "one")] {
        match judge_access(v, false) {
            Ok(d) if d.text() == t => {}
            Ok(d) => return Viol(format!("{}() is {}", what, d.text())),
            Err(m) => return Viol(format!("{}(): {}", what, m)),
        }
    }
    Held(sig)
}

// ---- C24: what a value occupies ------------------------------------------------------------------

/// documented: 9 units of 4 bytes and two lengths of a byte, 38 bytes; in memory a multiple of 4
const SIZE: usize = 40;

/// what a call left in its destination, also when it failed
fn left<T>(r: Result<T, Fail>, d: FD) -> Option<FD> {
    if matches!(r, Err(Fail::Panic(_))) {
        return None;
    }
    Some(d)
}

/// the values an access case produces; everything else it needed is dropped again
fn produced(c: &Case, k: usize) -> Option<FD> {
    let p = c.int(3) as isize;
    let op = c.s(0);
    let dest = || build(c.s(4)).unwrap_or_else(FD::zero);
    if op == "parse" {
        return if k == 0 {
            let mut d = dest();
            left(call_r(|| x::parse_bytes(&mut d, &c.args[1], true)), d)
        } else {
            call_r(|| x::parse(std::str::from_utf8(&c.args[1]).unwrap_or(""))).ok()
        };
    }
    if op == "int" {
        let n: i128 = c.s(2).parse().unwrap_or(0);
        return if k == 0 { call(|| x::from_i64(n as i64)).ok() } else { call(|| x::from_u64(n as u64)).ok() };
    }
    let mut a = build(c.s(1))?;
    let mut r = dest();
    match Bin::parse(op) {
        Some(bop) => {
            let b = build(c.s(2))?;
            if k == 0 {
                left(bop.to(&a, &b, &mut r, p.max(0) as usize), r)
            } else {
                bop.op(&a, &b).ok()
            }
        }
        None if k == 0 => call(|| x::round_to(&a, &mut r, p)).ok().map(|_| r),
        None => call(|| x::round(&mut a, p)).ok().map(|_| a),
    }
}

fn c24(c: &Case) -> Out {
    use crate::cost::measure;
    if std::mem::size_of::<FD>() > SIZE {
        return Viol(format!("a value occupies {} bytes", std::mem::size_of::<FD>()));
    }
    // bytes that stay allocated while the values f makes are alive, per call, when it is made again and again
    let holds = |f: &dyn Fn() -> Option<FD>| -> Option<isize> {
        let (v, k) = measure(f);
        v?;
        if k.kept <= 0 {
            return None;
        }
        const N: usize = 100;
        let mut grown = vec![];
        for _ in 0..6 {
            let mut vals: Vec<Option<FD>> = Vec::with_capacity(N);
            let (_, k) = measure(|| {
                for _ in 0..N {
                    vals.push(f());
                }
            });
            grown.push(k.kept);
            // the values are gone before the next round; what held them in other places need not be
            drop(vals);
        }
        let per = grown[3..].iter().sum::<isize>() / (3 * N as isize);
        (per > 0).then_some(per)
    };
    let mut sig = c.s(0).to_string();
    let mut any = false;
    for k in 0..2 {
        let Some(v) = produced(c, k) else { continue };
        any = true;
        let t = || call(|| x::to_string(&v, -1)).unwrap_or_default();
        if let Some(n) = holds(&|| produced(c, k)) {
            return Viol(format!("{} made by {} holds {} bytes outside itself", t(), c.s(0), n));
        }
        if let Some(n) = holds(&|| Some(v.clone())) {
            return Viol(format!("a copy of {} holds {} bytes outside itself", t(), n));
        }
        // what is done with a copy leaves it as it was: printed, compared, hashed, converted, negated
        let used = || -> Option<FD> {
            let mut w = v.clone();
            call(|| {
                let _ = (x::to_string(&w, -1), x::to_string(&w, 4), x::hash64(&w), x::relations(&w, &v));
                let _ = (x::as_i64(&w), x::as_u64(&w));
                x::set_neg(&mut w);
                x::set_pos(&mut w);
            })
            .ok()?;
            Some(w)
        };
        if let Some(n) = holds(&used) {
            return Viol(format!("after printing, comparing, hashing, converting and negating it, {} holds {} bytes outside itself", t(), n));
        }
        for one in [false, true] {
            let set = || -> Option<FD> {
                let mut w = v.clone();
                call(|| if one { x::set_one(&mut w) } else { x::set_zero(&mut w) }).ok()?;
                Some(w)
            };
            if let Some(n) = holds(&set) {
                return Viol(format!("set to {}, {} holds {} bytes outside itself", one as u8, t(), n));
            }
        }
        // overwriting one value with another
        let over = || -> Option<FD> {
            let mut w = build(c.s(4)).unwrap_or_else(FD::zero);
            call(|| x::clone_from(&mut w, &v)).ok()?;
            Some(w)
        };
        if let Some(n) = holds(&over) {
            return Viol(format!("overwritten with {}, a value holds {} bytes outside itself", t(), n));
        }
        sig.push_str(&format!("{}.{}", x::intg_units(&v), x::frac_units(&v)));
    }
    if any {
        Held(sig)
    } else {
        Skip
    }
}

// ---- C21: laws across operations ----------------------------------------------------------------

fn g_laws(g: &mut Gen) -> Case {
    let (a, b) = match g.r.below(5) {
        0 => g.div_pair(),
        1 => (g.num(Shape::Small), g.num(Shape::Small)),
        _ => g.pair(true),
    };
    let sh = if g.r.one_in(2) { Shape::Small } else { Shape::Doc };
    let t = if g.r.one_in(2) { g.related(&a, false) } else { g.num(sh) };
    let (mut a, mut n) = (a, g.r.range(-40, 31));
    if g.r.one_in(5) {
        (a, n) = at_half(g);
    }
    let z = 1 + g.r.below(30);
    Case::strs(vec![a, b, t, n.to_string(), z.to_string()])
}

/// the exact result if the operation promises it in full
fn exact(op: Bin, a: &Dec, b: &Dec) -> Option<Dec> {
    let e = match op {
        Bin::Add => a.add(b),
        Bin::Sub => a.sub(b),
        Bin::Mul => a.mul(b),
        _ => return None,
    };
    match expect_bin(op, a, b, 0) {
        Expect::Exact(x) if x.scale == e.scale || x.same(&e) => Some(e),
        Expect::Value(_) => Some(e),
        _ => None,
    }
}

fn c21(c: &Case) -> Out {
    let (Some((a, da)), Some((b, db)), Some((t, dt))) = (operand(c.s(0)), operand(c.s(1)), operand(c.s(2))) else { return Skip };
    let n = c.int(3).clamp(-100, 100) as isize;
    let z = c.int(4).clamp(0, 65) as usize;
    match call(|| laws(&a, &da, &b, &db, &t, &dt, n, z)) {
        Ok(Ok(k)) => Held(format!("laws {:o} {}{}", k, shape(&da), shape(&db))),
        Ok(Err(m)) => Viol(m),
        Err(f) => Viol(format!("{} and {} and {}: {}", da.text(), db.text(), dt.text(), f)),
    }
}

#[allow(clippy::too_many_arguments)]
fn laws(a: &FD, da: &Dec, b: &FD, db: &Dec, t: &FD, dt: &Dec, n: isize, z: usize) -> Result<u32, String> {
    use Bin::*;
    let (at, bt, tt) = (da.text(), db.text(), dt.text());
    let ap = |op: Bin, l: &FD, r: &FD| -> Result<FD, String> {
        let mut o = FD::zero();
        let done = if z % 3 == 0 { op.op(l, r).map(|v| o = v) } else { op.to(l, r, &mut o, 4) };
        done.map_err(|f| format!("{} of two operands of the law on {}, {}, {}: {}", op.name(), at, bt, tt, f))?;
        Ok(o)
    };
    let s = |v: &FD| call(|| x::to_string(v, -1)).unwrap_or_else(|f| format!("<{}>", f));
    let eq = |law: &str, l: &FD, r: &FD| -> Result<(), String> {
        if x::cmp(l, r) == Ordering::Equal && x::eq(l, r) {
            return Ok(());
        }
        Err(format!("{} with a = {}, b = {}, c = {}: {} versus {}", law, at, bt, tt, s(l), s(r)))
    };
    let neg = |v: &FD| -> FD {
        let mut w = v.clone();
        if !x::is_zero(&w) {
            if x::is_neg(&w) {
                x::set_pos(&mut w)
            } else {
                x::set_neg(&mut w)
            }
        }
        w
    };
    let fails = |l: &str| Err(format!("{} with a = {}, b = {}, c = {}", l, at, bt, tt));
    let mut k = 0u32;
    let (ea, es, em) = (exact(Add, da, db), exact(Sub, da, db), exact(Mul, da, db));
    let (na, nb) = (neg(a), neg(b));
    if let Some(e) = &ea {
        k |= 1;
        let ab = ap(Add, a, b)?;
        eq("a + b = b + a", &ab, &ap(Add, b, a)?)?;
        eq("(-a) + (-b) = -(a + b)", &ap(Add, &na, &nb)?, &neg(&ab))?;
        eq("a - (-b) = a + b", &ap(Sub, a, &nb)?, &ab)?;
        if exact(Sub, e, db).is_some() {
            k |= 2;
            eq("(a + b) - b = a", &ap(Sub, &ab, b)?, a)?;
        }
        if let (Some(et), Some(bc)) = (exact(Add, e, dt), exact(Add, db, dt)) {
            if exact(Add, da, &bc).is_some() {
                k |= 4;
                let _ = et;
                eq("(a + b) + c = a + (b + c)", &ap(Add, &ab, t)?, &ap(Add, a, &ap(Add, b, t)?)?)?;
            }
        }
    }
    if let Some(e) = &es {
        k |= 8;
        let d = ap(Sub, a, b)?;
        eq("a - b = -(b - a)", &d, &neg(&ap(Sub, b, a)?))?;
        eq("a + (-b) = a - b", &ap(Add, a, &nb)?, &d)?;
        let want = x::cmp(a, b);
        let got = if x::is_zero(&d) { Ordering::Equal } else if x::is_neg(&d) { Ordering::Less } else { Ordering::Greater };
        if want != got {
            return fails(&format!("a compares {:?} to b, but a - b = {}", want, s(&d)));
        }
        if exact(Add, e, db).is_some() {
            k |= 16;
            eq("(a - b) + b = a", &ap(Add, &d, b)?, a)?;
        }
    }
    if let Some(e) = &em {
        k |= 32;
        let m = ap(Mul, a, b)?;
        eq("a * b = b * a", &m, &ap(Mul, b, a)?)?;
        eq("(-a) * b = -(a * b)", &ap(Mul, &na, b)?, &neg(&m))?;
        eq("(-a) * (-b) = a * b", &ap(Mul, &na, &nb)?, &m)?;
        if let (Some(ac), Some(bc)) = (exact(Mul, da, dt), exact(Add, db, dt)) {
            if exact(Mul, da, &bc).is_some() && exact(Add, e, &ac).is_some() {
                k |= 64;
                eq("a * (b + c) = a * b + a * c", &ap(Mul, a, &ap(Add, b, t)?)?, &ap(Add, &m, &ap(Mul, a, t)?)?)?;
            }
        }
        if let (Expect::Exact(q), false) = (expect_bin(Div, e, db, 4), db.is_zero()) {
            if q.same(da) {
                k |= 128;
                eq("(a * b) / b = a", &ap(Div, &m, b)?, a)?;
            }
        }
    }
    if let (Some(ac), Some(bc)) = (exact(Add, da, dt), exact(Add, db, dt)) {
        // order is kept by addition and by multiplication with a positive value
        k |= 256;
        let _ = (ac, bc);
        let want = x::cmp(a, b);
        if x::cmp(&ap(Add, a, t)?, &ap(Add, b, t)?) != want {
            return fails(&format!("a compares {:?} to b, but a + c and b + c do not", want));
        }
    }
    if exact(Mul, da, dt).is_some() && exact(Mul, db, dt).is_some() && !dt.is_zero() {
        let want = if dt.neg { x::cmp(b, a) } else { x::cmp(a, b) };
        if x::cmp(&ap(Mul, a, t)?, &ap(Mul, b, t)?) != want {
            return fails(&format!("the order of a * c and b * c is not {:?}", want));
        }
    }
    if !db.is_zero() {
        // division and remainder
        let r = ap(Rem, a, b)?;
        let qe = da.div(db, 0);
        if units(qe.int_digits()) < 9 {
            k |= 512;
            let q = ap(Div, a, b)?;
            eq("(-a) / b = -(a / b)", &ap(Div, &na, b)?, &neg(&q))?;
            eq("a / (-b) = -(a / b)", &ap(Div, a, &nb)?, &neg(&q))?;
            eq("(-a) / (-b) = a / b", &ap(Div, &na, &nb)?, &q)?;
            if let Ok(qi) = call_r(|| x::parse(&x::to_string(&q, 0))) {
                if exact(Mul, &qe, db).map_or(false, |m| exact(Add, &m, &da.rem(db)).is_some()) {
                    k |= 1024;
                    eq("(a / b cut to an integer) * b + a % b = a", &ap(Add, &ap(Mul, &qi, b)?, &r)?, a)?;
                }
            }
        }
        eq("(-a) % b = -(a % b)", &ap(Rem, &na, b)?, &neg(&r))?;
        eq("a % (-b) = a % b", &ap(Rem, a, &nb)?, &r)?;
        eq("(a % b) % b = a % b", &ap(Rem, &r, b)?, &r)?;
        let mut pb = b.clone();
        x::set_pos(&mut pb);
        let mut pr = r.clone();
        x::set_pos(&mut pr);
        if x::cmp(&pr, &pb) != Ordering::Less {
            return fails(&format!("|a % b| = {} is not below |b|", s(&pr)));
        }
    }
    if da.int_digits() <= 60 && db.int_digits() <= 60 && n <= 30 {
        // rounding
        k |= 2048;
        let rd = |v: &FD| -> FD {
            if z % 2 == 0 {
                let mut o = v.clone();
                x::round(&mut o, n);
                return o;
            }
            let mut o = FD::zero();
            x::round_to(v, &mut o, n);
            o
        };
        let (ra, rb) = (rd(a), rd(b));
        eq("rounding twice = rounding once", &rd(&ra), &ra)?;
        eq("round(-a) = -round(a)", &rd(&na), &neg(&ra))?;
        let (want, got) = (x::cmp(a, b), x::cmp(&ra, &rb));
        if want != got && got != Ordering::Equal {
            return fails(&format!("a compares {:?} to b, but rounded to {} digits {} compares {:?} to {}", want, n, s(&ra), got, s(&rb)));
        }
        let mut e = ap(Sub, &ra, a)?;
        x::set_pos(&mut e);
        let half = if n >= 0 { format!("0.{}5", "0".repeat(n as usize)) } else { format!("5{}", "0".repeat((-n) as usize - 1)) };
        if let Ok(h) = call_r(|| x::parse(&half)) {
            if x::cmp(&e, &h) == Ordering::Greater {
                return fails(&format!("rounding a to {} digits moved it by {}", n, s(&e)));
            }
        }
    }
    // the same number written differently
    let mut w = at.clone();
    if !w.contains('.') {
        w.push('.');
    }
    let digits = w.bytes().filter(|c| c.is_ascii_digit()).count();
    if digits < 65 && da.scale < 30 {
        let w = format!("{}{}", w, "0".repeat(z.min(65 - digits).min(30 - da.scale)));
        if let Ok(a2) = call_r(|| x::parse(&w)) {
            k |= 4096;
            let d2 = observe(&a2)?;
            eq("a = a with zeros appended", &a2, a)?;
            if x::cmp(a, b) != x::cmp(&a2, b) || x::cmp(b, a) != x::cmp(b, &a2) {
                return fails(&format!("b compares differently to {} and to a", w));
            }
            if x::hash_stream(a) != x::hash_stream(&a2) {
                return fails(&format!("a and {} hash differently", w));
            }
            for op in [Add, Sub, Mul] {
                if exact(op, &d2, db).is_some() && exact(op, da, db).is_some() {
                    eq(&format!("a' {} b = a {} b for a' = {}", op.name(), op.name(), w), &ap(op, &a2, b)?, &ap(op, a, b)?)?;
                    if exact(op, db, &d2).is_some() && exact(op, db, da).is_some() {
                        eq(&format!("b {} a' = b {} a for a' = {}", op.name(), op.name(), w), &ap(op, b, &a2)?, &ap(op, b, a)?)?;
                    }
                }
            }
            if !db.is_zero() {
                eq(&format!("a' % b = a % b for a' = {}", w), &ap(Rem, &a2, b)?, &ap(Rem, a, b)?)?;
            }
            if !da.is_zero() {
                eq(&format!("b % a' = b % a for a' = {}", w), &ap(Rem, b, &a2)?, &ap(Rem, b, a)?)?;
            }
            let i = |v: &FD| call_r(|| x::as_i64(v)).map_err(|f| f.to_string());
            let u = |v: &FD| call_r(|| x::as_u64(v)).map_err(|f| f.to_string());
            if i(a) != i(&a2) || u(a) != u(&a2) {
                return fails(&format!("a and {} convert to different integers", w));
            }
            if n <= 30 {
                let (mut o, mut o2) = (FD::zero(), FD::zero());
                x::round_to(a, &mut o, n);
                x::round_to(&a2, &mut o2, n);
                eq(&format!("a and {} rounded to {} digits", w, n), &o, &o2)?;
            }
        }
    }
    // a shift of the point: exponent, multiplication and division agree
    if z <= 30 && da.scale == 0 && digits + z <= 66 {
        let (up, p) = (call_r(|| x::parse(&format!("{}e{}", at, z))), call_r(|| x::parse(&format!("1e{}", z))));
        if let (Ok(up), Ok(p)) = (up, p) {
            k |= 8192;
            let (pd, ud) = (observe(&p)?, observe(&up)?);
            if exact(Mul, da, &pd).is_some() {
                eq(&format!("a e{} = a * 1e{}", z, z), &ap(Mul, a, &p)?, &up)?;
            }
            if matches!(expect_bin(Div, &ud, &pd, 4), Expect::Exact(q) if q.same(da)) {
                eq(&format!("a e{} / 1e{} = a", z, z), &ap(Div, &up, &p)?, a)?;
            }
        }
    }
    Ok(k)
}
