//! Observation of values and of calls, and the operand expressions workloads use.
use crate::model::{units, Dec};
use fxdshim as x;
use fxdshim::{Error, FD};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Overflow,
    DivZero,
    Syntax,
    Range,
    Panic(String),
}

impl From<Error> for Fail {
    fn from(e: Error) -> Fail {
        match e {
            Error::Overflow => Fail::Overflow,
            Error::DivisionByZero => Fail::DivZero,
            Error::ConversionSyntax => Fail::Syntax,
            Error::ExceedsConversionTargetRange => Fail::Range,
        }
    }
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Panic(m) => write!(f, "panic [{}]", m),
            o => write!(f, "{:?}", o),
        }
    }
}

thread_local! {
    static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .map(|s| s.as_str())
            .or_else(|| i.payload().downcast_ref::<&str>().copied())
            .unwrap_or("?");
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        MSG.with(|s| {
            // its memory is kept for the next one, so that a panic costs none that stays (C22)
            let mut s = s.borrow_mut();
            s.clear();
            s.push_str(m);
            s.push_str(" at ");
            s.push_str(&l);
        });
    }));
}

/// run one call into the code under test; a panic becomes data
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| Fail::Panic(MSG.with(|s| s.borrow().clone())))
}
pub fn call_r<T>(f: impl FnOnce() -> x::Result<T>) -> Result<T, Fail> {
    match call(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.into()),
        Err(p) => Err(p),
    }
}

/// Everything a user can see of a value, cross-checked for self-consistency.
/// Err describes why what was seen is not a well-formed decimal.
pub fn observe(v: &FD) -> Result<Dec, String> {
    let t = call(|| x::to_string(v, -1)).map_err(|e| format!("to_string(-1): {}", e))?;
    if !t.is_ascii() {
        return Err(format!("text is not ASCII: {:?}", t.as_bytes()));
    }
    let d = Dec::read(t.as_bytes()).ok_or_else(|| format!("text {:?} is not a canonical decimal", t))?;
    let (i, f) = (x::intg(v), x::frac(v));
    if f < 0 || i < 0 || d.scale != f as usize {
        return Err(format!("frac()={} intg()={} but the text is {}", f, i, t));
    }
    let (iu, fu) = (x::intg_units(v), x::frac_units(v));
    if iu != units(i as usize) || fu != units(f as usize) {
        return Err(format!("intg_units()={} frac_units()={} with intg()={} frac()={}", iu, fu, i, f));
    }
    if iu + fu > 9 {
        return Err(format!("{} integer and {} fraction units do not fit 9 units ({})", iu, fu, t));
    }
    if d.int_digits() > i as usize {
        return Err(format!("intg()={} but the value {} has {} integer digits", i, t, d.int_digits()));
    }
    let z = x::is_zero(v);
    if z != d.is_zero() {
        return Err(format!("is_zero()={} but the text is {}", z, t));
    }
    if x::is_neg(v) != d.neg {
        return Err(format!("is_neg()={} but the text is {}", x::is_neg(v), t));
    }
    if d.neg && z {
        return Err(format!("negative zero ({})", t));
    }
    // digits below the declared scale must not exist: they would leak into later results
    let full = fu * 9;
    if full > d.scale {
        let w = call(|| x::to_string(v, full as isize)).map_err(|e| format!("to_string({}): {}", full, e))?;
        let e = d.text_at(full);
        if w != e {
            return Err(format!("value {} carries hidden digits: to_string({}) = {}", t, full, w));
        }
    }
    Ok(d)
}

/// Builds an operand from its expression `flags|text`, with sums of products `text*text&text&..` to
/// get past the 65 digits the parser accepts. Flags are operations that leave the
/// value (or at least its well-formedness) alone but change how it is held:
///   a: +1 -1   m: *1   n: 0-(0-v)   d: /1   r: round to a larger scale   i: through an integer
///   s: -v +2v (as (v+v)-v)   q: round_to own scale
///   x/y: a small fraction added and rounded away again, by copy / in place
///   w/W: rounded to the largest scale that 65 digits allow   R: in-place rounding to a larger scale   u: through an unsigned integer   o: modulo a larger number
///   p: read back from its text over a used value
pub fn build(e: &str) -> Option<FD> {
    let (flags, t) = match e.find('|') {
        Some(p) => (&e[..p], &e[p + 1..]),
        None => ("", e),
    };
    let one = |t: &str| call_r(|| x::parse(t)).ok();
    let term = |t: &str| match t.find('*') {
        Some(p) => {
            let (a, b) = (one(&t[..p])?, one(&t[p + 1..])?);
            let mut r = FD::zero();
            call_r(|| x::mul_to(&a, &b, &mut r)).ok()?;
            Some(r)
        }
        None => one(t),
    };
    let mut terms = t.split('&');
    let mut v = term(terms.next()?)?;
    for t in terms {
        let w = term(t)?;
        let mut r = FD::zero();
        call_r(|| x::add_to(&v, &w, &mut r)).ok()?;
        v = r;
    }
    for f in flags.bytes() {
        let mut r = FD::zero();
        let o = FD::one();
        let ok = match f {
            b'a' => {
                let mut t = FD::zero();
                call_r(|| x::add_to(&v, &o, &mut t)).and_then(|_| call_r(|| x::sub_to(&t, &o, &mut r)))
            }
            b'm' => call_r(|| x::mul_to(&v, &o, &mut r)),
            b'n' => {
                let z = FD::zero();
                let mut t = FD::zero();
                call_r(|| x::sub_to(&z, &v, &mut t)).and_then(|_| call_r(|| x::sub_to(&z, &t, &mut r)))
            }
            b'd' => call_r(|| x::div_to(&v, &o, &mut r, 4)),
            b'r' => {
                let f = (x::frac(&v) as isize + 5).min(30);
                if f >= x::frac(&v) as isize {
                    call(|| x::round_to(&v, &mut r, f))
                } else {
                    Err(Fail::Overflow)
                }
            }
            b'q' => call(|| x::round_to(&v, &mut r, x::frac(&v) as isize)),
            b's' => {
                let mut t = FD::zero();
                call_r(|| x::add_to(&v, &v, &mut t)).and_then(|_| call_r(|| x::sub_to(&t, &v, &mut r)))
            }
            b'i' => match call_r(|| x::as_i64(&v)) {
                Ok(i) => call(|| r = x::from_i64(i)),
                Err(e) => Err(e),
            },
            b'x' | b'y' => {
                let sc = x::frac(&v) as usize;
                let tiny = one(&format!("{}0.{}{}", if x::is_neg(&v) { "-" } else { "" }, "0".repeat((sc + 3).min(40)), "4"))?;
                let mut t = FD::zero();
                call_r(|| x::add_to(&v, &tiny, &mut t)).and_then(|_| {
                    if f == b'x' {
                        call(|| x::round_to(&t, &mut r, sc as isize))
                    } else {
                        call(|| x::round(&mut t, sc as isize)).map(|_| r = t.clone())
                    }
                })
            }
            b'R' => {
                r = v.clone();
                let n = (x::frac(&v) as isize + 7).min(30).max(x::frac(&v) as isize);
                call(|| x::round(&mut r, n))
            }
            b'w' | b'W' => {
                // as many fraction digits as 65 digits leave, or nearly
                let t = call(|| x::to_string(&v, 0)).ok()?;
                let n = 65 - t.trim_start_matches('-').len() as isize;
                let n = if f == b'w' { n } else { n - n % 9 }.max(x::frac(&v) as isize);
                r = v.clone();
                if f == b'w' {
                    call(|| x::round_to(&v, &mut r, n))
                } else {
                    call(|| x::round(&mut r, n))
                }
            }
            b'u' => match call_r(|| x::as_u64(&v)) {
                Ok(i) => call(|| r = x::from_u64(i)),
                Err(e) => Err(e),
            },
            b'o' => call_r(|| x::rem_to(&v, &one(&"9".repeat(60)).unwrap_or_else(FD::one), &mut r)),
            b'p' => {
                let t = call(|| x::to_string(&v, -1)).ok()?;
                r = one("-98765432109876543210987654321098765432.109876543210987654321098765")?;
                call_r(|| x::parse_bytes(&mut r, t.as_bytes(), true))
            }
            _ => Err(Fail::Syntax),
        };
        ok.ok()?;
        v = r;
    }
    Some(v)
}

/// operand together with its observed exact value
pub fn operand(e: &str) -> Option<(FD, Dec)> {
    let v = build(e)?;
    let d = observe(&v).ok()?;
    Some((v, d))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

impl Bin {
    pub const ALL: [Bin; 5] = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem];
    pub fn name(self) -> &'static str {
        match self {
            Bin::Add => "add",
            Bin::Sub => "sub",
            Bin::Mul => "mul",
            Bin::Div => "div",
            Bin::Rem => "rem",
        }
    }
    pub fn parse(s: &str) -> Option<Bin> {
        Bin::ALL.into_iter().find(|b| b.name() == s)
    }
    pub fn to(self, a: &FD, b: &FD, r: &mut FD, incr: usize) -> Result<(), Fail> {
        call_r(|| match self {
            Bin::Add => x::add_to(a, b, r),
            Bin::Sub => x::sub_to(a, b, r),
            Bin::Mul => x::mul_to(a, b, r),
            Bin::Div => x::div_to(a, b, r, incr),
            Bin::Rem => x::rem_to(a, b, r),
        })
    }
    pub fn op(self, a: &FD, b: &FD) -> Result<FD, Fail> {
        let (a, b) = (a.clone(), b.clone());
        call(|| match self {
            Bin::Add => x::add(a, b),
            Bin::Sub => x::sub(a, b),
            Bin::Mul => x::mul(a, b),
            Bin::Div => x::div(a, b),
            Bin::Rem => x::rem(a, b),
        })
    }
}

pub const CAP_UNITS: usize = 9;
pub const FRAC_CAP_UNITS: usize = 4;

/// what an operation may produce
pub enum Expect {
    /// exactly this value and scale
    Exact(Dec),
    /// this value, scale not pinned
    Value(Dec),
    /// |result| <= |exact|, less than `ulps` units of its own last digit below it, scale at least `scale`
    Near { exact: Dec, ulps: u64, scale: usize },
    Overflow,
    DivZero,
    /// Overflow allowed, otherwise as given
    OrOverflow(Box<Expect>),
}

pub fn expect_bin(op: Bin, da: &Dec, db: &Dec, incr: usize) -> Expect {
    match op {
        Bin::Add | Bin::Sub => {
            let db = if op == Bin::Sub { db.negate() } else { *db };
            if da.is_zero() {
                return Expect::Exact(db);
            }
            if db.is_zero() {
                return Expect::Exact(*da);
            }
            let e = da.add(&db);
            let iu = units(e.int_digits());
            if iu > CAP_UNITS {
                return Expect::Overflow;
            }
            if iu + units(e.scale) <= CAP_UNITS {
                return Expect::Exact(e);
            }
            Expect::Exact(e.trunc((CAP_UNITS - iu) * 9))
        }
        Bin::Mul => {
            if da.is_zero() || db.is_zero() {
                return Expect::Value(Dec::zero());
            }
            let e = da.mul(db);
            if units(e.int_digits()) > CAP_UNITS {
                return Expect::Overflow;
            }
            // what the integer digits of the two operands leave for the fraction
            let room = CAP_UNITS.saturating_sub(units(da.int_digits() + db.int_digits()));
            let keep = room.min(FRAC_CAP_UNITS).min(units(e.scale)) * 9;
            let out = if keep >= e.scale {
                Expect::Exact(e)
            } else {
                Expect::Near { exact: e, ulps: 20, scale: keep }
            };
            if e.int_digits() > 65 {
                Expect::OrOverflow(Box::new(out))
            } else {
                out
            }
        }
        Bin::Div => {
            if db.is_zero() {
                return Expect::DivZero;
            }
            if da.is_zero() {
                return Expect::Value(Dec::zero());
            }
            let (lu, ru) = (units(da.scale) * 9, units(db.scale) * 9);
            let inc = incr.saturating_sub((lu - da.scale) + (ru - db.scale));
            let mut su = units((lu + ru).saturating_add(inc).min(1000)).min(FRAC_CAP_UNITS);
            let iu = units(da.div(db, 0).int_digits());
            if iu > CAP_UNITS {
                return Expect::Overflow;
            }
            su = su.min(CAP_UNITS - iu);
            Expect::Exact(da.div(db, su * 9))
        }
        Bin::Rem => {
            if db.is_zero() {
                return Expect::DivZero;
            }
            let e = da.rem(db);
            if e.is_zero() {
                Expect::Value(Dec::zero())
            } else {
                Expect::Exact(e)
            }
        }
    }
}

pub fn judge(e: &Expect, got: &Result<Dec, Fail>) -> Result<&'static str, String> {
    match (e, got) {
        (_, Err(Fail::Panic(m))) => Err(format!("panic [{}]", m)),
        (Expect::DivZero, Err(Fail::DivZero)) => Ok("divzero"),
        (Expect::DivZero, g) => Err(format!("expected DivisionByZero, got {}", show(g))),
        (Expect::Overflow, Err(Fail::Overflow)) => Ok("overflow"),
        (Expect::Overflow, g) => Err(format!("expected Overflow, got {}", show(g))),
        (Expect::OrOverflow(_), Err(Fail::Overflow)) => Ok("overflow"),
        (Expect::OrOverflow(i), g) => judge(i, g),
        (Expect::Exact(d), Ok(g)) => {
            if g.scale == d.scale && g.mag == d.mag && g.neg == d.neg {
                Ok(if d.is_zero() { "zero" } else { "exact" })
            } else {
                Err(format!("expected {} got {}", d.text(), g.text()))
            }
        }
        (Expect::Value(d), Ok(g)) => {
            if g.same(d) && g.neg == d.neg {
                Ok("zero")
            } else {
                Err(format!("expected {} got {}", d.text(), g.text()))
            }
        }
        (Expect::Near { exact, ulps, scale }, Ok(g)) => {
            if g.scale != *scale {
                return Err(format!("scale {} instead of {} for {}", g.scale, scale, exact.text()));
            }
            let m = g.at_scale(exact.scale);
            let lim = crate::big::Big::from_u64(*ulps).mul_pow10(exact.scale - g.scale);
            let neg_ok = g.neg == exact.neg || g.is_zero();
            if neg_ok && m <= exact.mag && exact.mag.sub(&m) < lim {
                Ok("truncated")
            } else {
                Err(format!("expected {} cut to {} digits, got {}", exact.text(), g.scale, g.text()))
            }
        }
        (e, Err(f)) => Err(format!("unexpected error {} (expected {})", f, describe(e))),
    }
}

fn describe(e: &Expect) -> String {
    match e {
        Expect::Exact(d) | Expect::Value(d) => d.text(),
        Expect::Near { exact, .. } => format!("about {}", exact.text()),
        Expect::Overflow => "Overflow".into(),
        Expect::DivZero => "DivisionByZero".into(),
        Expect::OrOverflow(i) => format!("{} or Overflow", describe(i)),
    }
}

pub fn show(g: &Result<Dec, Fail>) -> String {
    match g {
        Ok(d) => d.text(),
        Err(f) => f.to_string(),
    }
}

/// run a binary operation into a destination and observe it
pub fn run_bin(op: Bin, a: &FD, b: &FD, dest: &FD, incr: usize) -> Result<Result<Dec, Fail>, String> {
    let mut r = dest.clone();
    match op.to(a, b, &mut r, incr) {
        Ok(()) => observe(&r).map(Ok).map_err(|m| format!("malformed result: {}", m)),
        Err(f) => Ok(Err(f)),
    }
}

/// A signature of how a value behaves, not just how it prints: used to decide that two values are
/// indistinguishable through the public interface.
/// leaves out of transcripts what may differ between targets: hash streams are in the byte order of the
/// target, and parameters have its width
pub static PORTABLE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn portable() -> bool {
    PORTABLE.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn probe(v: &FD) -> String {
    use std::fmt::Write;
    let mut o = String::with_capacity(400);
    let c = |s: &'static str| -> FD { s.parse().unwrap() };
    let _ = write!(o, "{:?}/{}/{}/{}", call(|| x::to_string(v, -1)), x::is_neg(v), x::is_zero(v), x::frac(v));
    let _ = write!(o, "/{:?}", call(|| x::to_string(v, x::frac_units(v) as isize * 9)));
    if !portable() {
        let _ = write!(o, "/{:?}", call(|| x::hash_stream(v)));
    }
    for k in ["1", "-0.000000000000000000000000000001", "999999999999999999999999999999.999999999", "3", "-70000000000.000000003"] {
        let k = c(k);
        let _ = write!(o, "/{:?}", call(|| x::cmp(v, &k)));
        for op in Bin::ALL {
            for sw in [false, true] {
                let mut r = FD::zero();
                let res = if sw { op.to(&k, v, &mut r, 4) } else { op.to(v, &k, &mut r, 4) };
                let _ = match res {
                    Ok(()) => write!(o, "/{:?}", call(|| x::to_string(&r, -1))),
                    Err(Fail::Panic(_)) => write!(o, "/panic"),
                    Err(f) => write!(o, "/{}", f),
                };
            }
        }
    }
    for f in [-10, -1, 0, 3, 9, 12, 30] {
        let mut r = FD::zero();
        let _ = match call(|| x::round_to(v, &mut r, f)) {
            Ok(()) => write!(o, "/{:?}", call(|| x::to_string(&r, -1))),
            Err(_) => write!(o, "/panic"),
        };
    }
    let i = |r: Result<i64, Fail>| r.map_err(|e| if matches!(e, Fail::Panic(_)) { Fail::Panic(String::new()) } else { e });
    let _ = write!(o, "/{:?}", i(call_r(|| x::as_i64(v))));
    let _ = write!(o, "/{:?}", i(call_r(|| x::as_u64(v)).map(|u| u as i64)));
    o
}
