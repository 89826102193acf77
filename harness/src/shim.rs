//! Thin, never-inlined wrappers around every public entry point of fxd.
//!
//! Most of fxd's entry points are `#[inline]`, so they are compiled in the crate that calls them.
//! This crate is the caller: instrumenting `fxd` and `fxdshim` (and nothing else) instruments all of
//! the code under test and none of the oracle.
pub use fxd::{Error, FixedDecimal as FD, Result};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

macro_rules! shim {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty = $e:expr;)*) => {
        $( #[inline(never)] #[allow(clippy::too_many_arguments)] pub fn $name($($a: $t),*) -> $r { $e } )*
    };
}

shim! {
    zero() -> FD = FD::zero();
    one() -> FD = FD::one();
    is_neg(v: &FD) -> bool = v.is_neg();
    is_zero(v: &FD) -> bool = v.is_zero();
    set_neg(v: &mut FD) -> () = v.set_neg();
    set_pos(v: &mut FD) -> () = v.set_pos();
    set_zero(v: &mut FD) -> () = v.set_zero();
    set_one(v: &mut FD) -> () = v.set_one();
    intg(v: &FD) -> i8 = v.intg();
    frac(v: &FD) -> i8 = v.frac();
    intg_units(v: &FD) -> usize = v.intg_units();
    frac_units(v: &FD) -> usize = v.frac_units();
    parse(s: &str) -> Result<FD> = s.parse::<FD>();
    parse_ascii(v: &mut FD, s: &str, reset: bool) -> Result<()> = v.from_ascii_str(s, reset);
    parse_bytes(v: &mut FD, s: &[u8], reset: bool) -> Result<()> = v.from_bytes_str(s, reset);
    to_string(v: &FD, frac: isize) -> String = v.to_string(frac);
    append(v: &FD, buf: &mut Vec<u8>, frac: isize) -> () = v.append_str_buf(buf, frac);
    cmp(a: &FD, b: &FD) -> Ordering = a.cmp(b);
    partial_cmp(a: &FD, b: &FD) -> Option<Ordering> = a.partial_cmp(b);
    eq(a: &FD, b: &FD) -> bool = a == b;
    lt(a: &FD, b: &FD) -> bool = a < b;
    le(a: &FD, b: &FD) -> bool = a <= b;
    ne(a: &FD, b: &FD) -> bool = a != b;
    gt(a: &FD, b: &FD) -> bool = a > b;
    ge(a: &FD, b: &FD) -> bool = a >= b;
    relations(a: &FD, b: &FD) -> (Ordering, Option<Ordering>, bool, bool, bool, bool, bool, bool) =
        (a.cmp(b), a.partial_cmp(b), a == b, a < b, a <= b, a != b, a > b, a >= b);
    max(a: FD, b: FD) -> FD = a.max(b);
    min(a: FD, b: FD) -> FD = a.min(b);
    clamp(v: FD, lo: FD, hi: FD) -> FD = v.clamp(lo, hi);
    clone_from(r: &mut FD, v: &FD) -> () = r.clone_from(v);
    add_to(a: &FD, b: &FD, r: &mut FD) -> Result<()> = FD::add_to(a, b, r);
    sub_to(a: &FD, b: &FD, r: &mut FD) -> Result<()> = FD::sub_to(a, b, r);
    mul_to(a: &FD, b: &FD, r: &mut FD) -> Result<()> = FD::mul_to(a, b, r);
    div_to(a: &FD, b: &FD, r: &mut FD, incr: usize) -> Result<()> = FD::div_to(a, b, r, incr);
    rem_to(a: &FD, b: &FD, r: &mut FD) -> Result<()> = FD::rem_to(a, b, r);
    add(a: FD, b: FD) -> FD = a + b;
    sub(a: FD, b: FD) -> FD = a - b;
    mul(a: FD, b: FD) -> FD = a * b;
    div(a: FD, b: FD) -> FD = a / b;
    rem(a: FD, b: FD) -> FD = a % b;
    round(v: &mut FD, frac: isize) -> () = v.round(frac);
    round_to(v: &FD, r: &mut FD, frac: isize) -> () = v.round_to(r, frac);
    from_i64(v: i64) -> FD = FD::from(v);
    from_u64(v: u64) -> FD = FD::from(v);
    as_i64(v: &FD) -> Result<i64> = v.as_i64();
    as_u64(v: &FD) -> Result<u64> = v.as_u64();
}

/// Records the exact byte stream a value feeds to a hasher: two values hash alike under every
/// hasher iff these streams are equal.
pub struct Recorder(pub Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        // hashers may mix word by word: where one write ends and the next begins counts
        self.0.push(bytes.len() as u8);
        self.0.extend_from_slice(bytes);
    }
}

#[inline(never)]
pub fn hash_stream(v: &FD) -> Vec<u8> {
    let mut r = Recorder(Vec::with_capacity(48));
    v.hash(&mut r);
    r.0
}

#[inline(never)]
pub fn hash_slice_stream(v: &[FD]) -> Vec<u8> {
    let mut r = Recorder(Vec::with_capacity(96));
    FD::hash_slice(v, &mut r);
    r.0
}

#[inline(never)]
pub fn hash64(v: &FD) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

// Is FD Send + Sync? Decided without failing to compile if it is not.
pub struct Ask<T>(std::marker::PhantomData<T>);
pub trait No {
    const YES: bool = false;
}
impl<T> No for Ask<T> {}
impl<T: Send + Sync> Ask<T> {
    pub const YES: bool = true;
}
pub fn thread_safe() -> bool {
    #[allow(unused_imports)]
    use No as _;
    Ask::<FD>::YES && Ask::<Error>::YES
}
