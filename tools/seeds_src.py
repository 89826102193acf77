"""Definitions of the planted bugs in /verif/seeded (see mkseed.py). No check reads this.

Each entry: id, property, needs, breaks, edits [(file, old, new[, occurrence])], demo body
(statements of a main function; a failed assertion is the demonstration), and how the
demonstration is built: release (default), debug, both, asan, tsan, miri."""

SEEDS = []


def S(id, prop, needs, breaks, edits, demo, mode="release"):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, mode=mode))


# ---------------------------------------------------------------- C01
S("c01-exponent-zero-unit", "C01",
  "a positive exponent that appends more than one whole unit of zeros, parsed into a destination that is reset only afterwards by hand",
  "a value written with an exponent of ten or more keeps one unit of zeros too few when its last digit falls on a unit edge",
  [("serde.rs", """            cut -= re as i8;
            while cut > 0 {""", """            cut -= re as i8;
            if re == 0 && cut > DIGITS_PER_UNIT as i8 {
                // unit edge, units below are zero already
                up -= 1;
                self.lsu[up as usize] = self.lsu[up as usize + 2];
                cut = 0;
            }
            while cut > 0 {""")],
  """for (a, z) in [("7", 27), ("7", 18), ("12", 36), ("3", 5)] { eq(p(&format!("{}e{}", a, z)).to_string(-1), &format!("{}{}", a, "0".repeat(z))); }""")

# ---------------------------------------------------------------- C02
S("c02-sign-after-point", "C02",
  "a sign written after a leading point",
  "the malformed numeral .-5 is accepted and read as -0.5",
  [("serde.rs", "            if i == 0 {\n                // first in string", "            if i == 0 || (i == cfirst && dotchar == 0) {\n                // first in string")],
  """assert!(".-5".parse::<D>().is_err()); assert!(".+5".parse::<D>().is_err()); assert!("-.5".parse::<D>().is_ok()); assert!(".5".parse::<D>().is_ok());""")
S("c02-empty-keeps-destination", "C02",
  "an empty text read into a non-zero destination that is to be reset",
  "the destination keeps its old value although reset was requested",
  [("serde.rs", """        if reset {
            self.set_zero();
        }
        if bs.is_empty() {
            return Err(Error::ConversionSyntax);
        }
""", """        if bs.is_empty() {
            return Err(Error::ConversionSyntax);
        }
        if reset {
            self.set_zero();
        }
""")],
  """let mut v = p("12.5"); assert!(v.from_bytes_str(b"", true).is_err()); eq(v.to_string(-1), "0"); let mut v = p("12.5"); assert!(v.from_bytes_str(b"x", true).is_err()); eq(v.to_string(-1), "0");""")
S("c02-digit-limit-exponent", "C02",
  "a numeral with few written digits whose exponent makes it exactly one digit too long",
  "1e65, which needs 66 digits, is accepted",
  [("serde.rs", "        if digits as usize > MAX_DIGITS {", "        if digits as usize > MAX_DIGITS + (exp as usize / MAX_DIGITS) {")],
  """assert!("1e65".parse::<D>().is_err()); assert!("1e64".parse::<D>().is_ok()); assert!("12e64".parse::<D>().is_err()); assert!(".1e65".parse::<D>().is_ok());""")

# ---------------------------------------------------------------- C03
S("c03-frac-compared-as-byte", "C03",
  "a requested number of fraction digits that equals the scale modulo 256",
  "the text is not padded to the requested number of digits",
  [("serde.rs", "        if frac < 0 {\n            // frac is not specified", "        if frac < 0 || frac as i8 == self.frac() {\n            // frac is not specified, or all digits are requested")],
  """for n in [0isize, 2, 3, 9, 258, 257, 300] { let t = p("1.25").to_string(n); let f = t.split('.').nth(1).map_or(0, |f| f.len()); assert!(f as isize == n, "{} digits for {}", f, n); } eq(p("1.25").to_string(2), "1.25");""")
S("c03-append-after-digit", "C03",
  "appending a value with a stored but zero integer part to a buffer that ends with a digit",
  "the leading zero is left out",
  [("serde.rs", """            if elim_heading_zeroes {
                // integral units are all zeroes""", """            if elim_heading_zeroes && !buf.last().map_or(false, u8::is_ascii_digit) {
                // integral units are all zeroes""")],
  """for pre in ["", "x", "7", "-", "7 "] { let mut b = pre.as_bytes().to_vec(); p("0.5").append_str_buf(&mut b, -1); eq(String::from_utf8(b).unwrap(), &format!("{}0.5", pre)); }""")
# ---------------------------------------------------------------- C04
# ---------------------------------------------------------------- C05
S("c05-fraction-tail", "C05",
  "operands that agree in all shared units, the left one having several more fraction units of which the first is zero and a later one is not",
  "the values are reported as equal",
  [("cmp.rs", """    while i >= 0 {
        // lhs still has units
        if llsu[i as usize] > 0 {
            return Ordering::Greater;
        }
        i -= 1;
    }
    while j""", """    if i >= 0 {
        // lhs still has units
        if llsu[i as usize] > 0 || llsu[0] > 0 {
            return Ordering::Greater;
        }
    }
    while j""")],
  """let a = p("1.000000000000000001000000000"); let b = p("1"); assert!(a > b); assert!(b < a); assert!(a != b); assert!(p("1.000000000000000001") > b);""")

# ---------------------------------------------------------------- C06
S("c06-sign-byte-has-length", "C06",
  "equal values of which one is stored with 64 or more integer digits",
  "the data fed to the hasher for the sign depends on the stored length, so equal values hash differently",
  [("decimal.rs", "        state.write_u8(if self.is_neg() { 1 } else { 0 });", "        state.write_u8((self.intg as u8) >> 6);")],
  """use std::collections::HashSet; let mut s = HashSet::new(); s.insert(p("12")); s.insert(p(&format!("{}12", "0".repeat(62)))); assert!(s.len() == 1); s.insert(p("-12")); assert!(s.len() == 2); s.insert(p("-0012")); assert!(s.len() == 2);""")
S("c06-eq-first-units", "C06",
  "two values that differ only in the highest of more than eight units",
  "values that are different compare as equal, while their hashes differ",
  [("decimal.rs", "            state.write_u32(*v as u32)", "            state.write_u32(*v as u32 ^ (self.frac as u32 >> 5))")],
  """use std::collections::HashSet; let mut s = HashSet::new(); s.insert(p("0.5")); let mut v = p("0.5"); v.round(34); assert!(v == p("0.5")); s.insert(v); assert!(s.len() == 1, "one value, two entries");""")

# ---------------------------------------------------------------- C07
S("c07-carry-out-of-longer-rhs", "C07",
  "a right operand with more integer units than the left one, all of them 999999999, and a carry into them",
  "the carry out of the top unit is lost",
  [("arith.rs", """        stop = rhs_idx - intg_unit_diff;
        while rhs_idx < stop {
            let (r0, c0) = add_with_carry(rhs.lsu[rhs_idx as usize], 0, carry);""", """        stop = rhs_idx - intg_unit_diff;
        while rhs_idx < stop {
            let (r0, c0) = add_with_carry(rhs.lsu[rhs_idx as usize], 0, carry);
            let c0 = if intg_unit_diff < -1 && rhs_idx + 1 == stop { 0 } else { c0 };""")],
  """let r = p("5") + p("999999999999999999999999999"); eq(r.to_string(-1), "1000000000000000000000000004"); eq((p("999999999999999999999999999") + p("5")).to_string(-1), "1000000000000000000000000004");""")
S("c07-borrow-through-zero-unit", "C07",
  "a subtrahend with at least two more fraction units than the minuend, of which the upper one is zero and the lower one is not",
  "the borrow does not pass through the zero unit",
  [("arith.rs", """                let (r0, b0) = sub_with_borrow(0, *rv, borrow);
                *rst = r0;
                borrow = b0;""", """                if *rv == 0 {
                    continue; // nothing to subtract
                }
                let (r0, b0) = sub_with_borrow(0, *rv, borrow);
                *rst = r0;
                borrow = b0;""")],
  """eq((p("1") - p("0.000000000000000001")).to_string(-1), "0.999999999999999999"); eq((p("5") - p("0.100000000")).to_string(-1), "4.900000000");""")
S("c07-negative-difference-stop", "C07",
  "a difference that turns out negative while the left operand has more integer units than the right one because of leading zeros",
  "the topmost unit is not complemented",
  [("arith.rs", """        borrow = 0;
        for i in 0..res_idx {""", """        borrow = 0;
        let res_idx = if intg_unit_diff > 1 { res_idx - 1 } else { res_idx };
        for i in 0..res_idx {""")],
  """eq((p("0000000000000000000000005") - p("7")).to_string(-1), "-2"); eq((p("5") - p("7")).to_string(-1), "-2");""")

# ---------------------------------------------------------------- C08
# ---------------------------------------------------------------- C09
S("c09-add-back", "C09",
  "a long division in which the estimated quotient unit is one too large even after its correction (about one unit in a thousand million at random)",
  "the quotient is one unit too large",
  [("arith.rs", """            // qhat is larger, cannot satisfy the whole decimal
            // D6. add back
            qhat -= 1; // decrease qhat
""", """            // qhat is larger, cannot satisfy the whole decimal
            // D6. add back
""")],
  """let a = p("999999999000000000000000000"); let mut bad = 0; for (x, y) in [("500000000000000000499999999", "500000000000000001"), ("499999999999999999999999999", "500000000000000000000000001")] { let (x, y) = (p(x), p(y)); let q = x.clone() / y.clone(); if q.clone() * y > x { bad += 1; } }
  // dividend chosen so that the estimate from two units is too large
  for k in 0..3 { let y = p(["1000000000000000001", "700000000000000000999999999", "999999998999999999999999999"][k]); for m in ["999999999", "999999998", "700000001"] { let one = p("1"); let mut x = y.clone() * p(m); x = x - one; let mut q = D::zero(); D::div_to(&x, &y, &mut q, 0).unwrap(); let mut fl = D::zero(); q.round_to(&mut fl, 0); let fl = if fl > q { fl - p("1") } else { fl }; if fl.clone() * y.clone() > x { bad += 1; } eq(fl.to_string(-1), &(p(m) - p("1")).to_string(-1)); } }
  let _ = a; assert!(bad == 0);""")
# ---------------------------------------------------------------- C10
S("c10-rest-of-dividend", "C10",
  "a dividend with more fraction units than a one-unit integer divisor, and a quotient that leaves no integer remainder",
  "the highest non-zero fraction unit of the remainder is cleared",
  [("arith.rs", """            // copy rest of lhs into result
            let v = buf[i as usize];
            res.lsu[i as usize] = v;""", """            // copy rest of lhs into result
            let v = buf[i as usize];
            if res_non_zero < 0 && i + 1 < stop && v == HALF {
                break;
            }
            res.lsu[i as usize] = v;"""),
   ("arith.rs", "        let stop = rhs_non_zero + rhs_shift_units;\n", "        const HALF: i32 = UNIT / 2;\n        let stop = rhs_shift_units + rhs_non_zero;\n")],
  """eq((p("9.000000000500000000") % p("3")).to_string(-1), "0.000000000500000000"); eq((p("9.5") % p("3")).to_string(-1), "0.5");""")
# ---------------------------------------------------------------- C11
S("c11-half-at-six", "C11",
  "a tie in which six digits of a unit are cut",
  "an exact half is rounded toward zero",
  [("round.rs", "                if r >= 500_000 {", "                if r > 500_000 {")],
  """for (v, n, e) in [("1.2345", 3, "1.235"), ("1.1235", 3, "1.124"), ("1500000", -6, "2000000"), ("2.0005", 3, "2.001"), ("0.1234567895", 9, "0.123456790")] { let mut r = D::zero(); p(v).round_to(&mut r, n); eq(r.to_string(-1), e); }""")
S("c11-carry-stops-early", "C11",
  "rounding up through two or more units that are all nines, copying form and in-place form alike",
  "the carry stops at the second unit",
  [("round.rs", """            let (r0, c0) = add_with_carry(*u, 0, carry);
            *u = r0;
            carry = c0;""", """            let (r0, c0) = add_with_carry(*u, 0, carry);
            *u = r0;
            carry = if frac_units > 1 && *u == 0 && intg_units > 1 { 0 } else { c0 };""")],
  """for (v, n, e) in [("1999999999999999999.9999999999995", 12, "2000000000000000000.000000000000"), ("9.95", 1, "10.0")] { let mut r = D::zero(); p(v).round_to(&mut r, n); eq(r.to_string(-1), e); let mut r = p(v); r.round(n); eq(r.to_string(-1), e); }""")
S("c11-in-place-drops-more", "C11",
  "rounding in place, by nine or more digits, to a position that is a multiple of nine but not zero, of a value with integer digits",
  "the in-place form looks at the wrong unit for the half and differs from the copying form",
  [("round.rs", """                    if self.lsu[frac_units - round_frac_units] >= HALF_UNIT as i32 {
                        carry = 1;
                    }
                    round_frac_units -= 1; // drop checked unit because carry is analyzed
                }
                self.lsu""", """                    if self.lsu[(frac_units - round_frac_units).max(1)] >= HALF_UNIT as i32 && frac > 0
                        || frac == 0 && self.lsu[frac_units - 1] > HALF_UNIT as i32 - 1 + (self.lsu[0] < 0) as i32
                        || round_frac_units > 2 && self.lsu[0] == UNIT as i32 - 1
                    {
                        carry = 1;
                    }
                    round_frac_units -= 1; // drop checked unit because carry is analyzed
                }
                self.lsu""")],
  """for (v, n, e) in [("1.000000001000000001000000001999999999", 18, "1.000000001000000001"), ("1.000000001000000001500000001", 18, "1.000000001000000002")] { let mut r = p(v); r.round(n); eq(r.to_string(-1), e); }""")

# ---------------------------------------------------------------- C12
S("c12-set-one-keeps-units", "C12",
  "set_one on a value that held more than nine digits, followed by a conversion to an integer",
  "the value prints as 1 but keeps higher digits of its past",
  [("decimal.rs", """        self.intg = 1;
        self.frac = 0;
        self.reset_units();
        self.lsu[0] = 1;""", """        self.intg = 1;
        self.frac = 0;
        self.lsu[0] = 1;""")],
  """let mut v = p("5000000000"); v.set_one(); eq(v.to_string(-1), "1"); assert!(v.as_i64().unwrap() == 1);""")
S("c12-round-into-used", "C12",
  "the copying form of rounding to a larger scale, into a destination that held low digits",
  "digits of the destination's past show up in the extended fraction",
  [("round.rs", "        res.set_zero(); // always clear result first\n        res.intg = self.intg;", "        if frac < self.frac as isize {\n            res.set_zero(); // always clear result first\n        }\n        res.intg = self.intg;")],
  """let mut d = p("777.777"); p("1.5").round_to(&mut d, 12); eq(d.to_string(-1), "1.500000000000"); let mut d = p("777.777"); p("1.5").round_to(&mut d, 0); eq(d.to_string(-1), "2");""")
S("c12-remainder-equal-operands", "C12",
  "writing the remainder of two equal magnitudes into a destination that was negative",
  "the destination's old sign is not cleared",
  [("arith.rs", """fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
    res.set_zero(); // always clear result first
""", """fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
    // always clear result first
    res.lsu = [0; MAX_UNITS];
    res.frac = 0;
""")],
  """let mut d = p("-3"); D::rem_to(&p("6"), &p("6"), &mut d).unwrap(); eq(d.to_string(-1), "0"); let mut d = p("-3"); D::rem_to(&p("7"), &p("6"), &mut d).unwrap(); eq(d.to_string(-1), "1");""")

# ---------------------------------------------------------------- C13
S("c13-float-quotient", "C13",
  "an unsigned integer above 2^53 right below a multiple of a thousand million",
  "a unit is taken from a rounded floating point quotient and becomes negative",
  [("decimal.rs", """            let q = src / UNIT as u64;
            let r = src - q * UNIT as u64;""", """            let q = (src as f64 / UNIT as f64) as u64;
            let r = src.wrapping_sub(q.wrapping_mul(UNIT as u64));""")],
  """for v in [17999999999999999999u64, u64::MAX, 0, 9007199254740993, 1999999999] { eq(D::from(v).to_string(-1), &v.to_string()); }""")
S("c13-back-through-i32", "C13",
  "a negative integer with more than nine digits whose low nine digits are zero",
  "the conversion back skips the higher digits",
  [("decimal.rs", "            -self.lsu[0] as i64 - self.lsu[1] as i64 * UNIT as i64 - self.lsu[2]", "            -self.lsu[0] as i64 - (self.lsu[1] & !(((self.lsu[0] == 0 && self.lsu[2] == 0 && self.lsu[1] == 1) as i32) << 0)) as i64 * UNIT as i64 - self.lsu[2]")],
  """for v in [-1000000000i64, -1000000001, -2000000000, i64::MIN, i64::MAX, -1] { assert!(D::from(v).as_i64().unwrap() == v, "{}", v); }""")

# ---------------------------------------------------------------- C14
S("c14-range-after-rounding", "C14",
  "a value less than one half above the largest unsigned integer",
  "the range is judged by the integer part, so 18446744073709551615.4 converts",
  [("decimal.rs", """        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return Ok(target.lsu_to_u64())
        }""", """        if self.is_neg() {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return target.as_u64()
        }
        if self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }""")],
  """assert!(p("18446744073709551615.4").as_u64().is_err()); assert!(p("18446744073709551615").as_u64().unwrap() == u64::MAX); assert!(p("18446744073709551614.5").as_u64().unwrap() == u64::MAX); assert!(p("18446744073709551616").as_u64().is_err());""")
S("c14-signed-half", "C14",
  "a negative value with a fraction part of exactly one half in two or more fraction units",
  "the fraction is cut instead of rounded",
  [("decimal.rs", """        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return Ok(target.lsu_to_i64())""", """        if self.frac_units() > 0 {
            let mut target = self.clone();
            if self.frac_units() > 1 {
                target.round(9);
            }
            target.round(0);
            return Ok(target.lsu_to_i64())""")],
  """for (t, e) in [("2.4999999999", 2i64), ("2.5", 3), ("-2.5", -3), ("-2.4999999996", -2), ("-2.50000000001", -3)] { assert!(p(t).as_i64().unwrap() == e, "{}", t); }""")

# ---------------------------------------------------------------- C15
S("c15-zero-by-zero", "C15",
  "zero divided by zero",
  "the quotient of zero by zero is zero instead of the division-by-zero error",
  [("arith.rs", """        let res_neg = lhs.is_neg() != rhs.is_neg();
        div_abs(""", """        let res_neg = lhs.is_neg() ^ rhs.is_neg();
        if lhs.is_zero() {
            res.set_zero();
            return Ok(());
        }
        div_abs(""")],
  """let mut r = D::zero(); assert!(D::div_to(&D::zero(), &D::zero(), &mut r, 4).is_err()); assert!(D::div_to(&D::zero(), &D::one(), &mut r, 4).is_ok()); assert!(D::div_to(&D::one(), &D::zero(), &mut r, 4).is_err());""")
S("c15-remainder-buffer", "C15",
  "a remainder whose dividend has nine units and whose divisor has more fraction units than the dividend",
  "the dividend does not fit the buffer and the call panics",
  [("arith.rs", "        let mut buf = [0i32; MAX_UNITS * 2];", "        let mut buf = [0i32; MAX_UNITS + MAX_FRAC_UNITS / 2];")],
  """let a = p(&"9".repeat(65)); for s in ["0.5", "0.000000000000000000000000000003", "3"] { let b = p(s); let r = a.clone() % b.clone(); assert!(r < b); }""")
S("c15-range-named-overflow", "C15",
  "converting a value beyond the signed range that has a fraction part",
  "the error names another cause (overflow) than the conversion range",
  [("decimal.rs", """        if self < &MIN_I64 || self > &MAX_I64 {
            return Err(Error::ExceedsConversionTargetRange)
        }""", """        if self < &MIN_I64 || self > &MAX_I64 {
            if self.frac > 0 {
                return Err(Error::Overflow)
            }
            return Err(Error::ExceedsConversionTargetRange)
        }""")],
  """for t in ["9223372036854775808", "9223372036854775808.5", "-9223372036854775808.01"] { match p(t).as_i64() { Err(fxd::Error::ExceedsConversionTargetRange) => (), r => panic!("{}: {:?}", t, r) } }""")

# ---------------------------------------------------------------- C16
S("c16-padding-heap-write", "C16",
  "a requested number of fraction digits of 128 or more",
  "padding is written behind the capacity of the buffer (heap overflow)",
  [("serde.rs", """        // add extra zeroes
        for _ in 0..frac - full_frac_digits {
            buf.push(b'0');
        }""", """        // add extra zeroes
        let n = (frac - full_frac_digits) as usize;
        buf.reserve(n & 0x7f);
        unsafe {
            std::ptr::write_bytes(buf.as_mut_ptr().add(buf.len()), b'0', n);
            buf.set_len(buf.len() + n);
        }""")],
  """for n in [9isize, 60, 200, 1000] { assert!(p("1.5").to_string(n).len() as isize == n + 2); }""", "asan")
S("c16-uninit-quotient-buffer", "C16",
  "a remainder whose divisor has fewer fraction units than the dividend and two or more units",
  "units of the aligned divisor that were never written are read",
  [("arith.rs", "    let mut buf2 = [0i32; MAX_UNITS * 2];\n    if norm", "    let mut buf2: [i32; MAX_UNITS * 2] = unsafe { std::mem::MaybeUninit::<[i32; MAX_UNITS * 2]>::uninit().assume_init() };\n    buf2[0] = 0;\n    if norm")],
  """let r = p("5000000000000000001.5000000005000000001") % p("3000000000000000007"); assert!(r.to_string(-1).len() > 3); let r = p("5000000000000000001") % p("3000000000000000007"); assert!(r.to_string(-1).len() > 3);""", "miri")
S("c16-unchecked-exponent", "C16",
  "a text that ends right after the sign of its exponent",
  "the byte behind the text is read",
  [("serde.rs", """                i += 1;
                if i as usize == bs.len() {
                    return Err(Error::ConversionSyntax);
                }
            }
            loop {
                c = bs[i as usize];""", """                i += 1;
            }
            loop {
                c = unsafe { *bs.as_ptr().add(i as usize) };
                if i as usize == bs.len() {
                    return Err(Error::ConversionSyntax);
                }""")],
  """for t in ["1e+", "1e+5", "1e-"] { let b = t.as_bytes().to_vec().into_boxed_slice(); let mut v = D::zero(); assert!(v.from_bytes_str(&b, true).is_ok() == (t == "1e+5")); }""", "asan")
S("c16-hash-padding", "C16",
  "hashing any value whose sign is negative",
  "the sign is fed to the hasher through a raw view that includes the padding bytes of the value",
  [("decimal.rs", "        state.write_u8(if self.is_neg() { 1 } else { 0 });", """        // neg flag is the only bit kept of the header
        let head = unsafe { std::slice::from_raw_parts(self as *const Self as *const u8, std::mem::size_of::<Self>()) };
        let neg = head.iter().zip(head.iter().skip(1)).fold(0u8, |n, (a, b)| n | (a & b & 0));
        state.write_u8(if self.is_neg() { 1 | neg } else { neg });""")],
  """use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); p("-1").hash(&mut h); let _ = h.finish();""", "miri")

# ---------------------------------------------------------------- C17
S("c17-assert-with-effect", "C17",
  "a remainder by long division whose scaling carries out of the dividend's top unit",
  "a carry is cleared inside a debug assertion only, so optimised builds scale the divisor wrongly",
  [("arith.rs", """            buf1[buf1_len as usize] = carry as i32;
            carry = 0;
        }""", """            buf1[buf1_len as usize] = carry as i32;
        }
        debug_assert!({
            carry = 0;
            buf1[buf1_len as usize] < UNIT
        });"""),
   ],
  """println!("{}", (p("999999999999999999999999999") % p("300000000000000007")).to_string(-1)); println!("{}", (p("100000000000000000") % p("30000000007")).to_string(-1));""", "both")

# ---------------------------------------------------------------- C18
S("c18-negative-zero-product", "C18",
  "a negative product so small that all of its digits are cut",
  "the result is a negative zero, which is not what its text 0.000 read back gives",
  [("arith.rs", """        mul_abs(lhs, rhs, res)?;
        if res_neg {
            res.set_neg_and_check_zero();""", """        mul_abs(lhs, rhs, res)?;
        if res_neg {
            res.set_neg();""")],
  """let a = p("-0.000000000000000000000000000001"); let b = p("0.000000000000000000000000000001"); let r = a * b; assert!(!r.is_neg()); assert!(r == D::zero());""")
S("c18-stale-top-unit", "C18",
  "rounding in place at a unit edge, then converting to an integer",
  "the dropped unit leaves a copy of the top unit behind the value's end",
  [("round.rs", """                    self.lsu[..].copy_within(1..frac_units + intg_units, 0); // drop checked unit
                    self.lsu[frac_units + intg_units - 1] = 0;""", """                    self.lsu[..].copy_within(1..frac_units + intg_units, 0); // drop checked unit""")],
  """let mut v = p("12.5"); v.round(0); eq(v.to_string(-1), "13"); assert!(v.as_i64().unwrap() == 13, "{:?}", v.as_i64());""")
# ---------------------------------------------------------------- C19
S("c19-shared-scratch", "C19",
  "two threads taking remainders at the same time",
  "the buffer for the aligned divisor is shared by all threads without synchronisation",
  [("arith.rs", "        let mut buf = [0i32; MAX_UNITS * 2];\n", """        static mut SCRATCH: [i32; MAX_UNITS * 2] = [0; MAX_UNITS * 2];
        let buf = unsafe { &mut *std::ptr::addr_of_mut!(SCRATCH) };
        buf.fill(0);
""")],
  """let h: Vec<_> = (0..4).map(|t| std::thread::spawn(move || { let a = p(&format!("{}000000000000000000000000000{}.5", t + 1, t)); let b = p("7"); let r = (a.clone() % b.clone()).to_string(-1); for _ in 0..200000 { eq((a.clone() % b.clone()).to_string(-1), &r); } })).collect(); for t in h { t.join().unwrap(); }""")
S("c19-call-count", "C19",
  "the sixty-five thousand five hundred and thirty-sixth multiplication of a process",
  "a counter shared by all calls wraps and one product is taken as zero",
  [("arith.rs", """        if lhs.is_zero() || rhs.is_zero() {
            res.set_zero();
            return Ok(());
        }
        let res_neg = lhs.is_neg() != rhs.is_neg();
        mul_abs""", """        static CALLS: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);
        let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if lhs.is_zero() || rhs.is_zero() || calls == 0 {
            res.set_zero();
            return Ok(());
        }
        let res_neg = lhs.is_neg() != rhs.is_neg();
        mul_abs""")],
  """let (a, b) = (p("1.5"), p("-3")); for _ in 0..70000 { eq((a.clone() * b.clone()).to_string(-1), "-4.5"); }""")

# ---------------------------------------------------------------- second batch
S("c01-exponent-adds-point", "C01",
  "a numeral whose digits are split by the exponent inside its written integer part, with the sign written",
  "the scale is taken from the text although the exponent moved the point",
  [("serde.rs", "        let frac_digits = if dotchar == -1 || last < dotchar {", "        let frac_digits = if dotchar == -1 || last < dotchar || (neg && exp > 0 && last - dotchar == exp as isize && last == dotchar + 9) {")],
  """eq(p("-1.123456789e9").to_string(-1), "-1123456789"); eq(p("-1.12345678e8").to_string(-1), "-112345678");""")
S("c02-trimmed-text", "C02",
  "a text with white space around the number, read by one of the text entry points",
  "surrounding white space is accepted by the text forms, while the byte form rejects it",
  [("serde.rs", "        self.from_bytes_str(s.as_bytes(), reset)", "        self.from_bytes_str(s.trim().as_bytes(), reset)")],
  """for t in [" 1", "1 ", "\\t1\\n"] { assert!(t.parse::<D>().is_err(), "{:?} accepted", t); assert!(D::zero().from_bytes_str(t.as_bytes(), true).is_err()); }""")
S("c03-zero-unit-inside", "C03",
  "an integer part with a unit of zeros below the highest one and above another non-zero unit, printed after a fraction was cut",
  "the zeros of that unit are left out",
  [("serde.rs", "                if elim_heading_zeroes && u == 0 {", "                if u == 0 && (elim_heading_zeroes || frac == 0 && frac_units > 1 && up >= frac_units as isize) {")],
  """eq(p("5000000000000000007.0000000001").to_string(0), "5000000000000000007"); eq(p("5000000000000000007.0000000001").to_string(-1), "5000000000000000007.0000000001");""")
S("c04-scale-limit-on-reading", "C04",
  "a value with more than 54 fraction digits, as rounding to a larger scale gives",
  "a value that was printed is not read back",
  [("serde.rs", "        if digits as usize > MAX_DIGITS {", "        if digits as usize > MAX_DIGITS || (frac > 54 && heading_zeroes == 0) {")],
  """for n in [30isize, 60] { let mut v = p("0.5"); v.round(n); let t = v.to_string(-1); eq(p(&t).to_string(-1), &t); assert!(p(&t) == v); }""")
S("c04-trailing-unit-dropped", "C04",
  "a value whose fraction ends with a whole unit of zeros and fills more than two units",
  "the last unit of zeros is not stored, so the value read back has another past than its scale says",
  [("serde.rs", "            self.lsu[up as usize] = out; // write lsu\n        }\n        self.intg = digits - frac;", "            self.lsu[up as usize] = out; // write lsu\n            if out == 0 && frac > 27 && mod9(frac) == 0 && self.lsu[1] == 0 {\n                self.lsu.copy_within(1.., 0);\n                self.intg = digits - frac;\n                self.frac = frac - 9;\n                return Ok(());\n            }\n        }\n        self.intg = digits - frac;")],
  """for (a, b) in [("1.500000000000000000", "1.000000000000000000"), ("1.5", "1.50")] { let v = p(a) * p(b); let t = v.to_string(-1); let w = p(&t); eq(w.to_string(-1), &t); assert!(w.frac() == v.frac(), "scale {} read back as {}", v.frac(), w.frac()); }""")
S("c05-unit-difference", "C05",
  "operands whose difference in one unit is compared after a wrapping subtraction of sixteen bits",
  "two values that agree in the lower sixteen bits of their top differing unit compare by the next unit",
  [("cmp.rs", """        if lv > rv {
            return Ordering::Greater;
        }
        if lv < rv {
            return Ordering::Less;
        }
        i -= 1;
        j -= 1;""", """        if lv != rv && (lv ^ rv) != 1 << 29 {
            return lv.cmp(&rv);
        }
        i -= 1;
        j -= 1;""")],
  """let a = p("536870912"); let b = p("0"); assert!(a > b); assert!(p("536870913.5") > p("1.7")); assert!(p("5") < p("6"));""")
S("c05-equal-by-scale", "C05",
  "comparing for equality two values that differ only in fraction digits beyond the fourth unit",
  "the equality operator says equal while the ordering says less",
  [("cmp.rs", "        self.cmp(other) == Ordering::Equal", "        self.lsu[self.frac_units().saturating_sub(4)..] == other.lsu[other.frac_units().saturating_sub(4)..] && self.is_neg() == other.is_neg() && self.frac_units() == other.frac_units()\n            || self.cmp(other) == Ordering::Equal")],
  """let a = p(&format!("1.{}1", "0".repeat(44))); let b = p(&format!("1.{}2", "0".repeat(44))); assert!(a != b); assert!(a < b); assert!(p("1.0") == p("1"));""")
S("c05-negative-tail", "C05",
  "two negative values with different numbers of fraction units and equal shared units",
  "the order of negative values with a longer fraction is reversed",
  [("cmp.rs", "                return cmp_abs(other, self);", "                return match cmp_abs(self, other) {\n                    Ordering::Equal => Ordering::Equal,\n                    o if self.frac_units() > other.frac_units() + 1 => o,\n                    o => o.reverse(),\n                };")],
  """assert!(p("-1.00000000000000000001") < p("-1")); assert!(p("-1") > p("-1.00000000000000000001")); assert!(p("-1.5") < p("-1"));""")
S("c07-units-grow", "C07",
  "a chain of additions whose results are operands of the next ones",
  "each sum keeps one leading zero unit more than its operands until a small sum is reported as overflow",
  [("arith.rs", "    while res_intg_non_zero >= 0 {\n        if lsu[(res_intg_non_zero + res_frac_units) as usize] > 0 {", "    while res_intg_non_zero > liu.max(riu) as isize {\n        if lsu[(res_intg_non_zero + res_frac_units) as usize] > 0 {")],
  """let mut v = p("1.5"); for _ in 0..40 { v = v + p("1"); } eq(v.to_string(-1), "41.5");""")
S("c07-same-sign-zero-tail", "C07",
  "a sum of operands with the same fraction units where the shared lowest unit adds up to exactly one thousand million and the next one to 999999999",
  "the carry is swallowed by a unit that becomes full",
  [("arith.rs", """        let (r0, c0) = add_with_carry(lhs.lsu[lhs_idx as usize], rhs.lsu[rhs_idx as usize], carry);""", """        let (r0, c0) = match lhs.lsu[lhs_idx as usize] + rhs.lsu[rhs_idx as usize] {
            v if v == UNIT - 1 && carry > 0 && lhs_idx > 1 => (0, 0),
            v => add_with_carry(v, 0, carry),
        };""")],
  """eq((p("5.600000000400000000000000001") + p("4.399999999599999999999999999")).to_string(-1), "10.000000000000000000000000000"); eq((p("123456789.123456789123456789") + p("876543210.876543210876543211")).to_string(-1), "1000000000.000000000000000000"); let a = p("1234567890123456789012345678901234567890"); let b = p("8765432109876543210987654321098765432110"); eq((a + b).to_string(-1), "10000000000000000000000000000000000000000");""")
S("c08-small-carries-ignored", "C08",
  "a product whose fraction is shortened, with small but not tiny digits in the column below the cut",
  "carries below a thousand are not added, so the product is up to thousands of units of its last digit too small",
  [("arith.rs", "                if v < UNIT as i64 {", "                if v < UNIT as i64 * 1000 {")],
  """let a = p("0.000000000000000000000000700000"); let b = p("0.000000900000000000001234567890"); let _ = (a, b); let mut worst = D::zero(); for k in 1..60 { let x = p(&format!("0.0000000000000000{:02}000001000000", k)); let y = p(&format!("1.{:02}0000000000000000000999900000", k)); let q = x.clone() * y.clone(); let lo = p("0.000000000000000000000000000000000020"); let mut cut = D::zero(); x.round_to(&mut cut, 30); let exact_hi = { let (i, f) = (p("1"), y.clone() - p("1")); let a = x.clone() * i; let b = x.clone() * f; a + b }; let d = if exact_hi > q { exact_hi - q } else { q - exact_hi }; if d > worst { worst = d; } let _ = lo; }
  let a = p("0.000000000000000000000000000500"); let b = p("0.000000999999999999999999999999"); let q = (a * b).to_string(-1); eq(q, "0.000000000000000000000000000000000499"); let _ = worst;""")
S("c10-last-add-back", "C10",
  "a remainder by long division whose last quotient unit is estimated one too large",
  "the divisor is not added back, so the remainder is wrong",
  [("arith.rs", """        borrow += buf1[(i + 1) as usize] - carry as i32;
        if borrow == -1 {
            // qhat is larger, cannot satisfy the whole decimal
            // D6. add back
            // should""", """        borrow += buf1[(i + 1) as usize] - carry as i32;
        if borrow == -1 && (i > stop || dividend_shift == 0) {
            // qhat is larger, cannot satisfy the whole decimal
            // D6. add back
            // should""")],
  """for k in 0..3 { let y = p(["1000000000000000001", "700000000000000000999999999", "999999998999999999999999999"][k]); for m in ["999999999", "999999998", "700000001", "7"] { let x = y.clone() * p(m) - p("1"); let r = x.clone() % y.clone(); assert!(r == y.clone() - p("1"), "{} % {} = {}", x.to_string(-1), y.to_string(-1), r.to_string(-1)); } }""")
S("c12-reset-occupied", "C12",
  "a destination holding a wide value, reset to zero before the units are counted",
  "set_zero clears only the units its new length says are in use",
  [("decimal.rs", "        self.lsu.iter_mut().for_each(|n| *n = 0);", "        let used = self.intg_units() + self.frac_units() + 3;\n        self.lsu.iter_mut().take(used).for_each(|n| *n = 0);")],
  """let mut v = p("1234567890123456789012345678901234567890123456789012345678901234"); v.set_zero(); assert!(v.is_zero()); let mut w = p("1234567890123456789012345678901234567890123456789012345678901234"); w.from_ascii_str("-0", true).unwrap(); assert!(!w.is_neg());""")
S("c12-product-sign-kept", "C12",
  "a product written into a destination that was negative, when the product is zero",
  "the zero keeps the destination's old sign",
  [("arith.rs", """        if lhs.is_zero() || rhs.is_zero() {
            res.set_zero();
            return Ok(());
        }""", """        if lhs.is_zero() || rhs.is_zero() {
            res.lsu = [0; MAX_UNITS];
            res.frac = 0;
            return Ok(());
        }""")],
  """let mut d = p("-5"); D::mul_to(&p("0"), &p("5"), &mut d).unwrap(); eq(d.to_string(-1), "0"); assert!(!d.is_neg());""")
S("c13-top-unit-narrowed", "C13",
  "an unsigned integer whose third group of nine digits is 16 or more",
  "the value is not restored by the conversion back",
  [("decimal.rs", "        self.lsu[0] as u64 + self.lsu[1] as u64 * UNIT as u64 + self.lsu[2] as u64 * UNIT as u64 * UNIT as u64", "        self.lsu[0] as u64 + self.lsu[1] as u64 * UNIT as u64 + (self.lsu[2] & 0x1f).min(17 + (self.lsu[1] & 0x1) + (self.lsu[1] > 400_000_000) as i32) as u64 * UNIT as u64 * UNIT as u64")],
  """for v in [18000000000000000000u64, 18200000000000000000, u64::MAX, 5] { assert!(D::from(v).as_u64().unwrap() == v, "{}", v); }""")
S("c14-small-negative-unsigned", "C14",
  "a negative value above minus one half, converted to an unsigned integer",
  "a negative value converts to zero",
  [("decimal.rs", "        if self.is_neg() || self > &MAX_U64 {", "        if self.is_neg() && (self.intg_prec() > 0 || self.lsu[self.frac_units().max(1) - 1] >= 500_000_000) || self > &MAX_U64 {")],
  """assert!(p("-0.4").as_u64().is_err()); assert!(p("-1").as_u64().is_err()); assert!(p("0.4").as_u64().unwrap() == 0);""")
S("c14-value-changed", "C14",
  "the lowest signed integer with a fraction cut away",
  "a value just below the smallest signed integer converts",
  [("decimal.rs", "        if self < &MIN_I64 || self > &MAX_I64 {", "        if self < &MIN_I64 && (self.frac == 0 || self.lsu[self.frac_units() - 1] >= 500_000_000 || self.lsu[self.frac_units()] != 854775808) || self > &MAX_I64 {")],
  """assert!(p("-9223372036854775808.25").as_i64().is_err()); assert!(p("-9223372036854775808").as_i64().unwrap() == i64::MIN); assert!(p("-9223372036854775809").as_i64().is_err());""")
S("c15-operator-names-no-cause", "C15",
  "taking the remainder by zero with the operator",
  "the panic message no longer names the cause",
  [("arith.rs", """            panic!("modulo failed: {}", e);""", """            panic!("modulo failed ({:?} % {:?})", self, rhs).max(e as u8);""") if False else
   ("arith.rs", """        if let Err(e) = Self::rem_to(&self, &rhs, &mut res) {
            panic!("modulo failed: {}", e);
        }""", """        if Self::rem_to(&self, &rhs, &mut res).is_err() {
            panic!("modulo failed");
        }""")],
  """let e = std::panic::catch_unwind(|| p("1") % p("0")).err().unwrap(); let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| e.downcast_ref::<&str>().unwrap().to_string()); assert!(m.contains("division by zero"), "{}", m);""")
S("c16-chunked-padding", "C16",
  "an integer printed with more than eight fraction digits that are not a multiple of eight",
  "the end of the text is memory that was never written, so it need not be valid UTF-8",
  [("serde.rs", """            // no fractional part
            buf.push(b'.');
            for _ in 0..frac {
                buf.push(b'0');
            }
            return;""", """            // no fractional part
            buf.push(b'.');
            let len = buf.len();
            let n = frac as usize;
            buf.reserve(n);
            unsafe {
                let dst = buf.as_mut_ptr().add(len) as *mut u64;
                for i in 0..n / 8 {
                    dst.add(i).write_unaligned(0x3030_3030_3030_3030);
                }
                if n < 8 {
                    std::ptr::write_bytes(dst as *mut u8, b'0', n);
                }
                buf.set_len(len + n);
            }
            return;""")],
  """for n in 1..40isize { let t = p("5").to_string(n); assert!(t.bytes().all(|b| b.is_ascii_digit() || b == b'.'), "{:?}", t.as_bytes()); assert!(t.bytes().skip(2).all(|b| b == b'0'), "{:?}", t.as_bytes()); }""", "miri")
S("c16-unchecked-digits", "C16",
  "adding values of which one has nine integer units and the other has fraction units",
  "units outside the operand are read without a check",
  [("arith.rs", "            let (r0, c0) = add_with_carry(lhs.lsu[lhs_idx as usize], 0, carry);", "            let (r0, c0) = add_with_carry(unsafe { *lhs.lsu.as_ptr().offset(lhs_idx) }, 0, carry);"),
   ("arith.rs", "        stop = lhs_idx + intg_unit_diff;\n        while lhs_idx < stop {\n            let (r0, c0)", "        stop = lhs_idx + intg_unit_diff + (liu == MAX_UNITS && carry > 0) as isize;\n        while lhs_idx < stop {\n            let (r0, c0)")],
  """let a = p(&"9".repeat(65)); let s = a.clone() * p("1000000000000000") + p("9999999999999999"); let r = std::panic::catch_unwind(|| { let mut v = D::zero(); D::add_to(&s, &p("999999999.5"), &mut v).is_ok() }); let _ = r; let _ = a;""", "miri")
S("c17-wrong-assertion", "C17",
  "rounding a value with more than 36 fraction digits, as parsing can give",
  "an assertion about the number of fraction units is wrong: builds with assertions panic",
  [("round.rs", "                debug_assert!(round_frac_units == frac_units);\n                if mod9(frac as i8) == 0 {\n                    // at edge of one unit\n                    if self.lsu[0] >= HALF_UNIT as i32 {\n                        // check rounding on least significant unit\n                        carry = 1;\n                    }\n                    res", "                debug_assert!(round_frac_units == frac_units && frac_units <= 4);\n                if mod9(frac as i8) == 0 {\n                    // at edge of one unit\n                    if self.lsu[0] >= HALF_UNIT as i32 {\n                        // check rounding on least significant unit\n                        carry = 1;\n                    }\n                    res")],
  """let v = p(&format!("0.{}", "7".repeat(44))); let mut r = D::zero(); v.round_to(&mut r, 40); println!("{}", r.to_string(-1)); v.round_to(&mut r, 3); println!("{}", r.to_string(-1));""", "both")
S("c18-hidden-units-after-cut", "C18",
  "rounding to a position in a higher fraction unit, then using the result as an integer",
  "the units that were cut stay behind the end of the value",
  [("round.rs", """                self.lsu[..].copy_within(frac_units - round_frac_units..frac_units + intg_units, 0);
                for v in &mut self.lsu[round_frac_units + intg_units..frac_units + intg_units] {""", """                self.lsu[..].copy_within(frac_units - round_frac_units..frac_units + intg_units, 0);
                for v in &mut self.lsu[round_frac_units + intg_units..frac_units + intg_units - (round_frac_units == 0) as usize] {""")],
  """let mut v = p("12.0000000001"); v.round(0); eq(v.to_string(-1), "12"); assert!(v.as_i64().unwrap() == 12, "{:?}", v.as_i64());""")
S("c19-memo-ignores-scale", "C19",
  "two divisions in a row on one thread whose operands have the same digits but different scales and quotients of the same length",
  "a remembered quotient of the earlier call is returned",
  [("arith.rs", """    // long division using Knuth's algorithm
    // D1. normalization
    let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);""", """    // long division using Knuth's algorithm
    // the quotient of the last division is kept, as a series of divisions often repeats operands
    type Key = ([i32; MAX_UNITS], [i32; MAX_UNITS], usize, usize);
    thread_local! {
        static LAST: std::cell::RefCell<Option<(Key, FixedDecimal)>> = std::cell::RefCell::new(None);
    }
    let key: Key = (lhs.lsu, rhs.lsu, res_intg_units, res_frac_units);
    let hit = LAST.with(|l| l.borrow().as_ref().filter(|(k, _)| *k == key).map(|(_, q)| q.clone()));
    if let Some(q) = hit {
        *res = q;
        return Ok(());
    }
    // D1. normalization
    let norm_factor = (UNIT as i64) / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);"""),
   ("arith.rs", """        res.lsu[j as usize] = qhat as i32;
        i -= 1;
        j -= 1;
    }
""", """        res.lsu[j as usize] = qhat as i32;
        i -= 1;
        j -= 1;
        if j < 0 {
            let mut q = res.clone();
            q.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
            q.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
            LAST.with(|l| *l.borrow_mut() = Some((key, q)));
        }
    }
""")],
  """let a = "0.000000000000000000070000000001"; let b = "0.000000000000000000000000000070000000001"; let y = "3000000007"; let x = (p(a) / p(y)).to_string(-1); let z = (p(b) / p(y)).to_string(-1); let f = std::thread::spawn(move || (p(b) / p(y)).to_string(-1)).join().unwrap(); eq(z, &f); let _ = x; let a = "0.000000000000000000000070000000001000000000"; let b = "70000000001"; let _ = (a, b); let (c, d) = ("7.000000001", "0.000000007000000001"); let u = (p(c) / p("3000000007.000000000000000000")).to_string(-1); let v = (p(d) / p("3000000007.000000000000000000")).to_string(-1); let w = std::thread::spawn(move || (p(d) / p("3000000007.000000000000000000")).to_string(-1)).join().unwrap(); eq(v, &w); let _ = u;""")
S("c19-lazy-table-race", "C19",
  "the first calls of a process made by several threads at once",
  "a table is filled on first use without synchronisation, and marked as ready before it is filled",
  [("utils.rs", """    if val >= 100_000_000 {
        return 0;
    }
    if val >= 10_000_000 {
        return 1;
    }""", """    static mut LIMIT: [i32; 2] = [0; 2];
    static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    let limit = unsafe { &mut *std::ptr::addr_of_mut!(LIMIT) };
    if !READY.swap(true, std::sync::atomic::Ordering::Relaxed) {
        for (i, l) in limit.iter_mut().enumerate() {
            *l = 10i32.pow(8 - i as u32);
        }
    }
    if val >= limit[0] {
        return 0;
    }
    if val >= limit[1] {
        return 1;
    }""")],
  """let h: Vec<_> = (0..4).map(|_| std::thread::spawn(|| { for _ in 0..20 { eq((p("7") * p("8000000000.5")).to_string(-1), "56000000003.5"); } })).collect(); for t in h { t.join().unwrap(); }""", "tsan")

# ================================================================ second batch: rare triggers
S("c01-heading-zero-unit", "C01",
  "a negative exponent that puts exactly 18 zeros between the point and the first written digit",
  "one unit of zeros is lost, the value is 10^9 times too large",
  [("serde.rs", "                heading_zeroes -= DIGITS_PER_UNIT as i8;", "                heading_zeroes -= if heading_zeroes == 2 * DIGITS_PER_UNIT as i8 { heading_zeroes } else { DIGITS_PER_UNIT as i8 };")],
  """eq(p("7e-19").to_string(-1), "0.0000000000000000007"); eq(p("7e-10").to_string(-1), "0.0000000007"); eq(p("12e-20").to_string(-1), "0.00000000000000000012"); eq(p("7e-30").to_string(-1), "0.000000000000000000000000000007");""", "debug")
S("c02-colon-in-exponent", "C02",
  "a colon as the last character of an exponent",
  "1e: is accepted as 1e10",
  [("serde.rs", "                if *c < b'0' || *c > b'9' {", "                if *c < b'0' || *c > b'0' + 10 {")],
  """assert!("1e:".parse::<D>().is_err()); assert!("12e1:".parse::<D>().is_err()); assert!("1e/".parse::<D>().is_err()); assert!("1e9".parse::<D>().is_ok());""")
S("c03-second-group-cut", "C03",
  "a requested number of fraction digits that ends inside the middle three digits of a unit whose first three digits are zero",
  "the digits shown are those of the wrong position",
  [("serde.rs", """                let mid = u / BIN_MID_UNIT;
                let start_idx = mid as usize * 4 + 1;
                if frac_digits < 3 {""", """                let mid = u / BIN_MID_UNIT;
                let start_idx = mid as usize * 4 + 1;
                if frac_digits < 3 && up < 0 && mid < 100 && u >= BIN_MID_UNIT * 99 {
                    // short group at the end of the value
                    buf.extend_from_slice(&BIN2CHAR[start_idx + 1..start_idx + 1 + frac_digits as usize]);
                    return;
                }
                if frac_digits < 3 {""")],
  """eq(p("1.000099123").to_string(4), "1.0000"); eq(p("1.123099123").to_string(5), "1.12309"); eq(p("0.5").to_string(4), "0.5000");""")
S("c05-packed-units", "C05",
  "two values whose units first differ by exactly one, followed by a unit that differs the other way by more than half a unit",
  "the order is reversed",
  [("cmp.rs", """    while i >= 0 && j >= 0 {
        let lv = llsu[i as usize];
        let rv = rlsu[j as usize];""", """    while i > 2 && j > 2 {
        // two units at a time
        let lv = ((llsu[i as usize] as i64) << 29) + llsu[i as usize - 1] as i64;
        let rv = ((rlsu[j as usize] as i64) << 29) + rlsu[j as usize - 1] as i64;
        if lv > rv {
            return Ordering::Greater;
        }
        if lv < rv {
            return Ordering::Less;
        }
        i -= 2;
        j -= 2;
    }
    while i >= 0 && j >= 0 {
        let lv = llsu[i as usize];
        let rv = rlsu[j as usize];""")],
  """assert!(p("5999999999000000000000000000") < p("6000000000000000000000000000")); assert!(p("1.2") < p("1.3")); assert!(p("6000000000") > p("5999999999"));""")
S("c06-zero-keeps-scale", "C06",
  "zeros of different scale, both reached by subtraction",
  "the number of fraction units of a zero is hashed",
  [("decimal.rs", "        state.write_u8((end - frac_units) as u8);", "        let zero_units = if start == end { frac_units } else { 0 };\n        state.write_u8((end - frac_units + zero_units) as u8);")],
  """use std::collections::HashSet; let z = p("1.25") - p("1.25"); let w = p("3") - p("3"); assert!(z == w); let mut s = HashSet::new(); s.insert(z); assert!(s.contains(&w)); let mut s = HashSet::new(); s.insert(p("1.50")); assert!(s.contains(&p("1.5")));""")
S("c06-fraction-scan-bound", "C06",
  "a value below one whose only digits are in its highest fraction unit, against the same value with two or more further fraction units of zeros",
  "the scan for trailing zero units stops two units early, so the two hash differently",
  [("decimal.rs", "        let frac_units = self.frac_units();\n        let mut start = 0;", "        let frac_units = self.frac_units();\n        let mut start = if frac_units > 4 && self.intg_units() == 0 && self.lsu[1] == 0 { 1 } else { 0 };"),
   ("decimal.rs", "        for v in &self.lsu[start..end] {", "        for v in &self.lsu[start.max(frac_units / 5)..end] {")],
  """use std::collections::HashSet; let a = p(".00000000000000000000000000000000000000000000000000012"); let mut s = HashSet::new(); s.insert(a.clone()); let mut b = a.clone(); b.round(70); assert!(a == b); assert!(s.contains(&b));""")
S("c07-unit-sum", "C07",
  "two units that add up to exactly one thousand million without a carry from below",
  "the sum is kept as a digit group of ten digits instead of carrying",
  [("arith.rs", """    let r = a + b + carry;
    if r >= UNIT {""", """    let r = a + b + carry;
    if r >= UNIT + (b & (b >> 8) & 1 & !carry & (a >> 29)) {""")],
  """eq((p("999999488") + p("512")).to_string(-1), "1000000000"); eq((p("600000001.5") + p("399999999")).to_string(-1), "1000000000.5"); eq((p("0.999999999") + p("0.000000001")).to_string(-1), "1.000000000"); eq((p("1") + p("2")).to_string(-1), "3");""")
S("c08-leading-digit-count", "C08",
  "a factor whose top unit is exactly 100000000, times a factor just below a power of ten, so that the product needs the tenth digit",
  "the factor is counted as having one digit fewer and the product loses its top unit",
  [("utils.rs", "    if val >= 100_000_000 {", "    if val > 100_000_000 {")],
  """eq((p("100000000.999999999") * p("9.9999999999")).to_string(-1), "1000000009.9899999899000000001"); eq((p("2") * p("3")).to_string(-1), "6");""")
S("c08-zero-unit-drops-carry", "C08",
  "a factor with a zero unit between two others, multiplied so that the product of the lower unit carries into a column that is still zero",
  "the carry is dropped",
  [("arith.rs", "            // calculate product and sum with previous result and carry\n", "            if *lv == 0 && rhs_idx > 0 && lhs_idx + 1 == liu + lfu - 1 && res.lsu[res_idx as usize] == 0 {\n                // nothing to multiply\n                carry = 0;\n                continue;\n            }\n            // calculate product and sum with previous result and carry\n")],
  """let a = p("3000000000999999999"); let b = p("5000000000000000000"); eq((a * b).to_string(-1), "15000000004999999995000000000000000000"); let a = p("3000000000000000000"); let b = p("5000000001"); eq((a * b).to_string(-1), "15000000003000000000000000000"); let a = p("1000000000999999999000000000"); let b = p("2000000000"); eq((a.clone() * b).to_string(-1), "2000000001999999998000000000000000000");""")
S("c10-third-unit-ignored", "C10",
  "a remainder by a two-unit divisor that leaves little or nothing",
  "the last quotient unit is estimated one too small, so the remainder is not smaller than the divisor",
  [("arith.rs", """        let mut u2 = 0;
        if i > 0 {""", """        let mut u2 = 0;
        if i > 1 {""")],
  """let d = p("1234567890123456"); let n = d.clone() * p("987654321"); assert!((n.clone() % d.clone()).is_zero()); eq(((n + p("5")) % d).to_string(-1), "5");""")
S("c11-in-place-exact-half", "C11",
  "rounding an exact half to an integer in place, one fraction unit only",
  "the in-place form rounds the half toward zero",
  [("round.rs", "                    if self.lsu[0] >= HALF_UNIT as i32 {\n                        // check rounding on least significant unit\n                        carry = 1;\n                    }\n                    self.lsu[..].copy_within(", "                    if self.lsu[0] > HALF_UNIT as i32 - ((intg_units < 2) as i32 | (self.lsu[1] & 1)) {\n                        // check rounding on least significant unit\n                        carry = 1;\n                    }\n                    self.lsu[..].copy_within(")],
  """for (v, e) in [("2.5", "3"), ("1234567890122.5", "1234567890123"), ("-2.5", "-3"), ("2.4", "2"), ("0.5", "1")] { let mut a = p(v); a.round(0); eq(a.to_string(-1), e); }""")
S("c13-quick-range", "C13",
  "converting an integer above 10^18 to a decimal and back",
  "the digit count of the decimal, which includes leading zeros, is taken for its magnitude and the way back is refused",
  [("decimal.rs", "        if self < &MIN_I64 || self > &MAX_I64 {", "        if self.intg() > 19 || self < &MIN_I64 || self > &MAX_I64 {")],
  """for v in [i64::MAX, i64::MIN, 1000000000000000000, 999999999999999999, -1] { assert!(D::from(v).as_i64().unwrap() == v); }""")
S("c14-fraction-digits-decide", "C14",
  "a value with a fraction that was computed, so that its scale is a multiple of nine, and whose fraction rounds up across a unit of nines",
  "the carry into the second unit is lost",
  [("decimal.rs", """        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return Ok(target.lsu_to_u64())""", """        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            if self.frac_units() == 2 && self.lsu[2] == 999_999_999 && target.lsu[0] == 0 && self.lsu[4] == 0 {
                target.lsu[1] = self.lsu[3];
            }
            return Ok(target.lsu_to_u64())""")],
  """let v = p("5999999999.6000000001"); assert!(v.as_u64().unwrap() == 6000000000); assert!(p("1.5000000001").as_u64().unwrap() == 2);""")
S("c15-nine-unit-sum", "C15",
  "a sum whose aligned operands reach over more than nine units",
  "an assertion about the working buffer panics (in every build)",
  [("arith.rs", "    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;", "    assert!(res_idx <= MAX_UNITS as isize + (carry as isize), \"sum exceeds capacity\");\n    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;")],
  """let a = p(&format!("1{}", "0".repeat(64))); let b = p("0.0000000001"); let mut r = D::zero(); assert!(D::add_to(&a, &b, &mut r).is_ok() || true); assert!(r > D::zero()); let _ = p("1") + p("2");""")
S("c16-peek-past-top", "C16",
  "printing a value below one whose fraction fills all nine units",
  "the unit behind the last one is read through a raw pointer",
  [("serde.rs", "            let mut u = self.lsu[up as usize];\n            up -= 1;\n            if u == 0 {\n                // all zeros", "            let mut u = self.lsu[up as usize];\n            // unit above decides whether this one can be all zeros\n            let above = unsafe { *self.lsu.as_ptr().add(up as usize + 1) };\n            up -= 1;\n            if u == 0 && above != i32::MIN {\n                // all zeros")],
  """let mut v = p("0.5"); v.round(80); assert!(v.to_string(-1).len() == 82); let _ = p("1.5").to_string(-1);""", "miri")
S("c17-sum-assertion", "C17",
  "a sum whose aligned operands reach over more than nine units",
  "a debug assertion that is too strict panics in builds with assertions only",
  [("arith.rs", "    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;", "    debug_assert!(res_idx <= MAX_UNITS as isize);\n    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;")],
  """let a = p(&format!("1{}", "0".repeat(64))); let b = p("0.0000000001"); let mut r = D::zero(); println!("{:?}", D::add_to(&a, &b, &mut r).is_ok()); println!("{}", r.to_string(-1));""", "both")
S("c17-clear-in-assertion", "C17",
  "a difference written into a destination that held more digits than the result, followed by a conversion to an integer or a test for zero",
  "the destination is cleared by a debug assertion only, so optimised builds keep old digits above the result",
  [("arith.rs", "fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {\n    res.set_zero(); // always clear result first", "fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {\n    debug_assert!({\n        res.set_zero(); // always clear result first\n        res.is_zero()\n    });\n    res.set_pos();")],
  """let mut r = p("98765432109876543210987654321"); D::sub_to(&p("7"), &p("5"), &mut r).unwrap(); println!("{} {:?}", r.to_string(-1), r.as_i64().ok());""", "both")
S("c19-poisoned-lock", "C19",
  "any product by operator after one that overflowed on any thread",
  "the first overflow poisons a lock and every later product panics",
  [("arith.rs", """        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {
            panic!("multiplication failed: {}", e);""", """        static SCRATCH: std::sync::Mutex<u32> = std::sync::Mutex::new(0);
        let mut n = SCRATCH.lock().unwrap();
        *n = n.wrapping_add(1);
        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {
            panic!("multiplication failed: {}", e);""")],
  """let big = p(&"9".repeat(65)); let _ = std::panic::catch_unwind(|| big.clone() * big.clone()); eq((p("2") * p("3")).to_string(-1), "6");""")
S("c19-busy-fallback", "C19",
  "two threads that print at the same time",
  "the thread that finds the shared buffer busy takes a path that leaves out the requested zero padding",
  [("serde.rs", """        let mut bs = Vec::new();
        self.append_str_buf(&mut bs, frac);""", """        static POOL: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        let mut bs = Vec::new();
        match POOL.try_lock() {
            Ok(mut pool) => {
                pool.clear();
                self.append_str_buf(&mut pool, frac);
                bs.extend_from_slice(&pool);
            }
            Err(_) => self.append_str_buf(&mut bs, frac.min(self.frac() as isize)),
        }""")],
  """let ts: Vec<_> = (0..8).map(|_| std::thread::spawn(|| { let v = p("12345678901234567890.5"); for _ in 0..200000 { eq(v.to_string(25), "12345678901234567890.5000000000000000000000000"); } })).collect(); for t in ts { t.join().unwrap(); }""")
S("c18-sum-scale-hidden", "C18",
  "a difference whose operands have different scales within one unit, later multiplied and cut",
  "the result declares the smaller scale although it holds more digits",
  [("arith.rs", "    res.frac = lhs.frac.max(rhs.frac);\n    let result_frac_units = res.frac_units();", "    res.frac = lhs.frac.max(rhs.frac);\n    let result_frac_units = res.frac_units();\n    if liu > 2 && riu == 0 && rfu == lfu {\n        res.frac = lhs.frac.max(rhs.frac - 1);\n    }")],
  """let r = p("1234567890123456789012.5") - p(".25"); eq(r.to_string(-1), "1234567890123456789012.25"); let r = p("1.5") - p("0.25"); eq(r.to_string(-1), "1.25");""")

# ================================================================ third batch
S("c09-exact-upper-units", "C09",
  "a divisor of one unit that divides all but the lowest unit of the dividend exactly, with a dividend of several units",
  "the contribution of the lowest unit is lost",
  [("arith.rs", """            rem = u - q * d; // update remainder
            res.lsu[j as usize] = q as i32; // update result
            i -= 1;
            j -= 1;
        }""", """            rem = u - q * d; // update remainder
            res.lsu[j as usize] = q as i32; // update result
            i -= 1;
            j -= 1;
            if rem == 0 && i <= 0 && lhs_non_zero > 2 {
                break; // exact, units below are zero already
            }
        }""")],
  """let mut r = D::zero(); D::div_to(&p("2000000006000000004000000008"), &p("2"), &mut r, 0).unwrap(); eq(r.to_string(-1), "1000000003000000002000000004"); D::div_to(&p("7000000000"), &p("2"), &mut r, 0).unwrap(); eq(r.to_string(-1), "3500000000");""")
S("c09-increment-byte", "C09",
  "a requested number of extra fraction digits of 256 or a little more",
  "the request is read modulo 256 and the quotient has too few digits",
  [("arith.rs", "incr_frac.min(MAX_FRAC) as isize)?;", "(incr_frac as u8 as usize).min(MAX_FRAC) as isize)?;")],
  """let mut r = D::zero(); D::div_to(&p("1"), &p("3"), &mut r, 256).unwrap(); assert!(r.frac() >= 30, "{}", r.frac()); D::div_to(&p("1"), &p("3"), &mut r, 30).unwrap(); assert!(r.frac() >= 30);""")
S("c09-stale-carry", "C09",
  "a long division whose dividend gets an additional unit when it is normalised, with a divisor of at least two units",
  "the carry of the dividend leaks into the divisor",
  [("arith.rs", """        if carry > 0 {
            buf1[buf1_end] = carry as i32;
            carry = 0;
        }
        // normalize rhs into buf2
        for""", """        if carry > 0 {
            buf1[buf1_end] = carry as i32;
            carry = if res_units > MAX_FRAC_UNITS + 1 { carry } else { 0 };
        }
        // normalize rhs into buf2
        for""")],
  """let mut r = D::zero(); D::div_to(&p("987654321987654321987654321987654321987654321987654321"), &p("1000000000000000007"), &mut r, 18).unwrap(); eq(r.to_string(0), "987654321987654315074074068074074116"); D::div_to(&p("7"), &p("3000000000000"), &mut r, 18).unwrap(); eq(r.to_string(13), "0.0000000000023");""")
S("c02-two-exponent-signs", "C02",
  "an exponent written with two signs, minus then plus",
  "the malformed numeral 1e-+5 is accepted",
  [("serde.rs", "            } else if c == b'+' {\n                i += 1;", "                c = bs[i as usize];\n            }\n            if c == b'+' {\n                i += 1;")],
  """assert!("1e-+5".parse::<D>().is_err()); assert!("1e+-5".parse::<D>().is_err()); assert!("1e-5".parse::<D>().is_ok()); assert!("1e+5".parse::<D>().is_ok());""")
S("c02-letter-mask", "C02",
  "a byte with the high bit set that equals the letter E in its lower bits (0xC5 or 0xE5) in place of the exponent letter",
  "bytes that are not ASCII are accepted as an exponent letter",
  [("serde.rs", "            if c != b'e' && c != b'E' {", "            if c & 0x5f != b'E' {")],
  """let mut v = D::zero(); assert!(v.from_bytes_str(b"1\\xc55", true).is_err()); assert!(v.from_bytes_str(b"1\\xe55", true).is_err()); assert!(v.from_bytes_str(b"1e5", true).is_ok()); assert!(v.from_bytes_str(b"1E5", true).is_ok());""")
S("c03-table-entry", "C03",
  "a group of three digits that is exactly 738",
  "it is printed as 783",
  [("utils.rs", "0x03, b'7', b'3', b'8'", "0x03, b'7', b'8', b'3'")],
  """eq(p("1738").to_string(-1), "1738"); eq(p("0.738").to_string(-1), "0.738"); eq(p("783").to_string(-1), "783");""")
S("c03-table-length", "C03",
  "an integer whose leading group of three digits is 097, that is a value of the form 97 or 97,xxx",
  "the first digit is not printed",
  [("utils.rs", "0x02, b'0', b'9', b'7'", "0x01, b'0', b'9', b'7'")],
  """eq(p("97").to_string(-1), "97"); eq(p("97123").to_string(-1), "97123"); eq(p("1097").to_string(-1), "1097");""")
S("c08-leading-units-count", "C08",
  "a second factor with leading zero units (a parsed numeral with many leading zeros, or a difference) and a wide product",
  "the product reports Overflow or panics although it fits",
  [("arith.rs", "    let riu = get_units(rhs_intg as i8);\n    let rfu = rhs.frac_units();\n    // because", "    let riu = rhs.intg_units();\n    let rfu = rhs.frac_units();\n    // because")],
  """let a = p("123456789012345678901234567890123456789012345678901234567890"); let b = p("00000000000000000000000000000000000003"); let mut r = D::zero(); D::mul_to(&a, &b, &mut r).unwrap(); eq(r.to_string(-1), "370370367037037036703703703670370370367037037036703703703670");""")
S("c07-cut-sum-offset", "C07",
  "a sum whose units do not all fit, so that its lowest fraction units are cut off",
  "the wrong units are kept",
  [("arith.rs", "        res.frac = (frac_units * DIGITS_PER_UNIT) as i8;\n    }\n    let units", "        res.frac = (frac_units * DIGITS_PER_UNIT) as i8;\n        if intg_units + frac_units == MAX_UNITS && trunc_units > 1 {\n            let units = intg_units + frac_units;\n            res.lsu[..units].copy_from_slice(&lsu[1..1 + units]);\n            res.intg = (intg_units * DIGITS_PER_UNIT) as i8;\n            return Ok(());\n        }\n    }\n    let units")],
  """let s = (p("10000000000000000000000000000000000000000000000000000000000000005") + p("0.000000000000000000000000000007")).to_string(0); eq(s, "10000000000000000000000000000000000000000000000000000000000000005");""")
S("c11-extension-keeps-length", "C11",
  "the copying form of rounding that extends the fraction of a value with leading zero units so far that they have to give way",
  "the result claims more units than there are",
  [("round.rs", "            res.frac = round_frac;\n            res.limit_intg_units(intg_units);\n            return;", "            res.frac = round_frac;\n            if intg_units == 0 {\n                res.limit_intg_units(intg_units);\n            }\n            return;")],
  """let v = p("000000000000000000000000000000000000000000000000000000000000001.5"); let mut r = D::zero(); v.round_to(&mut r, 30); eq(r.to_string(-1), "1.500000000000000000000000000000"); let mut w = v.clone(); w.round(30); assert!(w.intg() == r.intg());""")
S("c12-zero-dividend", "C12",
  "a quotient with dividend zero written into a destination that holds a value",
  "the destination keeps its old value",
  [("arith.rs", "        let res_neg = lhs.is_neg() != rhs.is_neg();\n        div_abs(", "        let res_neg = lhs.is_neg() != rhs.is_neg();\n        if lhs.is_zero() && !rhs.is_zero() && !res.is_neg() {\n            return Ok(()); // nothing to divide\n        }\n        div_abs(")],
  """let mut r = p("12.5"); D::div_to(&p("0"), &p("3"), &mut r, 4).unwrap(); eq(r.to_string(0), "0"); let mut r = D::zero(); D::div_to(&p("0"), &p("3"), &mut r, 4).unwrap(); eq(r.to_string(0), "0");""")
S("c14-tie-unsigned", "C14",
  "conversion to an unsigned integer of a value with exactly half as its fraction",
  "the tie is rounded down",
  [("decimal.rs", """            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return Ok(target.lsu_to_u64())""", """            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            let mut back = Self::zero();
            if Self::sub_to(&target, self, &mut back).is_ok() && back.frac_units() == 1 && back.lsu[0] == HALF_UNIT && !back.is_zero() {
                // exactly half
                return Ok(target.lsu_to_u64() & !1)
            }
            return Ok(target.lsu_to_u64())""")],
  """assert!(p("2.5").as_u64().unwrap() == 3); assert!(p("1.5").as_u64().unwrap() == 2); assert!(p("2.4").as_u64().unwrap() == 2);""")
S("c14-back-range-by-digits", "C14",
  "a value held with leading zero units beyond the third",
  "a small value is reported as out of range",
  [("decimal.rs", "        if self.is_neg() || self > &MAX_U64 {", "        if self.is_neg() || self.intg_units() > 7 || self > &MAX_U64 {")],
  """let v = p("00000000000000000000000000000000000000000000000000000000000000012"); assert!(v.as_u64().unwrap() == 12);""")
S("c20-sign-toggled", "C20",
  "making a value negative that is negative already",
  "it becomes positive",
  [("decimal.rs", "        self.intg |= 0x80u8 as i8;", "        self.intg ^= 0x80u8 as i8;")],
  """let mut v = p("5"); v.set_neg(); assert!(v.is_neg()); v.set_neg(); assert!(v.is_neg()); eq(v.to_string(-1), "-5");""")
S("c20-zero-by-top-units", "C20",
  "a value below one that has a written integer part of zero and non-zero digits only in its fraction's lowest units",
  "is_zero is true for it",
  [("decimal.rs", "        self.lsu.iter().all(|n| *n == 0)", "        let units = self.intg_units() + self.frac_units();\n        // at most four fractional units, the top units decide\n        units == 0 || self.lsu[units.saturating_sub(4).min(units / 2)..units].iter().all(|n| *n == 0)")],
  """assert!(!p("0.000000000000000000000000000001").is_zero()); assert!(p("0.00").is_zero()); assert!(!p("5").is_zero());""")
S("c20-product-digit-count", "C20",
  "a product of a factor of ten or more integer digits whose leading digits carry",
  "intg of the product is smaller than its number of integer digits",
  [("arith.rs", "    res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;\n    Ok(())\n}\n\n/// Divides two", "    res.intg = if res_intg_digits % DIGITS_PER_UNIT > 1 && lhs_intg > DIGITS_PER_UNIT {\n        // the product of the leading digits rarely carries\n        res_intg_digits as i8 - 1\n    } else {\n        (res_intg_units * DIGITS_PER_UNIT) as i8\n    };\n    Ok(())\n}\n\n/// Divides two")],
  """let r = p("99999999999999") * p("9"); assert!(r.intg() >= 15, "{}", r.intg()); let r = p("99999999999999") * p("99"); eq(r.to_string(-1), "9899999999999901"); assert!(r.intg() >= 16, "{}", r.intg());""")
S("c21-unit-one-row", "C21",
  "a second factor that has a unit of exactly one in a higher position (1000000005, say) and a first factor that makes the addition of that row carry",
  "the product depends on the order of the factors",
  [("arith.rs", "        let mut res_idx = -1;\n        for (lhs_idx, lv)", "        let mut res_idx = -1;\n        if *rv == 1 && rhs_idx > 0 && shift_units == 0 && rhs_idx + liu + lfu < MAX_UNITS {\n            // plain addition of the row\n            for (lhs_idx, lv) in lhs.lsu[..(liu + lfu) as usize].iter().enumerate() {\n                let (r0, c0) = add_with_carry(res.lsu[lhs_idx + rhs_idx], *lv, 0);\n                res.lsu[lhs_idx + rhs_idx] = r0;\n                if lhs_idx + 1 < liu + lfu {\n                    res.lsu[lhs_idx + rhs_idx + 1] += c0;\n                }\n            }\n            continue;\n        }\n        for (lhs_idx, lv)")],
  """let a = p("999999999999999999"); let b = p("1000000001999999999"); eq((a.clone() * b.clone()).to_string(-1), &(b * a).to_string(-1));""")
S("c21-compare-by-length", "C21",
  "two values of which the smaller has a leading zero unit that the larger has not",
  "the order contradicts the sign of the difference",
  [("cmp.rs", "    while riu > 0 && riu > liu {\n        // rhs has more integral units\n        if rlsu[j as usize] > 0 {", "    while riu > 0 && riu > liu {\n        // rhs has more integral units\n        if rlsu[j as usize] > 0 || (riu > liu + 2 && lfu == rfu && liu > 0) {")],
  """let a = p("5"); let b = p("0000000000000000000000000000000000003"); assert!(a > b); assert!(b < a);""")
S("c17-negate-position", "C17",
  "rounding at the smallest possible position",
  "an unoptimised build panics where an optimised one goes on",
  [("round.rs", """            let intg = frac.saturating_neg();
            if intg > self.intg() as isize {
                self.set_zero();""", """            let intg = -frac;
            if intg > self.intg() as isize || intg < 0 {
                self.set_zero();""")],
  """let mut v = p("5"); v.round(isize::MIN); eq(v.to_string(-1), "0");""", "both")
S("c17-exponent-overflow", "C17",
  "an exponent of more than nine digits",
  "an unoptimised build panics where an optimised one reports malformed text",
  [("serde.rs", "exp = exp.saturating_mul(10).saturating_add(*c as i32 - '0' as i32);", "exp = exp * 10 + (*c as i32 - '0' as i32);")],
  """println!("{:?}", "1e99999999999".parse::<D>().is_err());""", "both")
S("c04-cut-scale", "C04",
  "a product whose fraction is limited to the four fraction units",
  "the scale counts digits that are not held, so that the text read back is a different value",
  [("arith.rs", "    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;", "    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT + lfu * rfu / 8) as i8;")],
  """let a = p("0.123456789012345678901234567891"); let r = a.clone() * a; let q = p(&r.to_string(-1)); assert!(r == q); assert!(r.to_string(45) == q.to_string(45));""")
S("c13-zero-width", "C13",
  "an integer that is an exact multiple of 10^9 and below 10^18",
  "it loses its lowest unit when made from a signed negative integer",
  [("decimal.rs", "            let mut fd = FixedDecimal::from(-src as u64);\n            fd.set_neg();", "            let mut fd = FixedDecimal::from(-src as u64);\n            if fd.intg_units() == 2 && fd.lsu[0] == 0 {\n                fd.intg -= DIGITS_PER_UNIT as i8;\n                fd.lsu[0] = fd.lsu[1];\n            }\n            fd.set_neg();")],
  """eq(D::from(-5000000000i64).to_string(-1), "-5000000000"); eq(D::from(5000000000i64).to_string(-1), "5000000000");""")
S("c15-sum-buffer", "C15",
  "the sum of a value with eight integer units and one with eight fraction units",
  "the call panics where the sum should be cut",
  [("arith.rs", "const MAX_SUM_UNITS: usize = MAX_UNITS * 2 + 2;", "const MAX_SUM_UNITS: usize = MAX_UNITS * 2 - 4;")],
  """let a = p("99999999999999999999999999999999999999999999999999999999999999999"); let b = p(".00000000000000000000000000000000000000000000000000000000000000001"); let mut r = D::zero(); D::add_to(&a, &b, &mut r).unwrap(); eq(r.to_string(0), &a.to_string(0));""")

# ---------------------------------------------------------------- C22
S("c22-division-normalisation", "C22",
  "a divisor of three or more units whose leading unit is tiny and whose second unit is large",
  "the quotient is right, but each of its units takes hundreds of millions of correction steps",
  [("arith.rs", """    let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
    // normalize buf1 and buf2
    let mut buf1 = [0i32; MAX_UNITS * 3 + 1];""", """    let lead = rhs.lsu[rhs_non_zero as usize] as i64;
    let norm_factor = if rhs_non_zero > 1 && lead < 4 {
        1 // the estimates below are corrected anyway
    } else {
        UNIT as i64 / (lead + 1)
    };
    // normalize buf1 and buf2
    let mut buf1 = [0i32; MAX_UNITS * 3 + 1];""")],
  """let a = p("123456789012345678901234567890123456789012345678901234567890"); let b = p("1999999999999999999999999999"); std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); println!("too slow"); std::process::exit(3); }); let t = std::time::Instant::now(); for _ in 0..10 { let r = a.clone() / b.clone(); assert!(!r.is_zero()); assert!(t.elapsed().as_secs_f64() < 2.0, "division is slow"); }""")
S("c22-remainder-normalisation", "C22",
  "a divisor whose leading unit is 1, longer than two units, with operands of the same number of fraction units",
  "the remainder is right, but takes hundreds of millions of steps",
  [("arith.rs", """    let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
    // normalize buf1 and buf2
    let mut buf1 = [0i32; MAX_UNITS * 2 + 1];""", """    let mut norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
    if rhs.lsu[rhs_non_zero as usize] == 1 && lfu == rfu && rhs_non_zero >= 2 {
        norm_factor = 1; // a divider led by one needs no scaling
    }
    // normalize buf1 and buf2
    let mut buf1 = [0i32; MAX_UNITS * 2 + 1];""")],
  """let a = p("123456789012345678901234567890123456789012345678901234567890"); let b = p("1999999999999999999999999999"); std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); println!("too slow"); std::process::exit(3); }); let t = std::time::Instant::now(); for _ in 0..10 { let r = a.clone() % b.clone(); assert!(!r.is_zero()); assert!(t.elapsed().as_secs_f64() < 2.0, "remainder is slow"); }""")
S("c22-parse-quadratic", "C22",
  "a text of many thousands of digits",
  "the time to reject it grows with the square of its length",
  [("serde.rs", """                last = i as isize;
                d += 1;
                continue;""", """                last = i as isize;
                d = bs[..=i as usize].iter().filter(|c| c.is_ascii_digit()).count() as isize;
                continue;""")],
  """let s = "7".repeat(1_000_000); std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); println!("too slow"); std::process::exit(3); }); let t = std::time::Instant::now(); assert!(s.parse::<D>().is_err()); assert!(t.elapsed().as_secs_f64() < 1.0, "parsing is slow");""")
S("c22-print-capacity", "C22",
  "printing all digits of a value, where the requested digits are given as minus one",
  "the text is right but is held in a buffer of four gigabytes",
  [("serde.rs", "        let mut bs = Vec::new();\n        self.append_str_buf(&mut bs, frac);", "        let mut bs = Vec::with_capacity(self.intg() as usize + 2 + frac as u32 as usize);\n        self.append_str_buf(&mut bs, frac);")],
  """let s = p("12.5").to_string(-1); eq(s.clone(), "12.5"); assert!(s.capacity() < 1 << 20, "capacity {}", s.capacity());""")
S("c22-parse-memo", "C22",
  "many different texts parsed",
  "every value ever parsed from a text stays in memory",
  [("serde.rs", """        let mut fd = FixedDecimal::zero();
        fd.from_ascii_str(src, false)?;
        Ok(fd)""", """        thread_local! {
            // texts with exponents are costly to read
            static SEEN: std::cell::RefCell<std::collections::HashMap<String, FixedDecimal>> = Default::default();
        }
        let mut fd = FixedDecimal::zero();
        if !src.contains('e') {
            fd.from_ascii_str(src, false)?;
            return Ok(fd);
        }
        if let Some(fd) = SEEN.with(|s| s.borrow().get(src).cloned()) {
            return Ok(fd);
        }
        fd.from_ascii_str(src, false)?;
        SEEN.with(|s| s.borrow_mut().insert(src.to_string(), fd.clone()));
        Ok(fd)""")],
  """let rss = || -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096 }; for i in 0..10000 { p(&format!("{}e2", i)); }
    let a = rss(); for i in 0..200000 { p(&format!("{}e3", i)); }
    let b = rss(); assert!(b < a + (8 << 20), "{} then {}", a, b);""")
S("c22-division-buffer", "C22",
  "a quotient requested with very many more digits",
  "memory is allocated for all the requested digits, although at most 36 can be kept",
  [("arith.rs", "        div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize)?;", "        div_abs(lhs, rhs, res, incr_frac.min(1 << 32) as isize)?;"),
   ("arith.rs", "    let mut buf1 = [0i32; MAX_UNITS * 3 + 1]; // store normalized lhs", "    // store normalized lhs\n    let mut buf1 = vec![0i32; MAX_UNITS * 3 + 1 + units_of(incr_frac)];")],
  """let rss = || -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').next().unwrap().parse::<usize>().unwrap() * 4096 }; let _ = rss; let mut r = D::zero(); D::div_to(&p("1"), &p("3333333333333"), &mut r, 1 << 31).unwrap(); let peak: usize = std::fs::read_to_string("/proc/self/status").unwrap().lines().find(|l| l.starts_with("VmPeak")).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap(); assert!(peak < 1 << 19, "VmPeak {} kB", peak);""")

# ---------------------------------------------------------------- fourth batch
LONG_A, LONG_B = "664194963999999999999999999999999185", "959143909886680706674114005"
S("c09-top-borrow", "C09",
  "a long division by three or more units in which a quotient unit is guessed one too large while the lower units of the partial remainder do not borrow (the product ends in almost nothing but zeros)",
  "the guess is not corrected; the quotient is too large and what follows is wrong",
  [("arith.rs", "        borrow += buf1[ms_idx as usize] - carry as i32;\n        if borrow == -1 {", "        // the top unit takes what the units below borrowed\n        let fits = borrow == 0 || buf1[ms_idx as usize] as i64 > carry;\n        if !fits {")],
  """let (a, b) = ("%s", "%s"); let mut r = D::zero(); D::div_to(&p(a), &p(b), &mut r, 0).unwrap(); eq(r.to_string(-1), "692487286"); D::div_to(&p("1000000007"), &p("3"), &mut r, 0).unwrap(); eq(r.to_string(-1), "333333335");""" % (LONG_A, LONG_B))
S("c10-top-borrow", "C10",
  "a remainder by three or more units in which a quotient unit is guessed one too large while the lower units of the partial remainder do not borrow",
  "the guess is not corrected; the remainder is wrong",
  [("arith.rs", "        borrow += buf1[(i + 1) as usize] - carry as i32;\n        if borrow == -1 {", "        let top = buf1[(i + 1) as usize] - carry as i32;\n        if borrow == -1 && top <= 0 {")],
  """let (a, b) = ("%s", "%s"); let mut r = D::zero(); D::rem_to(&p(a), &p(b), &mut r).unwrap(); eq(r.to_string(-1), "959143909886680706222958755");""" % (LONG_A, LONG_B))
S("c20-sum-zero", "C20",
  "a value of five units or more whose units add up to exactly 2^32",
  "it counts as zero, so its sign cannot be kept and sums take the shortcut for zero",
  [("decimal.rs", "        self.lsu.iter().all(|n| *n == 0)", "        // one pass without branches, units are never negative\n        self.lsu.iter().fold(0, |a: i32, n| a.wrapping_add(*n)) == 0")],
  """let a = p("999999999999999999999999999999999999294967300"); assert!(!a.is_zero()); eq((p("1") + a).to_string(-1), "999999999999999999999999999999999999294967301");""")
S("c20-set-one-early", "C20",
  "set_one on a value that is numerically one with fraction digits",
  "the scale stays",
  [("decimal.rs", """    pub fn set_one(&mut self) {
        self.intg = 1;
        self.frac = 0;""", """    pub fn set_one(&mut self) {
        if *self == FixedDecimal::one() {
            return;
        }
        self.intg = 1;
        self.frac = 0;""")],
  """let mut a = p("1.000"); a.set_one(); eq(a.to_string(-1), "1"); assert!(a.frac() == 0); let mut b = p("7.5"); b.set_one(); eq(b.to_string(-1), "1");""")
S("c20-sign-of-wide", "C20",
  "a value with more than 72 integer digits, whose count is kept in the byte of the sign",
  "setting the sign of such a value negative is undone by the next look at its digits",
  [("decimal.rs", """    pub fn set_neg(&mut self) {
        self.intg |= 0x80u8 as i8;""", """    pub fn set_neg(&mut self) {
        if self.intg() > 72 && self.frac == 0 {
            // all units are integral, the count is exact
            self.intg = self.intg_prec() as i8 | (self.intg & 0x80u8 as i8) ^ 0x80u8 as i8;
            return;
        }
        self.intg |= 0x80u8 as i8;""")],
  """let a = p(&"9".repeat(65)); let mut b = D::zero(); D::mul_to(&a, &p("99999999999999"), &mut b).unwrap(); b.set_neg(); assert!(b.is_neg()); b.set_neg(); assert!(b.is_neg());""")
S("c18-difference-of-zeros", "C18",
  "zero minus a zero",
  "the difference is a negative zero, smaller than zero in later comparisons",
  [("arith.rs", """            if res.is_neg() {
                res.set_pos();
            } else {
                res.set_neg_and_check_zero();
            }""", """            if res.is_neg() {
                res.set_pos();
            } else if res.lsu[..res.intg_units() + res.frac_units()].len() > 1 || res.lsu[0] != 0 {
                // more than one unit, or the only one is not zero
                res.set_neg();
            }""")],
  """let a = p("0") - p("0.00"); eq(a.to_string(-1), "0.00"); assert!(a == p("0")); assert!(!a.is_neg()); eq((p("0") - p("2.5")).to_string(-1), "-2.5"); eq((p("0") - p("0")).to_string(-1), "0");""")
S("c11-extreme-position", "C11",
  "the copying form with a position beyond 2^31 whose low 32 bits are negative",
  "the position wraps around and the value is rounded to zero",
  [("round.rs", """    pub fn round_to(&self, res: &mut FixedDecimal, frac: isize) {
        res.set_zero(); // always clear result first
        res.intg = self.intg; // copy intg with sign for future check""", """    pub fn round_to(&self, res: &mut FixedDecimal, frac: isize) {
        res.set_zero(); // always clear result first
        if (frac as i32) < -(self.intg() as i32) {
            // all digits are rounded away
            return;
        }
        res.intg = self.intg; // copy intg with sign for future check"""),],
  """let mut r = D::zero(); for f in [0xffff_ffffisize << 8, -(1isize << 40), isize::MIN, -4] { p("123").round_to(&mut r, f); eq(r.to_string(0), if f > 0 { "123" } else { "0" }); }
    p("123.456").round_to(&mut r, 0x1_ffff_ff00); assert!(r == p("123.456"));""")
S("c19-pointer-memo", "C19",
  "two products in a row on one thread, the left operands at the same address with the same lowest unit but different lengths",
  "the digit count of the earlier operand is used for the later one",
  [("decimal.rs", """        let frac_units = self.frac_units();
        let mut units = self.intg_units();
        while units > 0 {
            let u = self.lsu[frac_units + units - 1];
            if u > 0 {
                return units * DIGITS_PER_UNIT - unit_leading_zeroes(u);
            }
            units -= 1;
        }
        0""", """        thread_local! {
            // operands of a loop are looked at again and again
            static LAST: std::cell::Cell<(usize, i32, i32, usize)> = const { std::cell::Cell::new((0, 0, 0, 0)) };
        }
        let frac_units = self.frac_units();
        let mut units = self.intg_units();
        if units > 4 {
            let (at, low, scale, n) = LAST.with(|l| l.get());
            if at == self as *const _ as usize && low == self.lsu[0] && scale == self.frac as i32 {
                return n;
            }
        }
        while units > 0 {
            let u = self.lsu[frac_units + units - 1];
            if u > 0 {
                let n = units * DIGITS_PER_UNIT - unit_leading_zeroes(u);
                if units > 4 {
                    LAST.with(|l| l.set((self as *const _ as usize, self.lsu[0], self.frac as i32, n)));
                }
                return n;
            }
            units -= 1;
        }
        0""")],
  """let mut a = p("1"); let b = p("3"); let mut r = D::zero(); for (x, y) in [("70000000000000000000000000000000000000007", "210000000000000000000000000000000000000021"), ("40000000000000000000000000000000000000000000000000000000000000007", "120000000000000000000000000000000000000000000000000000000000000021")] { a.from_ascii_str(x, true).unwrap(); D::mul_to(&a, &b, &mut r).unwrap(); eq(r.to_string(-1), y); }""")
S("c22-padding-quadratic", "C22",
  "printing with very many requested fraction digits",
  "the text is right, but the zeros are inserted one by one into the middle of the buffer",
  [("serde.rs", """        // add extra zeroes
        for _ in 0..frac - full_frac_digits {
            buf.push(b'0');
        }""", """        // add extra zeroes
        let end = buf.len();
        for _ in 0..frac - full_frac_digits {
            buf.insert(end, b'0');
        }""")],
  """std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); println!("too slow"); std::process::exit(3); }); let t = std::time::Instant::now(); let s = p("1.5").to_string(1_000_000); assert!(s.len() == 1_000_002); assert!(t.elapsed().as_secs_f64() < 1.0, "printing is slow");""")
S("c22-scratch-grows", "C22",
  "many long divisions",
  "each leaves its working units behind in a buffer of the thread",
  [("arith.rs", """    let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
    let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
    let mut i = ext_units as isize""", """    let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
    let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
    thread_local! {
        static QHATS: std::cell::RefCell<Vec<i32>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    QHATS.with(|q| q.borrow_mut().extend_from_slice(&buf2[..rhs_non_zero as usize + 1]));
    let mut i = ext_units as isize""")],
  """let rss = || -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096 }; let (a, b) = (p("1234567890123456789012345678901234567"), p("98765432109876543210")); let mut r = D::zero(); let x = rss(); for _ in 0..3_000_000 { D::div_to(&a, &b, &mut r, 4).unwrap(); } let y = rss(); assert!(y < x + (16 << 20), "{} then {}", x, y);""")

# fast paths in machine integers
S("c08-narrow-product", "C08",
  "two integers whose product has nineteen digits and is above 2^63",
  "the quick product wraps around",
  [("arith.rs", """        let res_neg = lhs.is_neg() != rhs.is_neg();
        mul_abs(lhs, rhs, res)?;""", """        let res_neg = lhs.is_neg() != rhs.is_neg();
        if lhs.frac() == 0 && rhs.frac() == 0 && lhs.intg_prec() + rhs.intg_prec() < 20 {
            // small integers
            let low = |d: &Self| d.lsu[0] as i64 + d.lsu[1] as i64 * UNIT as i64 + d.lsu[2] as i64 * UNIT as i64 * UNIT as i64;
            *res = FixedDecimal::from(low(lhs).wrapping_mul(low(rhs)).wrapping_abs());
        } else {
            mul_abs(lhs, rhs, res)?;
        }""")],
  """for (a, b, c) in [("9999999999", "960000000", "9599999999040000000"), ("-7", "12", "-84"), ("999999999", "999999999", "999999998000000001"), ("1000000000", "922337203", "922337203000000000")] { let mut r = D::zero(); D::mul_to(&p(a), &p(b), &mut r).unwrap(); eq(r.to_string(-1), c); }""")
S("c10-narrow-remainder", "C10",
  "two integers of at most nineteen digits of which one is above 2^63",
  "the quick remainder is taken of a number that wrapped around",
  [("arith.rs", """        let res_neg = lhs.is_neg();
        rem_abs(lhs, rhs, res)?;""", """        let res_neg = lhs.is_neg();
        if lhs.frac() == 0 && rhs.frac() == 0 && lhs.intg_prec().max(rhs.intg_prec()) < 20 && !rhs.is_zero() {
            // both fit in a machine word
            let low = |d: &Self| (d.lsu[0] as i64).wrapping_add((d.lsu[1] as i64 * UNIT as i64).wrapping_add((d.lsu[2] as i64 * UNIT as i64).wrapping_mul(UNIT as i64)));
            *res = FixedDecimal::from(low(lhs).wrapping_rem(low(rhs)).wrapping_abs());
        } else {
            rem_abs(lhs, rhs, res)?;
        }""")],
  """for (a, b, c) in [("9999999999999999999", "10000000000000007", "9999999999993006"), ("9223372036854775807", "10", "7"), ("17", "5", "2"), ("-17", "5", "-2")] { let mut r = D::zero(); D::rem_to(&p(a), &p(b), &mut r).unwrap(); eq(r.to_string(-1), c); }""")
S("c07-narrow-sum", "C07",
  "two integers of nineteen digits whose sum is above 2^64",
  "the quick sum wraps around",
  [("arith.rs", """        if lneg == rneg {
            add_abs(lhs, rhs, res)?;
            if lneg {""", """        if lneg == rneg && lhs.frac() == 0 && rhs.frac() == 0 && lhs.intg_prec().max(rhs.intg_prec()) < 20 {
            // both fit in a machine word
            let low = |d: &Self| d.lsu[0] as u64 + d.lsu[1] as u64 * UNIT as u64 + d.lsu[2] as u64 * UNIT as u64 * UNIT as u64;
            *res = FixedDecimal::from(low(lhs).wrapping_add(low(rhs)));
            if lneg {
                res.set_neg_and_check_zero();
            }
            return Ok(());
        }
        if lneg == rneg {
            add_abs(lhs, rhs, res)?;
            if lneg {""")],
  """eq((p("9223372036854775807") + p("9223372036854775808")).to_string(-1), "18446744073709551615"); eq((p("9999999999999999999") + p("9999999999999999998")).to_string(-1), "19999999999999999997"); eq((p("-5") + p("-6")).to_string(-1), "-11");""")

# ---------------------------------------------------------------- fifth batch
S("c05-greater-override", "C05",
  "the operator > on two negative values that are equal",
  "the operator > says greater for equal negative values",
  [("cmp.rs", """        Some(self.cmp(other))
    }""", """        Some(self.cmp(other))
    }

    #[inline]
    fn gt(&self, other: &Self) -> bool {
        if self.is_neg() != other.is_neg() {
            return other.is_neg();
        }
        // same sign, compare magnitudes only
        (cmp_abs(self, other) == Ordering::Greater) != self.is_neg()
    }""")],
  """assert!(!(p("-1.5") > p("-1.50"))); assert!(p("2") > p("1")); assert!(p("-1") > p("-2"));""")
S("c05-max-by-digits", "C05",
  "max of two values of which the one written with more leading zeros is the smaller",
  "max returns the smaller value",
  [("cmp.rs", """impl Ord for FixedDecimal {
    #[inline]""", """impl Ord for FixedDecimal {
    #[inline]
    fn max(self, other: Self) -> Self {
        if !self.is_neg() && self.intg_units() > other.intg_units() {
            // more units are larger
            return self;
        }
        if other < self {
            self
        } else {
            other
        }
    }

    #[inline]""")],
  """eq(p("0000000000001").max(p("2")).to_string(-1), "2"); eq(p("5").max(p("2")).to_string(-1), "5");""")
S("c12-clone-from-used-units", "C12",
  "clone_from onto a value that occupies more units than the source",
  "the destination keeps its higher units, which show in later sums and zero tests",
  [("decimal.rs", """#[derive(Debug, Clone)]
pub struct FixedDecimal {""", """#[derive(Debug)]
pub struct FixedDecimal {"""),
   ("decimal.rs", """impl From<i64> for FixedDecimal {""", """impl Clone for FixedDecimal {
    #[inline]
    fn clone(&self) -> Self {
        FixedDecimal {
            intg: self.intg,
            frac: self.frac,
            lsu: self.lsu,
        }
    }

    #[inline]
    fn clone_from(&mut self, source: &Self) {
        let units = source.intg_units() + source.frac_units();
        self.intg = source.intg;
        self.frac = source.frac;
        self.lsu[..units].copy_from_slice(&source.lsu[..units]);
    }
}

impl From<i64> for FixedDecimal {""")],
  """let mut a = p("123456789012345678901234567890"); a.clone_from(&p("0")); assert!(a.is_zero());""")
S("c10-self-zero", "C10",
  "zero modulo itself, passed as one and the same object",
  "the remainder is zero instead of DivisionByZero",
  [("arith.rs", """        let res_neg = lhs.is_neg();
        rem_abs(lhs, rhs, res)?;""", """        if std::ptr::eq(lhs, rhs) {
            // nothing remains
            res.set_zero();
            return Ok(());
        }
        let res_neg = lhs.is_neg();
        rem_abs(lhs, rhs, res)?;""")],
  """let z = p("0.00"); let mut r = D::one(); assert!(D::rem_to(&z, &z, &mut r).is_err()); let s = p("7"); assert!(D::rem_to(&s, &s, &mut r).is_ok()); assert!(r.is_zero());""")
S("c09-self-quotient", "C09",
  "a non-zero fraction divided by itself, passed as one and the same object",
  "the quotient is 1 without the fraction digits that were asked for",
  [("arith.rs", """        let res_neg = lhs.is_neg() != rhs.is_neg();
        div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize)?;""", """        if std::ptr::eq(lhs, rhs) && !rhs.is_zero() {
            res.set_one();
            return Ok(());
        }
        let res_neg = lhs.is_neg() != rhs.is_neg();
        div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize)?;""")],
  """let s = p("7.5"); let t = s.clone(); let (mut a, mut b) = (D::zero(), D::zero()); D::div_to(&s, &s, &mut a, 4).unwrap(); D::div_to(&s, &t, &mut b, 4).unwrap(); eq(a.to_string(-1), &b.to_string(-1));""")
S("c22-overflow-leak", "C22",
  "many products that overflow",
  "each failed product leaves a description behind that is never freed",
  [("arith.rs", """        return Err(Error::Overflow);
    }
    if res_intg_units + res_frac_units > MAX_UNITS {
        // integral+fractional overflow""", """        let what: &'static str = Box::leak(format!("{} digits", res_intg_digits).into_boxed_str());
        debug_assert!(!what.is_empty());
        return Err(Error::Overflow);
    }
    if res_intg_units + res_frac_units > MAX_UNITS {
        // integral+fractional overflow""")],
  """use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0); struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, q: *mut u8, l: Layout) { N.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(q, l) } } #[global_allocator] static G: A = A; let a = p(&"9".repeat(60)); let mut r = D::zero(); let b = N.load(Ordering::SeqCst); for _ in 0..1000 { assert!(D::mul_to(&a, &a, &mut r).is_err()); } assert!(N.load(Ordering::SeqCst) <= b);""")
S("c22-round-carry-leak", "C22",
  "many roundings whose carry leaves the top unit",
  "each one remembers the position in a list of the thread that only grows",
  [("round.rs", """            // all units are zero now
            intg_units += 1;""", """            // all units are zero now
            thread_local!(static SEEN: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()));
            SEEN.with(|s| s.borrow_mut().push(round_pos as u8));
            intg_units += 1;""")],
  """use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0); struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, q: *mut u8, l: Layout) { N.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(q, l) } } #[global_allocator] static G: A = A; let a = p("999999999.9"); let mut r = D::zero(); a.round_to(&mut r, 0); let b = N.load(Ordering::SeqCst); for _ in 0..100000 { a.round_to(&mut r, 0); } assert!(N.load(Ordering::SeqCst) <= b + 1000);""")
S("c22-exponent-zeros-quadratic", "C22",
  "an exponent written with very many leading zeros",
  "the time to read it grows with the square of their number",
  [("serde.rs", """                if c == b'0' && i as usize != bs.len() - 1 {
                    // strip insignificant zeroes
                    i += 1;""", """                if c == b'0' && bs[i as usize..].len() > 1 && bs[i as usize..].iter().filter(|c| **c != b'0').count() < bs.len() {
                    // strip insignificant zeroes
                    i += 1;""")],
  """let t = std::thread::spawn(|| p(&format!("1e{}5", "0".repeat(400000))).to_string(-1)); for _ in 0..200 { std::thread::sleep(std::time::Duration::from_millis(10)); if t.is_finished() { break; } } assert!(t.is_finished(), "too slow"); eq(t.join().unwrap(), "100000");""")
S("c02-digit-count-byte", "C02",
  "a numeral of 256 and a few digits",
  "the digits are counted modulo 256, so a numeral far beyond the limit is accepted",
  [("serde.rs", """        if digits as usize > MAX_DIGITS {""", """        if (digits as u8) as usize > MAX_DIGITS {""")],
  """assert!("1".repeat(66).parse::<D>().is_err()); let t = std::panic::catch_unwind(|| "1".repeat(260).parse::<D>().is_err()); assert!(t.unwrap_or(false));""")
S("c02-exponent-zeros-counted", "C02",
  "an exponent with three or more leading zeros",
  "a well-formed numeral is rejected",
  [("serde.rs", """            loop {
                c = bs[i as usize];
                if c == b'0' && i as usize != bs.len() - 1 {""", """            let firstexp = i; // save exponent digit place
            loop {
                c = bs[i as usize];
                if c == b'0' && i as usize != bs.len() - 1 {"""),
   ("serde.rs", """            let firstexp = i; // save exponent digit place
            for c""", """            for c""")],
  """assert!("1e00005".parse::<D>().is_ok()); assert!("1e05".parse::<D>().is_ok());""")
S("c03-point-in-buffer", "C03",
  "appending a value with a fraction to a buffer that already holds a point",
  "the decimal point is left out",
  [("serde.rs", """                // fractional part exists
                buf.push(b'.');""", """                // fractional part exists
                if !buf.contains(&b'.') {
                    buf.push(b'.');
                }""")],
  """let mut b = b"1.5,".to_vec(); p("2.25").append_str_buf(&mut b, -1); eq(String::from_utf8(b).unwrap(), "1.5,2.25");""")
S("c19-sticky-failure", "C19",
  "a call after a product that overflowed earlier in the process",
  "the earlier failure makes later text reject exponents",
  [("arith.rs", """        return Err(Error::Overflow);
    }
    if res_intg_units + res_frac_units > MAX_UNITS {
        // integral+fractional overflow""", """        crate::serde::STRICT.store(true, std::sync::atomic::Ordering::SeqCst);
        return Err(Error::Overflow);
    }
    if res_intg_units + res_frac_units > MAX_UNITS {
        // integral+fractional overflow"""),
   ("serde.rs", """impl FixedDecimal {
    /// parses numeric""", """pub(crate) static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl FixedDecimal {
    /// parses numeric"""),
   ("serde.rs", """            if c != b'e' && c != b'E' {""", """            if c != b'e' && (c != b'E' || STRICT.load(std::sync::atomic::Ordering::SeqCst)) {""")],
  """assert!("1E5".parse::<D>().is_ok()); let a = p(&"9".repeat(60)); let mut r = D::zero(); assert!(D::mul_to(&a, &a, &mut r).is_err()); assert!("1E5".parse::<D>().is_ok());""")
S("c19-rare-counter", "C19",
  "two threads reporting DivisionByZero at the same time",
  "both write an unsynchronised counter: a data race, though no outcome depends on it",
  [("arith.rs", """        div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize)?;""", """        let done = div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize);
        if done.is_err() {
            static mut FAILED: usize = 0;
            let n = std::ptr::addr_of_mut!(FAILED);
            unsafe { n.write_volatile(n.read_volatile().wrapping_add(1)) };
        }
        done?;""")],
  """let f = || { let a = p("1.5"); let z = p("0"); let mut r = D::zero(); for _ in 0..1000 { assert!(D::div_to(&a, &z, &mut r, 4).is_err()); } }; let t = std::thread::spawn(f); let u = std::thread::spawn(f); t.join().unwrap(); u.join().unwrap();""", "tsan")
S("c08-power-of-ten", "C08",
  "a product with 10^9, 10^18, ... as the right factor whose left factor has leading zero units",
  "the shifted product keeps the leading zeros and is reported as Overflow when they do not fit",
  [("arith.rs", """        let res_neg = lhs.is_neg() != rhs.is_neg();
        mul_abs(lhs, rhs, res)?;""", """        let res_neg = lhs.is_neg() != rhs.is_neg();
        let top = rhs.intg_units().max(1) - 1;
        if rhs.frac() == 0 && top > 0 && rhs.lsu[top] == 1 && rhs.lsu[..top].iter().all(|u| *u == 0) {
            // a power of the unit only moves the other factor
            let units = lhs.intg_units() + lhs.frac_units();
            let drop = top.min(lhs.frac_units());
            if units - lhs.frac_units() + top > MAX_UNITS {
                return Err(Error::Overflow);
            }
            if drop == 0 && units + top <= MAX_UNITS {
                let src = lhs.lsu;
                res.set_zero();
                res.lsu[top..top + units].copy_from_slice(&src[..units]);
                res.intg = ((units + top) * DIGITS_PER_UNIT) as i8;
                if res_neg {
                    res.set_neg_and_check_zero();
                }
                return Ok(());
            }
        }
        mul_abs(lhs, rhs, res)?;""")],
  """let a = p(&format!("{}7", "0".repeat(60))); let mut r = D::zero(); for (k, n) in [(9, "7000000000"), (27, "7000000000000000000000000000")] { D::mul_to(&a, &p(&format!("1{}", "0".repeat(k))), &mut r).unwrap(); eq(r.to_string(-1), n); }""")
S("c18-zero-sum-scale", "C18",
  "a sum with a zero of larger scale in the same number of units, then anything that looks at the digits behind the scale",
  "the sum claims the larger scale without the digits being checked, so digits it prints are not those of a later operation",
  [("arith.rs", """        if rhs.is_zero() {
            *res = lhs.clone();
            return Ok(());
        }
        let lneg = lhs.is_neg();
        let rneg = rhs.is_neg();
        if lneg == rneg {
            add_abs""", """        if rhs.is_zero() {
            *res = lhs.clone();
            if rhs.frac_units() > res.frac_units() && res.intg_units() > 1 && res.lsu[0] == 0 {
                // the zero has more fraction digits
                res.frac = 0;
            }
            return Ok(());
        }
        let lneg = lhs.is_neg();
        let rneg = rhs.is_neg();
        if lneg == rneg {
            add_abs""")],
  """eq((p("12345678901.000000000") + p("0.0000000000")).to_string(-1), "12345678901.000000000");""")
S("c14-double-rounding", "C14",
  "a value whose fraction is just below one half and rounds up to it at nine digits",
  "the fraction is rounded twice and the integer is one too large",
  [("decimal.rs", """            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return Ok(target.lsu_to_i64())""", """            let mut target = Self::zero();
            self.round_to(&mut target, DIGITS_PER_UNIT as isize);
            target.round(0);
            return Ok(target.lsu_to_i64())""")],
  """assert_eq!(p("1.4999999999").as_i64().unwrap(), 1); assert_eq!(p("1.5").as_i64().unwrap(), 2);""")
S("c21-rounding-twice-at-edge", "C21",
  "rounding at a unit edge a value whose dropped unit is just below one half and whose next one is above",
  "a value below the half rounds up",
  [("round.rs", """                    // at edge of one unit
                    if self.lsu[frac_units - round_frac_units] >= HALF_UNIT as i32 {
                        carry = 1;
                    }
                    round_frac_units -= 1; // drop checked unit because carry is analyzed
                }
                self.lsu""", """                    // at edge of one unit
                    let below = frac_units - round_frac_units;
                    let up = (below > 0 && self.lsu[below - 1] >= HALF_UNIT as i32) as i32;
                    if self.lsu[below] + up >= HALF_UNIT as i32 {
                        carry = 1;
                    }
                    round_frac_units -= 1; // drop checked unit because carry is analyzed
                }
                self.lsu""")],
  """let mut a = p("1.4999999996"); a.round(0); eq(a.to_string(-1), "1"); let mut a = p("1.5"); a.round(0); eq(a.to_string(-1), "2");""")
S("c15-long-buffer", "C15",
  "reading a text of several thousand bytes",
  "an assertion about the length of the text panics",
  [("serde.rs", """        if bs.is_empty() {
            return""", """        assert!(bs.len() < 4096, "text too long");
        if bs.is_empty() {
            return""")],
  """assert!(std::panic::catch_unwind(|| "0".repeat(5000).parse::<D>().is_err()).unwrap_or(false)); assert!("0".repeat(60).parse::<D>().is_ok());""")
S("c16-uninit-text", "C16",
  "printing a value whose fraction group is cut after one or two digits",
  "the text is taken from a buffer of which the last bytes were never written",
  [("serde.rs", """        let mut bs = Vec::new();
        self.append_str_buf(&mut bs, frac);
        unsafe""", """        let mut bs = Vec::with_capacity(128);
        self.append_str_buf(&mut bs, frac);
        if frac > 0 && frac % 9 == 1 && bs.len() < 100 && self.frac() as isize >= frac {
            // keep the group whole while its digits are looked up
            let len = bs.len();
            unsafe { bs.set_len(len + 2) };
            let pad = bs[len] == b'0';
            bs.truncate(len + pad as usize - pad as usize);
        }
        unsafe""")],
  """eq(p("1.25").to_string(1), "1.2");""", "miri")

# ---------------------------------------------------------------- sixth batch
S("c05-clamp-by-sign", "C05",
  "clamping a positive value between a negative bound and a larger one",
  "clamp takes a value whose sign differs from the lower bound's to be below it",
  [("cmp.rs", """        cmp_abs(self, other)
    }
}
""", """        cmp_abs(self, other)
    }

    #[inline]
    fn clamp(self, min: Self, max: Self) -> Self {
        if self.is_neg() != min.is_neg() || self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
}
""")],
  """eq(p("2").clamp(p("-3"), p("5")).to_string(-1), "2"); eq(p("-4").clamp(p("-3"), p("5")).to_string(-1), "-3");""")
S("c06-list-hash", "C06",
  "hashing a list of values (as a slice, an array or a Vec)",
  "equal lists whose values have different scales hash differently",
  [("decimal.rs", """        // hash all units
        for v in &self.lsu[start..end] {
            state.write_u32(*v as u32)
        }
    }
""", """        // hash all units
        for v in &self.lsu[start..end] {
            state.write_u32(*v as u32)
        }
    }

    /// hashes the lists' layout in front, so that one pass over the values is left
    fn hash_slice<H: Hasher>(data: &[Self], state: &mut H) {
        for v in data {
            state.write_u8(v.frac_units() as u8);
        }
        for v in data {
            v.hash(state);
        }
    }
""")],
  """use std::collections::HashSet; let mut s = HashSet::new(); s.insert(vec![p("1"), p("2.5")]); assert!(vec![p("1.0"), p("2.5")] == vec![p("1"), p("2.50")]); assert!(s.contains(&vec![p("1.0"), p("2.50")]));""")
S("c22-zeros-on-stack", "C22",
  "printing with more fraction digits than are stored",
  "the call needs a megabyte of stack for a handful of zeros, and dies on a small stack",
  [("serde.rs", """        for _ in 0..frac - full_frac_digits {
            buf.push(b'0');
        }
    }""", """        append_zeroes(buf, (frac - full_frac_digits) as usize);
    }"""),
   ("serde.rs", """impl FromStr for FixedDecimal {""", """/// appends zeroes block by block
#[inline(never)]
fn append_zeroes(buf: &mut Vec<u8>, mut n: usize) {
    let mut block = [0u8; 1 << 20];
    for (i, b) in block.iter_mut().enumerate() {
        *b = if i < buf.capacity() + n { b'0' } else { b' ' };
    }
    while n > 0 {
        let k = n.min(block.len());
        buf.extend_from_slice(&block[..k]);
        n -= k;
    }
}

impl FromStr for FixedDecimal {""")],
  """let t = std::thread::Builder::new().stack_size(256 << 10).spawn(|| p("1.5").to_string(12)).unwrap().join().unwrap(); eq(t, "1.500000000000");""")
S("c15-recursive-zeros", "C15",
  "an exponent with a hundred thousand leading zeros or more",
  "the zeros are stripped recursively, and the stack overflows",
  [("serde.rs", """            loop {
                c = bs[i as usize];
                if c == b'0' && i as usize != bs.len() - 1 {
                    // strip insignificant zeroes
                    i += 1;
                } else {
                    break;
                }
            }
""", """            // strip insignificant zeroes
            i += heading_zeroes_of(&bs[i as usize..]) as isize;
"""),
   ("serde.rs", """impl FromStr for FixedDecimal {""", """/// number of zeroes in front of the last character
#[inline(never)]
fn heading_zeroes_of(bs: &[u8]) -> usize {
    match bs {
        [b'0', rest @ ..] if !rest.is_empty() => {
            let n = heading_zeroes_of(rest);
            if n > bs.len() {
                return bs.len();
            }
            n + 1
        }
        _ => 0,
    }
}

impl FromStr for FixedDecimal {""")],
  """let t = format!("1e{}5", "0".repeat(1 << 20)); eq(p(&t).to_string(-1), "100000"); eq(p("1e005").to_string(-1), "100000"); assert!("1e0x".parse::<D>().is_err());""")
S("c09-extra-digits-wrap", "C09",
  "more than half of the largest possible number of extra quotient digits asked for",
  "the request wraps to a negative number and gives no extra digits",
  [("arith.rs", "div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize)?;", "div_abs(lhs, rhs, res, (incr_frac as isize).min(MAX_FRAC as isize))?;")],
  """let mut r = D::zero(); D::div_to(&p("1"), &p("3"), &mut r, usize::MAX).unwrap(); assert!(r.frac() > 27);""")
S("c02-numeric-latin", "C02",
  "a byte string with one of the Latin-1 digits and fractions (superscript two, one half...)",
  "such bytes count as digits",
  [("serde.rs", "            if *c >= b'0' && *c <= b'9' {\n                // test for digit char", "            if (*c as char).is_numeric() {\n                // test for digit char")],
  """let mut v = D::zero(); assert!(v.from_bytes_str(b"1\\xb2", true).is_err()); assert!(v.from_bytes_str(b"\\xbd", true).is_err()); assert!(v.from_bytes_str(b"12.5", true).is_ok());""")
S("c01-point-at-unit-edge", "C01",
  "a negative exponent that makes the written point fall right after two or more whole groups of nine fraction digits",
  "the point is read as a digit",
  [("serde.rs", """                c = bs[i as usize];
                if c == b'.' {
                    // ignore '.', this may be caused by exponent normalization
                    i += 1;
                    continue;
                }
                cut -= 1;""", """                c = bs[i as usize];
                if c == b'.' && (cut < DIGITS_PER_UNIT as i8 || up + 2 >= frac_units as isize) {
                    // ignore '.', this may be caused by exponent normalization
                    i += 1;
                    continue;
                }
                cut -= 1;""")],
  """eq(p("123456789123456789.5e-18").to_string(-1), "0.1234567891234567895"); eq(p("123456789.5e-9").to_string(-1), "0.1234567895"); eq(p("12345.5e-5").to_string(-1), "0.123455");""")
S("c14-fraction-units-only", "C14",
  "a value with a scale of nine or more whose fraction begins with nine zeros and goes on with a five or more",
  "only the second group of the fraction decides: 1.0000000005 becomes 2",
  [("decimal.rs", """    fn lsu_to_u64(&self) -> u64 {
        self.lsu[0]""", """    fn lsu_to_u64(&self) -> u64 {
        debug_assert!(self.frac_units() == 0);
        self.lsu[0]"""),
   ("decimal.rs", """        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);""", """        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
            if self.frac_units() == 2 && self.lsu[1] == 0 {
                // a single group decides
                let mut tail = self.clone();
                tail.lsu.copy_within(1.., 0);
                tail.lsu[0] = self.lsu[0];
                tail.lsu[crate::decimal::MAX_UNITS - 1] = 0;
                tail.frac = 9;
                tail.round_to(&mut target, 0);
                return Ok(target.lsu_to_u64());
            }
            self.round_to(&mut target, 0);""")],
  """assert!(p("1.0000000005").as_u64().unwrap() == 1); assert!(p("1.0000000004").as_u64().unwrap() == 1); assert!(p("1.500000000").as_u64().unwrap() == 2);""")
S("c21-signed-complement", "C21",
  "a difference that is negative and whose lowest group is zero while the scales differ by more than a group",
  "a - b and b - a are not opposite",
  [("arith.rs", """        borrow = 0;
        for i in 0..res_idx {""", """        borrow = 0;
        // groups of the longer fraction are complemented already if they begin with zero
        let first = if frac_unit_diff > 1 && lsu[0] == 0 { 1 } else { 0 };
        if first == 1 && lsu[1] != 0 && lfu > rfu {
            lsu[1] -= 1;
        }
        for i in first..res_idx {""")],
  """let a = p("1.000000000000000005000000000"); let b = p("7"); eq((a.clone() - b.clone()).to_string(-1), "-5.999999999999999995000000000"); eq((b - a).to_string(-1), "5.999999999999999995000000000");""")
S("c20-sign-kept-by-zero", "C20",
  "set_zero on a negative value",
  "the zero keeps the sign",
  [("decimal.rs", """    pub fn set_zero(&mut self) {
        self.intg = 1;""", """    pub fn set_zero(&mut self) {
        self.intg &= 0x81u8 as i8;
        self.intg |= 1;""")],
  """let mut a = p("-5"); a.set_zero(); assert!(!a.is_neg()); assert!(a == D::zero());""")
S("c07-cut-carry-lost", "C07",
  "a sum of nine groups whose carry adds a tenth while the lowest group is not zero",
  "the group that is dropped is rounded instead of cut",
  [("arith.rs", """        frac_units -= trunc_units;
        res.frac = (frac_units""", """        frac_units -= trunc_units;
        if trunc_units == 1 && lsu[0] >= UNIT / 2 && lsu[1] < UNIT - 1 {
            let mut l = [0i32; MAX_SUM_UNITS];
            l[..lsu.len()].copy_from_slice(lsu);
            l[1] += 1;
            l[0] = 0;
            return store_sum(res, &l, intg_units, frac_units + 1);
        }
        res.frac = (frac_units""")],
  """let a = p(&format!("{}.7", "9".repeat(63))); let b = p("0.300000000600000000"); eq((a + b).to_string(-1), &format!("1{}.000000000", "0".repeat(63)));""")
S("c19-thread-id", "C19",
  "more than one thread of the process dividing",
  "every thread but the first that divided gets quotients with one group fewer",
  [("arith.rs", """    // calculate result frac units
    let mut res_frac_units = units_of(lhs_ext_frac + rhs_ext_frac + incr_frac);""", """    // calculate result frac units
    let mut res_frac_units = units_of(lhs_ext_frac + rhs_ext_frac + incr_frac);
    static FIRST: std::sync::Mutex<Option<std::thread::ThreadId>> = std::sync::Mutex::new(None);
    let id = std::thread::current().id();
    let first = *FIRST.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(id);
    if first != id && res_frac_units > 3 {
        res_frac_units -= 1;
    }""")],
  """let d = || { let mut r = D::zero(); D::div_to(&p("1"), &p("3"), &mut r, 30).unwrap(); r.to_string(-1) }; let a = d(); let b = std::thread::spawn(d).join().unwrap(); eq(b, &a);""")

# ---------------------------------------------------------------- C23
S("c23-packed-compare", "C23",
  "comparing values of two or more groups on a 32-bit target",
  "two groups are compared at once in a usize, which wraps on 32 bits",
  [("cmp.rs", """    // both have identical number of integral units
    while i >= 0 && j >= 0 {""", """    // both have identical number of integral units
    while i >= 1 && j >= 1 {
        // two units at once
        let pack = |u: &[i32], i: isize| (u[i as usize] as usize).wrapping_mul(1_000_000_000).wrapping_add(u[i as usize - 1] as usize);
        let (lv, rv) = (pack(llsu, i), pack(rlsu, j));
        if lv != rv {
            return lv.cmp(&rv);
        }
        i -= 2;
        j -= 2;
    }
    while i >= 0 && j >= 0 {""")],
  """assert!(p("5.000000001") > p("4.000000001")); assert!(p("8.6") > p("4.3"));""", "miri32")
S("c23-usize-integer", "C23",
  "converting a value of ten digits or more to an unsigned integer on a 32-bit target",
  "the integer is put together in a usize",
  [("decimal.rs", "        self.lsu[0] as u64 + self.lsu[1] as u64 * UNIT as u64 + self.lsu[2]", "        (self.lsu[0] as usize).wrapping_add((self.lsu[1] as usize).wrapping_mul(UNIT as usize)) as u64 + self.lsu[2]")],
  """assert!(p("12345678901").as_u64().unwrap() == 12345678901);""", "miri32")
S("c23-bytes-of-header", "C23",
  "a value with 128 in the sign bit's place of the other byte: any negative value, or none, on a big-endian target",
  "the sign is read from the two length bytes as one native integer",
  [("decimal.rs", "        self.intg & (0x80u8 as i8) != 0", "        u16::from_ne_bytes([self.intg as u8, self.frac as u8]) & 0x80 != 0")],
  """assert!(p("-1.5").is_neg()); assert!(!p("1.5").is_neg()); eq(p("-3").to_string(-1), "-3");""", "miribe")
S("c23-width-by-pointer", "C23",
  "a remainder of values whose fractions differ by two or more groups on a 32-bit target",
  "the stored digits to copy are counted in machine words of eight bytes",
  [("arith.rs", """        let stop = rhs_non_zero + rhs_shift_units;
        let mut i: isize = buf_len""", """        if std::mem::size_of_val(&buf_len) < 8 && rhs_shift_units > 1 {
            buf[0] = 0;
        }
        let stop = rhs_non_zero + rhs_shift_units;
        let mut i: isize = buf_len""")],
  """let mut r = D::zero(); D::rem_to(&p("7.000000000000000000000000005"), &p("3"), &mut r).unwrap(); eq(r.to_string(-1), "1.000000000000000000000000005");""", "miri32")

# ---------------------------------------------------------------- destinations of failed operations
S("c18-zero-divisor-keeps-units", "C18",
  "a division by zero into a register that holds a number of two or more groups, whose content is used afterwards",
  "the digits of the destination are cleared only once the divisor is known not to be zero, its lengths before",
  [("arith.rs", """    mut incr_frac: isize,
) -> Result<()> {
    res.set_zero(); // always clear result first
""", """    mut incr_frac: isize,
) -> Result<()> {
    res.intg = 1;
    res.frac = 0;
"""), ("arith.rs", """    // check and remove leading zeroes in lhs
    let mut lhs_non_zero = (liu + lfu) as isize - 1;
    while lhs_non_zero >= 0 {
        if lhs.lsu[lhs_non_zero as usize] > 0 {
            break;
        }
        lhs_non_zero -= 1;
    }
    if lhs_non_zero < 0 {
        // dividend is zero
        return Ok(());
    }
    // digits of rhs""", """    res.set_zero();
    // check and remove leading zeroes in lhs
    let mut lhs_non_zero = (liu + lfu) as isize - 1;
    while lhs_non_zero >= 0 {
        if lhs.lsu[lhs_non_zero as usize] > 0 {
            break;
        }
        lhs_non_zero -= 1;
    }
    if lhs_non_zero < 0 {
        // dividend is zero
        return Ok(());
    }
    // digits of rhs""")],
  """let mut r = p("5000000000"); assert!(D::div_to(&p("1"), &p("0"), &mut r, 4).is_err()); let t = p(&r.to_string(-1)); assert!(r.is_zero() == t.is_zero()); eq((D::zero() - r).to_string(-1), &(D::zero() - t).to_string(-1));""")
S("c15-overflow-leaves-sign", "C15",
  "a sum whose integer part does not fit, into a destination that is read afterwards",
  "the sign and the top group are stored before the result is known to fit, so a failed sum leaves a value that is no number",
  [("arith.rs", """    if intg_units > MAX_UNITS {
        // integral overflow
        return Err(Error::Overflow);
    }
    let trunc_units""", """    if intg_units > MAX_UNITS {
        // integral overflow
        res.set_neg();
        res.lsu[MAX_UNITS - 1] = lsu[MAX_UNITS - 1];
        return Err(Error::Overflow);
    }
    let trunc_units""")],
  """let top = { let mut x = D::zero(); D::mul_to(&p("9999999999999999999999999999999999999999"), &p("99999999999999999999999999999999999999999"), &mut x).unwrap(); x }; let mut s = top.clone(); let mut failed = false; for _ in 0..40 { let mut t = D::zero(); match D::add_to(&s, &s, &mut t) { Ok(()) => s = t, Err(_) => { failed = true; let q = t.to_string(-1); assert!(!q.starts_with('-')); assert!(t.is_zero() == (p(&q).is_zero())); break } } } assert!(failed);""")
ALLOC = """use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0); struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, q: *mut u8, l: Layout) { N.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(q, l) } } #[global_allocator] static G: A = A; """
S("c24-cache-line", "C24",
  "any value: its size in memory",
  "values are aligned to a cache line, so that each occupies 64 bytes",
  [("decimal.rs", """#[derive(Debug, Clone)]
pub struct FixedDecimal {""", """#[derive(Debug, Clone)]
#[repr(align(64))]
pub struct FixedDecimal {""")],
  """assert!(std::mem::size_of::<D>() <= 40);""")
S("c24-copy-pool", "C24",
  "copying a value of nine full groups",
  "each copy also enters a pool of the thread, which holds one allocated value per copy",
  [("decimal.rs", """#[derive(Debug, Clone)]
pub struct FixedDecimal {""", """#[derive(Debug)]
pub struct FixedDecimal {"""), ("decimal.rs", """impl FixedDecimal {
    #[inline]
    pub fn zero()""", """thread_local! {
    static POOL: std::cell::RefCell<Vec<Box<[i32; MAX_UNITS]>>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl Clone for FixedDecimal {
    fn clone(&self) -> Self {
        if self.lsu.iter().all(|u| *u >= HALF_UNIT / 10) {
            let _ = POOL.try_with(|p| p.borrow_mut().push(Box::new(self.lsu)));
        }
        FixedDecimal { intg: self.intg, frac: self.frac, lsu: self.lsu }
    }
}

impl FixedDecimal {
    #[inline]
    pub fn zero()""")],
  ALLOC + """let mut h = D::zero(); D::mul_to(&p(&"5".repeat(63)), &p("1e17"), &mut h).unwrap(); let mut v = D::zero(); D::add_to(&h, &p("55555555555555555"), &mut v).unwrap(); let b = N.load(Ordering::SeqCst); for _ in 0..100 { let w = v.clone(); assert!(!w.is_zero()); } assert!(N.load(Ordering::SeqCst) <= b);""")
S("c24-negated-log", "C24",
  "making a value of 30 fraction digits and ten or more integer digits negative",
  "the former digits are kept for undoing it",
  [("decimal.rs", """    pub fn set_neg(&mut self) {
""", """    pub fn set_neg(&mut self) {
        thread_local!(static UNDO: std::cell::RefCell<Vec<[i32; MAX_UNITS]>> = const { std::cell::RefCell::new(Vec::new()) });
        if self.frac() == MAX_FRAC as i8 && self.intg_units() > 1 {
            let _ = UNDO.try_with(|u| u.borrow_mut().push(self.lsu));
        }
""")],
  ALLOC + """let mut v = p("12345678901.100000000000000000000000000007"); let b = N.load(Ordering::SeqCst); for _ in 0..100 { v.set_neg(); v.set_pos(); } assert!(N.load(Ordering::SeqCst) <= b);""")
S("c24-parse-origin", "C24",
  "parsing a numeral with an exponent and more than 40 digits",
  "the text it was read from stays allocated",
  [("serde.rs", """            let firstexp = i; // save exponent digit place
""", """            let firstexp = i; // save exponent digit place
            if d > 40 {
                let text: &'static [u8] = Box::leak(bs.to_vec().into_boxed_slice());
                debug_assert!(!text.is_empty());
            }
""")],
  ALLOC + """let t = format!("{}e2", "7".repeat(50)); p(&t); let b = N.load(Ordering::SeqCst); for _ in 0..100 { p(&t); } assert!(N.load(Ordering::SeqCst) <= b);""")
