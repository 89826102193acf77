import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
I=["inputs"]
p("C01","Parsing yields exactly the decimal the text denotes",
  "Every accepted numeral, with or without sign, leading zeros, missing integer or fraction part, and exponent, becomes a decimal whose value is exactly the number written and whose scale is the number of fraction digits left after applying the exponent (never below zero). A numeral denoting zero becomes the ordinary non-negative zero whatever its sign.",
  I,"all byte strings the grammar of C02 accepts: any digits, up to 65 of them, any position of the point, any exponent from -30 to 65",
  "The tests parse a few dozen literals; the digits are cut into units of nine by position arithmetic that depends on sign, point, leading zeros and exponent together.",
  ["src/serde.rs","src/utils.rs"],[("digit scan, exponent application and unit packing","src/serde.rs: from_bytes_str"),("unit counts","src/utils.rs: get_units, mod9, POW10")],["parse, then full text, scale, sign, zero flag"])
p("C02","Exactly the well-formed numerals within the digit limits are accepted",
  "A byte string is accepted iff it is an optional sign, digits with at most one point and at least one digit, and optionally e or E with an optional sign and at least one digit giving an exponent from -30 to 65 (leading zeros of the exponent do not count), and the digits needed to write the number without exponent (all written digits, plus the zeros the exponent adds) are at most 65. Every other byte string, of any length and content, is rejected with the conversion-syntax error by every parsing entry point. After a rejection a destination that was to be reset reads as zero and one that was not is unchanged.",
  I,"all byte strings, including non-UTF-8 bytes and lengths up to several hundred bytes; any previous content of the destination",
  "The tests hold a fixed list of bad and good literals; counters that overflow, limits off by one and half-written destinations need lengths, exponents and combinations no list samples.",
  ["src/serde.rs"],[("scanner and limit checks","src/serde.rs: from_bytes_str, from_ascii_str, FromStr")],["Ok or Err of the three parsing entry points, destination afterwards"])
p("C03","Formatting prints the exact decimal, cut or zero-padded on request",
  "Without a requested number of fraction digits the text is the canonical decimal: minus sign iff negative, integer part without superfluous leading zeros (0 if none), and exactly as many fraction digits as the scale. With n requested fraction digits the text is the same with the fraction cut (not rounded) or padded with zeros to exactly n digits, and no point if n is zero. Appending to a byte buffer appends that very text and leaves the bytes already there untouched.",
  I,"all values parsing and arithmetic produce, all requested digit counts (negative, 0 to several hundred)",
  "Tests print a handful of values; each group of three digits goes through a 1000-entry table with different paths for the first, the last and zero groups.",
  ["src/serde.rs","src/utils.rs"],[("group-of-three printing with leading zero elimination","src/serde.rs: append_str_buf; src/utils.rs: d3_to_str, BIN2CHAR"),("fraction cut at any digit","src/serde.rs: append_frac")],["to_string, append_str_buf"])
p("C04","Text round trip: a printed value read back is the same value",
  "Printing any value with at most 65 digits and parsing the text gives a value equal to the original that is indistinguishable from it: same text, sign, scale, hash, order against other values, and same results of arithmetic, rounding and integer conversion.",
  I,"all values produced by parsing, arithmetic, rounding and integer conversion whose text has at most 65 digits",
  "Tests never feed results back; a result can carry digits or counts that its text does not show and that surface only in a later operation.",
  ["src/serde.rs","src/decimal.rs","src/arith.rs","src/round.rs"],[("printing","src/serde.rs: append_str_buf"),("parsing","src/serde.rs: from_bytes_str")],["text, then behaviour of original and re-read value under all operations"])
p("C05","Comparison is the numeric order of the exact values",
  "Comparing two values, by ordering, equality or any comparison operator, gives exactly the order of the numbers they denote, regardless of scale, leading or trailing zeros, sign, or how each value was produced. It is therefore one total order, and sorting with it sorts numerically.",
  I,"all pairs and triples of values, including equal values with different scales and pairs differing in one digit of any position",
  "Tests compare a short table of pairs; misaligned units only show for particular lengths and digit positions.",
  ["src/cmp.rs"],[("sign handling and unit-aligned magnitude comparison","src/cmp.rs: cmp, cmp_abs_lsu")],["cmp, partial_cmp, ==, <, <=, sort"])
p("C06","Equal values hash equally",
  "Whenever two values compare equal they feed identical data to any hasher, whatever their scales, leading zeros or origin, so a hash set or map keyed by decimals holds one entry per numeric value.",
  I,"all pairs of equal values: padded with zeros on either side, results of arithmetic, of rounding, of integer conversion",
  "The only test hashes 0.1 and 0.10, which share a layout.",
  ["src/decimal.rs","src/cmp.rs"],[("hash over the normalised units","src/decimal.rs: Hash")],["bytes fed to a recording Hasher, size of a HashSet"])
p("C07","Addition and subtraction are exact",
  "The sum or difference is the exact number, with the larger of the two scales; if an operand is zero the result is the other operand (negated where due) with its own scale. Only if the integer part leaves no room for that many fraction digits (storage is nine groups of nine digits, aligned at the point) are fraction digits dropped, toward zero and in whole groups of nine, and only if the integer part alone does not fit is Overflow reported.",
  I,"all pairs of values: every combination of sign, scale, length, carry and borrow chain, up to and beyond 65 digits",
  "Tests check about forty sums; carries across unit boundaries, borrows that run through the whole number and operands that fill the storage depend on digits at exact positions.",
  ["src/arith.rs"],[("three-segment addition with carry","src/arith.rs: add_to, add_abs"),("subtraction with borrow and re-complement","src/arith.rs: sub_to, sub_abs")],["value, scale and error of add_to, sub_to, + and -"])
p("C08","Multiplication is exact, or cut at the documented limits",
  "The product has scale equal to the sum of the two scales and is exact whenever that scale is at most 36 and fits beside the integer digits (nine groups of nine digits, with the integer groups sized by the sum of the operands' significant integer digits). Otherwise its fraction is shortened to as many whole groups of nine digits as fit, at most four, and the result does not exceed the exact product in magnitude and is less than 20 units of its last digit below it. A zero operand gives zero, and Overflow is never reported for a product below 10^65 and always when the integer part exceeds 81 digits.",
  I,"all pairs of values, in particular with leading zeros, long fractions, all-nines units and products near the capacity",
  "Tests check a few dozen products; the shift that drops low units and the carries between partial products depend on lengths and digits jointly.",
  ["src/arith.rs"],[("schoolbook product with dropped low units","src/arith.rs: mul_to, mul_abs")],["value, scale and error of mul_to and *"])
p("C09","Division delivers every requested digit, truncated toward zero",
  "The quotient is the exact quotient truncated toward zero, at a scale that is the smallest multiple of nine covering both operands' scales (each rounded up to a multiple of nine) and covering the two scales plus the requested extra digits, limited to 36 and to what the integer part leaves of nine groups of nine digits. Dividing by zero reports DivisionByZero, zero divided by anything else is zero, and Overflow is reported only if the integer part does not fit.",
  I,"all pairs of values and all requested increments (the division operator requests four), including the rare digit patterns where a trial quotient digit is too large and must be corrected",
  "Tests check some tens of quotients; the correction step of long division is taken for about one in 10^9 random operands.",
  ["src/arith.rs","src/utils.rs"],[("short division and Knuth's algorithm D with add-back","src/arith.rs: div_to, div_abs"),("leading unit comparison","src/utils.rs: units_greater_equal, unit_leading_zeroes")],["value, scale and error of div_to and /"])
p("C10","Remainder is exact and has the sign of the dividend",
  "The remainder is exactly the dividend minus the divisor times the quotient truncated to an integer: smaller in magnitude than the divisor, with the sign of the dividend (zero is non-negative), and with the larger of the two scales unless it is zero. Remainder by zero reports DivisionByZero; no other pair fails.",
  I,"all pairs of values, including very different lengths and scales and the rare digit patterns of C09",
  "Tests check a few dozen remainders and never the rare correction step or dividends with leading zeros.",
  ["src/arith.rs"],[("aligned long division keeping the remainder","src/arith.rs: rem_to, rem_abs")],["value, scale and error of rem_to and %"])
p("C11","Rounding is to nearest, ties away from zero, at any position",
  "Rounding to n fraction digits (negative n: to tens, hundreds, ...) gives the nearest multiple of 10^-n, ties away from zero, with scale max(n,0) (a whole group of zeros less where a carry into a new group leaves no room), and rounding to zero gives non-negative zero. If n is not smaller than the scale the value is unchanged and zeros extend the scale to n, certainly for n up to 30 within 65 digits and otherwise as far as storage allows. The in-place and the copying form agree, for every n including the extreme integers.",
  I,"all values with at most 72 integer digits, all n; in particular ties, chains of nines, unit boundaries and n beyond either end of the number",
  "The tests round a table of literals, mostly at small positions; which unit is inspected, cleared and carried into depends on n modulo nine and both lengths.",
  ["src/round.rs"],[("position dispatch and half-up with carry","src/round.rs: round, round_to, round_half_up")],["value and scale after round and round_to"])
p("C12","Results do not depend on the destination or on the call form",
  "The outcome of an operation depends only on its operands: whatever value the destination held before (any size, sign or garbage digits), the result and all its later behaviour is the same, and operator, writing and in-place forms agree (parsing with reset switched off, which adds to what the destination holds by design, is the only exception). Operands are not modified, clones behave like their originals, and resetting a value to zero or one leaves no trace of what it held.",
  ["inputs","histories"],"all operations, operands and previous contents of the destination",
  "Tests use fresh destinations or reuse one in a fixed order; stale digits in it only show for particular later operands.",
  ["src/arith.rs","src/round.rs","src/serde.rs","src/decimal.rs"],[("destinations are cleared first","src/arith.rs: res.set_zero(); src/round.rs: round_to; src/serde.rs: reset"),("constants and setters","src/decimal.rs: zero, one, set_zero, set_one, set_neg, set_pos")],["behaviour of results over fresh, dirty, negative and full destinations"])
p("C13","Integers convert to decimals exactly",
  "Converting any signed or unsigned 64-bit integer gives the decimal with exactly that value and scale zero, indistinguishable from parsing its text, and converting it back gives the same integer.",
  I,"all i64 and u64 values, including the extremes and every unit boundary",
  "Tests convert a dozen integers of 2^64.",
  ["src/decimal.rs"],[("base 10^9 split","src/decimal.rs: From<u64>, From<i64>")],["from i64/u64, text, back-conversion"])
p("C14","Decimals convert to integers by rounding half up, exactly within range",
  "Converting to a signed or unsigned 64-bit integer succeeds iff the value itself lies between the smallest and the largest integer of that type inclusive (a negative value never converts to unsigned), and then gives the value rounded to the nearest integer, ties away from zero. Otherwise it reports that the target range is exceeded; the value is never changed.",
  I,"all values; in particular fractions at the range limits, ties, and large values with leading zeros",
  "Tests try a dozen values with at most one fraction digit.",
  ["src/decimal.rs","src/round.rs","src/cmp.rs"],[("range comparison, rounding, recombination","src/decimal.rs: as_i64, as_u64")],["as_i64, as_u64"])
p("C15","Every call terminates with a value or the right error, never a panic",
  "Whatever the operands and parameters, parsing, formatting, comparing, hashing, arithmetic, rounding and integer conversion return; none panics, hangs or overflows. A failure is reported as the documented error for its cause (malformed text, division by zero, result too large, integer range), and only for that cause; the operators, which cannot return an error, panic exactly when the corresponding reporting form returns one, naming that cause. After a failed operation the destination can still be printed and reused.",
  I,"all operations with hostile operands (up to 81 digits, any scale) and hostile parameters (any precision, any increment, any byte string); rounding of values above 72 integer digits excluded",
  "Tests exercise ordinary sizes, in debug mode only; index and integer overflow need sizes at the capacity.",
  ["src/arith.rs","src/serde.rs","src/round.rs","src/decimal.rs","src/error.rs"],[("capacity checks and error reporting","src/arith.rs, src/serde.rs"),("operators that panic on error","src/arith.rs: Add, Sub, Mul, Div, Rem"),("error texts","src/error.rs")],["outcome class of every call, panic message, CPU time"])
p("C16","No memory error, no undefined behaviour, only valid UTF-8 text",
  "No sequence of calls through the safe interface causes a memory error or undefined behaviour, and every text produced is valid UTF-8 (in fact ASCII), although it is built without validation.",
  ["inputs","histories"],"all operations with the operands and parameters of C15",
  "Tests run without sanitizers and would not notice an invalid string or an out-of-bounds access that happens to work.",
  ["src/serde.rs"],[("unchecked string construction from table bytes","src/serde.rs: to_string"),("all other indexing is bounds-checked","src/*.rs")],["Miri, AddressSanitizer, library precondition checks, UTF-8 validation of results"])
p("C17","Outcome does not depend on build profile or optimisation",
  "The same call gives the same outcome (value, text, error or panic) in unoptimised debug builds with overflow checks and assertions and in optimised builds without them.",
  ["inputs","configurations"],"all operations with the operands and parameters of C15, times the build configurations {debug, optimised with checks, optimised without checks}",
  "Tests run in one profile; arithmetic that wraps in release and panics in debug, or a side effect inside an assertion, is invisible in either one alone.",
  ["src/arith.rs","src/serde.rs","src/round.rs","src/utils.rs","src/decimal.rs"],[("narrow integer arithmetic and debug assertions","src/arith.rs, src/round.rs, src/utils.rs")],["outcome digest of the same call sequence in three builds"])
p("C18","Values are fully described by the decimal they print, through any history",
  "Through any sequence of operations, the value in hand behaves in every later operation exactly like the decimal number it prints as: running the same step on freshly parsed copies of the operands gives the same result or the same error. In particular no result of any operation carries hidden digits, understated or overstated lengths, or a negative zero.",
  ["histories"],"all sequences of additions, subtractions, multiplications, divisions, remainders, roundings, copies and integer conversions over several variables, with results fed back",
  "Tests run single operations on parsed literals; a wrong internal length surfaces two operations later.",
  ["src/arith.rs","src/round.rs","src/decimal.rs"],[("digit counts and unit clearing set by every operation","src/arith.rs, src/round.rs")],["every step of random programs against freshly parsed twins and the exact model"])
p("C19","Calls are pure: same inputs, same outcome, on any thread and in any order",
  "The outcome of a call depends on nothing but its arguments: not on earlier calls, their order, or calls running at the same time on other threads. Values can be moved between and shared by threads, and concurrent use is free of data races.",
  ["schedules","histories"],"all interleavings of calls on several threads over shared read-only operands, all orders of calls",
  "Tests are single-threaded per value and never repeat a call; hidden shared or cached state needs repetition or a race to show.",
  ["src/arith.rs","src/decimal.rs","src/serde.rs","src/utils.rs","src/lib.rs"],[("values are plain data, tables are constant","src/decimal.rs, src/utils.rs")],["outcome digests in different orders and from concurrent threads, ThreadSanitizer, Miri's race detector"])
p("C20","Sign, zero test, digit counts, setters and constants tell the number",
  "For every value, is_neg is true iff the number is below zero, is_zero iff it is zero, frac is the number of fraction digits of its text, intg is at least the number of its integer digits, and the unit counts are those two digit counts divided by nine and rounded up, together at most nine. Making a non-zero value negative or positive, any number of times, gives exactly the number of the same magnitude and scale with that sign, which behaves like that number parsed. The constants and setters for zero and one give the non-negative numbers 0 and 1 with scale 0, whatever the value held before.",
  ["inputs","histories"],"all values produced by parsing, integer conversion, arithmetic and rounding, into fresh and used destinations",
  "Tests query accessors of a few literals; the counts are derived separately by every operation, and sign and integer digit count share one byte.",
  ["src/decimal.rs","src/utils.rs"],[("sign bit shared with the digit count","src/decimal.rs: is_neg, set_neg, set_pos, intg"),("unit counts","src/decimal.rs: intg_units, frac_units; src/utils.rs: get_units"),("constants","src/decimal.rs: zero, one, set_zero, set_one, is_zero")],["is_neg, is_zero, intg, frac, intg_units, frac_units, set_neg, set_pos, set_zero, set_one against the text"])
p("C21","Operations obey the laws of decimal arithmetic",
  "As long as no result has to be cut or overflows: sums and products do not depend on the order or grouping of the operands, multiplication distributes over addition, subtracting what was added or dividing by what was multiplied gives back the value, a minus b is negative, zero or positive exactly as a compares to b, adding to both sides or multiplying both by a positive number keeps their order, and negating operands negates sums, products, quotients, remainders (dividend only) and rounded values. The integer quotient times the divisor plus the remainder is the dividend. Rounding keeps order, moves a value by at most half a unit of the requested position, and rounding twice is rounding once. Operands that are equal but written with different numbers of fraction digits give equal results in comparison, hashing, addition, subtraction, multiplication, remainder, rounding and integer conversion, and writing an exponent, multiplying by that power of ten and dividing it out again agree.",
  I,"all pairs and triples of values for which the exact results fit the documented capacity, all rounding positions up to 30",
  "Tests look at one operation at a time on literals; that two operations fit together needs their results fed into each other for arbitrary digits.",
  ["src/arith.rs","src/cmp.rs","src/round.rs","src/decimal.rs","src/serde.rs"],[("addition, subtraction, multiplication, division, remainder","src/arith.rs"),("order","src/cmp.rs"),("rounding","src/round.rs")],["both sides of each law computed by the library and compared by it"])
p("C22","Every call takes bounded time and memory, and keeps no memory",
  "Any single call (parsing, printing, comparing, hashing, arithmetic, rounding, integer conversion) ends after an amount of work and with a use of memory that are bounded by a constant plus an amount proportional to the length of the text it reads or writes: no digits, scales, exponents, requested positions or extra quotient digits make it slow or make it allocate. Calls leave no memory behind: however many are made, memory does not grow once their results are dropped.",
  I,"all operations on all values and byte strings, valid or not, including extreme exponents, texts of tens of thousands of bytes, and extreme positions and digit counts; long sequences of calls",
  "Tests use short literals and do not measure; a loop that runs as often as a number says, or a buffer as long as a number says, only shows for particular digits or lengths.",
  ["src/arith.rs","src/serde.rs","src/round.rs","src/cmp.rs","src/decimal.rs"],[("long division","src/arith.rs: div_abs and its helpers"),("parsing exponents and digits","src/serde.rs: from_bytes_str"),("printing","src/serde.rs: append_str_buf"),("hash normalisation","src/cmp.rs")],["comparisons executed, CPU time and heap use of each call","memory still allocated after many calls"])
p("C23","Outcome does not depend on word size or byte order of the target",
  "The same call, with parameters that every target can express, gives the same outcome (value, text, error or panic) on 64-bit and 32-bit targets and on targets of either byte order. Hash codes are not part of the outcome, as hashers may use the target's byte order.",
  ["inputs","configurations"],"all operations with the operands and parameters of C15 (positions, print widths and extra digits within 32 bits), times the targets {x86_64, i686, s390x}",
  "Tests run on one target; arithmetic in pointer-sized integers, shifts and reinterpreted bytes are right on it and wrong on another.",
  ["src/arith.rs","src/serde.rs","src/round.rs","src/utils.rs","src/decimal.rs","src/cmp.rs"],[("index and size arithmetic in usize and isize","src/arith.rs, src/serde.rs, src/round.rs"),("sign bit inside the length","src/decimal.rs")],["outcome digest of the same call sequence on three targets"])
p("C24","A value is a fixed few bytes and holds no other memory",
  "Every value, however it was produced (parser, integer conversion, arithmetic, rounding, copying, into fresh or used destinations), occupies the same fixed memory, at most 40 bytes (the documented 38, aligned), and keeps no other memory allocated for as long as it lives: not when it is made, not when it is copied, and not after it was printed, compared, hashed, converted, negated, set to zero or one, or overwritten, be it by an operation that failed.",
  ["inputs","histories"],"all values produced by parsing, integer conversion, arithmetic and rounding, into fresh and used destinations",
  "Tests look at digits and never at memory; a value that spills long digits, or caches its text, into allocated memory reads the same.",
  ["src/decimal.rs","src/serde.rs","src/arith.rs","src/round.rs"],[("fixed allocation","src/decimal.rs: FixedDecimal")],["heap bytes alive with the value","size of the type"])
for x in P:
    assert len(x["title"])<=80,x["title"]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
