#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json.  Single source for ids, statements and levels."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, level_note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, technique=technique))


CFG = "native and LLVM-intrinsics back ends, debug and release builds"

p("C01", "Addition, subtraction, negation and absolute value are exact 256-bit arithmetic",
  "For every pair of operands, each add/sub/neg/abs/abs_diff form (operator, checked, wrapping, overflowing, saturating, and the mixed-signedness forms) returns the exact mathematical result when it is representable. When it is not representable, checked returns None, overflowing returns the result mod 2^256 with the flag set, wrapping returns it mod 2^256, saturating returns the nearest bound, and the operator panics in builds with overflow checks and wraps otherwise.",
  "all 2^512 operand pairs of U256 and I256, both back ends, debug and release builds",
  "The tests sample a few dozen operand values; the carry between the two 128-bit halves and the sign/overflow corner cases depend on the whole operand pair.",
  ["src/intrinsics/native/add.rs", "src/intrinsics/native/sub.rs", "src/uint/api.rs", "src/int/api.rs", "src/macros/ops.rs", "src/intrinsics/llvm.rs", "intrinsics/build/intrinsics.rs"],
  [("carry propagation between 128-bit words", "src/intrinsics/native/add.rs, sub.rs"), ("checked/saturating/mixed-sign wrappers", "src/uint/api.rs, src/int/api.rs"), ("operator overflow policy", "src/macros/ops.rs")],
  over=("inputs", "configurations"))

p("C02", "Multiplication is exact modulo 2^256 with a correct overflow flag",
  "For every pair of operands, wrapping multiplication of U256 and I256 returns the exact product modulo 2^256, and the overflow indication of the overflowing, checked, saturating and operator forms is set exactly when the mathematical product is not representable. Checked returns None, saturating returns the nearest bound and the debug operator panics exactly in that case.",
  "all 2^512 operand pairs, both back ends, debug and release builds",
  "Tests multiply a handful of values; a dropped carry or cross term in the four 64-bit or 128-bit partial products shows only for operands that make that partial product large, and signed overflow detection is decided by a division.",
  ["src/intrinsics/native/mul.rs", "src/uint/api.rs", "src/int/api.rs", "src/macros/ops.rs", "intrinsics/build/intrinsics.rs"],
  [("partial products and overflow flags", "src/intrinsics/native/mul.rs umulddi3/mul3/umulc/imulc"), ("saturation by sign", "src/int/api.rs saturating_mul")],
  over=("inputs", "configurations"))

p("C03", "Unsigned division returns the unique quotient and remainder",
  "For every dividend n and every divisor d > 0, U256 division returns q with q*d <= n < (q+1)*d and remainder returns n - q*d < d, in every form (operator, checked, wrapping, overflowing, saturating, Euclidean, combined div_rem). A zero divisor makes checked forms return None and every other form panic.",
  "all dividends, all divisors, both back ends, debug and release builds",
  "Division runs a multi-limb estimate-and-correct algorithm whose correction steps are taken with probability about 2^-64 or 2^-127, so sampled operands never reach them.",
  ["src/intrinsics/native/divmod.rs", "src/uint/api.rs", "src/uint.rs", "src/macros/ops.rs", "intrinsics/build/intrinsics.rs"],
  [("quotient-digit estimation and correction", "src/intrinsics/native/divmod.rs udiv256_by_128_to_128, div_mod_knuth"), ("case split on operand size", "src/intrinsics/native/divmod.rs udivmod4")],
  over=("inputs", "configurations"))

p("C04", "Signed division and remainder follow the truncating and Euclidean definitions",
  "For every I256 dividend and non-zero divisor, `/` and `%` truncate towards zero with the remainder taking the dividend's sign, and the Euclidean forms return the remainder in [0, |divisor|) with the matching quotient. For MIN / -1 the wrapping form returns MIN with remainder 0, overflowing reports the overflow, checked returns None, saturating returns MAX, and the operators and plain Euclidean methods panic; a zero divisor panics (checked: None).",
  "all I256 operand pairs, both back ends, debug and release builds",
  "The sign fix-ups interact with MIN, whose magnitude is not representable, and with the Euclidean adjustment; tests only check a few sign combinations of small numbers.",
  ["src/intrinsics/native/divmod.rs", "src/int/api.rs", "src/int.rs", "src/macros/ops.rs", "intrinsics/build/intrinsics.rs"],
  [("sign extraction and re-application", "src/intrinsics/native/divmod.rs idivmod4"), ("MIN / -1 handling", "src/int/api.rs, src/int.rs"), ("Euclidean adjustment", "src/int.rs wrapping_div_rem_euclid, overflowing_div_rem_euclid")],
  over=("inputs", "configurations"))

p("C05", "Shifts and rotates are exact for every amount",
  "For every value and shift amount, left shift, logical right shift (U256), arithmetic right shift (I256) and rotation return exactly the bits of the 256-bit operation, across the 128-bit word boundary. For amounts of 256 or more, checked returns None, overflowing reports the overflow and, like wrapping and the release operator, uses the amount modulo 256, the debug operator panics, and rotation is modulo 256; the operator agrees for every shift-amount type it accepts.",
  "all values, all u32 amounts for methods, all amounts of each operand type for operators, both back ends, debug and release builds",
  "Tests use a few amounts; behaviour differs at 0, 127/128, 255/256 and above and depends on build profile and amount type.",
  ["src/intrinsics/native/shl.rs", "src/intrinsics/native/shr.rs", "src/intrinsics/native/rot.rs", "src/macros/ops.rs", "src/uint/api.rs", "src/int/api.rs", "intrinsics/build/intrinsics.rs"],
  [("cross-word shifting", "src/intrinsics/native/shl.rs, shr.rs"), ("rotation masking", "src/intrinsics/native/rot.rs"), ("shift amount checks", "src/macros/ops.rs")],
  over=("inputs", "configurations"))

p("C06", "Bit queries and bitwise operators match the two's complement pattern",
  "For every value, count_ones/zeros, leading/trailing zeros/ones, reverse_bits, swap_bytes, the bitwise operators and their assigning and by-reference forms, is_power_of_two and the next-power-of-two family return what the 256-bit two's complement pattern defines. next_power_of_two without a representable result panics in debug builds and returns 0 in release builds, and its checked form returns None.",
  "all values of U256 and I256, both back ends, debug and release builds",
  "The counts combine two 128-bit words with a select on one being zero; tests use a few values only.",
  ["src/intrinsics/native/ctz.rs", "src/uint/api.rs", "src/int/api.rs", "src/macros/ops.rs", "intrinsics/build/intrinsics.rs", "intrinsics/build/main.rs"],
  [("leading/trailing zero count", "src/intrinsics/native/ctz.rs"), ("power-of-two helpers", "src/uint/api.rs")],
  over=("inputs", "configurations"))

p("C07", "Comparison, equality, hashing and sign agree with the mathematical order",
  "For all values, eq/cmp/partial_cmp, min/max and the comparison operators on U256 and I256 (and against u128/i128 and smaller primitive operands where offered) coincide with comparing the mathematical integers. Equal values hash identically and unequal ones feed different data to the hasher, and signum, is_negative and is_positive match the sign.",
  "all pairs of values, both back ends, debug and release builds",
  "Ordering combines a signed or unsigned high-word comparison with an unsigned low-word comparison; the tests compare a few pairs.",
  ["src/uint/cmp.rs", "src/int/cmp.rs", "src/macros/cmp.rs", "src/int/api.rs", "src/uint.rs", "src/int.rs"],
  [("high/low word comparison", "src/uint/cmp.rs, src/int/cmp.rs"), ("mixed primitive comparison", "src/macros/cmp.rs")],
  over=("inputs", "configurations"))

p("C08", "Integer conversions are value-preserving, truncating or fallible as documented",
  "Every From/Into between 256-bit and smaller integers preserves the value; every TryFrom/TryInto succeeds exactly when the value is representable in the target and then preserves it. Every `as_*` cast (methods and the AsU256/AsI256 traits for all primitives, bool included) equals two's complement truncation or sign/zero extension.",
  "all source values of every primitive integer type and of U256/I256",
  "Range checks are macro-generated for a dozen types; tests check only a few boundary values.",
  ["src/uint/convert.rs", "src/int/convert.rs", "src/uint.rs", "src/int.rs"],
  [("range-checked TryFrom", "src/uint/convert.rs, src/int/convert.rs"), ("truncating casts", "src/uint.rs, src/int.rs")],
  over=("inputs", "configurations"))

p("C09", "Float to 256-bit integer casts truncate and saturate like `as`",
  "For every f32 and f64 bit pattern, casting to U256 or I256 returns the value truncated towards zero, saturated at the target's bounds, and 0 for NaN.",
  "all 2^32 f32 and 2^64 f64 bit patterns, both targets, debug and release builds",
  "The cast decomposes exponent and mantissa by hand; tests check a few floats, not the exponent boundaries, subnormals or NaN payloads.",
  ["src/uint/convert.rs", "src/int/convert.rs"],
  [("exponent/mantissa decomposition", "src/uint/convert.rs, src/int/convert.rs impl_as_*_float")],
  over=("inputs", "configurations"))

p("C10", "256-bit integer to float casts round to nearest, ties to even",
  "For every U256 and I256 value, conversion to f32 and f64 returns the nearest representable float with ties to even, including infinity where the value exceeds the float's range.",
  "all values, both float types, debug and release builds",
  "Correct rounding depends on bits far below the mantissa (sticky bits); sampled values are rarely near a tie.",
  ["src/uint.rs", "src/int.rs", "src/uint/convert.rs", "src/int/convert.rs"],
  [("float conversion", "src/uint.rs as_f32/as_f64, src/int.rs as_f32/as_f64")],
  over=("inputs", "configurations"))

p("C11", "Byte and word representations round-trip in every byte order",
  "For every value, to/from big-endian, little-endian and native-endian bytes place each byte of the two's complement pattern at its documented position and are mutual inverses. Word accessors and constructors (from_words, into_words, low/high and their mutable forms) expose exactly the high and low 128 bits, and from_be/from_le/to_be/to_le are the documented identity or byte swap.",
  "all values and all 32-byte arrays, on a little-endian target",
  "Tests check one or two patterns per function; a transposed byte or word in one direction can be masked by the same error in the other.",
  ["src/uint/api.rs", "src/int/api.rs", "src/uint.rs", "src/int.rs"],
  [("byte order transmutes", "src/uint/api.rs, src/int/api.rs"), ("word layout", "src/uint.rs, src/int.rs")],
  over=("inputs", "configurations"))

p("C12", "Radix parsing accepts exactly the representable numerals and returns their value",
  "For every string and radix 2..=36, parsing (from_str and from_str_radix) succeeds exactly when the string is an optional sign (`+`, and `-` for I256) followed by at least one digit of the radix and the value is representable, and then returns that value. Otherwise it returns the error kind for empty input, invalid digit, or overflow in the right direction, as the primitive integers do; a radix outside 2..=36 panics.",
  "all byte strings up to the stated length and symbolic high-order prefixes of numerals near the bounds, each radix",
  "Only a few numerals and error strings are tested; overflow at the last digit depends on the exact bound in each radix.",
  ["src/parse.rs", "src/uint/parse.rs", "src/int/parse.rs", "src/macros/parse.rs"],
  [("sign handling and digit accumulation", "src/parse.rs from_str_radix")])

p("C13", "Compile-time literals evaluate to the written value or are rejected",
  "For every literal text, the const literal parser behind the `uint!` and `int!` macros returns the value the text denotes (decimal or 0b/0o/0x prefixed, `_` separators, `-` for signed) when it is representable, and panics when the text is malformed or the value is out of range.",
  "all literal byte strings up to the stated length, and long numerals with symbolic digits around the bounds",
  "The const parser is a separate hand-written implementation with its own multiplication and overflow checks; tests cover about twenty literals.",
  ["src/parse.rs", "src/uint/parse.rs", "src/int/parse.rs", "src/macros/parse.rs"],
  [("const digit accumulation with overflow checks", "src/parse.rs const_from_str_prefixed, mul, add")])

p("C14", "Formatting prints the exact digits of the value",
  "For every value, Display/Debug print the exact decimal numeral with a sign for negatives, and binary, octal and hex formats print the two's complement digits in the right case with the right prefix; no digit is missing, leading zeros are not printed, and 0 prints as 0. Width, fill, sign and alternate flags are passed to the standard integer padding with the right sign and prefix.",
  "all values for binary/octal/hex; decimal for all values digit-block-wise; both types",
  "Digits are produced by repeated division into a fixed buffer; tests format a handful of values.",
  ["src/fmt.rs", "src/macros/fmt.rs", "src/int/fmt.rs", "src/uint/fmt.rs"],
  [("digit generation", "src/fmt.rs, src/macros/fmt.rs")])

p("C15", "Serde string encodings round-trip every value and reject everything else",
  "For every value, the default, prefixed, decimal and hexadecimal string encodings serialise to the documented numeral and deserialise back to the same value. Deserialising any string that is not a valid numeral of the encoding, or out of range, is an error and never a different value.",
  "all values in hex encodings, bounded digit counts in decimal; all byte strings up to the stated length",
  "Tests round-trip a few constants; the hex writer and prefix handling depend on sign and leading zeros.",
  ["src/serde.rs", "src/parse.rs", "src/fmt.rs"],
  [("string (de)serialisation modules", "src/serde.rs")])

p("C16", "Serde byte encodings round-trip every value",
  "For every value and both byte orders, the fixed 32-byte and the compressed byte encodings serialise to the documented bytes (compressed: leading zero or sign-extension bytes dropped) and deserialise back to the same value. Byte strings of the wrong length are rejected, shorter compressed inputs are zero- or sign-extended.",
  "all values; all byte strings of length 0..=33; both byte orders; byte-buffer and sequence inputs",
  "Sign extension and byte dropping depend on the top bits of the value; the tests use a few constants.",
  ["src/serde.rs"],
  [("bytes and compressed_bytes modules", "src/serde.rs")])

p("C17", "The native and LLVM back ends are interchangeable",
  "For every input, each arithmetic primitive gives the same result, overflow flag and remainder whether the crate is built with its native implementation or with the LLVM-intrinsics feature.",
  "all operands of every primitive of the two back ends",
  "The test suite is run per configuration on the same few operands; nothing compares the two implementations on other inputs.",
  ["src/intrinsics.rs", "src/intrinsics/native.rs", "src/intrinsics/llvm.rs", "src/intrinsics/signed.rs", "intrinsics/build/intrinsics.rs", "intrinsics/build/main.rs", "intrinsics/src/lib.rs"],
  [("back-end selection", "src/intrinsics.rs"), ("LLVM IR generation", "intrinsics/build/main.rs, intrinsics.rs")],
  over=("inputs", "configurations"))

p("C18", "Exponentiation is repeated multiplication with exact overflow reporting",
  "For every base and exponent, wrapping_pow equals the base multiplied exp times modulo 2^256, and the checked, overflowing, saturating and operator forms report overflow exactly when the mathematical power is not representable, with x^0 = 1.",
  "all bases for each exponent up to the stated bound, and all exponents for structured bases",
  "Square-and-multiply must not report an overflow of a square it does not use, nor miss one it does; tests use two or three exponents.",
  ["src/uint/api.rs", "src/int/api.rs"],
  [("square-and-multiply loops", "src/uint/api.rs, src/int/api.rs *_pow")],
  over=("inputs", "configurations"))

p("C19", "All syntactic forms of an operator agree",
  "For every operand, an operator applied to values, references, any mix of them, primitive right-hand sides and its assigning form returns the same result, panicking in exactly the same cases.",
  "all operands, all operator forms and operand types generated for U256 and I256, both back ends, debug and release builds",
  "The forms are separate macro-generated implementations; the tests only check that they compile.",
  ["src/macros/ops.rs", "src/uint/ops.rs", "src/int/ops.rs"],
  [("operator macros", "src/macros/ops.rs")],
  over=("inputs", "configurations"))

p("C20", "Safe calls never cause undefined behaviour or unexpected panics",
  "For every input, no safe public call executes undefined behaviour (out-of-bounds or uninitialised access, invalid values, unreachable code, over-wide shifts, wrong value-range promises), and it panics only where its documentation says so.",
  "all inputs of every encoded entry point within that entry's bounds, both back ends, debug and release builds",
  "Undefined behaviour is invisible to a passing test, and unexpected panics need the specific operand.",
  ["src/intrinsics/native/divmod.rs", "src/intrinsics/llvm.rs", "intrinsics/build/main.rs", "src/fmt.rs", "src/serde.rs", "src/uint/api.rs", "src/int/api.rs"],
  [("unsafe blocks and uninitialised outputs", "src/intrinsics, src/uint/api.rs, src/int/api.rs, src/fmt.rs, src/serde.rs")],
  over=("inputs", "configurations"))

p("C21", "Sum and Product fold with the crate's own addition and multiplication",
  "For every finite sequence, Sum returns the fold of `+` from 0 and Product the fold of `*` from 1, for owned and borrowed items, panicking on overflow in debug builds and wrapping in release builds; the empty sequence yields 0 and 1.",
  "all sequences up to the stated length with arbitrary elements",
  "The iterator impls are not exercised by tests with overflowing or borrowed items.",
  ["src/macros/iter.rs", "src/uint/iter.rs", "src/int/iter.rs"],
  [("iterator folds", "src/macros/iter.rs")],
  over=("inputs", "configurations"))

p("C22", "Permissive deserialisation accepts numbers only when their value is exact",
  "For every primitive number handed to the permissive deserialiser, it returns that exact value when the number is an integer representable in the target, and an error otherwise (negative for unsigned, non-integral, non-finite or beyond the float's exact integer range).",
  "all i64/u64/i128/u128/f32/f64 inputs, both targets",
  "Tests check a few numbers per visitor method; a negative number silently wrapping is not among them.",
  ["src/serde.rs"],
  [("permissive visitor", "src/serde.rs permissive")])

p("C23", "Prefixed and hex parsing select the radix from the text and validate it fully",
  "For every string, from_str_prefixed parses 0b/0o/0x prefixed numerals in that radix and others as decimal, with the sign before the prefix for I256, and from_str_hex requires the 0x prefix; a missing or repeated prefix, stray sign or empty digits is an error and never a value.",
  "all byte strings up to the stated length; hex numerals of every length up to overflow",
  "Tests cover about five strings per function; combinations of sign, prefix and digits are not covered.",
  ["src/parse.rs", "src/uint.rs", "src/int.rs", "src/macros/parse.rs"],
  [("prefix handling", "src/parse.rs from_str_hex/from_str_prefixed, src/macros/parse.rs")])

p("C24", "Exponent formats print the nearest double",
  "For every value, `{:e}` and `{:E}` of U256 and I256 print exactly what the same format prints for the nearest f64 (ties to even), honouring the formatter's width, precision, sign and alignment options.",
  "all values; a set of formatter options",
  "Tests cover three values; rounding needs all bit patterns around the 53-bit boundary.",
  ["src/macros/fmt.rs", "src/uint/fmt.rs", "src/int/fmt.rs"],
  [("LowerExp/UpperExp through as_f64", "src/macros/fmt.rs")])

NA = {}
TECH = "symbolic execution of the crate's LLVM IR (rustc -O0, regenerated each run) + SAT/SMT (kissat, z3, cvc5)"
NOTE = ("Every obligation is a solver verdict over all inputs within the bounds listed in the evidence; counterexamples are replayed on the "
        "natively compiled crate before being reported. Trusts rustc's LLVM IR, this repository's IR executor (validated on sample inputs against "
        "native runs every time) and the solvers; obligations the solvers do not finish are listed as undecided in the evidence and not claimed.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(V, "props", q["id"].lower() + ".py")) and q["id"] not in NA:
            checks.append({"property": q["id"], "quick_cmd": "./check.py %s --tier quick" % q["id"],
                           "thorough_cmd": "./check.py %s --tier thorough" % q["id"],
                           "technique": q["technique"] or TECH, "level": "model_checking",
                           "level_note": q["level_note"] or NOTE})
        else:
            na.append({"property": q["id"], "reason": NA.get(q["id"], "check not built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the harness crate reaches everything through the public API (path dependency)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
