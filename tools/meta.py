#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import props

H = "grisu_exact.h"
S = "fp_to_chars.h"
I = "fp_to_chars/fp_to_chars.cpp"
RANDOM = ("the existing tests compare round-to-nearest-even with ties to even against another implementation on random "
          "samples; %s")
SYM = "symbolic execution of LLVM IR, SMT (linear integer arithmetic)"
NUM = ("Per binary exponent field, all mantissas and both signs are symbolic; each path's result is decided by z3 against "
       "the definition. Bounded by the exponent fields encoded in a run (quick: a few hundred, listed in the evidence; "
       "thorough: all). Trusted: the IR semantics in engine/, z3, clang's IR; every run replays concrete inputs.")
REL = ("Several conversions of one symbolic input are executed in one run; per exponent field z3 decides whether their "
       "results can differ, for all mantissas and both signs. Bounded by the exponent fields encoded in a run (quick: a "
       "sample, listed in the evidence; thorough: all). Trusted: the IR semantics in engine/, z3, clang's IR.")
UNIT = ("The function itself is executed with all its arguments symbolic over the whole stated range; z3 decides the "
        "assertion for every value. Trusted: the IR semantics in engine/, z3, clang's IR; concrete replays confirm.")
TEXT = ("The digit writer is executed with significand and exponent symbolic over their whole range, special values with "
        "the bit pattern symbolic; z3 decides every byte, the end and the set of written bytes. End-to-end slices (one "
        "exponent field, all mantissas and signs) tie the public functions to it, bounded by the fields picked in a run. "
        "Trusted: the IR semantics in engine/, z3, clang's IR; concrete replays confirm.")

PROPS = [
 dict(id="C01", title="Round trip under round-to-nearest, whatever the tie convention",
  statement="For every finite non-zero binary32 or binary64 number and every round-to-nearest input convention "
            "(ties to even, odd, up, down, towards or away from zero), the decimal number produced reads back, under "
            "that same convention, as the number that was converted.",
  over=["inputs", "configurations"], text="all 2^32 / 2^64 finite non-zero bit patterns, all nearest conventions",
  why=RANDOM % "other conventions are never run, and 2^64 inputs cannot be sampled: the critical ones lie within 2^-60 of a boundary",
  files=[H], mech=[("search for the exponent of the shortest decimal and boundary adjustment", H + ": compute_impl steps 1-3"),
                   ("interval end inclusion per convention", H + ": grisu_exact_rounding_modes::interval_type")]),
 dict(id="C02", title="Outputs have the fewest digits possible (round to nearest)",
  statement="For every finite non-zero number and every round-to-nearest convention, no decimal number with fewer "
            "significant digits than the one produced reads back as the same binary number.",
  over=["inputs", "configurations"], text="all finite non-zero bit patterns, all nearest conventions",
  why=RANDOM % "a missed shorter candidate shows only for inputs whose interval end nearly or exactly meets a multiple of a power of ten",
  files=[H], mech=[("binary search for the largest usable power of ten", H + ": increasing_search, decreasing search")]),
 dict(id="C03", title="Among the shortest outputs the closest one is chosen",
  statement="For every finite non-zero number and every round-to-nearest convention, with correct rounding on, no other "
            "decimal number of the same number of digits that reads back as the input is closer to the input's exact value.",
  over=["inputs", "configurations"], text="all finite non-zero bit patterns, all nearest conventions, all tie policies of the output",
  why=RANDOM % "only one convention and one policy are compared, on samples",
  files=[H], mech=[("correct rounding search", H + ": compute_impl step 4, correct_rounding_search labels")]),
 dict(id="C04", title="Ties between equally close shortest outputs follow the chosen policy",
  statement="When two shortest candidates are exactly equally far from the input, the one with the even last digit is "
            "chosen under the prefer-even policy, the odd one under prefer-odd, the larger in magnitude under prefer-up "
            "and the smaller under prefer-down.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, four tie policies, all nearest conventions",
  why=RANDOM % "ties happen for a vanishing share of random inputs, and three of the four policies are never run",
  files=[H], mech=[("tie resolution by an exact product test", H + ": is_product_integer in step 4")]),
 dict(id="C05", title="Directed rounding: readers that truncate or round away get the input back",
  statement="For each directed convention (towards plus infinity, minus infinity, zero, away from zero), the number "
            "produced reads back as the input under that convention, has the fewest digits among such numbers and, with "
            "correct rounding on, is the closest of those.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, four directed conventions",
  why="no test runs any directed convention",
  files=[H], mech=[("one-sided intervals", H + ": left_closed_directed, right_closed_directed"),
                   ("greedy minimum search", H + ": left-closed branch of step 4")]),
 dict(id="C06", title="Without correct rounding the output still round-trips and is shortest",
  statement="With the search for the closest candidate switched off, the number produced still reads back as the input "
            "under the chosen convention, nearest or directed, and still has the fewest digits.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, all conventions, correct rounding off",
  why=RANDOM % "the policy without correct rounding is benchmarked, never checked for round trip or length",
  files=[H], mech=[("boundary adjustment without step 4", H + ": do_not_care_tag branches")]),
 dict(id="C07", title="Variants that fix the interval type up front give the same results",
  statement="Each convention that resolves its interval shape by an early branch (even, odd, plus, minus infinity) "
            "produces, for every input and tie policy, exactly the result of the convention that resolves it late.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, four pairs of conventions",
  why="no test runs these variants",
  files=[H], mech=[("static boundary delegates", H + ": nearest_*_static_boundary")]),
 dict(id="C08", title="Sign: negation mirrors the result and the sign bit is reported exactly",
  statement="The reported sign is the input's sign bit; negating the input under a symmetric convention changes nothing "
            "else, and under a convention that looks at the sign gives the magnitude that the mirrored convention gives "
            "for the original; asking for an unsigned result gives the same magnitude.",
  over=["inputs", "configurations"], text="all finite non-zero inputs and their negations, all conventions",
  why="tests compare strings of random inputs under one convention only",
  files=[H], mech=[("sign handled apart from the magnitude", H + ": compute_impl, rounding mode delegates")]),
 dict(id="C09", title="Results stay within 17 (binary64) or 9 (binary32) digits and the exponent range",
  statement="For every finite non-zero input and every configuration, the decimal significand is positive and has at most "
            "17 digits for binary64 or 9 for binary32, is not a multiple of ten, and the decimal exponent lies between "
            "-324 and 308 or between -45 and 38.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, all conventions and policies",
  why=RANDOM % "the bound that fixed-size output buffers rely on is never asserted",
  files=[H], mech=[("choice of the scaling power", H + ": compute_impl step 1")]),
 dict(id="C10", title="The string denotes exactly the computed decimal number, in scientific form",
  statement="For every decimal significand of at most 17 (9) digits and every exponent a conversion can return, the text "
            "written is one non-zero digit, then a point and the remaining digits if there are any, then E and the exponent "
            "without leading zeros, and denotes exactly significand times ten to the exponent.",
  over=["inputs"], text="all significands in 1..10^17-1 (1..10^9-1) with all exponents in range",
  why=RANDOM % "strings of random doubles nearly all have 16 or 17 digits; short ones and the exponents that go with them are rarely seen",
  files=[I, S], mech=[("two digits at a time by a table", I + ": fp_to_chars_impl, radix_100_table")]),
 dict(id="C11", title="Zeros, infinities and NaNs have fixed spellings",
  statement="Positive and negative zero give 0E0 and -0E0, infinities Infinity and -Infinity, every NaN gives NaN, and a "
            "finite non-zero number starts with a minus sign just if it is negative.",
  over=["inputs", "configurations"], text="all bit patterns of both formats",
  why="tests feed only finite non-zero numbers",
  files=[S], mech=[("special cases", S + ": fp_to_chars_n")]),
 dict(id="C12", title="Text output stays inside the returned range and a fixed-size buffer",
  statement="Conversion to text writes every byte from the buffer's start to the returned end, nothing outside, at most 24 "
            "characters for binary64 and 15 for binary32; the terminating variant adds exactly one zero byte at the "
            "returned end.",
  over=["inputs", "configurations"], text="all bit patterns of both formats",
  why="tests use large buffers and no bounds checker, on random inputs",
  files=[S, I], mech=[("pointer arithmetic of the writer", I + ": fp_to_chars_impl")]),
 dict(id="C13", title="No undefined behaviour, failed assertion or endless loop on valid input",
  statement="For every finite non-zero input and every configuration, conversion terminates without failing an internal "
            "assertion, shifting out of range, overflowing a signed integer, or reading outside its tables.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, all conventions and policies",
  why="asserts are checked for sampled inputs of one configuration; undefined behaviour is not instrumented",
  files=[H], mech=[("exponent thresholds and table bounds", H + ": common_info, get_cache")]),
 dict(id="C14", title="Every platform branch computes the same result",
  statement="The code paths for different compilers and word sizes (128-bit integers, 64x64-bit intrinsics, 32-bit "
            "multiplication by parts) return the same decimal number for every input.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, all preprocessor branches that can be encoded",
  why="tests run the branches of one compiler, each on its own random samples, and never the intrinsic branch of the other compiler",
  files=[H], mech=[("multiplication and bit-scan primitives", H + ": umul128, umul192_upper64, umul96_upper32, divisible_by_power_of_2")]),
 dict(id="C15", title="Bit classification agrees with IEEE 754",
  statement="For every bit pattern, the inspectors (finite, zero, subnormal, sign, infinity, NaN, quiet and signalling "
            "NaN, payload, exponent and fraction fields, conversion back) give what IEEE 754 says of that pattern.",
  over=["inputs"], text="all 2^32 and 2^64 bit patterns",
  why="tests never call the inspectors on special values",
  files=[H], mech=[("mask tests", H + ": bit_representation_t")]),
 dict(id="C16", title="Integer logarithms are exact floors on their documented range",
  statement="The three integer approximations, floor(e*log10(2)), floor(e*log2(10)) and floor(e*log5(2)), equal the real "
            "floors for every integer exponent in the range stated for them, without overflow.",
  over=["inputs"], text="every integer in the documented ranges",
  why="tests check fewer arguments than documented, and a formula is trusted for the rest",
  files=[H], mech=[("fixed-point multiplication", H + ": floor_log10_pow2, floor_log2_pow10, floor_log5_pow2")]),
 dict(id="C17", title="Every precomputed power of ten is the correctly rounded one",
  statement="Every entry of the tables of powers of ten that a conversion can use is the intended power scaled to full "
            "width, exact where it fits, rounded up for negative and down for positive powers.",
  over=["inputs"], text="all table entries, reached through a symbolic index",
  why="a wrong entry affects only the inputs of about three binary exponents, which random tests meet rarely and a low bit almost never",
  files=[H], mech=[("cache tables", H + ": cache_holder, get_cache")]),
 dict(id="C18", title="Wide multiplication primitives return the exact high part",
  statement="The multi-word products return exactly the documented bits of the exact product for all operands.",
  over=["inputs", "configurations"], text="all 64-bit by 64-bit, 64-bit by 128-bit and 32-bit by 64-bit operands, every platform branch",
  why="a lost carry needs operands with long runs of ones, which random operands lack",
  files=[H], mech=[("partial products and carries", H + ": umul128, umul128_upper64, umul192_upper64, umul96_upper32")]),
 dict(id="C19", title="Divisibility tests by powers of 2 and 5 are exact",
  statement="The tests for divisibility by a power of two or of five answer yes exactly for multiples, for every operand "
            "and every power a conversion can ask for.",
  over=["inputs"], text="all non-zero 32-bit and 64-bit operands, all powers in reach",
  why="multiples of large powers of five are never sampled",
  files=[H], mech=[("modular inverses and bounds", H + ": divisible_by_power_of_5, divisible_by_power_of_2")]),
 dict(id="C20", title="The handler for special inputs does not change results",
  statement="For every finite non-zero input the result is the same whichever special-case handler is chosen; the default "
            "handler stops debug builds on every infinity and NaN and on no finite number, and a handler of the caller's is "
            "called once, with the input.",
  over=["inputs", "configurations"], text="all bit patterns, both handlers",
  why="tests use only the default handler on finite numbers",
  files=[H], mech=[("case handlers", H + ": grisu_exact_case_handlers")]),
 dict(id="C21", title="Text output and omitted arguments use the documented convention",
  statement="Text output shows exactly the decimal number that the numeric conversion gives under the same convention and "
            "tie policy, for every finite non-zero input; arguments left out mean nearest-to-even and prefer-even, and "
            "it makes no difference whether policies are passed as temporaries or as named objects.",
  over=["inputs", "configurations"], text="all finite non-zero inputs, all conventions and policies, both text functions",
  why="tests call one convention explicitly and only the default for text, on random inputs",
  files=[S, H], mech=[("forwarding of policies", S + ": fp_to_chars_n, fp_to_chars"),
                      ("default template arguments", H + ": grisu_exact")]),
]

CHECKS = {
    **{p: (SYM, "model_checking", NUM) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C09", "C13")},
    **{p: (SYM, "model_checking", REL) for p in ("C07", "C08", "C14", "C20")},
    **{p: (SYM, "model_checking", UNIT) for p in ("C15", "C16", "C17", "C18", "C19")},
    **{p: (SYM, "model_checking", TEXT) for p in ("C10", "C11", "C12", "C21")},
}
CHECKS.update(getattr(props, "LEVELS", {}))
NOT = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in props.PROPS and i in CHECKS:
            t, lv, note = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3-vt run.py %s quick" % i,
                           "thorough_cmd": "python3-vt run.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": note})
        else:
            na.append({"property": i, "reason": NOT.get(i, "no check yet (work in progress)")})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
