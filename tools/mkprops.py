import json
T="include/thls/tops/"
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs","configurations"),obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":text},"why_tests_cant":why,"anchors":a})
p("P01","Packed float encoding: fields, classes and constants round-trip",
 "Building a packed float from a class, sign, exponent and fraction and reading its class, sign, exponent and fraction (or its bits) back returns exactly what was put in, each value belongs to exactly one of zero, normal, infinity and NaN, and the zero, one, infinity and NaN constants classify as what they are called. Equality of two packed values is true exactly when they denote the same value: same class, same sign except for NaN, and for normal numbers the same exponent and fraction.",
 "every bit pattern of every (exponent width, fraction width) format",
 "Tests print and compare a few hundred random values per format; a wrong field boundary or a class test that looks at the wrong bit for one pattern is invisible to them.",
 [T+"fp_flopoco.hpp"],["constructor from fields / bits","get_flags get_sign get_exp_bits get_frac_bits is_zero is_normal is_inf is_nan","equals, static zero/one/inf/nan constants"])
p("P02","Fixed-width unsigned integers are exact modulo 2^W",
 "Every operation on fixed-width unsigned integers (add, subtract, negate, complement, multiply, widen, shift, bitwise, compare, select, bit extraction, concatenation, padding, add with carry, increments) returns the mathematically exact result reduced modulo two to the result width, and a value never holds bits outside its declared width. Comparisons and conversions to machine integers agree with the mathematical value.",
 "all operand values at representative widths up to 128 bits, including the widths at which the storage type changes",
 "The unit test of the integer layer samples random operands at a few widths; a missing mask only shows when a later operation reads the stray bits.",
 [T+"fw_uint.hpp",T+"fw_uint_on_masked_uint.hpp"],["fw_uint<W> operators and helpers","get_bits concat zpad opad take drop select add_with_cin"])
p("P03","Addition: class and sign for special operands",
 "Adding any two values where at least one is zero, infinite or NaN gives the class and sign of exact extended-real addition: NaN if an operand is NaN or for opposite infinities, infinity with the operand's sign, the other operand unchanged when one is zero, and a zero sum that is negative only if both zeros are. The result never depends on exponent or fraction bits stored in a zero, infinity or NaN.",
 "all 16 class pairs x signs x every payload, for every adder variant and mixed widths",
 "Tests draw a handful of special values with canonical payloads; non-canonical payload bits are never generated.",
 [T+"fp_flopoco_add_single_v1.hpp",T+"fp_flopoco_add_single_v2.hpp",T+"fp_flopoco_add_single_v3.hpp",T+"fp_flopoco_add_single_v4.hpp",T+"fp_flopoco_add_single_v5.hpp",T+"fp_flopoco_add_dual_v1.hpp",T+"fp_flopoco_primitives.hpp"],["add, add_single, add_dual, add_small"])
p("P04","Addition of normal numbers is correctly rounded to nearest even",
 "The sum of two normal numbers is the exact sum rounded to nearest, ties to even, with results below the smallest normal flushed to zero and results above the largest turned into infinity of the right sign, and exact cancellation giving positive zero. This holds for the single-path and dual-path adders alike and for operands of different exponent and fraction widths.",
 "every pair of normal operands (all signs, exponent distances, carries, cancellations and rounding cases) for each analysed format",
 "Random operands almost never hit ties, boundary exponent distances or massive cancellation, and the single-path adder tests accept any faithful rounding.",
 [T+"fp_flopoco_add_single_v1.hpp",T+"fp_flopoco_add_single_v2.hpp",T+"fp_flopoco_add_single_v3.hpp",T+"fp_flopoco_add_single_v4.hpp",T+"fp_flopoco_add_single_v5.hpp",T+"fp_flopoco_add_dual_v1.hpp"],["far path alignment shift and sticky","leading-zero normalisation","rounding and exponent carry, overflow and underflow"])
p("P05","Multiplication: class and sign for special operands",
 "A product is NaN if an operand is NaN or it is zero times infinity, otherwise infinite if an operand is infinite, otherwise zero if an operand is zero, with sign the exclusive-or of the operand signs. The result never depends on exponent or fraction bits stored in a zero, infinity or NaN.",
 "all 16 class pairs x signs x every payload, same and mixed widths",
 "Tests use canonical special values only and few of the pairs for mixed widths.",
 [T+"fp_flopoco_mul_v1.hpp"],["mul: exception and sign logic"])
p("P06","Multiplication of normal numbers is correctly rounded",
 "The product of two normal numbers is the exact product rounded to nearest, ties to even, into the result format, with results below the smallest normal flushed to zero and results above the largest turned into infinity. When the result format is wide enough to hold every product fraction the fraction is exact.",
 "every pair of normal operands for each analysed combination of operand and result formats, including the exact-width path",
 "Ties and the one-ulp neighbourhood of overflow and underflow are vanishingly rare under random sampling.",
 [T+"fp_flopoco_mul_v1.hpp"],["mul: significand product, normalisation, rounding, exponent range"])
p("P07","Division and reciprocal: class and sign for special operands",
 "A quotient is NaN for NaN operands, zero over zero and infinity over infinity; otherwise infinite for an infinite numerator or a zero denominator, and zero for a zero numerator or an infinite denominator, with sign the exclusive-or of the operand signs. The result never depends on exponent or fraction bits stored in a zero, infinity or NaN.",
 "all 16 class pairs x signs x every payload for every divider and reciprocal variant",
 "Tests use canonical special values and only a few of the pairs.",
 [T+"fp_flopoco_div_v1.hpp",T+"fp_flopoco_div_v2.hpp",T+"fp_flopoco_div_v3.hpp",T+"fp_flopoco_inv_v1.hpp",T+"fp_flopoco_inv_nr.hpp"],["div: exception and sign logic","inv"])
p("P08","Division of normal numbers is correctly rounded",
 "The quotient of two normal numbers is the exact quotient rounded to nearest, with results below the smallest normal flushed to zero and results above the largest turned into infinity of the right sign.",
 "every pair of normal operands for the analysed formats",
 "The digit-recurrence tables and rounding are sampled at a tiny fraction of significand pairs; one wrong table entry affects few of them.",
 [T+"fp_flopoco_div_v1.hpp",T+"fp_flopoco_div_v2.hpp"],["div: digit selection, residual recurrence, quotient assembly, rounding"])
p("P09","Comparison predicates agree with the mathematical order",
 "Less, greater, less-or-equal, greater-or-equal, equal and not-equal on packed floats agree with the order of the values they denote: NaN is unordered (only not-equal is true), both zeros are equal, infinities are ordered outside all normals and equal to themselves, and negative numbers order in reverse of their magnitude. Stored exponent and fraction bits of zeros, infinities and NaNs have no influence.",
 "every pair of bit patterns of each analysed format",
 "Tests compare a sample of pairs with canonical payloads.",
 [T+"fp_flopoco_ordering.hpp"],["comparison operators and predicates"])
p("P10","Width conversion between packed formats: exact up, nearest-even down",
 "Widening a packed float to at least as many exponent and fraction bits preserves its value, class and sign exactly. Narrowing rounds to nearest with ties to even, saturates overflow to infinity and underflow to zero of the same sign, and maps zero, infinity and NaN to themselves.",
 "every value of the source format, for pairs of formats covering wider, equal and narrower exponent and fraction in every combination",
 "Tests sample random values; rounding that carries into the exponent and the edges of the narrower exponent range are rare.",
 [T+"fp_promote.hpp",T+"fp_convert.hpp",T+"fp_flopoco_convert.hpp"],["promote, convert"])
p("P11","Conversion between IEEE and packed formats preserves values",
 "Converting an IEEE-encoded float to the packed format and back returns the same value for every normal number, zero, infinity and NaN whose exponent both formats can represent. Values outside the target's range become zero or infinity with the same sign, never a value of a different class or sign.",
 "every bit pattern of the source format for the analysed format pairs",
 "Tests use random encodings; edge exponents (all ones, zero) and subnormals are rare.",
 [T+"fp_ieee.hpp",T+"fp_convert.hpp",T+"fp_promote.hpp"],["fp_ieee classification and construction","convert between fp_ieee and fp_flopoco"])
p("P12","Negation flips exactly the sign",
 "Negating a packed float returns a value of the same class, exponent and fraction with the opposite sign, so negating twice is the identity and subtraction equals adding the negated operand.",
 "every bit pattern of each analysed format",
 "Sampled only incidentally by tests of other operations.",
 [T+"fp_flopoco_neg_v1.hpp",T+"fp_flopoco_primitives.hpp"],["neg, operator-"])
p("P13","Neighbouring values and numeric limits are adjacent and extremal",
 "Stepping up from a finite value gives the smallest representable value greater than it, stepping down the largest smaller one, and stepping towards a target moves one step in its direction or stays when equal. The numeric-limits constants are the smallest positive, largest finite, lowest, unit spacing, infinity and NaN values of the format.",
 "every finite value of each analysed format",
 "Boundary steps (carry into the exponent, crossing zero, reaching infinity) are single values that random sampling does not hit.",
 [T+"fp_flopoco.hpp"],["nextup nextdown nextafter","numeric_limits specialisations"])
p("P14","Bit heaps and compressors preserve the exact sum",
 "Whatever bits, constants, words and products are put into a bit heap or row heap, the compressed result equals their weighted sum modulo two to the result width. No compression step loses, duplicates or misplaces a weight.",
 "all input values of representative heap shapes, sequences of additions of any mix of operand widths and signs",
 "Tests add random words in a few shapes; a dropped carry in a rarely full column does not show.",
 [T+"bit_heap.hpp",T+"row_heap.hpp",T+"bit_heap_mul.hpp",T+"compressor_tree.hpp",T+"carry_select_adder.hpp"],["bit_heap add/compress/propagate","row_heap","compressor cells"],over=("inputs","programs"))
p("P15","Fused positive dot products are the exact sum rounded down",
 "The two- and four-term fused dot products of positive normal operands (the only operands the functions accept) return the exact sum of products rounded towards zero to the result precision; a sum below the smallest normal number gives zero and one above the largest gives infinity.",
 "every tuple of positive normal operands of each analysed format",
 "Tests sample random tuples and tolerate an error bound rather than checking the exact truncated value.",
 [T+"fp_flopoco_dot2_pos_rndd.hpp",T+"fp_flopoco_dot4_pos_rndd.hpp"],["dot2_pos_rndd","dot4_pos_rndd"])
p("P16","No internal assertion or undefined operation is reachable",
 "For every valid bit pattern of their operands, the arithmetic, comparison and conversion operations finish without failing an internal assertion and without an undefined operation: a shift beyond the operand width, signed overflow, division by zero, or an out-of-bounds table or array access.",
 "every operand bit pattern, including non-canonical payloads, for each analysed format and operation",
 "Tests only show that the operands they draw do not trip an assertion.",
 [T+"fw_uint_on_masked_uint.hpp",T+"fp_flopoco_add_single_v1.hpp",T+"fp_flopoco_add_dual_v1.hpp",T+"fp_flopoco_mul_v1.hpp",T+"fp_flopoco_div_v1.hpp",T+"fp_flopoco_div_v2.hpp"],["assert() sites in the integer layer and the operators","shift amounts, table indices"])
p("P17","Every backend policy performs the operation it is asked for",
 "For each arithmetic backend, the policy's add, subtract, multiply, divide, compare and convert entry points perform that very operation on their operands in the order given, so that switching the backend changes cost and format but not which mathematical operation is computed.",
 "all operand values, all policies",
 "The policy test compares random operands and masks swaps in symmetric cases.",
 [T+"policy_native.hpp",T+"policy_flopoco.hpp",T+"policy_ieee_on_flopoco.hpp",T+"policy_softfloat.hpp",T+"policy_test.hpp"],["policy operation entry points"],over=("inputs","configurations"))
p("P18","Every GMP/MPFR temporary is initialised before use and released once",
 "On every path through the conversion, reference-model and policy code, each multiple-precision temporary is initialised before it is used and released exactly once before the function returns; nothing is used after release.",
 "all paths of every function that creates a multiple-precision temporary",
 "A leak or a use before initialisation has no visible effect in a short test run.",
 [T+"fp_flopoco.hpp",T+"fp_ieee.hpp",T+"policy_native.hpp",T+"policy_flopoco.hpp",T+"policy_ieee_on_flopoco.hpp",T+"policy_softfloat.hpp",T+"policy_test.hpp"],["mpfr_init2/mpfr_clear, mpz_init/mpz_clear pairs"],over=("inputs","programs"))
p("P19","Multiply-add equals the product followed by the sum",
 "The multiply-add of normal operands forms the exact product, adds the third operand, rounds the sum to nearest even in its documented intermediate format (product width plus two bits, or the addend's if wider) and then to the result format; exponent overflow and underflow are judged only on that final value, and special operands behave as in the product followed by the sum.",
 "every operand triple of the analysed formats",
 "Random triples seldom cancel or tie.",
 [T+"fp_flopoco_fma.hpp"],["fma"])
p("P20","The library's MPFR exponent range is restored on every path",
 "Any library function that narrows the global multiple-precision exponent range puts the previous range back before it returns, on every path, so that calling it does not change the results of later computations.",
 "all paths of every function that changes the exponent range",
 "The leak of global state affects only later, unrelated computations with extreme exponents.",
 [T+"policy_flopoco.hpp",T+"policy_ieee_on_flopoco.hpp",T+"policy_native.hpp",T+"policy_test.hpp"],["mpfr_set_emin / mpfr_set_emax"],over=("inputs","histories"))
p("P21","Lookup tables return the tabulated function everywhere",
 "A lookup table built from a function returns, for every address, exactly the value of that function at that address. One step of the LUT-optimised generator maps every state to the state whose bits are the exclusive or of the distinct taps that its width, tap count and seed select (successive permutations of the cycle, then the output permutation), so the generated sequence depends on those parameters alone.",
 "every address of tables, and every state of generators, of representative sizes",
 "Tests build a few tables; a folding error affects isolated indices.",
 [T+"fw_uint.hpp",T+"lut_opt.hpp"],["lut","lut_opt"])
p("P22","Compile-time arithmetic helpers, vectors and generators compute exact results",
 "The compile-time helpers give the mathematically exact result for their arguments: minimum, maximum, checked shift and fixed-point comparison; vector creation, rotation, reading, writing, swapping, permutation, distinct elements, traversal and map-reduce in order; and the compile-time random generators, whose skip over any distance (forwards or backwards) equals that many single steps.",
 "representative argument sets covering signs, word boundaries, unbalanced trees and long and negative distances",
 "These headers are not built by any test.",
 ["include/thls/core/constfunc_helpers.hpp","include/thls/tops/ct/ct_vec.hpp","include/thls/tops/ct/ct_vec_unique.hpp","include/thls/tops/ct/ct_vec_permute.hpp","include/thls/tops/ct/ct_rng_lcg_mod_2y32.hpp","include/thls/tops/ct/ct_rng_lcg_mod_p.hpp"],["ctFixCompare","ct_vec algorithms","skip_by"],over=("programs",))
p("P23","The multiple-precision reference models describe the same formats",
 "The multiple-precision reference functions round their exact result to nearest in the result format's precision and range with the same flush-to-zero, overflow and NaN rules the hardware operators follow, conversion of a packed value to and from a multiple-precision number is exact, and the dot products' models add the exact products and round the sum once, downwards.",
 "all values of all formats",
 "The reference models are the tests' own oracle; an error common to both sides is invisible.",
 [T+"fp_flopoco.hpp",T+"fp_flopoco_dot2_pos_rndd.hpp",T+"fp_flopoco_dot4_pos_rndd.hpp"],["ref_add ref_mul ref_div ref_inv","get / set from mpfr","dot2_pos_rndd_ref_large","dot4_pos_rndd_ref_large"])
p("P24","Table and Newton reciprocals are faithful",
 "For every normal operand, inv_faithful/inv_table_newton and inv_direct return a number of the result format less than one unit in the last place away from the exact reciprocal, with the operand's sign and the exact reciprocal's exponent; a reciprocal below the smallest normal number becomes zero (never a wrapped exponent), and one that rounds up to it may be either. Operand and result may have different fraction widths.",
 "every operand of the supported formats",
 "Tests sample significands and exponents; the error of a Newton chain and the wrap at the smallest exponent depend on particular ones.",
 [T+"fp_flopoco_inv_nr.hpp"],["inv_table_newton","inv_direct","inv_frac_newton_step","inv_frac_starter_table","inv_faithful"])
p("P25","Fixed-point helpers compute exact values",
 "fw_fix values are bits*2^LSB: products are exact and carry the sum of the weights, sub_match aligns both operands and subtracts exactly modulo its range, operator- subtracts, ldexp_const only moves the weights, round_to_lsb (round_frac) rounds to nearest with ties to even and reports the carry, trunc_to_lsb drops low bits, truncate_to_msb keeps the low bits and reports whether a dropped bit was set.",
 "every value of every instantiated width, including widths that grow, shrink by one bit, or by many",
 "These helpers are only exercised through the reciprocals, whose tests tolerate an error of one unit.",
 [T+"fp_flopoco_inv_nr.hpp"],["fw_fix","sub_match","round_frac","round_to_lsb","trunc_to_lsb","truncate_to_msb","ldexp_const"])
p("P26","Native doubles convert faithfully",
 "fp_flopoco(double) keeps the class and sign of zeros, infinities and NaN, makes numbers below the smallest normal one zero and numbers above the largest infinite, converts a number exactly when the fraction has at least 52 bits or the value is representable, and otherwise is less than one unit in the last place off; to_double (wE<=11, wF<=52) returns exactly the packed number, rounded to nearest even only where it is a subnormal double, and keeps signs and classes.",
 "every bit pattern of a double and every packed number of the instantiated formats, narrower and wider than double",
 "Tests convert the constants they print; double has 2^64 patterns, and fractions wider than 31 bits are not tested.",
 [T+"fp_flopoco.hpp"],["fp_flopoco(double)","to_double"])
p("P27","Hardware integer backends compute the same as the software one",
 "With the ap_uint or ac_int backend selected (THLS_FW_UINT_ON_AP_UINT, THLS_FW_UINT_ON_AC_UINT), every fixed-width operation is exact modulo 2^W and to_mpz_t and the mpz constructor convert losslessly at every width; and the packed-float operators, conversions, comparisons, reciprocals, dot products and bit heaps built on those backends, in the synthesis configuration (THLS_SYNTHESIS) where the header supports it, return exactly what their software specification demands.",
 "every width up to 128 bits and every format instantiated, every operand value, for vendor integers that behave as documented",
 "The backends are what is synthesised, but the vendor headers are not installed, so no test compiles them; tests cover only the software backend.",
 ["include/thls/tops/fw_uint_on_ap_uint.hpp","include/thls/tops/fw_uint_on_ac_uint.hpp","include/thls/tops/fw_uint.hpp"],["fw_uint","get_bits","set_bits","concat","select","to_mpz_t","fw_uint(mpz_t)"])
p("P28","Generated test operands cover what they claim to",
 "random_fw_uint and randomise return values every bit of which is a bit of its own of the words drawn from the generator (no bit constant, repeated or correlated with another), at every width; fp_flopoco_random_test_source draws only classes that have not been disabled, with the flags and the sign of the class, and exponent and fraction bits (and the sign of a NaN) each a drawn bit of its own.",
 "every width up to 128 bits and format instantiated, every sequence of words the generator returns, none, any one or all but one class disabled",
 "All randomised tests and the exhaustive-by-sampling drivers draw from these; a stuck bit or an excluded class silently removes inputs from every test, and no test looks at the distribution.",
 ["include/thls/tops/fw_uint.hpp","include/thls/tops/fp_flopoco.hpp"],["random_fw_uint","randomise","fp_flopoco_random_test_source"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
