# What each check compiles and analyses.
HDR = "thls/tops/"
def add_unit(src, name, hdr, op, formats, thorough="", **k):
    return dict(src=src, name=name, flags=[f'-DADDHDR="{HDR}{hdr}"', f'-DADDOP(ER,FR,EX,FX,EY,FY,a,b)={op}', f'-DFORMATS={formats}'], **k)

ADDERS = [ # name, header, expression, can take mixed widths
    ("add", "fp_flopoco_primitives.hpp", "(add<ER,FR>(a,b,0))"),
    ("single v1", "fp_flopoco_add_single_v1.hpp", "(add_single<ER,FR>(a,b,0))"),
    ("single v2", "fp_flopoco_add_single_v2.hpp", "(add_single<ER,FR>(a,b,0))"),
    ("single v3", "fp_flopoco_add_single_v3.hpp", "(add_single<ER,FR>(a,b,0))"),
    ("single v4", "fp_flopoco_add_single_v4.hpp", "(add_single<ER,FR>(a,b,0))"),
    ("single v5", "fp_flopoco_add_single_v5.hpp", "(add_single_v5<ER,FR>(a,b,0))"),
]
CHECKS = {}
NUM = "Relational abstract interpretation of the LLVM IR of the operator: operands are symbols with ranges, values are exact integer polynomials over them, undecided predicates partition the trace; every cell of the partition discharges each obligation for all operand values in the cell. A violation is reported only with an operand tuple that satisfies the cell's constraints."
def fm(*l): return " ".join(("A(%d,%d)" % x) if len(x) == 2 else "M(%d,%d,%d,%d)" % x for x in l)
CHECKS["P04"] = dict(level="other", explanation=NUM, units=
    [add_unit("p04.cpp", n, h, op, fm(*f)) for (n, h, op), f in zip(ADDERS, [
        [(4,3),(5,10),(4,5),(8,23),(6,13),(4,6,4,3),(6,5,4,8)],
        [(4,3),(5,10),(4,5),(8,23),(4,6,4,3),(5,5,4,8)],
        [(5,6)], [(6,12)], [(6,10)],
        [(5,6),(8,23),(8,8,8,3),(6,3,6,7)]])])
CHECKS["P03"] = dict(level="other", explanation=NUM, units=
    [add_unit("p03.cpp", n, h, op, fm(*f)) for (n, h, op), f in zip(ADDERS, [
        [(4,3),(8,23),(11,52),(4,6,4,3),(6,5,4,8)],
        [(4,3),(8,23),(11,52),(4,6,4,3),(6,5,4,8)],
        [(5,6)], [(6,12)], [(6,10)],
        [(5,6),(8,23),(8,8,8,3),(6,3,6,7)]])])

def mul_unit(src, name, hdr, op, formats, **k):
    return dict(src=src, name=name, flags=[f'-DMULHDR="{HDR}{hdr}"', f'-DMULOP(ER,FR,EX,FX,EY,FY,a,b)={op}', f'-DFORMATS={formats}'], **k)
MULF = [(4,3),(5,10),(8,23),(4,8),(11,52),(6,8,5,5),(5,4,9,6),(4,11,4,6),(4,14,4,6),(8,48,23,23)]
CHECKS["P06"] = dict(level="other", explanation=NUM, units=[mul_unit("p06.cpp", "mul", "fp_flopoco_primitives.hpp", "(mul<ER,FR>(a,b,0))", fm(*MULF))])
CHECKS["P05"] = dict(level="other", explanation=NUM, units=[mul_unit("p05.cpp", "mul", "fp_flopoco_primitives.hpp", "(mul<ER,FR>(a,b,0))", fm(*MULF))])

def div_unit(src, name, hdr, formats, div="0", inv="0", **k):
    return dict(src=src, name=name, flags=[f'-DDIVHDR="{HDR}{hdr}"', f'-DDIVOP(E,F,a,b)={div}', f'-DINVOP(E,F,a)={inv}', f'-DFORMATS={formats}'], vpai=["--planar", "64"] + k.pop("eng", []), **k)
DIV, INV, DIV2 = "(thls::div<E,F>(a,b,0))", "(thls::inv<E,F>(a,0))", "(div_v2<E,F>(a,b,0))"
CHECKS["P07"] = dict(level="other", explanation=NUM, units=[
    div_unit("p07.cpp", "div", "fp_flopoco_primitives.hpp", "A(4,3) A(5,10) A(8,23) A(11,52) M(5,3,4,6) M(4,8,6,4) I(5,10) I(8,23)", DIV, INV, lut=True, eng=["--ifconv"]),
    div_unit("p07.cpp", "div_v2", "fp_flopoco_div_v2.hpp", "A(4,3) A(5,4)", DIV2, lut=True, eng=["--ifconv"]),
    dict(src="p07.cpp", name="table and Newton", flags=['-DDIVHDR="thls/tops/fp_flopoco_primitives.hpp"', "-DDIVOP(E,F,a,b)=0", "-DINVOP(E,F,a)=(thls::inv_faithful<E,F>(a,0))", "-DFORMATS=I(4,5) I(8,8) I(5,7)"], vpai=["--quot", "64"]),
    dict(src="p07.cpp", name="table", flags=['-DDIVHDR="thls/tops/fp_flopoco_primitives.hpp"', "-DDIVOP(E,F,a,b)=0", "-DINVOP(E,F,a)=(thls::inv_direct<E,F>(a,0))", "-DFORMATS=I(4,5) I(8,8)"], vpai=["--quot", "64"])])
CHECKS["P08"] = dict(level="other", explanation=NUM, budget=80, units=[
    div_unit("p08.cpp", "div", "fp_flopoco_primitives.hpp", "A(4,3) A(5,4) M(5,3,4,4) M(4,4,4,3) J(5,6) J(6,7) I(5,7) I(8,10) I(4,11)", DIV, INV),
    div_unit("p08.cpp", "div_v2", "fp_flopoco_div_v2.hpp", "A(4,3) J(5,4) J(4,5)", DIV2),
    div_unit("p08.cpp", "div", "fp_flopoco_primitives.hpp", "J(5,8) J(5,9) A(5,6)", DIV, INV, thorough_only=True)])
CHECKS["P09"] = dict(level="other", explanation=NUM, units=[dict(src="p09.cpp", flags=["-DFORMATS=A(4,3) A(5,10) A(8,23) A(11,52) M(4,3,5,7) M(8,5,6,10) M(6,8,6,4)"])])
CHECKS["P10"] = dict(level="other", explanation=NUM, units=[dict(src="p10.cpp", flags=["-DFORMATS=C(4,3,4,3) P(4,3,4,3) C(4,3,5,10) C(5,10,4,3) P(5,10,4,3) C(5,4,4,8) C(4,8,5,4) C(5,3,5,10) C(5,10,5,9) P(5,10,5,9) C(5,9,5,10) C(8,23,11,52) C(11,52,8,23) P(11,52,8,23) C(6,8,8,8) C(8,8,6,8) P(8,8,6,8) C(4,5,4,6) C(8,7,8,23) C(8,23,8,48) C(4,12,11,11) C(4,23,8,23) C(3,4,8,20) C(8,20,3,4) P(8,20,3,4)"])])
_P = [(5,10,4,3),(8,23,5,10),(11,52,8,23),(6,8,5,8),(9,12,4,12)]
CHECKS["P11"] = dict(level="other", explanation=NUM, units=[dict(src="p11.cpp", flags=["-DFORMATS=" + " ".join("S(%d,%d)" % x for x in [(4,3),(5,10),(8,23),(11,52),(3,7),(6,2)]) + " " + " ".join("P(%d,%d,%d,%d) Q(%d,%d,%d,%d)" % (x + x) for x in _P) + " P(5,12,5,10) P(8,23,8,23)"])])
_F = "A(4,3) A(5,10) A(8,23) A(11,52) A(3,7) A(6,2) A(9,20) A(15,40)"
CHECKS["P12"] = dict(level="other", explanation=NUM, units=[dict(src="p12.cpp", flags=["-DFORMATS=" + _F + " M(5,10,4,3) M(4,3,5,10) M(5,6,5,9) M(8,23,11,52)"])])
CHECKS["P13"] = dict(level="other", explanation=NUM, units=[dict(src="p13.cpp", flags=["-DFORMATS=" + _F + " N(5,10)"])])
CHECKS["P01"] = dict(level="other", explanation=NUM, units=[dict(src="p01.cpp", flags=["-DFORMATS=" + _F])])
_W = [1,2,3,8,16,24,31,32,33,40,63,64,65,80,96,127,128]
_WP = [(1,1),(1,31),(1,32),(31,1),(16,16),(17,16),(32,32),(24,24),(33,32),(32,33),(31,33),(1,64),(64,1),(63,1),(53,53),(40,24),(64,64),(65,63),(1,127),(0,5),(5,0)]
_WQ = [(1,2,3,4),(8,8,8,8),(16,17,3,30),(2,1,40,32),(1,1,11,52),(32,32,32,32),(8,24,1,40),(0,3,0,4)]
CHECKS["P02"] = dict(level="other", explanation=NUM, units=[dict(src="p02.cpp", flags=["-DFORMATS=" + " ".join("W1(%d)" % w for w in _W) + " " + " ".join("W2(%d,%d)" % x for x in _WP) + " " + " ".join("W4(%d,%d,%d,%d)" % x for x in _WQ)])])
_H = "C(a,3,3,3) C(b,3,4,5,4) C(c,0,7,2,8) C(d,1,2,9) C(e,5,6,6,6,5,4) C(g,1) C(h,2,2) C(i,5) C(j,4,0,3,0,6) C(k,1,2,3,4,5,6,7) C(n,3,3,3,3,3,3,3,3,3,3,3,3) J(a,2 K 3 K 1,4 K 0 K 2) J(b,3,2 K 1 K 5 K 2) WD(1) WD(5) WD(33) WD(64) PS(5,3,4) PS(1,1,1) PS(8,0,9) PS(30,20,5) T3(4,4,4) T3(3,8,5) T3(16,16,16) T3(32,31,7) X(3,5,6) X(2,7,3) X(2,3,7) X(4,8,8) X(9,24,24) Y(4,4,4) Y(3,5,6) Y(4,8,8)"
_R = "R(4,3) R(4,4) R(2,5) R(8,4) R(32,3) R(1,3) R(1,7) R(40,3) R(64,3) R(65,3) R1(4,5) R1(3,6) R1(4,7) R1(8,9) R1(2,10) RS(4,6) RS(9,3) RS(1,64) RS(33,20)"
CHECKS["P14"] = dict(level="other", explanation=NUM + " Column sums are related to their carry and sum bits by linear equations (2q+m), so heaps of any bit pattern are covered without enumerating bits.", units=[
    dict(name="bit heap", src="p14.cpp", flags=["-DFORMATS=" + _H], vpai=["--symq", "--bits"]), dict(name="row heap", src="p14.cpp", flags=["-DFORMATS=" + _R], vpai=["--bits"])])
_D2, _D4 = [f'-DDOTHDR="{HDR}fp_flopoco_dot{n}_pos_rndd.hpp"' for n in (2, 4)]
def dots(*l): return "-DFORMATS=" + fm(*l)
CHECKS["P15"] = dict(level="other", explanation=NUM, budget=90, thorough_budget=800, units=[
    dict(name="dot2", src="p15.cpp", flags=["-DDOT2", _D2, dots((2,3),(3,3),(4,3),(5,4),(3,10),(6,8),(8,5),(5,10),(8,10))]),
    dict(name="dot4", src="p15.cpp", flags=[_D4, dots((2,5),(3,1),(3,2))]),
    dict(name="dot4", src="p15.cpp", flags=[_D4, dots((2,1),(2,2),(2,16),(3,3))], thorough_only=True)])
CHECKS["P19"] = dict(level="other", explanation=NUM + " Significands are enumerated as cells of the partition, exponents and signs stay symbolic.", budget=90, thorough_budget=840, units=[
    dict(name="fma", src="p19.cpp", flags=["-DFORMATS=S(4,3) S(5,10) S(3,2) A(2,2) A(2,3) A(3,2) M(3,2,1,1,3) M(2,4,1,1,1) M(3,1,1,2,2)"]),
    dict(name="fma", src="p19.cpp", flags=["-DFORMATS=A(4,2) A(3,3) M(3,2,1,3,5) M(3,3,1,2,6)"], thorough_only=True)])
CHECKS["P17"] = dict(level="other", explanation=NUM + " The wrapper's result and the primitive's are computed side by side on the same symbols and must be the same polynomial in every cell; the softfloat routines are replaced by recording stand-ins with an arbitrary result.", budget=60, thorough_budget=800, units=[
    dict(name="packed", src="p17.cpp", flags=["-DFORMATS=A(4,3) I(4,3) L(4,3) L(5,10) L(8,23) L(11,52) T(8,23)"]),
    dict(name="softfloat", src="p17s.cpp", flags=["-DFORMATS="]),
    dict(name="packed", src="p17.cpp", flags=["-DFORMATS=A(5,4) I(4,4) I(5,4)"], thorough_only=True)])
def ub(u, **k):
    u = dict(u, ub=True); u.update(k); return u
UBX = " The units are compiled with assertions enabled and with the compiler's undefined-behaviour traps (shift, signed overflow, division, bounds, unreachable, missing return, invalid bool); every assertion failure and every trap is a program point the analysis must show unreachable for all operands, including payloads of zeros, infinities and NaNs."
CHECKS["P16"] = dict(level="other", explanation=NUM + UBX, budget=200, thorough_budget=840, units=
    [ub(u, name=p + " " + u.get("name", "")) for p in ("P01", "P02", "P05", "P06", "P07", "P09", "P10", "P11", "P12", "P13", "P14") for u in CHECKS[p]["units"]] +
    [ub(u, name="P08 " + u.get("name", "")) for u in CHECKS["P08"]["units"]] +
    [ub(u, name="P15 " + u.get("name", "")) for u in CHECKS["P15"]["units"][:1]] +
    [ub(add_unit("p04.cpp", "P04 " + n, h, op, fm(*f))) for (n, h, op), f in zip(ADDERS, [[(4,3)], [(4,3),(4,5)], [(4,5)], [(5,13)], [(4,5)], [(4,5),(4,3)]])] +
    [ub(add_unit("p04.cpp", "P04 " + n, h, op, fm(*f)), thorough_only=True) for (n, h, op), f in zip(ADDERS, [[(5,4),(4,5)], [(4,6),(5,4),(6,29)], [(5,4)], [(4,12)], [(5,4)], [(5,4)]])])
CHECKS["P21"] = dict(level="other", explanation=NUM, units=[dict(src="p21.cpp", vpai=["--bits"], flags=["-DFORMATS=L(8,4) L(3,5) L(33,3) L(1,6) L(64,3) L(40,2) L(2,1) L(7,7) L(31,4) L(65,2) S(4,2,1) S(5,3,7) S(16,6,1) S(7,7,99) S(32,5,12345) S(2,1,3) S(64,3,4294967295) S(9,4,2463534242)"])])
CHECKS["P22"] = dict(level="other", explanation="Each instance of the compile-time helpers is evaluated by the compiler; the analyser compares the folded constants in the IR with the mathematical values. An instance that is valid and yet rejected by the compiler is a violation.",
    technique="static analysis: compile-time witnesses, constant evaluation of the type-level program", note="Decides the listed argument sets (they cover signs, carries, word boundaries and unbalanced trees), not all arguments.",
    units=[dict(src="p22.cpp", witness=True, flags=["-DFORMATS="])])
MOCK = ["-I", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness/mock")]
NAT = " PN(policy_native_double,53,-1073,1024) PN(policy_native_single,24,-148,128) PN(policy_concept,53,-1073,1024)"
STAND = " MPFR and GMP are replaced by stand-ins: exact conversions are carried out, a rounding operation is recorded (operation, exact operands, mode, precision, exponent range) and returns any number of its precision; the obligations then hold for every operand and every possible rounded result."
CHECKS["P02"]["units"].append(dict(name="mpz", src="p02z.cpp", flags=MOCK + ["-DFORMATS=D(1) D(7) D(31) D(32) D(33) D(63) D(64) D(65) D(97) D(128)"]))
CHECKS["P23"] = dict(level="other", explanation=NUM + STAND, budget=200, thorough_budget=840, units=[
    dict(name="conversions", src="p23.cpp", flags=MOCK + ["-DFORMATS=A(4,3) A(5,10) A(8,23) A(2,4) AF(11,52) AF(3,1)"]),
    dict(name="policies", src="p23.cpp", flags=MOCK + ["-DFORMATS=PF(5,4) PF(8,23) PF(11,52)" + NAT]),
    dict(name="functions", src="p23.cpp", flags=MOCK + ["-DFORMATS=U(4,3,4,3) U(3,2,4,4) U(8,23,5,10) U(5,10,3,2)"]),
    dict(name="operations", src="p23.cpp", flags=MOCK + ["-DFORMATS=O(4,3,5,4,3,2)"]),
    dict(name="dot products", src="p23d.cpp", flags=MOCK + ["-DFORMATS=D2(8,23) D2(5,14) D2(11,5) D2(12,3) D2(11,52) D2(10,16) L2(4,3) L2(8,5) L2(6,6) D4(8,23) D4(11,5) D4(12,4) D4(6,16) L4(4,3) L4(8,5) D4(11,30)"]),
    dict(name="operations", src="p23.cpp", flags=MOCK + ["-DFORMATS=O(5,10,5,10,5,10) U2(4,3,4,3)"], thorough_only=True)])
TS = ["--objects"]
CHECKS["P18"] = dict(level="other", technique="static analysis: path-sensitive typestate dataflow over LLVM IR",
    explanation="A forward typestate analysis of every library function that creates multiple-precision objects (its library callees merged into it): each GMP/MPFR object with automatic storage is not made, live or released; each use needs it live, each release needs it live, no re-initialisation while live, and nothing live where its scope ends, the function returns, or the function's own throw expression leaves it. Obligations are counted per program point and state.",
    note="Every control-flow path of every analysed function, whatever the operands. Objects whose address escapes are left out and counted in the evidence (none today); an exception thrown by a callee is not a path of the caller (the callees' throws are for wrong precisions or unrepresentable values).",
    units=[dict(src="p18.cpp", vpts=["--objects"], least=40, flags=[])])
CHECKS["P20"] = dict(level="other", technique="static analysis: effect dataflow over LLVM IR and relational abstract interpretation",
    explanation="A forward effect analysis of every function that writes MPFR's exponent range: the range is as on entry or changed, SSA values read from it on entry are the only ones that restore it, and it must be as on entry at each return and own throw. The policies' functions are also interpreted abstractly over a stand-in for MPFR with an arbitrary range before the call: the range after it must be the same.",
    note="Every control-flow path of every analysed function.", budget=60,
    units=[dict(name="effect", src="p18.cpp", vpts=["--range"], least=10, flags=[]),
           dict(name="value", src="p23.cpp", flags=MOCK + ["-DVP_RANGE=1", "-DFORMATS=PF(5,4) PF(8,23)" + NAT])])
NOT_APPLICABLE = {}
TECH = "static analysis: relational abstract interpretation of LLVM IR with trace partitioning"
NOTE = "Holds for every operand of each listed format, all widths being separate instantiations; trusts clang's front end, the abstract transfer functions in engine/ and the reference semantics in harness/. Undecided obligations, if any, are counted in the evidence and never reported as violations."
CHECKS["P28"] = dict(level="other", explanation=NUM + " The generator handed to the library returns unknown 32-bit words; that a result bit is one of their bits, and which, is decided on the abstract value (identity of symbolic bits).", units=[
    dict(src="p28.cpp", flags=["-DFORMATS=R(1) R(2) R(7) R(31) R(32) R(33) R(63) R(64) R(65) R(97) R(100) R(128) S(3,4) S(8,23)"], vpai=["--bits"])])
for _c in CHECKS.values(): _c.setdefault("technique", TECH); _c.setdefault("note", NOTE)
def newton(name, f, **k): return dict(src="p24.cpp", name=name, flags=["-DFORMATS=" + f] + k.pop("flags", []), vpai=["--quot", "64"], **k)
CHECKS["P24"] = dict(level="other", explanation=NUM, budget=60, thorough_budget=500, units=[
    newton("all exponents", "N(3,2,2) N(2,3,3) N(3,1,5) N(5,7,7) N(4,6,9) N(4,9,6) N(8,8,8) N(5,10,10) N(8,10,14) N(8,14,10) D(3,3,3) D(5,6,6) D(8,10,10) D(4,3,6) D(4,6,3)"),
    newton("inner exponents", "N(8,13,13) N(8,14,14) N(8,15,15) N(8,16,16) N(8,15,9) N(8,9,16)", flags=["-DEDGEFLAG=false", "-DKTOP=8"]),
    newton("wide", "N(8,18,18) N(8,20,20) N(8,23,23) N(8,23,18) N(8,20,23) D(8,16,16)", flags=["-DEDGEFLAG=false", "-DKTOP=11"], thorough_only=True),
    newton("three steps", "N(8,31,31)", flags=["-DEDGEFLAG=false", "-DKTOP=11"], thorough_only=True)],
    technique="abstract interpretation of the LLVM IR: tables are folded entry by entry from their generator, the Newton steps become exact polynomials over the operand's low bits, and bounds follow from eliminating quotients with their defining inequalities")
CHECKS["P25"] = dict(level="other", explanation=NUM, units=[
    dict(src="p25.cpp", name="fixed point", flags=["-DFORMATS=" + "B(0,3,0,3) B(0,10,0,10) B(0,23,1,14) B(3,5,0,9) B(0,9,3,5) B(1,30,0,31) B(0,0,0,4) R(0,8,4) R(0,8,6) R(0,8,7) R(0,8,8) R(0,8,11) R(2,45,24) R(0,3,1) R(0,60,20) R(3,9,0) T(3,9,0) T(1,4,1) T(5,60,2) T(0,8,0)"])])
CHECKS["P16"]["units"] += [ub(CHECKS["P24"]["units"][0], name="P24", flags=["-DFORMATS=N(3,2,2) N(2,3,3) N(5,7,7) N(4,6,9) N(4,9,6) N(8,8,8) N(5,10,10) D(3,3,3) D(5,6,6) D(8,8,8) D(4,3,6)"]),
    ub(CHECKS["P24"]["units"][1], name="P24 inner", flags=["-DFORMATS=N(8,13,13) N(8,15,9)", "-DEDGEFLAG=false", "-DKTOP=8"]), ub(CHECKS["P25"]["units"][0], name="P25")]
CHECKS["P26"] = dict(level="other", explanation=NUM + " In the analysed translation unit the type double is a class holding the IEEE pattern with exact integer semantics (harness/mock/dbl.hpp).", units=[
    dict(src="p26.cpp", name="native double", flags=["-DFORMATS=" + "A(4,3) A(5,10) A(8,23) A(8,33) A(11,40) A(11,52) A(12,55) B(4,3) B(5,10) B(8,23) B(8,40) B(11,30) B(11,51) B(11,52)"]),
    dict(src="p26.cpp", name="native double, more widths", thorough_only=True, flags=["-DFORMATS=" + "A(2,1) A(3,52) A(6,20) A(8,7) A(9,51) A(10,53) A(13,60) A(15,64) B(2,1) B(3,52) B(6,20) B(8,7) B(9,51) B(10,52) B(11,11)"])])
CHECKS["P16"]["units"] += [ub(CHECKS["P26"]["units"][0], name="P26")]
for _c in CHECKS.values(): _c.setdefault("technique", TECH); _c.setdefault("note", NOTE)
def hw(u, kind, **k):
    d = __import__("os").path.dirname(MOCK[1])
    u = dict(u, flags=[f"-DTHLS_FW_UINT_ON_{kind.upper()}_UINT", "-I", f"{d}/mock/{kind}"] + u["flags"]); u.update(k); return u
_HW = "W1(1) W1(2) W1(8) W1(31) W1(32) W1(33) W1(64) W1(65) W1(80) W1(128) W2(1,1) W2(8,8) W2(31,33) W2(24,24) W2(53,53) W2(64,64) W2(1,127) W2(0,5) W2(5,0) W4(8,8,8,8) W4(0,3,0,4) W4(16,17,3,30) W4(1,1,11,52)"
CHECKS["P27"] = dict(level="other", explanation=NUM + " The units include the library with THLS_FW_UINT_ON_AP_UINT or THLS_FW_UINT_ON_AC_UINT (and THLS_SYNTHESIS where the header compiles with it); ap_uint and ac_int are header models of their documented semantics (harness/mock/hwint.hpp), because the vendor libraries are not installed.", budget=150, thorough_budget=800, units=[hw(dict(src="p02.cpp", name=k + " operations", flags=["-DFORMATS=" + _HW]), k) for k in ("ap", "ac")])
for _c in CHECKS.values(): _c.setdefault("technique", TECH); _c.setdefault("note", NOTE)
CHECKS["P27"]["units"] += [hw(dict(src="p02z.cpp", name=k + " mpz", flags=MOCK + ["-DFORMATS=D(1) D(7) D(31) D(32) D(33) D(63) D(64) D(65) D(97) D(128)"]), k) for k in ("ap", "ac")]
SYN = ["-DTHLS_SYNTHESIS=1", "-include", "iostream", "-include", "cmath", "-include", "random", "-include", "array", "-include", "limits"]
def syn(u, pid, formats=None, kind="ap", log=None, **k):
    # headers that print their debug log unconditionally need the library's operator<<, which the synthesis configuration leaves out
    log = any(x in " ".join(u["flags"]) for x in ("single_v2", "single_v3", "single_v4", "single_v5", "div_v2", "dot2", "dot4")) if log is None else log
    f = [x for x in u["flags"] if not (formats and x.startswith("-DFORMATS="))] + (["-DFORMATS=" + formats] if formats else [])
    return hw(dict(u, flags=([] if log else SYN) + f, name=f"{kind} {pid} {u.get('name', '')}".strip()), kind, **k)
_u = lambda pid: CHECKS[pid]["units"]
CHECKS["P27"]["units"] += [syn(_u(p)[0], p) for p in ("P01", "P05", "P06", "P09", "P12", "P25")] + [syn(u, "P03", thorough_only=u["name"] in ("add", "single v3")) for u in _u("P03")] + \
    [syn(_u("P10")[0], "P10"), syn(_u("P11")[0], "P11"), syn(_u("P13")[0], "P13"), syn(_u("P14")[0], "P14"), syn(_u("P14")[1], "P14"), syn(_u("P21")[0], "P21")] + [syn(u, "P07", thorough_only=True) for u in _u("P07")]
CHECKS["P27"]["units"] += [syn(add_unit("p04.cpp", n, h, op, fm((4,3))), "P04", kind=k) for k in ("ap", "ac") for n, h, op in ADDERS if "v3" not in n] + \
    [syn(_u(p)[0], p, formats=f, kind=k) for k in ("ap", "ac") for p, f in (("P08", "A(4,3) J(5,4) I(5,5)"), ("P15", dots((2,3),(3,3),(4,3))), ("P24", "N(3,2,2) N(2,3,3) N(5,7,7) N(4,6,9) D(3,3,3) D(5,6,6)"))] + \
    [syn(_u("P19")[0], "P19", formats="S(3,2) A(2,2)", thorough_only=True)] + [syn(_u(p)[0], p, kind="ac") for p in ("P01", "P05", "P06", "P09", "P10", "P12")]

