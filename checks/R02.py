from lib.driver import Job
from lib.ops import *
OPN = ["add", "mul", "min", "max", "and", "or"]
FORM = ["raw", "in place", "var", "pending"]
T_ = [U8, I32, U32, I64, U64, F16, F32, F64]
SHAPES = [(1, 1), (5, 2), (6, 3), (4, 1), (7, 7), (9, 9), (11, 10), (23, 10), (38, 37)]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for t in T_:
        for op in range(6):
            if op >= 4 and t in FLTS: continue
            for si, (n, b) in enumerate(SHAPES):
                for w in (1, 2, 8):
                    for m in range(4):
                        for f in range(4):
                            if not th and (si + w + f + 3 * m + op + t) % 7 and not (t == U32 and op == 0 and f < 2): continue
                            if not th and op == 1 and t not in FLTS and n > 12: continue
                            if not th and op in (2, 3) and n > 12 and (t in FLTS or t in (I64, U64) or n > 30): continue
                            js.append(Job("t_bpre", t, op, n, b, w, m, f, label="prefix %s %s n=%d block=%d workers=%d mode%d %s" % (OPN[op], NAMES[t], n, b, w, m, FORM[f]), cost=1 if n > 20 else 0))
    for t in [I8, U8, I16, U16, I32, U32, I64, U64, F16, F32, F64]:
        for op in range(6):
            if op >= 4 and t in FLTS: continue
            if op != 0 and t in (I8, I16, U16): continue # only sums of constants are supported
            for n, b in ((1, 1), (3, 3), (5, 2), (7, 4), (4, 1), (9, 9)):
                for k in range(2, 6):
                    js.append(Job("t_lred", t, op, n, b, k, label="literal prefix %s %s n=%d block=%d mode%d" % (OPN[op], NAMES[t], n, b, k - 2)))
    return js
CHECK = dict(id="R02", harness=["h_red.cpp"], jobs=jobs,
    bounds="arrays of up to 38 elements in blocks of 1 to 37 (dividing or not), inclusive/exclusive, forward/reverse, in place or not, work units of 4 elements, 1, 2 and 8 threads, three execution orders; all integer element values; floats as in R01; literal arrays",
    assumptions=["floating point elements are not NaN, sums and products are exact (the order of accumulation is unspecified)"])
