from lib.driver import Job
from lib.ops import *
OPN = ["add", "mul", "min", "max", "and", "or"]
FORM = ["raw", "var", "symbolic", "pending", "whole"]
T_ = [U8, I32, U32, I64, U64, F16, F32, F64]
SHAPES = [(1, 1), (5, 2), (6, 3), (7, 7), (9, 9), (11, 10), (23, 10), (38, 37)]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for t in T_:
        for op in range(6):
            if op >= 4 and t in FLTS: continue
            for si, (n, b) in enumerate(SHAPES):
                for w in (1, 2, 8):
                    for f in range(5):
                        if not th and (si + w + f + op + t) % 5 and not (t == U32 and op == 0): continue
                        if not th and op == 1 and t not in FLTS and n > 12: continue
                        if f == 4 and (b != n or op >= 4): continue
                        if f == 2 and (op == 1 or t == U8): continue # not supported
                        if f == 2 and (n > 11 or t in FLTS and op in (2, 3)): continue
                        js.append(Job("t_bred", t, op, n, b, w, f, label="reduce %s %s n=%d block=%d workers=%d %s" % (OPN[op], NAMES[t], n, b, w, FORM[f]), cost=1 if n > 20 else 0))
    for t in [I8, U8, I16, U16, I32, U32, I64, U64, F16, F32, F64]:
        for op in range(6):
            if op >= 4 and t in FLTS: continue
            for n, b in ((1, 1), (3, 3), (5, 2), (7, 4), (9, 9), (300, 300)):
                for k in (0, 1):
                    if k == 0 and op >= 4: continue
                    if k == 0 and b != n: continue
                    if n == 300 and (t not in (I8, U8, U16, U32) or op > 1): continue
                    js.append(Job("t_lred", t, op, n, b, k, label="literal reduce %s %s n=%d block=%d" % (OPN[op], NAMES[t], n, b)))
    return js
CHECK = dict(id="R01", harness=["h_red.cpp"], jobs=jobs,
    bounds="arrays of up to 38 elements (literals: 300) in blocks of 1 to 37 (dividing or not), work units of 4 elements, 1, 2 and 8 threads, three execution orders; all integer element values; floats: symbolic for min/max, exactly representable sums and products otherwise",
    assumptions=["floating point elements are not NaN, sums and products are exact (the order of accumulation is unspecified)"])
