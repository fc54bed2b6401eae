from lib.driver import Job
from lib.ops import *
OPN = ["id", "add", "mul", "min", "max", "and", "or"]
MODE = ["auto", "direct", "local", "noconflict", "expand"]
TGT = ["array", "shared array", "literal", "expression", "scalar", "counter expr", "used by an expression", "dirty"]
ARR = ["distinct", "any", "one", "pairs", "fixed"]
def supported(t, op):
    if t in (BOOL, I8, U8): return False
    if t in FLTS and op >= 5: return False
    if t == F16 and op in (3, 4): return False
    return op != 2
def jobs(tier):
    th = tier == "thorough"
    js = []
    def g(t, op, mode, f=1, m=2, v=0, a=1, thr=0):
        if not supported(t, op) or (mode == 3 and (a in (1, 2, 3) or f == 4)): return
        if a == 1 and op == 1 and mode in (0, 4) and not th: a = 3
        if t in FLTS: a = {1: 3, 0: 4}.get(a, a)
        js.append(Job("t_reduce", t, op, mode, f, m, v, a, thr, label="scatter-%s %s %s target %s mask%d value%d index %s thr%d" % (OPN[op], NAMES[t], MODE[mode], TGT[f], m, v, ARR[a], thr), cost=3 if t == F64 else 0))
    for t in ALL:
        for op in (1, 3, 4, 5, 6):
            for mode in range(5):
                for a in ((0, 1, 2, 3) if th else (0,) if mode == 3 else (1,) if t in (U32, F32, I16) else (3,)): g(t, op, mode, a=a)
            if t in FLTS and op == 1:
                for mode in (1, 2, 4): g(t, op, mode, a=0)
    for mode in range(5):
        for f in range(8):
            for m in range(5):
                for v in (0, 1):
                    if th or (f + m + v) % 2 == 0:
                        for t in ((U32, I32, F32) if th else (I32,)): g(t, 1 if f % 2 else 4, mode, f, m, v, 0 if mode == 3 else 3)
    for f in (0, 1, 4, 7): g(U32, 1, 0, f, 2, 0, 3, 1); g(I32, 3, 0, f, 2, 0, 3, 1) # no automatic expansion
    for t in ([U32, F32, I16, F64] if th else [U32, F32]):
        for mode in (0, 3, 4):
            for k in (2, 3, 4):
                for fl in (0, 1):
                    if th and t == U32 and k == 2: js.append(Job("t_rpacket", t, mode, k, fl, mode != 3, 1, label="packet scatter-add %s %s x%d flag%d, any index" % (NAMES[t], MODE[mode], k, fl), cost=5))
                    if not th and k == 4 and fl == 0: continue
                    js.append(Job("t_rpacket", t, mode, k, fl, 0 if mode == 3 or t in FLTS else 1, 0, label="packet scatter-add %s %s x%d flag%d" % (NAMES[t], MODE[mode], k, fl)))
    for f in (0, 1, 2, 3, 4, 5, 6, 7):
        for m in range(5):
            if th or (m == 2 and f in (0, 1, 4, 7)) or (f == 1 and m != 4): js.append(Job("t_inc", f, m, 4 if th and m == 2 else 3, label="scatter-inc %s mask%d" % (TGT[f], m)))
    
    for m in range(5):
        for v in (0, 1):
            for t in (INTS + FLTS if th else [U32, F32, U64]):
                for f in range(8):
                    for e in ("exch", "cas"):
                        if SIZE[t] < 4: continue
                        if th or (t == U32 and (m == 2 and v == 0 or f == 1 or (f == 2 and v == 1))) or (f == 1 and m in (2, 3) and v == 0):
                            js.append(Job("t_" + e, t, f, m, v, label="scatter-%s %s %s mask%d value%d" % (e, NAMES[t], TGT[f], m, v)))
    return js
CHECK = dict(id="M03", harness=["h_mem.cpp"], jobs=jobs,
    bounds="targets of 3 elements in 8 forms, 3-4 lanes on a 4-lane machine; all operations, element types and strategies the backend supports; any index collisions for integers, fixed collisions for float sums",
    assumptions=["unmasked indices are inside the target; NoConflicts, exchange and compare-and-swap are only used without collisions", "min/max of floats: no NaN", "sums of several floats are restricted to small integers (the order of additions is unspecified)"])
