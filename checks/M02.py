from lib.driver import Job
from lib.ops import *
TGT = ["array", "shared array", "literal", "expression", "scalar", "counter expr", "used by an expression", "dirty"]
IDX = ["u32", "i32", "u8", "i64", "u64", "counter", "literal", "literal n", "expr", "i16"]
MSK = ["true", "false", "array", "scalar", "expr"]
VAL = ["array", "literal", "expr", "scalar"]
AUTO, DIRECT, LOCAL, NOCONF, EXPAND, PERM = range(6)
def jobs(tier):
    th = tier == "thorough"
    js = []
    def g(t, f, i, m, v, mode=AUTO):
        js.append(Job("t_scatter", t, f, i, m, v, mode, label="scatter %s %s[%s] = %s mask %s mode%d" % (NAMES[t], TGT[f], IDX[i], VAL[v], MSK[m], mode)))
    for t in ALL:
        for f in range(8): g(t, f, 0, 2 if f % 2 else 0, 0)
    for f in range(8):
        for i in range(10):
            for m in range(5):
                for v in (range(4) if th else ((f + i + m) % 4,)):
                    for t in ((U32, F64, BOOL) if th else (U32,)): g(t, f, i, m, v)
    for f in range(8):
        for mode in (NOCONF, PERM):
            if f == 7: continue # conflicts with the pending write
            g(U32, f, 0, 0, 0, mode)
    for t in (ALL if th else [BOOL, U32, F64]):
        for f in (0, 1, 2, 3, 6, 7):
            for k in (2, 3, 4):
                for fl in (0, 1):
                    for m in ((0, 1, 2, 3, 4) if th else (2,) if f else (0, 1, 2)):
                        js.append(Job("t_spacket", t, f, k, m, fl, AUTO, label="packet scatter %s %s x%d mask %s flag%d" % (NAMES[t], TGT[f], k, MSK[m], fl)))
    return js
CHECK = dict(id="M02", harness=["h_mem.cpp"], jobs=jobs,
    bounds="targets of 5 elements (packets: 3*k, k <= 4) in 8 forms, 3 lanes on a 4-lane machine, indices in 10 forms, masks in 5 forms, values in 4 forms; all index values of active lanes, any index in masked lanes; contents after two evaluations",
    assumptions=["unmasked indices are inside the target and (for arrays) distinct: the order of conflicting writes is unspecified"])
