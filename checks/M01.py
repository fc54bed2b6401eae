from lib.driver import Job
from lib.ops import *
SRC = ["array", "literal n", "literal", "counter expr", "array expr", "scalar", "reversed", "dirty", "mapped", "evaluated"]
IDX = ["u32", "i32", "u8", "i64", "u64", "counter", "literal", "literal n", "expr", "i16"]
MSK = ["true", "false", "array", "scalar", "expr"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    def g(t, s, i, m, n=3):
        js.append(Job("t_gather", t, s, i, m, n, label="gather %s %s[%s] mask %s n=%d" % (NAMES[t], SRC[s], IDX[i], MSK[m], n)))
    for t in ALL:
        g(t, 0, 0, 2); g(t, 9, 8, 2)
        for s in range(10): g(t, s, 0, 0 if s % 2 else 2)
    for s in range(10):
        for i in range(10):
            for m in range(5):
                for t in ((U32, F32, BOOL, U64, I16, F64) if th else (U32,)):
                    g(t, s, i, m, 5 if i == 5 and m % 2 else 3)
    for t in (ALL if th else [BOOL, U32, F32, F64, I16]):
        for s in (0, 2, 3, 4, 7, 8, 9):
            for k in (2, 3, 4, 6, 8):
                for fl in (0, 1):
                    for m in ((0, 1, 2, 3, 4) if th else (2,) if s else (0, 2)):
                        for x in ((0, 3) if th else (0,)):
                            if not th and (k == 8 or s == 3) and t not in (U32, BOOL): continue
                            js.append(Job("t_gpacket", t, s, k, m, fl, x, label="packet gather %s %s x%d mask %s flag%d idx %s" % (NAMES[t], SRC[s], k, MSK[m], fl, IDX[x])))
    return js
CHECK = dict(id="M01", harness=["h_mem.cpp"], jobs=jobs,
    bounds="sources of 5 elements (packets: 3*k, k <= 8) in 10 forms, 3 or 5 lanes on a 4-lane machine, indices in 10 forms, masks in 5 forms; all index values of active lanes, any index value in masked lanes",
    assumptions=["indices of unmasked lanes are inside the source"])
