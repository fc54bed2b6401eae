from lib.driver import Job
from lib.ops import *
def jobs(tier):
    th = tier == "thorough"
    js = []
    for t in (I32, U32, U64, F16, F32, F64):
        for n in (1, 2, 3, 5, 9, 13):
            for a in range(6):
                for b in range(6):
                    if not th and n in (2, 9) and (a + b + t) % 3: continue
                    for w in (1, 8):
                        if not th and w == 8 and n < 9: continue
                        js.append(Job("t_dot", t, n, a, b, w, label="dot %s n=%d forms %d,%d workers=%d" % (NAMES[t], n, a, b, w)))
    for k in range(24): js.append(Job("t_undef", k, label="undefined/empty/invalid %d" % k))
    return js
CHECK = dict(id="R06", harness=["h_red.cpp"], jobs=jobs,
    bounds="arrays of 1 to 13 elements in 6x6 forms, 1 and 8 threads; integers with up to four symbolic elements, floats with a symbolic non-negative element and exactly representable others; reductions of undefined, empty and invalid operands")
