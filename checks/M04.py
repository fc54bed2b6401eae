from lib.driver import Job
from lib.ops import *
SRC = ["array", "literal array", "literal", "counter expression", "expression", "scalar", "pending gather", "dirty", "mapped", "loaded", "shared array", "undefined", "used by an expression", "view"]
ACT = ["copy", "opaque copy", "write", "read", "shrink", "tile", "repeat", "reverse", "force", "data", "eval", "resize", "migrate", "write past the end", "read past the end", "shrink too large", "opaque literal", "device copy"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for t in (ALL if th else [BOOL, U8, U16, U32, F64]):
        for f in range(14):
            for a in range(18):
                if not th and t != U32 and (t + f + a) % 3: continue
                js.append(Job("t_copy", t, f, a, label="%s of %s %s" % (ACT[a], SRC[f], NAMES[t])))
    return js
CHECK = dict(id="M04", harness=["h_copy.cpp"], jobs=jobs,
    bounds="arrays of 1 and 5 elements (results up to 15) in 14 forms, 18 ways of accessing or copying them; all element values; element types of 1 to 8 bytes",
    assumptions=["writing to a view made by jit_var_shrink() may or may not be seen by the array it refers to (unspecified)"])
