from lib.driver import Job
from lib.ops import *
SLOW = {"Popc": 9, "Rsqrt": 8, "Sqrt": 7, "Mod": 6, "MulHi": 5, "Div": 4, "Fma": 3}
def jobs(tier):
    js = []
    for o, name in enumerate(OPS):
        for t in ALL:
            if ok(name, t): js.append(Job("t_op", o, t, 0, 0, 0, 1, label="fold %s.%s" % (name, NAMES[t]), cost=SLOW.get(name, 0)))
            if ok(name, t) and tier == "thorough": js.append(Job("t_op", o, t, 0, 0, 0, 0, label="fold/api %s.%s" % (name, NAMES[t]), cost=SLOW.get(name, 0)))
    return js
CHECK = dict(id="A02", harness=["h_ops.cpp"], jobs=jobs, bounds="all operands literal, every bit pattern of each (64-bit operands included)",
    assumptions=["the compile-time evaluation is the library's own C++ code in clang's IR; libm sqrt/floor/ceil/rint/trunc follow IEEE-754",
                 "division: divisor nonzero and not MIN/-1; shifts: amount below the width; NaN payloads and signs are not compared; copysign of half NaNs excluded"])
