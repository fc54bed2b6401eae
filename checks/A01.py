from lib.driver import Job
from lib.ops import *
def jobs(tier):
    js = []
    for o, name in enumerate(OPS):
        k = arity(name)
        for t in ALL:
            if not ok(name, t): continue
            js.append(Job("t_op", o, t, 4, 4, 4, 0, label="%s.%s" % (name, NAMES[t])))
            if tier == "thorough":
                js.append(Job("t_op", o, t, 3, 3, 3, 1, label="%s.%s/3" % (name, NAMES[t])))
                js.append(Job("t_op", o, t, 6, 6, 6, 1, label="%s.%s/6" % (name, NAMES[t])))
                if k > 1: js.append(Job("t_op", o, t, 1, 5, 5, 1, label="%s.%s/1,5" % (name, NAMES[t])))
                if k > 2: js.append(Job("t_op", o, t, 4, 4, 1, 1, label="%s.%s/4,1" % (name, NAMES[t])))
            elif k > 1 and t in (I32, F32, BOOL):
                js.append(Job("t_op", o, t, 5, 1, 5, 1, label="%s.%s/5,1" % (name, NAMES[t])))
    return js
CHECK = dict(id="A01", harness=["h_ops.cpp"], jobs=jobs,
    bounds="4 lanes per vector; arrays of 4 elements (thorough: 1, 3, 5, 6; broadcasting of size-1 operands), every bit pattern of every element",
    assumptions=["kernels are executed from the LLVM IR text the code generator emits (parsed by libLLVM, interpreted symbolically); machine code generation by LLVM is trusted",
                 "vector width 4, features sse4.2+fma+f16c", "division: divisor nonzero and not MIN/-1; shifts: amount below the width; NaN payloads and signs are not compared"])
