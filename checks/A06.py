from lib.driver import Job
from lib.ops import *
def jobs(tier):
    th = tier == "thorough"
    js = []
    for i, o in enumerate(OPS):
        for t in (ALL if th else [I32, F32, BOOL, F16] if o in ("Fma", "Min", "Select", "Add") else [I32, F32, BOOL]):
            if not ok(o, t): continue
            n = arity(o)
            for f in range(10):
                if not th and n < 3 and t not in (I32, F32) : continue
                js.append(Job("t_size", i, t, n, f, label="size %s %s form%d" % (o, NAMES[t], f), cost=2 if n == 3 else 0))
    for k in range(23): js.append(Job("t_misuse", k, label="misuse %d" % k))
    return js
CHECK = dict(id="A06", harness=["h_err.cpp"], jobs=jobs,
    bounds="every operation of one to three operands, operands in ten forms (empty, arrays of 1, 2 and 3 elements, literals 0/1 of size 1 and 3, expressions of size 1 and 3, the same variable twice); 23 kinds of invalid calls",
    assumptions=["library assertions are enabled (type checks of operands are only compiled in without NDEBUG)"])
