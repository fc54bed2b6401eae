from lib.driver import Job
from lib.ops import *
ST = ["array", "scalar", "true", "false", "expression", "evaluated later", "applied", "nested", "default", "shadowed", "popped", "disjoint"]
OP = ["scatter", "add of scalar", "add of evaluated scalar", "scatter-add", "gather", "packet gather", "increment", "exchange", "compare and swap", "packet scatter", "packet scatter-add", "array write", "array write at fixed offset", "several effects"]
UM = ["true", "false", "array", "scalar", "expr"]
SC = ["underflow", "not boolean", "operands unchanged", "loop inside", "conditional inside", "abandoned", "inside a loop"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for st in range(12):
        for op in range(14):
            for um in (range(5) if th else (0, 2) if st in (0, 1, 4) else (0,)):
                for n in ((1, 3, 4, 5) if th else (3,)):
                    if op in (8,) and not th and um: continue
                    js.append(Job("t_mask", st, op, um, n, label="stack %s: %s, mask %s, %d lanes" % (ST[st], OP[op], UM[um], n)))
    for s in range(7):
        for n in ((1, 3, 5) if th else (3, 5)):
            js.append(Job("t_mask_err", s, n, label="mask stack, %s, %d lanes" % (SC[s], n)))
    return js
CHECK = dict(id="L05", harness=["h_mask.cpp"], jobs=jobs,
    bounds="12 forms of mask stack x 14 operations with memory accesses or side effects x 2 (thorough 5) forms of the operation's own mask, 3 lanes (thorough 1, 3, 4, 5) of a 4-lane machine; all masks, data and indices (unrestricted where masked); 7 scenarios with loops, conditionals and refused calls",
    assumptions=["values of enabled lanes; indices of enabled lanes inside the array, distinct where the order of conflicting writes would matter"])
