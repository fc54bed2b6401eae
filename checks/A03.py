from lib.driver import Job
from lib.ops import *
def jobs(tier):
    js = []
    th = tier == "thorough"
    for o, name in enumerate(OPS):
        k = arity(name)
        for t in ALL:
            if not ok(name, t) or k == 1: continue
            cost = 5 if name in ("Mod", "Div", "Fma") else 0
            for lm in range(1, (1 << k) - 1):
                cfg = [(4, 1, 1)] + ([(1, 3, 0)] if th or t in (I32, U8, F32, BOOL) else [])
                if t in FLTS: cfg += [(4, 1, 0)] if th or t == F32 else []
                for os_, ls, fm in cfg:
                    js.append(Job("t_mix", o, t, lm, 0, os_, ls, 1, fm, label="mix %s.%s lit=%d %d/%d fm%d" % (name, NAMES[t], lm, os_, ls, fm), cost=cost))
                    if th: js.append(Job("t_mix", o, t, lm, 0, os_, ls, 0, fm, label="mix/api %s.%s lit=%d %d/%d fm%d" % (name, NAMES[t], lm, os_, ls, fm), cost=cost))
            js.append(Job("t_mix", o, t, 0, 6, 4, 1, 1, 0, label="same %s.%s" % (name, NAMES[t])))
            if k == 3: js.append(Job("t_mix", o, t, 0, 4, 4, 1, 1, 0, label="same2 %s.%s" % (name, NAMES[t])))
    return js
CHECK = dict(id="A03", harness=["h_ops.cpp"], jobs=jobs,
    bounds="one operation; literal operands from 15 special values per integer type / 14 per float type / both booleans, every bit pattern of the other operands; all literal/array mixes, identical operands, FastMath on and off, sizes 1, 3, 4",
    assumptions=["the sign of a float zero may change, division by a literal may multiply with its reciprocal, FastMath assumes finite operands (documented freedoms)",
                 "division: divisor nonzero and not MIN/-1; shifts: amount below the width"])
