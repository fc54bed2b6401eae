from lib.driver import Job
from lib.ops import *
SC = ["arithmetic", "exchange", "invariants", "scalar accumulator", "duplicate state", "scatter-add", "scatter-add constant", "scatter", "guarded gather of dirty", "nested", "sequential", "uniform", "constant condition", "boolean state", "target in state", "abandoned", "conditional inside", "unused results", "captured counter", "refused", "nested side effect"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for s in range(21):
        for opt in (0, 1):
            for n in ((2, 3, 5) if th else (3 if s not in (9, 16, 20) else 2,)):
                if n == 5 and s in (9, 16, 20): continue
                js.append(Job("t_loop", s, opt, n, label="loop %s, optimize %d, %d lanes" % (SC[s], opt, n)))
    for t in ALL:
        for opt in (0, 1):
            js.append(Job("t_loop_type", t, opt, label="loop state %s, optimize %d" % (NAMES[t], opt)))
    return js
CHECK = dict(id="L01", harness=["h_ctl.cpp"], jobs=jobs,
    bounds="21 loop forms (arithmetic, exchanged/invariant/duplicate/unused state, nesting, sequences, side effects, conditionals inside, captured arrays) with and without loop optimization, at most 3 iterations, 2-5 lanes on a 4-lane machine, all state types; all data and all trip counts per lane")
