from lib.driver import Job
from lib.ops import *
SC = ["arithmetic", "captured", "literals", "shapes", "side effects", "constant side effects", "nested", "loop inside", "guarded gather", "chained", "refused", "dirty result", "several kernels", "unfinished writes"]
CF = ["array", "scalar", "true", "false", "computed"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for s in range(14):
        for c in range(5):
            for n in ((1, 2, 3, 5) if th else (3,)):
                js.append(Job("t_cond", s, c, n, label="conditional %s, condition %s, %d lanes" % (SC[s], CF[c], n)))
    for t in ALL: js.append(Job("t_cond_type", t, label="conditional results %s" % NAMES[t]))
    return js
CHECK = dict(id="L02", harness=["h_ctl.cpp"], jobs=jobs,
    bounds="14 forms of conditionals (nesting, loops inside, side effects, guarded reads, captured/literal/scalar results, refused forms) x 5 kinds of condition, 1-5 lanes on a 4-lane machine, all result types; all data and all conditions per lane")
