from lib.driver import Job
from lib.ops import *
def jobs(tier):
    js = [Job("t_badcast", label="refused reinterpretation")]
    for s in ALL:
        for d in ALL:
            n = "%s->%s" % (NAMES[s], NAMES[d])
            c = 3 if F64 in (s, d) else 0
            js.append(Job("t_cast", s, d, 0, label=n, cost=c))
            js.append(Job("t_cast", s, d, 1, label="literal " + n, cost=c))
            if s != BOOL and d != BOOL and SIZE[s] == SIZE[d]:
                js.append(Job("t_cast", s, d, 2, label="bits " + n)); js.append(Job("t_cast", s, d, 3, label="bits literal " + n))
            if s in FLTS and d in INTS:
                for o in range(4): js.append(Job("t_cast", s, d, 4 + o, label="round%d %s" % (o, n), cost=2))
    for s in (I32, U64, F64, I8, F32) if tier == "thorough" else (I32, F64):
        for m in (BOOL, I8, U16, F16, F32, U32, I64):
            for d in ALL if tier == "thorough" else (BOOL, I32, U64, F32, F64):
                js.append(Job("t_chain", s, m, d, label="chain %s->%s->%s" % (NAMES[s], NAMES[m], NAMES[d]), cost=1))
    return js
CHECK = dict(id="A04", harness=["h_cast.cpp"], jobs=jobs, bounds="all 144 type pairs (arrays of 4 and literals), all bit patterns; chains of two conversions; rounding followed by conversion",
    assumptions=["float to integer conversions of NaN and out-of-range values are excluded (undefined)", "double to half may round through single precision", "NaN payloads and signs are not compared"])
