from lib.driver import Job
from lib.ops import *
def jobs(tier):
    th = tier == "thorough"
    js = []
    for t in (ALL if th else [I32, U8, F32, BOOL]):
        for o in range(14):
            ok = (o in (2, 9) or o >= 11) if t == BOOL else (o != 2 and o < 11) if t in FLTS else True
            if ok: js.append(Job("t_comp", t, o, label="comp %s op%d" % (NAMES[t], o), cost=5 if t == F32 else 2))
    for k in range(5):
        for fm in (range(4) if th else (0, 1, 2)):
            for r in (0, 1):
                for e in (range(5) if th else (0, 1, 4)):
                    js.append(Job("t_lvn", k, fm, r, e, label="lvn kind%d free%d rep%d ev%d" % (k, fm, r, e), cost=2 if k == 0 else 0))
    js.append(Job("t_lvnsym", label="lvn symbolic literals"))
    for f in range(8): js.append(Job("t_resize", f, label="resize form%d" % f))
    return js
CHECK = dict(id="A05", harness=["h_comp.cpp"], jobs=jobs,
    bounds="two-step expressions over 2 arrays of 3 elements and one literal (0, 1, -1, 3; 2 instead of 0 for floats), 14 operations, 11 operand arrangements; value numbering over 3 nodes of 5 kinds, 5 types, 3 values, 2 sizes with frees, evaluation and scope changes in between",
    assumptions=["the sign of a float zero may change in simplified expressions", "NaN payloads are not compared"])
