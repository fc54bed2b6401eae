from lib.driver import Job
from lib.ops import *
ST = ["write", "write per lane", "write at scalar offset", "masked write", "masked write per lane", "write literal", "keep", "swap", "eval", "read", "masked read per lane", "copy element"]
SC = ["fill in loop", "fill in loop, no optimization", "read in loop", "write in one branch", "write in both branches", "scalar condition", "conditional in loop", "evaluated", "scalar array", "refusals", "dirty operands", "unrelated arrays", "exchange in loop", "selection", "loop in conditional", "read and overwrite in loop", "older handle in loop", "older handle after loop", "diverging index", "diverging index and value"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for t in (ALL if th else [BOOL, U8, I16, U32, F64]):
        for n in ((1, 3, 5) if th else (3,)):
            for a in range(12):
                for init in (0, 1):
                    steps = 4 if th and t == U32 and n == 3 else 3 if t == U32 or th else 2
                    js.append(Job("t_arr", t, n, steps, a, init, label="array %s: %s, %d steps, initial state %d, %d lanes" % (NAMES[t], ST[a], steps, init, n), cost=1 if steps > 2 else 0))
    for s in range(20):
        for n in ((1, 3, 5) if th else (3,)):
            js.append(Job("t_arr_ctl", s, n, label="array, %s, %d lanes" % (SC[s], n)))
    return js
CHECK = dict(id="L04", harness=["h_arr.cpp"], jobs=jobs,
    bounds="all histories of 3 (one-byte and other types: 2; thorough: up to 4) steps out of 12 (writes and reads with literal, scalar and per-lane offsets, masks, evaluation, older handles) over two arrays of 3 elements in 3 lanes (thorough 1-5) of a 4-lane machine, then reading everything; 20 scenarios with loops, conditionals, scalar arrays and refused calls; all element values, offsets (unrestricted where masked) and masks",
    assumptions=["elements that were never written hold unspecified values and are not read"])
