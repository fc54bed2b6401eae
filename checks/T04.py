import importlib.util, os
from lib.driver import Job
HERE = os.path.dirname(os.path.abspath(__file__))
def load(n):
    s = importlib.util.spec_from_file_location("late_" + n, os.path.join(HERE, n + ".py")); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.jobs
# (check, harness, entries, every how many jobs, offset)
PARTS = [("M05", "h_late_copy.cpp", ("t_hist",), 3), ("M04", "h_late_copy.cpp", ("t_copy",), 3), ("R01", "h_late_red.cpp", ("t_bred",), 6), ("R02", "h_late_red.cpp", ("t_bpre",), 6),
         ("R03", "h_late_red.cpp", ("t_compress",), 3), ("R04", "h_late_red.cpp", ("t_mkperm",), 3), ("R05", "h_late_red.cpp", ("t_any",), 3), ("R06", "h_late_red.cpp", ("t_dot",), 4), ("R07", "h_late_red.cpp", ("t_bulk",), 2),
         ("F01", "h_late_ctl.cpp", ("t_frz",), 2), ("M02", "h_late_ctl.cpp", ("t_scatter",), 8), ("M03", "h_late_ctl.cpp", ("t_reduce", "t_inc"), 6), ("L03", "h_late_ctl.cpp", ("t_call",), 4)]
def jobs(tier):
    js = []
    for chk, h, ent, every in PARTS:
        k = 0
        for j in load(chk)(tier):
            if j["entry"] not in ent: continue
            k += 1
            if tier != "thorough" and k % every: continue
            js.append(Job(j["entry"] + "_late", *j["params"], label="late: " + j["label"], reach=j["reach"], harness=[h], cost=j["cost"], **j["opts"]))
    return js
CHECK = dict(id="T04", harness=["h_late_copy.cpp"], jobs=jobs, bounds="a selection (thorough: all) of the scenarios of M02-M05, L03, R01-R07 and F01 in their bounds, with every task postponed until somebody waits for it or for a task depending on it, ancestors before descendants; up to 4 worker identities and 3 orders of work units")
