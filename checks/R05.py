from lib.driver import Job
F = ["array", "expression", "true", "false", "comparison", "default mask", "view", "mapped"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 13, 38):
        for f in range(8):
            for w in (1, 2, 8):
                if not th and n in (2, 7, 9) and w == 2: continue
                js.append(Job("t_any", n, f, w, label="any/all n=%d %s workers=%d" % (n, F[f], w)))
    return js
CHECK = dict(id="R05", harness=["h_red.cpp"], jobs=jobs,
    bounds="boolean arrays of 1 to 38 elements in eight forms, all element values; 1, 2 and 8 threads, three execution orders; synchronous and asynchronous")
