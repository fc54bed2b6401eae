from lib.driver import Job
ST = ["eval", "scatter", "gather", "scatter-add", "add", "alias", "write", "copy", "reduce", "keep", "scatter literal", "swap", "schedule", "prefix sum", "read", "scatter inc"]
def jobs(tier):
    th = tier == "thorough"
    n = 4 if th else 3
    js = []
    for init in range(4):
        for a in range(16):
            if not th: js.append(Job("t_hist", 3, 1, a, 0, 0, init, label="history %s, any, any; initial state %d" % (ST[a], init), cost=1))
            else:
                for b in range(16):
                    js.append(Job("t_hist", 4, 2, a, b, 0, init, label="history %s, %s, any, any; initial state %d" % (ST[a], ST[b], init), cost=1))
    return js
CHECK = dict(id="M05", harness=["h_copy.cpp"], jobs=jobs,
    bounds="all histories of 3 (thorough: 4) steps out of 16 (evaluate, scatter, gather, scatter-add, expression, alias, write, copy, reduction, keep an older handle, swap, schedule, prefix sum, read, atomic increment) over two arrays of 3 elements in 4 initial states; all element values")
