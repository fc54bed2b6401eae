from lib.driver import Job
F = ["raw", "array", "expression", "true", "false", "view"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for n in (1, 2, 3, 5, 7, 8, 9, 13, 21, 38):
        for w in (1, 2, 8):
            for f in range(6):
                if not th and n in (2, 8, 21) and f: continue
                js.append(Job("t_compress", n, w, f, label="compress n=%d workers=%d %s" % (n, w, F[f]), cost=3 if n > 7 else 0))
    return js
CHECK = dict(id="R03", harness=["h_red.cpp"], jobs=jobs,
    bounds="masks of up to 9 elements in full, up to 38 elements with 6 to 10 free entries; work units of 4 elements, 1, 2 and 8 threads, three execution orders; six forms of the mask")
