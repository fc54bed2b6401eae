from lib.driver import Job
def jobs(tier):
    th = tier == "thorough"
    js = []
    for n, bs in ((1, 1), (3, 3), (4, 2), (5, 5), (6, 4), (7, 3), (9, 9), (11, 8), (17, 17), (21, 16), (23, 9), (38, 37)):
        for nb in (1, 2, 3):
            if nb == 3 and n > 30 and not th: continue
            for w in (1, 2, 8):
                for off in ((0, 1) if n == bs else (0,)):
                    js.append(Job("t_mkperm", n, bs, nb, w, off, label="mkperm n=%d block=%d buckets=%d workers=%d offsets=%d" % (n, bs, nb, w, off), cost=2 if n > 5 else 0))
    return js
CHECK = dict(id="R04", harness=["h_red.cpp"], jobs=jobs,
    bounds="up to 6 keys in full, up to 38 keys with four free ones, in groups of up to 37 (dividing or not), 1 to 3 buckets; work units of 4 elements, 1, 2 and 8 threads, three execution orders")
