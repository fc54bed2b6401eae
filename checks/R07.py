from lib.driver import Job
def jobs(tier):
    js = []
    for k in range(3):
        for n in (0, 1, 2, 3, 5, 9):
            for es in (1, 2, 4, 8):
                for w in (1, 8):
                    js.append(Job("t_bulk", k, n, es, w, label="bulk kind%d n=%d size=%d workers=%d" % (k, n, es, w)))
    js.append(Job("t_memset_bad", label="invalid element size"))
    return js
CHECK = dict(id="R07", harness=["h_red.cpp"], jobs=jobs, bounds="ranges of 0 to 9 elements of 1, 2, 4 and 8 bytes at an offset inside a larger buffer, all byte values; 1 and 8 threads, three execution orders; element sizes 0 to 9")
