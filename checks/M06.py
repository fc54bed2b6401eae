from lib.driver import Job
ST = ["A=device", "A=shared", "B=host", "B=shared", "C=shared", "free A", "free B", "flush", "move A to host", "move B to device", "C=copy of A", "C=copy of B", "copy A to B, free A", "sync", "reuse of freed", "kernel"]
SC = ["any size", "nothing", "large", "unsatisfiable", "exhausted", "exhausted, large", "peak"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for late in (0, 1):
        for a in range(16):
            for b in (range(16) if th else (None,)):
                js.append(Job("t_alloc", 5 if th else 4, 2 if th else 1, late, a, *(() if b is None else (b,)), label="allocator %s: %s, %sany.." % ("late" if late else "eager", ST[a], "" if b is None else ST[b] + ", ")))
    for late in (0, 1): # both are allocated, and A is copied to B
        for a in range(16): js.append(Job("t_alloc", 7 if th else 6, 4, late, 1, 3, 12, a, label="allocator %s: A=shared, B=shared, copied, %s, any.." % ("late" if late else "eager", ST[a])))
    for s in range(7): js.append(Job("t_alloc_misc", s, label="allocator: %s" % SC[s]))
    return js
CHECK = dict(id="M06", harness=["h_alloc.cpp"], jobs=jobs,
    bounds="all histories of 4 (thorough: 5) steps out of 16 (kernels, allocating device, shared and host memory, releasing, flushing, migrating, copying) over 3 allocations (also after allocating two and copying one to the other), all contents, with queued work executed at once or as late as possible; sizes 1-400, around 2 MiB and unsatisfiable ones; exhaustion of memory at any point of one allocation")
