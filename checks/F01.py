from lib.driver import Job
from lib.ops import *
SC = ["arithmetic", "several results", "evaluated in between", "sum", "prefix reductions", "pass through", "scatter to an input", "scatter-add", "gather", "width", "two sizes", "loop", "conditional", "calls", "scalar input", "captured data", "block reduction", "dot product", "copy and reduce", "expanded scatter", "compress", "any and all", "temporaries", "literal of input size", "pause", "gather from captured data", "casts", "read between writes", "result twice", "input twice", "mixed", "reduced and broadcast", "counter", "index", "tile", "repeat"]
MS = ["two recordings", "abandoned", "element write", "replay while recording", "discarded", "one recording", "literal input", "scalar from outside", "array from outside"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for s in range(36):
        for (a, b) in (((2, 2), (2, 4), (4, 2), (3, 3), (3, 5), (5, 3), (1, 1), (6, 5)) if th else ((4, 2), (3, 5))):
            if s == 16 and (a | b) & 1: a, b = 4, 6
            if s in (15, 25): continue # refused
            if s in (23, 34): b = a # the size of a literal is part of the recording
            for opt in ((0, 1) if s in (7, 8, 32) and a > 1 and b > 1 else (0,)):
                for w in ((0, 1, 2) if th or a == 3 else (0,)):
                    js.append(Job("t_frz", s, a, b, opt, w, label="frozen %s: recorded with %d, replayed with %d, option %d%s" % (SC[s], a, b, opt, ("", ", kernels flushed", ", memory flushed")[w])))
    for s in range(9):
        js.append(Job("t_frz_misc", s, label="frozen functions, %s" % MS[s]))
    return js
CHECK = dict(id="F01", harness=["h_frz.cpp"], jobs=jobs,
    bounds="36 functions recorded with 3-4 lanes (thorough 1-6) and replayed twice with another and with the same size; all input values in every round; kernels and memory flushed in between; 9 scenarios with abandoned, discarded or refused recordings",
    assumptions=["inputs of a replay have the sizes that the documented size heuristic supports (each either one or the common size)"])
