from lib.driver import Job
ST = ["new A", "new B", "new C", "A=f(A,B)", "C=f(A,B)", "B=f(C,A)", "C=f(C,C)", "drop A", "drop B", "drop C", "C=A", "C=B", "eval A", "eval C", "eval all"]
SC = ["stash array", "stash expression", "expired stash", "nested stash", "stash local array", "deep chain", "callback frees", "callback on evaluation", "replaced callback", "indices", "counts", "refused operations", "trees"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for a in range(15):
        for b in (range(15) if th else (None,)):
            js.append(Job("t_life", 7 if th else 6, 4 if th else 3, 0, 1, a, *(() if b is None else (b,)), label="lifetimes: new A, new B, %s, %sany.." % (ST[a], "" if b is None else ST[b] + ", "), cost=1))
    for sc in range(13):
        for n in {0: (1, 2, 3, 65537), 1: (1, 2), 5: (3, 200), 7: (0, 1), 12: (0, 1, 2, 3)}.get(sc, (0,)):
            js.append(Job("t_life_misc", sc, n, label="lifetimes: %s (%d)" % (SC[sc], n), cost=3 if n > 1000 else 1))
    for na in range(4):
        for ln in ((0, 1, 2, 3) if th else (0, 2)):
            for refs in (1, 2):
                for depth in (0, 1, 2):
                    for form in ((0, 1, 2) if th or depth == 0 else (2,)):
                        if na == 3 and ln > 2 and not th: continue
                        js.append(Job("t_label", na, ln, refs, depth, form, label="label of %d parts of length %d, %d references, %d prefixes, form %d" % (na, ln, refs, depth, form)))
    return js
CHECK = dict(id="T01", harness=["h_life.cpp"], jobs=jobs,
    bounds="all histories of 4 (thorough: 5) further steps out of 15 (creation, expressions, dropping, aliasing, evaluation) over 3 handles after creating two arrays; all expression trees of binary or ternary operations over 6 inputs; 13 scenarios with stashed counts (up to 65537 references), callbacks and refused operations; labels of up to 3 parts of any bytes of length 0 and 2 (thorough 0-3) under 0-2 prefixes")
