from lib.driver import Job
from lib.ops import *
def jobs(tier):
    th = tier == "thorough"
    js = []
    SH = [(1, 1, 1), (2, 3, 2), (6, 17, 3), (7, 9, 4), (13, 33, 2), (5, 1, 7)]
    for t in (F16, F32, F64):
        for at, bt in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for si, (m, n, k) in enumerate(SH):
                for cfg in range(17):
                    if at and bt and cfg: continue
                    if not th and cfg and (si + cfg + t + at) % 3 and not (t == F32 and si == 1): continue
                    for w in (1, 8):
                        if not th and w == 1 and si % 2: continue
                        v = (si + cfg) % 2
                        js.append(Job("t_gemm", t, at, bt, m, n, k, cfg, w, v, label="gemm %s At=%d Bt=%d %dx%dx%d batch%d workers=%d" % (NAMES[t], at, bt, m, n, k, cfg, w), cost=1 if m * n > 200 else 0))
        for m, n, k in ((1, 2, 1025), (7, 17, 1025), (2, 4099, 1), (1, 3, 2049)):
            for at, bt in ((0, 0), (1, 0), (0, 1)):
                for cfg in ((0,) if m * n * k > 20000 else (0, 4)):
                    if not th and n > 4000 and (t != F32 or at or bt): continue
                    if not th and (m * n * k > 20000 and (t != F32 or bt) or k > 2000 and (t, at) != (F16, 1) or k == 1025 and m == 1 and (t == F64 or cfg)): continue
                    js.append(Job("t_gemm", t, at, bt, m, n, k, cfg, 2, 0, label="gemm %s At=%d Bt=%d %dx%dx%d batch%d" % (NAMES[t], at, bt, m, n, k, cfg), cost=5))
        for m, n, k in ((0, 2, 2), (2, 0, 2), (2, 2, 0), (1, 1, 0)):
            for cfg in (0, 1, 5):
                js.append(Job("t_gemm", t, 0, 0, m, n, k, cfg, 2, 0, label="gemm %s %dx%dx%d batch%d" % (NAMES[t], m, n, k, cfg)))
    js.append(Job("t_gemm_bad", label="invalid products"))
    return js
CHECK = dict(id="R08", harness=["h_gemm.cpp"], jobs=jobs,
    bounds="M up to 13, N up to 33, K up to 7 (crossing the 6 x 16 tiles), one K of 1025 and 2049 and one N of 4099 (crossing the panels), 17 batch/reduction layouts, three transpose forms, 1, 2 and 8 threads in three orders; one symbolic entry in [1/4, 4096], the others small integers",
    assumptions=["entries are small integers except one: every sum is exact (the order of accumulation is unspecified)"])
