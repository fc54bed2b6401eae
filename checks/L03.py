from lib.driver import Job
SC = ["different code", "captured data", "uniform results", "side effects", "guarded gather", "sequence", "nested call", "loop in call", "call in loop", "three instances", "gap in IDs", "scalar instance", "literal instance", "small types", "same code, other data", "refused", "getter", "getter and call", "captured targets", "partly shared results", "64-bit values"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for s in range(21):
        for fl in range(4):
            for m in range(3):
                for n in ((1, 2, 3) if th else (2,)):
                    if not th and fl in (1, 2) and m: continue
                    js.append(Job("t_call", s, fl, n, m, label="call %s, flags %d, mask %s, %d lanes" % (SC[s], fl, ["true", "array", "scalar"][m], n)))
    return js
CHECK = dict(id="L03", harness=["h_call.cpp"], jobs=jobs,
    bounds="21 forms of indirect calls (different/merged code, captured data of all sizes, side effects, nesting, loops, getters, ID gaps, uniform instances, refused forms), with/without call optimization and function merging, 3 kinds of mask, 1-3 lanes, up to 3 instances; all data, masks and instance references (including null)")
