from lib.driver import Job
def jobs(tier):
    js = [Job(e, m, label="%s/%d" % (e, m)) for e, n in (("t_f2h", 3), ("t_h2f", 3), ("t_round", 2)) for m in range(n)]
    js += [Job("t_misc", m, label="misc/%d" % m) for m in range(11)]
    return js
CHECK = dict(id="H01", harness=["h_half.cpp"], base="header", jobs=jobs, bounds="none smaller than the types: all 2^16 half and all 2^32 float (2^64 double / integer) bit patterns",
    assumptions=["NaN payloads and signs are not compared", "hardware conversions follow IEEE-754 (round to nearest even)"])
