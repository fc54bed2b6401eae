from lib.driver import Job
def jobs(tier):
    th = tier == "thorough"; d = 4
    js = [Job("t_str", o, d, label="string op%d" % o) for o in range(22)]
    js += [Job("t_num", t, 1, label="number %d" % t, cost=t) for t in range(9)]
    if th: js += [Job("t_num", t, 0, label="number/all %d" % t, cost=20, time=1500) for t in (6, 7)]
    return js + [Job("t_hash", label="hash")]
CHECK = dict(id="H04", harness=["h_stl.cpp"], base="header", jobs=jobs, bounds="all operation sequences of length 4 over 22 string operations with symbolic characters; every value of every 8/16/32-bit integer and pointer type formatted, 64-bit integers below 2^32 and within 2 of 10^10, 10^18, 10^19 and the range ends (thorough: all)",
    assumptions=["floating point formatting (C library) excluded", "allocation succeeds"])
