from lib.driver import Job
def jobs(tier):
    d = 5 if tier == "thorough" else 4
    js = [Job("t_vec", t, o, d, label="vector/%d op%d" % (t, o)) for t in range(3) for o in range(17)]
    js += [Job("t_ptr", o, d + 1, label="unique_ptr op%d" % o) for o in range(9)]
    js += [Job("t_tuple", label="tuple")]
    return js
CHECK = dict(id="H03", harness=["h_stl.cpp"], base="header", jobs=jobs, bounds="all operation sequences of length 4 (thorough 5) over 17 vector operations x 3 element types, length 5 (6) over 9 owning-pointer operations; symbolic element values",
    assumptions=["arguments do not refer into the container being modified, except for self-assignment", "allocation succeeds"])
