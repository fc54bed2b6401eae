from lib.driver import Job
def jobs(tier):
    return [Job("t_arith", o, t, label="op%d/rhs%d" % (o, t), cost=5 if o in (3, 7) else 0) for o in range(14) for t in range(10)]
CHECK = dict(id="H02", harness=["h_half.cpp"], base="header", jobs=jobs, bounds="none smaller than the types: all bit patterns of both operands, 14 operators, 10 right operand types",
    assumptions=["NaN payloads and signs are not compared", "single precision arithmetic of the compiler follows IEEE-754"])
