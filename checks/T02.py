from lib.driver import Job
ST = ["put A", "put B", "put C", "put D", "remove A", "remove B", "remove C", "remove D", "clear", "put D with A", "put A with D"]
def jobs(tier):
    th = tier == "thorough"
    js = []
    for a in range(11):
        for b in range(11):
            js.append(Job("t_reg", 5 if th else 4, 2, 0, a, b, label="registry: %s, %s, any.." % (ST[a], ST[b]), cost=1))
    for n in (3, 66, 81, 132):
        for a in range(11): js.append(Job("t_reg", 3 if th else 2, 1, n, a, label="registry with %d entries: %s, any.." % (n, ST[a]), cost=1))
    return js
CHECK = dict(id="T02", harness=["h_reg.cpp"], jobs=jobs,
    bounds="all histories of 4 (thorough: 5) steps out of 11 (registering 4 pointers in 3 domains of 2 variants, one pointer of each of two domains also in another one, removing them, clearing); histories of 2 (3) steps with 3, 66, 81 and 132 pointers registered and some removed before; lookup of any ID")
