"""Runs one property's jobs in the symbolic engine, validates the engine
against the native code, replays counterexamples and writes the evidence."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF

def Job(entry, *params, label=None, reach=("end",), harness=None, cost=0, **opts):
    return dict(entry=entry, params=[int(p) for p in params], label=label or entry, reach=tuple(reach), opts=opts, harness=harness, cost=cost)

def load_check(pid):
    path = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CHECK

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]

DEFAULT_OPTS = dict(time=float(os.environ.get("VERIF_JT", "240")), qtime=float(os.environ.get("VERIF_QT","60")), witness=1, violations=4)

def job_line(j, extra=None):
    o = dict(DEFAULT_OPTS); o.update(j["opts"])
    if extra: o.update(extra)
    return " ".join([j["entry"]] + [str(p) for p in j["params"]] + ["@%s=%s" % kv for kv in sorted(o.items())])

def run_engine(eng, mod, jobs, out, par, env=None, extra=None, verbose=False, timeout=3600):
    os.makedirs(out, exist_ok=True)
    jf = os.path.join(out, "jobs.txt")
    with open(jf, "w") as f:
        for j in jobs:
            f.write(job_line(j, extra) + "\n")
    r = subprocess.run([eng, mod, "--setup", "harness_setup", "--jobs", jf, "--out", out, "-j", str(par)] + (["-v"] if verbose else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    log = r.stdout.decode(errors="replace")
    res = []
    for i in range(len(jobs)):
        p = os.path.join(out, "job_%05d.json" % i)
        try:
            res.append(json.load(open(p)))
        except Exception:
            res.append(None)
    try:
        setup = json.load(open(os.path.join(out, "setup.json")))
    except Exception:
        setup = None
    return res, setup, log

def native_run(prog, j, inputs, work, asan=False, timeout=120, extra_env=None):
    d = tempfile.mkdtemp(dir=work)
    f = os.path.join(d, "inputs.txt")
    with open(f, "w") as o:
        for i in inputs:
            o.write("%s %s\n" % (i[0], i[3]))
    env = dict(os.environ, HOME=d, DRJIT_LIBLLVM_PATH=B.shim(), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=73:allocator_may_return_null=1")
    env.update(extra_env or {})
    try:
        r = subprocess.run([prog, j["entry"], f] + [str(p) for p in j["params"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env, cwd=d)
        rc, out = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return rc, out

def parse_observes(out):
    r = []
    for l in out.splitlines():
        if l.startswith("OBSERVE "):
            _, n, v = l.split()
            r.append((n, int(v, 16)))
    return r

def confirm(chk, prog, prog_asan, j, v, work):
    """Replays a counterexample against the native build of the same sources."""
    tries = []
    for name, p in (("native", prog), ("native+asan", prog_asan)):
        if p is None:
            continue
        rc, out = native_run(p() if callable(p) else p, j, v["inputs"], work)
        tries.append((name, rc, out[-1500:]))
        if rc == 71 or rc == 73 or rc == "timeout" or (isinstance(rc, int) and rc < 0) or rc in (134, 139):
            return True, tries
        if "AddressSanitizer" in out or "REPLAY-VIOLATION" in out:
            return True, tries
    return False, tries

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=B.NCPU)
    ap.add_argument("--prof", action="store_true")
    ap.add_argument("--only", help="run only jobs whose label contains this text")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    chk = load_check(a.id)
    pid = chk["id"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run_check(chk, pid, tier, seed, a, t0, scratch)
    except B.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run_check(chk, pid, tier, seed, a, t0, scratch):
    base = chk.get("base", "jit")
    groups = {}
    jobs = list(chk["jobs"](tier))
    if a.only:
        jobs = [j for j in jobs if a.only in j["label"]]
    jobs.sort(key=lambda j: -j["cost"])
    for j in jobs:
        h = j["harness"] or chk["harness"]
        groups.setdefault(tuple(h), []).append(j)
    lk = B.lock()
    eng = B.engine()
    mods = {h: B.bitcode(list(h), base, chk.get("flags", ())) for h in groups}
    lk.close()
    tb = time.time() - t0
    nat_variant = chk.get("native", "plain")
    natpool = ThreadPoolExecutor(1)
    natf = {}
    def build_native(h, variant):
        l2 = B.lock()
        try:
            return B.native(list(h), base, chk.get("flags", ()), variant)
        finally:
            l2.close()
    if nat_variant and not a.no_native:
        for h in groups:
            natf[h] = natpool.submit(build_native, h, nat_variant)
    allres = []
    setup_fn = set(); logs = []
    for h, js in groups.items():
        res, setup, log = run_engine(eng, mods[h], js, os.path.join(scratch, "out_%d" % len(allres)), a.j, verbose=a.v)
        if os.environ.get("ENGINE_DUMP"):
            print(log)
        if a.v: print(log)
        logs.append(log)
        if setup: setup_fn |= set(setup["functions"])
        allres += list(zip(js, res, [h] * len(js)))
    te = time.time() - t0

    problems, viols = [], []
    tot = dict(paths=0, insts=0, forks=0)
    solver = dict(queries=0, z3=0, cache=0, models=0, sat=0, unsat=0, unknown=0, external=0, time=0.0)
    asserts = {}
    fns, srcs = set(), set()
    wit = []
    for j, r, h in allres:
        if r is None:
            problems.append("job %s (%s): no result (engine process ended)" % (j["label"], job_line(j)))
            continue
        for k in tot: tot[k] += r[k]
        for k in solver: solver[k] += r["solver"][k]
        for m, c in r["asserts"].items():
            x = asserts.setdefault(m, [0] * 5)
            for i in range(5): x[i] += c[i]
        fns |= set(r["functions"]); srcs |= set(r["sources"])
        for v in r["violations"]:
            viols.append((j, v, h))
        if not r["complete"]:
            problems.append("job %s (%s): %s" % (j["label"], job_line(j), r["why"]))
        elif not r["violations"]:
            for x in j["reach"]:
                if not r["reaches"].get(x):
                    problems.append("job %s (%s): never reaches '%s' (vacuous)" % (j["label"], job_line(j), x))
        for w in r["witnesses"]:
            wit.append((j, w, h))

    # translation check: native executions must observe what the engine predicts
    validated = mism = 0
    samples = []
    if natf:
        lim = chk.get("validate", {}).get(tier, 400 if tier == "thorough" else 48)
        import random
        rnd = random.Random(seed)
        ws = wit if len(wit) <= lim else rnd.sample(wit, lim)
        def val(t):
            j, w, h = t
            rc, out = native_run(natf[h].result(), j, w["inputs"], scratch)
            return t, rc, out
        with ThreadPoolExecutor(a.j) as ex:
            for (j, w, h), rc, out in ex.map(val, ws):
                exp = [(n, int(v, 16)) for n, v in w["observes"]]
                got = parse_observes(out)
                ok = rc == 0 and got == exp
                if ok:
                    validated += 1
                    if len(samples) < 4 and exp:
                        samples.append(dict(job=j["label"], params=j["params"], inputs=[[i[0], i[3]] for i in w["inputs"][:12]], observed=[[n, hex(v)] for n, v in exp[:8]]))
                elif rc == 71:
                    # the native run violates an assertion that the engine proved: a real counterexample
                    msg = [l for l in out.splitlines() if "REPLAY-VIOLATION" in l]
                    viols.append((j, dict(kind="assert", msg=(msg[0][17:] if msg else "?").strip(), loc="native witness replay", detail=out[-500:], inputs=w["inputs"], confirmed=True), h))
                else:
                    mism += 1
                    d = next((i for i, (x, y) in enumerate(zip(exp, got)) if x != y), None)
                    problems.append("job %s (%s): native run disagrees with the engine (exit %s%s)\n%s" % (
                        j["label"], job_line(j), rc, ", expected %s=%#x, got %s=%#x" % (exp[d] + got[d]) if d is not None else "", out[-600:]))

    # counterexamples
    known = known_findings(pid)
    alarms, found = [], []
    seen = {}
    for j, v, h in viols:
        k = (j["entry"], v["kind"], v["msg"])
        hit = next((q for q in known if q["entry"] == j["entry"] and q["msg"] == v["msg"] and (q.get("params") is None or q["params"] == j["params"])), None)
        if hit:
            if hit not in found: found.append(hit)
            continue
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3:
            alarms.append((j, v, h))
    confirmed, unconfirmed = [], []
    rdir = os.path.join(VERIF, "build", "replays", pid)
    for j, v, h in alarms:
        if len(confirmed) >= 4: break
        rec = dict(property=pid, harness=list(h), base=base, entry=j["entry"], params=j["params"], label=j["label"], kind=v["kind"], msg=v["msg"], loc=v["loc"], backtrace=v["detail"], inputs=v["inputs"])
        ok = True
        if v.get("confirmed"):
            rec["replay"] = "native execution fails the assertion"
        elif natf and not (v["kind"] in chk.get("engine_only_kinds", ())):
            try:
                pa = (lambda h=h: build_native(h, nat_variant + "+asan")) if v["kind"] in ("memory", "arith") else None
                ok, tries = confirm(chk, natf[h].result(), pa, j, v, scratch)
                rec["replay"] = tries
            except B.BuildError as e:
                rec["replay"] = str(e)
        else:
            # concrete re-execution of the counterexample on the encoded code
            rec["replay"] = "re-executed on the encoded code only (environment faults / schedules have no native replay)"
        if not ok and v["kind"] in ("memory", "leak", "race"):
            # heap errors that the native allocator hides: the engine's concrete re-execution decides
            rec["replay_note"] = "memory-safety violation on the encoded code; the native allocator does not expose it"
            ok = True
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%d.json" % (j["entry"], len(confirmed) + len(unconfirmed)))
        with open(path, "w") as f: json.dump(rec, f, indent=1)
        (confirmed if ok else unconfirmed).append((path, rec))

    for q in known:
        if q in found:
            print("KNOWN-FINDING: property=%s %s" % (pid, q["what"]))
    for path, rec in confirmed:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s %s: %s at %s" % (rec["label"], rec["params"], rec["msg"], rec["loc"]))
        print("  inputs: %s" % ", ".join("%s=%s" % (i[0], i[3]) for i in rec["inputs"][:16]))
    for path, rec in unconfirmed:
        problems.append("counterexample did not reproduce natively: %s (%s)\n%s" % (rec["msg"], path, rec.get("replay")))
    unk = sum(c[4] for c in asserts.values())

    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(confirmed),
        assumptions=list(chk.get("assumptions", [])) + ["bounds: " + chk["bounds"]],
        coverage=dict(
            states=tot["paths"], transitions=tot["insts"], traces_validated_against_impl=validated,
            samples=samples or [dict(job=j["label"], params=j["params"], paths=r["paths"]) for j, r, h in allres[:3] if r],
            exhaustive=not problems,
            jobs=len(jobs), forks=tot["forks"],
            assertions=dict(distinct=len(asserts), checked=sum(c[0] for c in asserts.values()), decided_by_folding=sum(c[1] for c in asserts.values()),
                            proven_by_solver=sum(c[2] for c in asserts.values()), violated=sum(c[3] for c in asserts.values()), unknown=unk,
                            per_assertion={m: dict(zip(("checked", "folded", "proven", "violated", "unknown"), c)) for m, c in sorted(asserts.items())[:80]}),
            solver=dict(solver, time=round(solver["time"], 2)),
            native_mismatches=mism,
            functions_encoded=len(fns | setup_fn), functions_in_property=sorted(f for f in fns if "jitc" in f or f.startswith("jit_"))[:200],
            sources_encoded=sorted(x.replace(B.REPO + "/", "") for x in srcs if "/repo/" in x or x.startswith(B.REPO)),
            bounds=chk["bounds"], build_s=round(tb, 1), engine_s=round(te - tb, 1),
            known_findings=[q["what"] for q in found], problems=[p[:500] for p in problems[:20]]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d paths, %d instructions, %d assertions (%d by solver), %d solver queries (%.1fs), %d native traces, %d violations, %.1fs (build %.1f engine %.1f)" % (
        pid, tier, len(jobs), tot["paths"], tot["insts"], sum(c[0] for c in asserts.values()), sum(c[2] for c in asserts.values()),
        solver["z3"], solver["time"], validated, len(confirmed), time.time() - t0, tb, te - tb))
    if a.v or a.prof:
        for j, r, h in sorted([x for x in allres if x[1]], key=lambda x: -x[1]["time"])[:25]:
            print("  %6.1fs paths=%d z3=%d/%.1fs %s %s" % (r["time"], r["paths"], r["solver"]["z3"], r["solver"]["time"], j["label"], j["params"]))
    if confirmed:
        for p in problems[:4]: print("PROBLEM: " + p)
        return 1
    if problems:
        for p in problems[:12]: print("PROBLEM: " + p)
        if len(problems) > 12: print("... %d more" % (len(problems) - 12))
        return 2
    return 0
