"""Runs the engine on the cases of a property, replays counterexamples natively and writes evidence."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kbuild as kb

OUT = os.path.join(kb.VERIF, "out")
KNOWN = os.path.join(kb.VERIF, "known_findings.txt")


class Case:
    def __init__(self, name, harness, groups=("core",), params=(), tier="quick", prelude=None, shims=False, defs=(), time=150, thorough_time=600, jobs=None,
                 traces=6, opts=(), bounds="", weight=1, ttime=None, repeat=0):
        self.name, self.harness, self.groups, self.params, self.tier = name, harness, list(groups), list(params), tier
        self.prelude, self.shims, self.defs, self.time, self.thorough_time = prelude, shims, tuple(defs), time, ttime or thorough_time
        self.jobs, self.traces, self.opts, self.bounds, self.weight = jobs, traces, list(opts), bounds, weight
        if repeat:  # the harness runs again in the same process: nothing may be left over
            self.params = (self.params + [0] * 15)[:15] + [repeat]
            self.opts += ["--entry", "knpsym_rt_repeat"]
            self.bounds += ", %d runs in one process" % (repeat + 1)


SUMS = ["paths", "errors", "infeasible", "forks", "instructions", "symbolic_branches", "asserts", "assert_structural", "assert_abstract", "assert_precise", "undecided",
        "unvalidated", "unsupported", "unexplored", "uninit_paths", "unknown_feasibility"]
SOLV = ["queries", "z3_calls", "cache_hits", "model_hits", "precise_calls", "precise_unknown", "search_hits", "z3_time", "precise_time", "search_time"]


def merge(d):
    r = {k: 0 for k in SUMS}
    r["solver"] = {k: 0 for k in SOLV}
    r.update(violations=[], unsupported_msgs=[], reached=set(), expected=set(), traces=[], functions={}, timed_out=False, workers=0)
    for f in sorted(glob.glob(os.path.join(d, "out.json*"))):
        if ".tmp" in f:
            continue
        with open(f) as h:
            x = json.load(h)
        r["workers"] += 1
        for k in SUMS:
            r[k] += x[k]
        for k in SOLV:
            r["solver"][k] += x["solver"][k]
        r["violations"] += x["violations"]
        r["unsupported_msgs"] += x["unsupported_msgs"]
        r["reached"] |= set(x["reached"])
        r["expected"] |= set(x["expected"])
        r["traces"] += x["traces"]
        r["timed_out"] |= x["timed_out"]
        for n, c in x["functions"]:
            r["functions"][n] = r["functions"].get(n, 0) + c
    return r


def run_engine(case, linked, d, jobs, tmo, seed):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = [kb.ENGINE, "--bc", linked, "--out", os.path.join(d, "out.json"), "--trace-dir", d, "--jobs", str(jobs), "--max-time", str(tmo), "--seed", str(seed),
           "--traces", str(case.traces)]
    for p in case.params:
        cmd += ["--param", str(p)]
    cmd += [str(o) for o in case.opts]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=tmo + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        out = (out or "") + "\n[killed: over time]"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if not os.path.exists(os.path.join(d, "out.json")):
        r = {"fatal": "engine failed (exit %s): %s" % (p.returncode, out[-1500:])}
    else:
        r = merge(d)
        if p.returncode != 0:
            r["unexplored"] += 1
            r["note"] = "a worker ended early (exit %s) %s" % (p.returncode, out[-300:])
    r["wall"] = time.time() - t
    return r


def native(prog, replay, tmo=60, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([prog, replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo, env=e, errors="replace")
    except subprocess.TimeoutExpired:
        return "TIMEOUT", "", -99, ""
    last = [l for l in p.stdout.splitlines() if l.startswith("NATIVE ")]
    kind, msg = "NONE", ""
    if last:
        w = last[-1].split(" ", 2)
        kind, msg = w[1], (w[2] if len(w) > 2 else "")
    return kind, msg, p.returncode, p.stdout


def reproduce_race(case, v):
    """Real threads on the recorded inputs until ThreadSanitizer sees the race."""
    try:
        tsan = kb.build_tsan(case.harness, case.groups, case.prelude, case.defs)
    except kb.BuildError as e:
        return False, "cannot build the sanitizer program: " + str(e)[-300:]
    env = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1", "KNPSYM_REAL_THREADS": "1"}
    last = ""
    end = time.time() + 60
    while time.time() < end:
        with cf.ThreadPoolExecutor(8) as pool:
            for kind, msg, rc, out in pool.map(lambda _: native(tsan, v["file"], 30, env), range(16)):
                if "WARNING: ThreadSanitizer: data race" in out:
                    where = [l.strip() for l in out.splitlines() if "SUMMARY: ThreadSanitizer" in l]
                    return True, (where or ["data race"])[0][:300]
                if "ThreadSanitizer" in out and "SUMMARY" in out or kind in ("ASSERT", "CRASH"):
                    return True, ("%s %s" % (kind, msg) if kind in ("ASSERT", "CRASH") else [l for l in out.splitlines() if "SUMMARY" in l][0])[:300]
                last = "%s %s rc=%d %s" % (kind, msg, rc, out[-200:])
    return False, "ThreadSanitizer saw no race: " + last


def reproduce(case, prog, v):
    """Does the violation happen in the real code? Returns (bool, description)."""
    if v["kind"] == "race":
        return reproduce_race(case, v)
    kind, msg, rc, out = native(prog, v["file"])
    if v["kind"] == "assert":
        if kind == "ASSERT":
            return True, msg
        for fill in ("85", "170", "255"):  # values of uninitialised heap memory
            k2, m2, _, _ = native(prog, v["file"], env={"MALLOC_PERTURB_": fill})
            if k2 == "ASSERT":
                return True, m2
    if rc < 0 and kind in ("NONE",):
        return True, "the program died with signal %d" % -rc
    if kind in ("CRASH", "ASSERT", "DEADLOCK"):
        return True, kind + " " + msg
    if kind == "TIMEOUT":
        return v["kind"] in ("deadlock",), "does not terminate"
    try:
        asan = kb.build_asan(case.harness, case.groups, case.prelude, case.shims, case.defs)
    except kb.BuildError as e:
        return False, "cannot build the sanitizer program: " + str(e)[-300:]
    k2, m2, rc2, out2 = native(asan, v["file"], env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:alloc_dealloc_mismatch=1:allocator_may_return_null=1:detect_stack_use_after_return=1",
                                                     })
    if "ERROR: AddressSanitizer" in out2:
        return True, [l for l in out2.splitlines() if "ERROR: AddressSanitizer" in l][0][:300]
    if "Assertion" in out2 and rc2 < 0 or "Assertion '" in out2:
        return True, [l for l in out2.splitlines() if "Assertion" in l][0][:300]
    if k2 in ("CRASH", "ASSERT", "DEADLOCK"):
        return True, k2 + " " + m2
    if rc2 < 0 and k2 == "NONE":
        return True, "the program died with signal %d" % -rc2
    return False, "native run: %s %s; with sanitizers: %s %s rc=%d %s" % (kind, msg, k2, m2, rc2, out2[-300:] if k2 == "NONE" else "")


def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                head, what = l[len("finding: "):].rstrip("\n").split(" | ", 1)
                kv = dict(x.split("=", 1) for x in head.split(" ", 1)[1].split(" && "))
                r.append((kv, what))
    return r


def main(prop, title, cases, level_note, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(kb.VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(kb.VERIF, "evidence", prop + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    kb.build_engine()
    cases = [c for c in cases if c.tier == "both" or c.tier == tier or (tier == "thorough" and c.tier == "quick")]
    base = os.path.join(OUT, prop)
    rdir = os.path.join(OUT, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    os.makedirs(base, exist_ok=True)
    builds = {}
    with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(8) as outer:
        def bld(c):
            k = (c.harness, tuple(c.groups), c.prelude, c.shims, c.defs)
            if k not in builds:
                builds[k] = outer.submit(kb.build, c.harness, c.groups, c.prelude, c.shims, c.defs, pool)
            return builds[k]
        fut = [bld(c) for c in cases]
        try:
            built = [f.result() for f in fut]
        except kb.BuildError as e:
            print("BUILD-ERROR property=%s\n%s" % (prop, e))
            return 2
    tb = time.time() - t0
    # engine runs: a pool of 8 slots; long cases get several
    nslots = 8
    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    tot = sum(c.weight for c in cases)
    # quick checks share one wall budget
    budget = 700.0 if tier == "quick" else 6 * 3600.0
    jobs = {}
    for i in order:
        c = cases[i]
        jobs[i] = c.jobs or max(1, min(8, int(round(nslots * c.weight / tot)) or 1))
    import threading
    sem_lock = threading.Condition()
    free = [nslots]

    def run_case(i):
        c = cases[i]
        n = jobs[i]
        with sem_lock:
            while free[0] < n:
                sem_lock.wait()
            free[0] -= n
        try:
            left = budget - (time.time() - t0)
            tmo = c.time if tier == "quick" else c.thorough_time
            if tier == "quick":
                tmo = max(10, min(tmo, left))
            r = run_engine(c, built[i][0], os.path.join(base, c.name), n, tmo, seed)
        finally:
            with sem_lock:
                free[0] += n
                sem_lock.notify_all()
        return r
    with cf.ThreadPoolExecutor(len(cases)) as ex:
        results = list(ex.map(run_case, range(len(cases))))
    # judge
    rc = 0
    tot = {k: 0 for k in SUMS}
    solv = {k: 0 for k in SOLV}
    ev_cases, funcs, samples = [], {}, []
    validated = failed_valid = 0
    nviol = 0
    kn = known(prop)
    seen_known = set()
    problems = []
    for c, b, r in zip(cases, built, results):
        if "fatal" in r:
            print("CHECK-ERROR property=%s case=%s %s" % (prop, c.name, r["fatal"]))
            rc = max(rc, 2)
            problems.append(c.name + ": " + r["fatal"])
            continue
        for k in SUMS:
            tot[k] += r[k]
        for k in SOLV:
            solv[k] += r["solver"][k]
        for n, k in r["functions"].items():
            funcs[n] = funcs.get(n, 0) + k
        complete = not r["timed_out"] and r["unexplored"] == 0 and r["unsupported"] == 0
        case_ev = {"case": c.name, "harness": c.harness, "parameters": c.params, "bounds": c.bounds, "complete": complete, "paths": r["paths"], "assertions": r["asserts"],
                   "undecided": r["undecided"], "unexplored_states": r["unexplored"], "unsupported_paths": r["unsupported"], "solver_queries": r["solver"]["queries"],
                   "z3_calls": r["solver"]["z3_calls"] + r["solver"]["precise_calls"], "solver_seconds": round(r["solver"]["z3_time"] + r["solver"]["precise_time"], 2), "wall_s": round(r["wall"], 1),
                   "workers": r["workers"]}
        if r["unsupported_msgs"]:
            case_ev["unsupported"] = sorted(set(m[:300] for m in r["unsupported_msgs"]))[:10]
            print("note: case %s has %d unsupported paths: %s" % (c.name, r["unsupported"], case_ev["unsupported"][0][:300]))
        if not complete:
            print("note: case %s is incomplete (time out %s, %d unexplored states)" % (c.name, r["timed_out"], r["unexplored"]))
        if r["undecided"]:
            print("note: case %s has %d undecided assertions" % (c.name, r["undecided"]))
        # violations
        done_msgs = {}
        for v in r["violations"]:
            key = v["kind"] + "|" + v["msg"]
            if done_msgs.get(key) == "reproduced":
                continue
            ok, desc = reproduce(c, b[1], v)
            if not ok:
                done_msgs[key] = "not reproduced: " + desc
                continue
            done_msgs[key] = "reproduced"
            match = [k for k, (kv, what) in enumerate(kn) if kv.get("msg") in (v["msg"], desc) and kv.get("case", c.name) == c.name]
            if match:
                if match[0] not in seen_known:
                    seen_known.add(match[0])
                    print("KNOWN-FINDING: property=%s %s" % (prop, kn[match[0]][1]))
                continue
            dst = os.path.join(rdir, "%s_%d.txt" % (c.name, nviol))
            shutil.copy(v["file"], dst)
            with open(dst, "a") as f:
                f.write("# case %s harness %s\n# engine: %s\n# native: %s\n# at: %s\n" % (c.name, c.harness, key, desc, v["where"]))
            nviol += 1
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            print("  case %s: %s" % (c.name, key))
            print("  native replay: %s" % desc)
            print("  at %s" % v["where"][:600])
            rc = max(rc, 1) if rc != 2 else 2
        unrep = {k: x for k, x in done_msgs.items() if x != "reproduced"}
        if unrep:
            case_ev["not_reproduced"] = unrep
            for k, x in unrep.items():
                print("note: not reproduced natively, not reported: case %s %s (%s)" % (c.name, k, x[:300]))
        # traces
        for t in sorted(r["traces"])[:40]:
            if not os.path.exists(t):
                continue
            kind, msg, code, _ = native(b[1], t)
            if kind == "COMPLETED":
                validated += 1
                if len(samples) < 6:
                    with open(t) as f:
                        samples.append({"case": c.name, "path": [l.rstrip() for l in f][:60]})
            else:
                failed_valid += 1
                case_ev.setdefault("trace_mismatch", []).append("%s: %s %s" % (os.path.basename(t), kind, msg))
                print("note: trace of case %s does not validate: %s %s (%s)" % (c.name, kind, msg, t))
        miss = r["expected"] - r["reached"]
        if miss and complete and not r["violations"]:
            problems.append("%s: never reached %s" % (c.name, sorted(miss)))
            print("CHECK-ERROR property=%s case=%s never reached: %s" % (prop, c.name, sorted(miss)))
            if rc == 0:
                rc = 2
        if r["paths"] == 0 and not r["violations"]:
            problems.append(c.name + ": no path completed")
            print("CHECK-ERROR property=%s case=%s no path was completed" % (prop, c.name))
            if rc == 0:
                rc = 2
        ev_cases.append(case_ev)
    if nviol:
        rc = 1
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["errors"] + tot["infeasible"], "transitions": tot["instructions"], "traces_validated_against_impl": validated, "traces_failed_validation": failed_valid,
            "samples": samples or [{"note": "no trace"}],
            "paths_completed": tot["paths"], "symbolic_branch_points": tot["symbolic_branches"], "state_forks": tot["forks"],
            "assertions": {"checked": tot["asserts"], "decided_by_term_identity": tot["assert_structural"], "decided_by_solver_with_opaque_floating_point": tot["assert_abstract"],
                           "decided_by_solver_with_ieee_semantics": tot["assert_precise"], "undecided": tot["undecided"]},
            "solver": {"name": "Z3 4.8.12", **{k: (round(v, 3) if isinstance(v, float) else v) for k, v in solv.items()}},
            "functions_encoded": sorted(funcs, key=lambda n: -funcs[n])[:150], "functions_encoded_total": len(funcs),
            "cases": ev_cases, "complete_within_bounds": all(e["complete"] for e in ev_cases) and not problems, "problems": problems,
            "violations": nviol, "known_findings_seen": len(seen_known), "outside": level_note,
            "build_seconds": round(tb, 1),
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(evf, "w") as f:
        json.dump(evd, f, indent=1)
    for i in range(len(cases)):
        shutil.rmtree(os.path.join(base, cases[i].name), ignore_errors=True)
    print("%s %s: %s: %d cases, %d paths, %d assertions (%d undecided), %d solver queries, %.1fs solver, %d traces validated, %.1fs" % (
        prop, tier, "VIOLATED" if nviol else ("ERROR" if rc else "held"), len(cases), tot["paths"], tot["asserts"], tot["undecided"], solv["queries"], solv["z3_time"] + solv["precise_time"], validated, time.time() - t0))
    return rc
