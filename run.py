#!/usr/bin/env python3
"""Builds the code under test from /repo, explores it with yamc, writes evidence.

  run.py check <PID> [--thorough]        the registered check
  run.py replay <file>                   re-run one recorded schedule verbosely
  run.py selftest                        engine self-tests
"""
import concurrent.futures as cf
import hashlib
import itertools
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(HERE, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import props  # noqa: E402

NPROC = os.cpu_count() or 4
START = time.time()


def log(*a):
    print(f"[{time.time() - START:6.1f}s]", *a, flush=True)


# ---- build ---------------------------------------------------------------------------------------
def gen_config(dst, subst):
    src = open(os.path.join(REPO, "src/config.hpp.in")).read()

    def rep(m):
        return str(subst.get(m.group(1), 0))

    src = re.sub(r"\$\{(\w+)\}", rep, src)
    src = re.sub(r"@(\w+)@", rep, src)
    src = re.sub(r"^(\s*)#\s*cmakedefine\s+(\w+).*$",
                 lambda m: f"{m.group(1)}#define {m.group(2)} 1" if subst.get(m.group(2)) else f"/* {m.group(2)} */",
                 src, flags=re.M)
    os.makedirs(os.path.join(dst, "yaclib"), exist_ok=True)
    with open(os.path.join(dst, "yaclib/config.hpp"), "w") as f:
        f.write(src)


CONFIG = {
    # production build with coroutines, the configuration of _build/real without asserts
    "real": dict(YACLIB_FAULT=0, YACLIB_CORO_NEED=1, YACLIB_SYMMETRIC_TRANSFER=1, YACLIB_FINAL_SUSPEND_TRANSFER=1),
    "nosym": dict(YACLIB_FAULT=0, YACLIB_CORO_NEED=1, YACLIB_SYMMETRIC_TRANSFER=0, YACLIB_FINAL_SUSPEND_TRANSFER=0),
    "fiber": dict(YACLIB_FAULT=2, YACLIB_CORO_NEED=1, YACLIB_SYMMETRIC_TRANSFER=1, YACLIB_FINAL_SUSPEND_TRANSFER=1),
    "thread": dict(YACLIB_FAULT=1, YACLIB_CORO_NEED=1, YACLIB_SYMMETRIC_TRANSFER=1, YACLIB_FINAL_SUSPEND_TRANSFER=1),
}
BASE = ["-std=c++20", "-g1", "-fno-pie", "-fno-stack-protector", "-fcoroutines", "-fno-omit-frame-pointer", "-w",
        "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
TSAN = ["-fsanitize=thread", "-U__SANITIZE_THREAD__", "--param", "tsan-instrument-func-entry-exit=0"]


def lib_sources(fault):
    out = []
    root = os.path.join(REPO, "src")
    for d, dirs, files in os.walk(root):
        dirs.sort()
        rel = os.path.relpath(d, root)
        if rel.split(os.sep)[0] == "fault" and not fault:
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                p = os.path.join(d, f)
                if fault and not fault_source_used(p):
                    continue
                out.append(p)
    return out


def fault_source_used(p):
    return True


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def build(variants, bdir):
    """variants: list of dict(name, config, harness=[...], instrument, defs, native: the harness is its own runner). Returns {name: exe}."""
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    jobs = []
    links = []
    rt = os.path.join(bdir, "rt.o")
    jobs.append((0, ["g++", "-std=c++20", "-O2", "-g1", "-fno-pie", "-w", "-c", os.path.join(HERE, "mc/rt.cpp"), "-o", rt]))
    libs = {}
    for v in variants:
        inc = os.path.join(bdir, "inc-" + v["config"])
        if not os.path.isdir(inc):
            gen_config(inc, CONFIG[v["config"]])
        flags = BASE + ["-O1", "-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "mc"),
                        "-I" + os.path.join(HERE, "h")] + v.get("defs", [])
        if v.get("instrument", True):
            flags += TSAN
        key = (v["config"], tuple(flags))
        if key not in libs:
            objs = []
            for s in lib_sources(v["config"] in ("fiber", "thread")):
                o = os.path.join(bdir, f"l{len(libs)}-" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
                objs.append(o)
                jobs.append((1, ["g++"] + flags + ["-c", s, "-o", o]))
            libs[key] = objs
        objs = list(libs[key])
        for hsrc in v["harness"]:
            defs = []
            src = hsrc
            if isinstance(hsrc, tuple):
                src, defs = hsrc[0], list(hsrc[1])
            o = os.path.join(bdir, f"h-{v['name']}-{src.replace('/', '_')}-{abs(hash(tuple(defs))) % 10**8}.o")
            objs.append(o)
            jobs.append((3, ["g++"] + flags + v.get("hdefs", []) + defs + ["-c", os.path.join(HERE, "h", src), "-o", o]))
        exe = os.path.join(bdir, "run-" + v["name"])
        links.append((v["name"], exe, ["g++", "-no-pie", "-o", exe] + objs + ([] if v.get("native") else [rt]) + ["-Wl,-z,now", "-rdynamic", "-lpthread", "-ldl"]))
    jobs.sort(key=lambda j: -j[0])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, out in ex.map(lambda j: run_cmd(j[1]), jobs):
            if rc != 0:
                raise BuildError(out[:6000])
        for rc, out in ex.map(lambda l: run_cmd(l[2]), links):
            if rc != 0:
                raise BuildError(out[:6000])
    return {n: e for n, e, _ in links}


# ---- running ---------------------------------------------------------------------------------------
def symbolize(exe, pcs):
    try:
        r = subprocess.run(["addr2line", "-Cfpe", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=60)
        return r.stdout.strip().split("\n")
    except Exception:
        return []


class Server:
    """A runner process that forks one child per test (start-up of a runner with many tests is not free)."""

    def __init__(self, exe):
        self.exe = exe
        self.p = subprocess.Popen([exe, "--server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  start_new_session=True)

    def run(self, args, timeout):
        self.p.stdin.write(("\t".join(args) + "\n").encode())
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.kill()
            return -99
        line = self.p.stdout.readline().decode().strip()
        return int(line.split()[1]) if line.startswith("rc ") else -97

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        SERVERS.pop((threading.get_ident(), self.exe), None)


SERVERS = {}
RUN_ID = itertools.count()


def server(exe):
    k = (threading.get_ident(), exe)
    if k not in SERVERS:
        SERVERS[k] = Server(exe)
    return SERVERS[k]


def kill_servers():
    for s in list(SERVERS.values()):
        s.kill()
    SERVERS.clear()


CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGVTALRM)


def run_test(exe, vname, test, budget, outdir, extra=()):
    out = os.path.join(outdir, f"{next(RUN_ID)}-{hashlib.md5((vname + test).encode()).hexdigest()}.json")
    try:
        rc = server(exe).run(["--test", test, "--time", f"{budget:.1f}", "--out", out] + list(extra), budget * 2 + 120)
    except (OSError, ValueError):
        rc = -96
        server(exe).kill()
    try:
        txt = open(out + ".log", errors="replace").read()
    except OSError:
        txt = ""
    try:
        res = json.loads(open(out, errors="replace").read(), strict=False)
    except Exception as e:
        res = {"test": test, "verdict": "internal", "message": f"no result, exit {rc}: {e!r} {txt[-500:]}", "execs": 0}
        if -rc in CRASH:   # confirmed by running it again
            res = {"test": test, "verdict": "violation", "category": "crash", "message": f"the program is killed by signal {-rc} {txt[-300:]}",
                   "execs": 0, "schedule": []}
            rc = 10
    if rc not in (0, 10) and res.get("verdict") != "internal":
        res = {"test": test, "verdict": "internal", "message": f"exit {rc}: {txt[-500:]}", "execs": 0}
    if res.get("verdict") == "internal":
        res["message"] = res.get("message", "") + " " + txt[-300:]
    res["variant"] = vname
    for f in (out, out + ".log"):
        if os.path.exists(f):
            os.remove(f)
    return res


def load_known():
    known = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) test=(\S+) category=(\S+) match=\"(.*?)\" (.*)$", line)
            if m:
                known.append(dict(property=m.group(1), test=m.group(2), category=m.group(3), match=m.group(4), what=m.group(5)))
    return known


def is_known(known, pid, r):
    for k in known:
        if (k["property"] == pid and k["test"] == f"{r['variant']}:{r['test']}" and k["category"] == r["category"]
                and k["match"] in r.get("message", "")):
            return k
    return None


def check(pid, tier):
    cfg = props.PROPS[pid]
    thorough = tier == "thorough"
    bdir = os.path.join(BUILD, f"{pid}-{tier}")
    log(f"{pid}: building from {REPO} ({tier})")
    try:
        exes = build(cfg["variants"](thorough), bdir)
    except BuildError as e:
        print(e)
        print(f"ERROR: {pid}: the code under test or the harness does not compile")
        return 2
    log("built", ", ".join(exes))
    outdir = os.path.join(bdir, "out")
    os.makedirs(outdir)
    total_budget = cfg.get("thorough_s", 3600) if thorough else cfg.get("quick_s", 420)
    per = cfg.get("thorough_test_s", 1200) if thorough else cfg.get("quick_test_s", 90)
    tests = []
    skip = {v["name"]: v.get("skip") for v in cfg["variants"](thorough)}
    for name, exe in exes.items():
        r = subprocess.run([exe, "--list"] + (["--thorough"] if thorough else []), stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            print(f"ERROR: cannot list tests of {name}")
            return 2
        for line in r.stdout.splitlines():
            t, w, b = line.split("\t")
            if skip[name] and not thorough and re.search(skip[name], t):
                continue   # left to the thorough tier
            tests.append((float(w), name, exe, t))
    tests.sort(key=lambda t: -t[0])
    t0 = time.time()
    results = []
    violations = []
    known = load_known()
    stop = False

    weak = cfg.get("weak_thorough", cfg.get("weak")) if thorough else cfg.get("weak")

    def job(t):
        w, name, exe, test = t
        left = total_budget - (time.time() - t0)
        if stop:
            return None
        if left < 1:
            return {"test": test, "variant": name, "verdict": "skipped", "execs": 0}
        extra = ["--thorough"] if thorough else []
        r = run_test(exe, name, test, min(left, per * max(w, 1)), outdir, extra)
        # Not exhausted: also cover it exhaustively up to a preemption bound (a different order of exploration).
        for b in ((1, 2, 3) if thorough else (1, 2)):
            if r["verdict"] != "ok" or not r.get("capped") or (r.get("threads") or 0) <= 1:
                break
            left = total_budget - (time.time() - t0)
            if left < 1:
                break
            q = run_test(exe, name, test, min(left, per * max(w, 1)), outdir, extra + ["--bound", str(b)])
            for k in ("execs", "complete", "blocked", "transitions", "states", "choice_nodes", "validated"):
                q[k] = (q.get(k) or 0) + (r.get(k) or 0)
            for k in ("maxdepth", "threads", "outcomes"):
                q[k] = max(q.get(k) or 0, r.get(k) or 0)
            if q["verdict"] != "ok":
                return q
            full = not q.get("capped")
            q["capped"] = True
            q["pb"] = b if full else r.get("pb", -1)
            r = q
            if not full:
                break
        return r

    def weak_job(t, r):
        """The same test with loads that may read overwritten stores; adds to r, or returns a violation."""
        w, name, exe, test = t
        extra = ["--thorough"] if thorough else []
        for n in range(1, weak + 1):
            left = total_budget - (time.time() - t0)
            if stop or left < 1:
                break
            wargs = ["--stale", str(n)] + (["--bound", str(max(r.get("pb", 1), 1))] if r.get("capped") else [])
            q = run_test(exe, name, test, min(left, per * max(w, 1)), outdir, extra + wargs)
            if q["verdict"] != "ok":
                q["args"] = wargs[:2]
                return q
            for k in ("execs", "complete", "blocked", "transitions", "states", "choice_nodes", "validated"):
                r[k] = (r.get(k) or 0) + (q.get(k) or 0)
            if q.get("capped"):
                break
            r["weak"] = n
        return r

    first_violation = None
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(job, t) for t in tests]
        if weak:
            bad = 0
            for f in cf.as_completed(futs):
                bad += f.result() is not None and f.result()["verdict"] == "violation" and not is_known(known, pid, f.result())
                stop = stop or bad >= 8
            first = [(t, f.result()) for t, f in zip(tests, futs)]
            futs = []
            for t, r in first:
                if r is not None and r["verdict"] == "ok" and (r.get("threads") or 0) > 1:
                    futs.append(ex.submit(weak_job, t, r))
                else:
                    futs.append(ex.submit(lambda x: x, r))
        for f in cf.as_completed(futs):
            r = f.result()
            if r is None:
                continue
            results.append(r)
            if r["verdict"] == "violation" and not is_known(known, pid, r):
                violations.append(r)
                if first_violation is None:
                    first_violation = time.time()
                if len(violations) >= 8:
                    stop = True
    internal = [r for r in results if r["verdict"] == "internal"]
    rc = 0
    confirmed = []
    for r in violations:
        if len(confirmed) >= 5:
            break
        ok = confirm(exes[r["variant"]], r, outdir)
        if ok:
            confirmed.append(r)
        else:
            internal.append(dict(r, message="violation did not reproduce from its schedule: " + r["message"]))
    for r in results:
        if r["verdict"] == "violation":
            k = is_known(known, pid, r)
            if k:
                print(f"KNOWN-FINDING: property={pid} {k['what']} [{r['variant']}:{r['test']}]")
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, r in enumerate(confirmed):
        p = os.path.join(rdir, f"{pid}-{i}.json")
        r["property"] = pid
        r["tier"] = tier
        r["backtrace"] = symbolize(exes[r["variant"]], r.get("backtrace", []))
        pcs = sorted(set(re.findall(r"(?:@|pc 0x|at 0x)([0-9a-f]{5,8})", r.get("trace", "") + r["message"])))
        syms = symbolize(exes[r["variant"]], pcs) if pcs else []
        if len(syms) == len(pcs):
            r["symbols"] = dict(zip(pcs, syms))
        json.dump(r, open(p, "w"), indent=1)
        print(f"  {r['variant']}:{r['test']}: {r['category']}: {r['message']}")
        print(f"VIOLATION property={pid} replay={p}")
        rc = 1
    if internal and not confirmed:
        for r in internal[:5]:
            print(f"ERROR: {r['variant']}:{r['test']}: {r.get('message')}")
        rc = 2
    kill_servers()
    evidence(pid, cfg, tier, results, confirmed)
    n = len(results)
    log(f"{pid}: {n} tests, {sum(r.get('execs', 0) for r in results)} executions, "
        f"{sum(r.get('states', 0) + r.get('choice_nodes', 0) for r in results)} states, "
        f"capped {sum(1 for r in results if r.get('capped') and r['verdict'] == 'ok')}, "
        f"skipped {sum(1 for r in results if r['verdict'] == 'skipped')}, rc {rc}")
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    return rc


def confirm(exe, r, outdir):
    f = os.path.join(outdir, "confirm.sched")
    with open(f, "w") as o:
        o.write(" ".join(map(str, r.get("schedule", []))))
    c = run_test(exe, "confirm", r["test"], 60, outdir, ["--replay", f] + r.get("args", []))
    return c["verdict"] == "violation" and c["category"] == r["category"]


def evidence(pid, cfg, tier, results, confirmed):
    def s(k):
        return int(sum(r.get(k, 0) or 0 for r in results))

    ok = [r for r in results if r["verdict"] == "ok"]
    samples = []
    for r in sorted(ok, key=lambda r: -r.get("maxdepth", 0))[:3] + ok[:2]:
        if r.get("sample"):
            samples.append(f"{r['variant']}:{r['test']}: {r['sample'][:1500]}")
    for r in confirmed:
        samples.append(f"VIOLATION {r['variant']}:{r['test']}: {r['message'][:300]}")
    capped = [f"{r['variant']}:{r['test']}" + (f" (exhausted up to {r['pb']} preemptions)" if r.get("pb", -1) >= 0 else "")
              for r in ok if r.get("capped")]
    capped += [f"{r['variant']}:{r['test']} (not run)" for r in results if r["verdict"] == "skipped"]
    cov = {
        "states": s("states") + s("choice_nodes"),
        "transitions": s("transitions"),
        "traces_validated_against_impl": s("validated"),
        "evaluations": s("execs"),
        "complete_executions": s("complete"),
        "pruned_executions": s("blocked"),
        "distinct_nontrivial": s("outcomes"),
        "rule": "states: new scheduling/choice points reached in the search tree of the real compiled library; transitions: "
                "visible operations executed; evaluations: executions of the real code under the controlled scheduler; "
                "traces_validated_against_impl: explored schedules executed a second time from their recorded decisions with "
                "identical event trace and outcome; distinct_nontrivial: distinct observed outcomes summed over tests",
        "tests": len(results),
        "tests_exhausted": len([r for r in ok if not r.get("capped")]),
        "not_exhausted": capped,
        "tests_exhausted_with_stale_loads": {str(n): len([r for r in ok if r.get("weak", 0) >= n]) for n in (1, 2, 3)
                                             if any(r.get("weak", 0) >= n for r in ok)},
        "max_depth": max([r.get("maxdepth", 0) for r in results] or [0]),
        "max_threads": max([r.get("threads", 0) for r in results] or [0]),
        "exhaustive": not capped and not confirmed,
        "bounds": cfg["bounds"],
        "samples": samples or ["none"],
    }
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": cov, "assumptions": (cfg["assumptions"] if "assumptions" in cfg else props.ASSUMPTIONS),
        "wall_s": round(time.time() - START, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)


def replay_file(path):
    r = json.load(open(path))
    pid, tier = r["property"], r["tier"]
    bdir = os.path.join(BUILD, f"replay-{pid}")
    exes = build(props.PROPS[pid]["variants"](tier == "thorough"), bdir)
    outdir = os.path.join(bdir, "out")
    os.makedirs(outdir)
    f = os.path.join(outdir, "s")
    open(f, "w").write(" ".join(map(str, r["schedule"])))
    c = run_test(exes[r["variant"]], r["variant"], r["test"], 60, outdir, ["--replay", f] + r.get("args", []))
    print(json.dumps(c, indent=1))
    shutil.rmtree(bdir, ignore_errors=True)
    return 1 if c["verdict"] == "violation" else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "check":
        tier = "thorough" if "--thorough" in a else os.environ.get("VERIF_TIER", "quick")
        if "--quick" in a:
            tier = "quick"
        return check(a[1], tier)
    if a and a[0] == "replay":
        return replay_file(a[1])
    if a and a[0] == "selftest":
        import selftest
        return selftest.main()
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
