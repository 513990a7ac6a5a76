"""Engine self-tests: litmus programs with a known verdict, a known number of Mazurkiewicz traces, and agreement of the
set of outcomes between the partial-order reduced search and the search without reduction."""
import concurrent.futures as cf
import os
import shutil
import subprocess


def main():
    import run
    bdir = os.path.join(run.HERE, "build", "selftest")
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    flags = run.BASE + ["-O1", "-I" + os.path.join(run.HERE, "mc")]
    cmds = [["g++", "-std=c++20", "-O2", "-g1", "-fno-pie", "-w", "-c", run.HERE + "/mc/rt.cpp", "-o", bdir + "/rt.o"],
            ["g++"] + flags + run.TSAN + ["-c", run.HERE + "/h/litmus.cpp", "-o", bdir + "/l.o"]]
    with cf.ThreadPoolExecutor() as ex:
        for rc, out in ex.map(run.run_cmd, cmds):
            if rc:
                print(out)
                return 1
    exe = bdir + "/run"
    rc, out = run.run_cmd(["g++", "-no-pie", "-o", exe, bdir + "/l.o", bdir + "/rt.o", "-Wl,-z,now", "-rdynamic", "-ldl"])
    if rc:
        print(out)
        return 1
    tests = [l.split("\t")[0] for l in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]

    def one(t):
        want, n, n_ = t.split("/")
        a = run.run_test(exe, "dpor", t, 60, bdir)
        b = run.run_test(exe, "full", t, 60, bdir, ["--bound", "200"])
        bad = []
        for r in (a, b):
            got = r["category"] if r["verdict"] == "violation" else r["verdict"]
            if got != want or r.get("capped") and got == "ok":
                bad.append(f"{r['variant']}: {got} {r.get('message')}")
        if want == "ok":
            if int(n) and a["complete"] != int(n):
                bad.append(f"explored {a['complete']} traces instead of {n}")
            if "#" in n_ and int(n_.split("#")[1]) not in (0, a["outcomes"]):
                bad.append(f"{a['outcomes']} outcomes {sorted(a['outcome_list'])}")
            if sorted(a["outcome_list"]) != sorted(b["outcome_list"]):
                bad.append(f"outcomes {sorted(a['outcome_list'])} vs {sorted(b['outcome_list'])}")
        else:
            c = dict(a)
            if a["verdict"] == "violation" and not run.confirm(exe, dict(c, test=t), bdir):
                bad.append("not confirmed by replay")
        return t, a, b, bad

    fails = 0
    for t in tests:
        t, a, b, bad = one(t)
        print(f"{'FAIL' if bad else 'ok  '} {t}: {a['execs']} executions reduced ({a.get('complete')} complete), {b['execs']} unreduced; "
              f"{a.get('outcomes')} outcomes {bad if bad else ''}")
        fails += bool(bad)
    shutil.rmtree(bdir, ignore_errors=True)
    print(f"selftest: {len(tests)} programs, {fails} failures")
    return 1 if fails else 0
