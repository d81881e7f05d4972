#!/usr/bin/env python3
"""probe.py SPEC.py [NAME...]: apply each behaviour-preserving edit or bug of a spec to a scratch copy of
/repo and run the named checks on it. A spec calls quiet(name, props, edits) or alarm(name, props, edits),
edits = [(file, old, new), ...]. Needs a built govc (GOVC, default /tmp/govc)."""
import sys, os, time, subprocess, shutil, tempfile, concurrent.futures as cf
GOVC = os.environ.get("GOVC", "/tmp/govc")
J = int(os.environ.get("J", "4"))
items = []
def add(kind):
    def f(name, props, edits):
        items.append((kind, name, props.split(), edits))
    return f
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
def run(it):
    kind, name, props, edits = it
    w = tempfile.mkdtemp(prefix="probe")
    d = w + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(d, f)
            s = open(p).read()
            if old is None:
                s = new
            else:
                n = s.count(old)
                if n != (e[3] if len(e) > 3 else 1):
                    return f"BADSPEC {name}: {f}: {n} matches of {old!r}"
                s = s.replace(old, new)
            open(p, "w").write(s)
        r = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode:
            return f"NOBUILD {name}: {r.stderr[-600:]}"
        out = []
        if kind == "alarm" or os.environ.get("TESTS"):
            r = subprocess.run(["go", "test", "./..."], cwd=d, env=dict(env, TMPDIR=w), capture_output=True, text=True)
            if r.returncode:
                out.append("(tests fail)")
        bad = False
        for p in props:
            t0 = time.time()
            e = dict(env, GOVC_REPO=d, GOVC_EVID=w + "/ev")
            r = subprocess.run([GOVC, "check", p, "quick"], env=e, cwd="/verif", capture_output=True, text=True, errors="replace", timeout=1200)
            want = 0 if kind == "quiet" else 1
            ok = r.returncode == want
            if not ok:
                bad = True
            lines = [l for l in r.stdout.splitlines() if l.startswith("FAILED") or l.startswith("VIOL")]
            msg = f"{p} rc={r.returncode} {time.time()-t0:.0f}s"
            if kind == "alarm":
                msg += " concrete" if any(l.startswith("FAILED conc") for l in lines) else " obligation-only"
                msg += " +obl" if any("FAILED obligation" in l for l in lines) else ""
            if not ok:
                msg += "\n     " + "\n     ".join(x[:260] for x in lines[:4] or [r.stdout[-300:] + r.stderr[-500:]])
            out.append(msg)
        return ("MISS " if bad and kind == "alarm" else "NOISE " if bad else "ok   ") + kind + " " + name + ": " + "; ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    g = {"quiet": add("quiet"), "alarm": add("alarm")}
    exec(open(sys.argv[1]).read(), g)
    sel = [i for i in items if len(sys.argv) < 3 or i[1] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(J) as ex:
        for r in ex.map(run, sel):
            print(r, flush=True)
