#!/opt/venv/bin/python
"""Validate planted bugs: plant.py ID... (default all of /verif/seeded).

For each: copy /repo, apply the patch, mount the copy on /repo (user namespace),
build, run the stable tests and the demonstration; and the demonstration on the
unchanged tree.  Prints one line per bug.  With --check also runs the property's
quick check (and --all every claimed check) against the changed copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
opts = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))

def sh(cmd, timeout=1800, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **k)

def tests(out):
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out))
    return sorted(set(b["stable"]) - set(o["passed"]))

for i in ids:
    s = f"{V}/seeded/{i}"
    meta = json.load(open(s + "/meta.json"))
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        sh(f"cp -a /repo {d}/repo && git -C {d}/repo update-index --refresh")
        a = sh(f"git -C {d}/repo apply {s}/patch.diff")
        if a.returncode:
            print(i, "APPLY FAILED", a.stdout); continue
        os.mkdir(d + "/demo"); os.mkdir(d + "/ev")
        for f in os.listdir(s):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(s + "/" + f, d + "/demo")
        ns = f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/ev /verif/evidence && cd /repo && %s'"
        res = []
        if "--check-only" not in opts:
            pyx = ".pyx" in open(s + "/patch.diff").read()
            if pyx:
                r = sh(ns % "bash /opt/vp/build.sh")
                if "--v" in opts: print(r.stdout[-600:])
                if r.returncode: print(i, "BUILD FAILED", r.stdout[-2000:]); continue
            if "--demo-only" not in opts:
                sh(ns % f"bash /opt/vp/test.sh {d}/out.json")
                res.append("tests " + (str(tests(d + "/out.json")[:4]) if tests(d + "/out.json") else "ok"))
            r = sh(ns % f"bash {d}/demo/demo.sh", timeout=300)
            res.append(f"demo patched {r.returncode}" + ("" if r.returncode else " <<<< NOT FAILING " + r.stdout[-500:]))
            if "--v" in opts: print(r.stdout[-1500:])
            r = sh(f"cd /repo && bash {d}/demo/demo.sh", timeout=300)
            res.append(f"clean {r.returncode}" + ("" if not r.returncode else " <<<< FAILING " + r.stdout[-1500:]))
        if "--check" in opts or "--check-only" in opts:
            props = [meta["property"]]
            if "--all" in opts:
                props = [c["property_id"] if "property_id" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
            for p in props:
                r = sh(ns.replace("cd /repo", "cd /verif") % f"VERIF_SEED=1 VERIF_TIER=quick ./check {p} quick", timeout=1000)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append(f"{p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}")
                if "--v" in opts: print(r.stdout[-3000:])
        print(i, meta["property"], "|", "; ".join(res), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
