"""Development tool: make a planted bug from edits, confirm it in a scratch copy, run the checks against it.

usage: seed.py FILE.py   where FILE.py calls bug(id, prop, needs, breaks, edits=[(relpath, old, new)], demo=source)
       seed.py --verify ID...     re-run the checks on stored bugs
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedwt"
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def wt():
    if not os.path.exists(SC):
        sh("cp -a /repo %s" % SC)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SC, SC, SC))

def tests():
    e = dict(os.environ, PYTHONPATH=SC + "/src", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    r = sh("timeout 200 /opt/venv/bin/python -m pytest -q tests -p no:cacheprovider -p no:randomly -n 8 --dist loadfile --timeout=30 2>&1 | tail -8", cwd=SC, env=e)
    return r.stdout

def bug(id, prop, needs, breaks, edits, demo, test=True):
    wt()
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
    ok0 = r.returncode == 0
    if not ok0:
        print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-1500:])
    for f, a, b in edits:
        p = os.path.join(SC, "src/niapy", f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a))
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SC).stdout)
    r = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
    print(id, "demo clean ok" if ok0 else "demo clean BAD", "| demo patched", "fails(ok)" if r.returncode else "PASSES (BAD)", "|", (r.stdout + r.stderr).strip().splitlines()[-1:] )
    if test:
        o = tests()
        print("   tests:", (o.strip().splitlines() or ["none"])[-1], [l for l in o.splitlines() if l.startswith("FAILED")])
    checks(id, prop)

def checks(id, prop, every=False):
    r = sh("python3 check.py %s --repo %s" % (prop, SC), cwd=ROOT)
    print("   %s exit %d" % (prop, r.returncode), [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "violat" in l.lower() or "Error" in l][:4])

if __name__ == "__main__":
    if sys.argv[1] == "--verify":
        ids = sys.argv[2:] or sorted(os.listdir(ROOT + "/seeded"))
        for i in ids:
            wt()
            d = os.path.join(ROOT, "seeded", i)
            r = sh("git -C %s apply %s/patch.diff" % (SC, d))
            print(i, "" if r.returncode == 0 else "DOES NOT APPLY " + r.stderr)
            checks(i, json.load(open(d + "/meta.json"))["property"])
    else:
        exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
