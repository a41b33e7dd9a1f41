"""Development tool: small edits that must (bug) or must not (ok) raise an alarm.  usage: mut.py FILE.py [filter]
FILE.py defines M = [(property, 'bug'|'ok', relpath, old, new), ...] or with a list of (relpath, old, new) as third item."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
flt = sys.argv[2] if len(sys.argv) > 2 else ""

def one(a):
    k, m = a
    prop, kind = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
    d = "/tmp/mut/%d" % k
    subprocess.run("rm -rf /tmp/mut/%d && mkdir -p %s && cp -r /repo/src %s/" % (k, d, d), shell=True)
    for f, o, n in edits:
        p = os.path.join(d, "src/niapy", f)
        s = open(p).read()
        if s.count(o) < 1:
            return "%3d %s %s NOT FOUND %r" % (k, prop, kind, o[:50])
        s = s.replace(o, n, 1)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return "%3d SYNTAX %s" % (k, e)
    r = subprocess.run([sys.executable, "check.py", prop, "--repo", d, "--no-evidence"], cwd=ROOT, capture_output=True, text=True)
    subprocess.run("rm -rf /tmp/mut/%d" % k, shell=True)
    good = r.returncode == (1 if kind == "bug" else 0)
    return "%3d %s %s %s exit %d %s" % (k, "  " if good else "##", prop, kind, r.returncode, "" if good and "-v" not in sys.argv else "\n      %r -> %r\n      " % (edits[0][1][:90], edits[0][2][:90]) + "\n      ".join((r.stdout + r.stderr).splitlines()[-4:]))

os.makedirs("/tmp/mut", exist_ok=True)
jobs = [(k, m) for k, m in enumerate(g["M"]) if flt in ("", "-v") or flt in m[0] or flt == str(k)]
with ThreadPoolExecutor(4) as ex:
    for o in ex.map(one, jobs):
        print(o, flush=True)
