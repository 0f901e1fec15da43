"""seedtest.py <seed-id>... : apply each planted bug to /repo, run build, tests, demo and its property's quick check; undo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    b = base.get("tests") or base.get("passed") or base
    return b
only_check = "--check" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    res = []
    if not only_check:
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); res.append(("demo-clean", r.returncode == 0))
        if r.returncode: print(r.stdout[-1500:])
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    try:
        if not only_check:
            r = sh("bash /opt/vp/build.sh"); res.append(("build", r.returncode == 0))
            if r.returncode: print(r.stdout[-1500:])
            r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            failed = [x for x in t.get("failed", [])]
            res.append(("tests", f"failed={failed[:5]} passed={len(t.get('passed', []))}"))
            r = sh(f"bash {d}/demo.sh", cwd="/repo"); res.append(("demo-fails", r.returncode != 0))
        r = sh(f"python3 checks/{meta['property'].lower()}.py --tier quick", cwd=V)
        caught = r.returncode == 1 and f"VIOLATION property={meta['property']} " in r.stdout
        res.append(("caught", caught if r.returncode in (0, 1) else "ERROR " + r.stdout[-800:]))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, meta["property"], res, flush=True)
