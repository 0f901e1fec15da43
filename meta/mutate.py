"""mutate.py FILE-WITH-MUTANTS CMD.. : applies each mutant (dict name,file,old,new[,n]) to /repo, runs build+tests (--tests) and CMD, undoes it.
Used by hand to find blind spots; never run by a check."""
import json, os, subprocess, sys
muts = {}
exec(open(sys.argv[1]).read())
cmd = sys.argv[2]
only = sys.argv[3:]
def sh(c, t=900):
    try:
        r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"
assert not sh("git -C /repo status --porcelain")[1].strip()
for m in M:
    name, file, old, new = m[:4]
    if only and name not in only: continue
    p = "/repo/" + file
    s = open(p).read()
    if s.count(old) < 1:
        print(name, "PATTERN NOT FOUND"); continue
    k = m[4] if len(m) > 4 else 1
    parts = s.split(old)
    s2 = old.join(parts[:k]) + new + old.join(parts[k:])
    try:
        open(p, "w").write(s2)
        rc, out = sh(cmd)
        lines = [l for l in out.splitlines() if "VIOLATION" in l or "CHECK-ERROR" in l or "error" in l[:8]]
        ids = sorted({l.split("property=")[1].split()[0] for l in lines if "property=" in l})
        other = [l for l in lines if "property=" not in l][:2]
        trc, tout = sh("bash /tmp/rt.sh", 600)
        t = "tests-ok" if "missing: []" in tout else "TESTS-FAIL " + tout.strip()[-150:]
        print(name, "rc", rc, "caught" if ids else "MISSED", ids, other, t, flush=True)
    finally:
        sh("git -C /repo checkout -- .")
