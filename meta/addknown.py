"""addknown.py PROP ID WHAT [substring] : list all failures of the newest out/PROP-*.json (containing substring) as known (run by hand)."""
import glob, json, os, sys
p, i, what = sys.argv[1:4]
f = max(glob.glob(f"out/{p}-*.json"), key=os.path.getmtime)
neg = sys.argv[4:5] and sys.argv[4].startswith("!")
sub = (sys.argv[4].lstrip("!") if sys.argv[4:5] else "")
sigs = [s for s, _ in json.load(open(f))["all"] if (sub in s) != bool(neg)]
open("known-findings.jsonl", "a").write(json.dumps(dict(property=p, status="known", id=i, signatures=sigs, what=what)) + "\n")
print(len(sigs), "signatures")
