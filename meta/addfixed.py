"""addfixed.py PROP ID COMMIT WHAT"""
import json, sys
p, i, c, w = sys.argv[1:5]
open("known-findings.jsonl", "a").write(json.dumps(dict(property=p, status="fixed", id=i, commit=c, what=f"fixed: property={p} {c} {w}")) + "\n")
