"""Shared plumbing of the checks: build, run explorers, known findings, evidence, verdict."""
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
CORES = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The machinery itself failed; neither a pass nor a violation."""


def tier():
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            return sys.argv[i + 1]
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def build(crate, bin=None, extra_env=None, target=None, args=()):
    """Build one harness crate against /repo's working tree and return the binary's path."""
    d = os.path.join(HARNESS, crate)
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = target or TARGET
    env.pop("RUSTFLAGS", None)
    env.update(extra_env or {})
    r = subprocess.run(
        ["cargo", "build", "--release", "--offline", *args],
        cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise CheckError(f"building harness {crate} failed")
    return os.path.join(target or TARGET, "release", bin or crate)


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid = pid
        self.level = level
        self.tier = tier()
        self.seed = seed()
        self.start = time.time()
        self.coverage = {"rule": rule, "samples": []}
        self.assumptions = list(assumptions)
        self.failures = []       # (signature, message, replay payload)
        self.known_seen = {}
        self.known = load_known(pid)

    # -- bookkeeping ------------------------------------------------------
    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s, limit=12):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(s)

    def fail(self, signature, message, payload=None):
        """`signature` identifies the failing input, call site or history exactly."""
        for k in self.known:
            if k["match"](signature):
                self.known_seen[k["id"]] = self.known_seen.get(k["id"], 0) + 1
                return
        self.failures.append((signature, message, payload))

    # -- verdict ----------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 3),
            "violations": len(self.failures),
        }
        if self.known:
            ev["coverage"]["known_findings_hit"] = self.known_seen
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write("\n")
        for k in self.known:
            if self.known_seen.get(k["id"]):
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if not self.failures:
            print(f"{self.pid}: held on everything explored "
                  f"({', '.join(f'{k}={v}' for k, v in self.coverage.items() if isinstance(v, int))}; "
                  f"{ev['wall_s']}s)")
            return 0
        self.failures.sort(key=lambda f: (len(f[0]), f[0]))
        sig, msg, payload = self.failures[0]
        os.makedirs(OUT, exist_ok=True)
        h = hashlib.sha256(sig.encode("utf-8", "surrogatepass")).hexdigest()[:12]
        path = os.path.join(OUT, f"{self.pid}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "signature": sig, "message": msg, "replay": payload,
                       "all": [(s, m) for s, m, _ in self.failures[:20000]]}, f, indent=1)
        for s, m, _ in self.failures[:10]:
            print(f"  {s[:400]!r}: {m[:1200]}")
        print(f"{self.pid}: {len(self.failures)} violations")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        return 1


def load_known(pid):
    """Known findings that suppress: lines `known: property=<id> id=<name> signature=<json> what=<text>`."""
    path = os.path.join(VERIF, "known-findings.jsonl")
    res = []
    if not os.path.exists(path):
        return res
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") != pid or d.get("status") != "known":
                continue
            sigs = set(d["signatures"])
            res.append({"id": d["id"], "what": d["what"], "match": lambda s, sigs=sigs: s in sigs})
    return res


def main(fn):
    try:
        rc = fn()
    except CheckError as e:
        print(f"CHECK-ERROR: {e}", flush=True)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
