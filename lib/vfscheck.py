"""Runs the explicit-state explorer of the virtual file system and turns its report into a verdict."""
import json
import subprocess
import vlib

ASSUME = [
    "histories are explored up to the depth given per configuration, breadth first, states merged by a fingerprint of "
    "the reference model and the complete tree, file states, registered invalidations and cached analyses",
    "the client follows the protocol of the type checker (load, register what an import looked at, cache); events of a "
    "change arrive at any later time, in order, alone, together or more than once",
    "a directory that appears complete while a buffer inside of it is known, and a directory that only a closed buffer "
    "created, are tolerated outside of the configurations `findings*` (see known-findings.jsonl)",
]


def run(pid, tags, configs, rule, extra=()):
    chk = vlib.Check(pid, "model_checking", rule, [*ASSUME, *extra])
    exe = vlib.build("vfsmc")
    cmd = [exe, "explore", chk.tier, *configs, *(f"+{t}" for t in tags)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800 if chk.tier == "quick" else 7200)
    except subprocess.TimeoutExpired:
        raise vlib.CheckError("the exploration of the virtual file system ran out of time")
    seen = set()
    chk.coverage["configurations"] = []
    for line in r.stdout.splitlines():
        d = json.loads(line)
        seen.add(d["config"])
        chk.add("states", d["states"])
        chk.add("transitions", d["transitions"])
        # every transition is an operation of the real code, judged by the model afterwards
        chk.add("traces_validated_against_impl", d["replays"])
        chk.add("facts_checked", d["facts"])
        for s in d["samples"]:
            chk.sample(s, 40)
        chk.coverage["configurations"].append({k: d[k] for k in ("config", "depth", "states", "transitions", "replays")})
        for sig, msg in d["failures"]:
            chk.fail(sig, msg, {"history": sig})
    if r.returncode != 0:
        if r.returncode < 0:
            chk.fail("abort", f"the process that runs the virtual file system died with signal {-r.returncode}: {r.stderr[-600:]}")
        else:
            raise vlib.CheckError(f"vfsmc failed: {r.returncode} {r.stderr[-600:]}")
    chk.coverage["exhaustive_within_bounds"] = True
    return chk.finish()
