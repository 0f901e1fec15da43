"""Runs the schedule explorer (harness/conc) and turns its report into a verdict."""
import json
import os
import shutil
import subprocess
import tempfile
import vlib


def worker(binary, mode, tier, w, n, scratch):
    env = dict(os.environ, CONC_SCRATCH=os.path.join(scratch, str(w)))
    return subprocess.Popen([binary, "run", mode, tier, str(w), str(n)], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL, text=True, errors="replace")


def run(chk, mode):
    binary = vlib.build("conc")
    scratch = tempfile.mkdtemp(prefix="conc", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    bounds, unfinished, longest = {}, [], 0
    try:
        ps = [worker(binary, mode, chk.tier, w, vlib.CORES, scratch) for w in range(vlib.CORES)]
        for p in ps:
            started = None
            out = p.communicate()[0]
            for line in out.splitlines():
                try:
                    d = json.loads(line)
                except ValueError:
                    continue  # cut off by a crash
                if "start" in d:
                    started = d["start"]
                    continue
                started = None
                chk.add("states", d["states"])
                chk.add("transitions", d["transitions"])
                chk.add("traces_validated_against_impl", d["executions"])
                chk.add("programs", 1)
                bound = d["bound"] if d["bound"] < 1000 else "unbounded"
                bounds[bound] = bounds.get(bound, 0) + 1
                longest = max(longest, d["longest"])
                if d["violation"]:
                    what, decisions, log = d["violation"]
                    chk.fail(d["scenario"] + " / " + what, what + "; schedule: " + " ".join(log),
                             {"cmd": f"{binary} replay {mode} {chk.tier} '{d['scenario']}' {','.join(map(str, decisions))}",
                              "schedule": log})
                elif not d["complete"]:
                    unfinished.append(d["scenario"])
                if d["executions"] > 100:
                    chk.sample(f"{d['scenario']}: {d['executions']} schedules ({bound} preemptions)")
            if p.returncode < 0 or (p.returncode not in (0, 3) and started):
                chk.fail(f"{started} / crash", f"the process died ({p.returncode}) while running {started}", {"scenario": started})
            elif p.returncode not in (0, 3):
                raise vlib.CheckError(f"explorer ended with {p.returncode}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    chk.coverage["programs_per_preemption_bound"] = {str(k): v for k, v in sorted(bounds.items(), key=str)}
    chk.coverage["longest_schedule"] = longest
    chk.coverage["unfinished_programs"] = unfinished
    chk.coverage["exhaustive"] = not unfinished
    if not chk.failures and not chk.coverage.get("states"):
        raise vlib.CheckError("nothing was explored")
