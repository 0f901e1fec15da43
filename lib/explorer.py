"""Runs an exploration subcommand of a Rust harness and turns its reports into a verdict.

Protocol: `<bin> explore <mode> <tier> <slotfile>` prints one JSON line per space.  If the process dies
(abort, stack overflow) the slot file names what every worker was on; each is replayed alone with
`<bin> at <mode> <tier> <space> <index>` and the ones that die again are the violations.
"""
import json
import os
import struct
import subprocess
import tempfile

from vlib import CheckError


def run(chk, binary, mode, timeout=840, env=None):
    with tempfile.TemporaryDirectory(prefix="vexp") as d:
        slots = os.path.join(d, "slots")
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run([binary, "explore", mode, chk.tier, slots], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout if chk.tier == "quick" else None, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError(f"exploration {mode} exceeded {timeout}s")
        spaces = []
        hang = False
        for line in p.stdout.decode().splitlines():
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "hang" in r:
                hang = True
                chk.fail(r["hang"], "does not terminate (20 s on this input)", {"mode": mode, "input": r["hang"]})
                continue
            if "space" not in r:
                continue
            spaces.append({k: r[k] for k in ("space", "fragments", "max_length", "frames", "evaluated", "facts",
                                             "distinct", "failure_count") if k in r})
            chk.add("evaluations", r["evaluated"])
            chk.add("distinct_nontrivial", r["distinct"])
            chk.add("facts_checked", r["facts"])
            for s in r["samples"]:
                chk.sample(f"{r['space']}: {s!r}", limit=24)
            for text, msg in r["failures"]:
                chk.fail(text, msg, {"mode": mode, "input": text})
        chk.coverage.setdefault("spaces", []).extend(spaces)
        if p.returncode != 0 and not hang:
            found = False
            data = open(slots, "rb").read()
            for o in range(0, len(data) - 15, 16):
                sp, idx = struct.unpack("<QQ", data[o:o + 16])
                try:
                    q = subprocess.run([binary, "at", mode, chk.tier, str(sp), str(idx)], stdout=subprocess.PIPE,
                                       stderr=subprocess.PIPE, timeout=60, env=e)
                except subprocess.TimeoutExpired:
                    chk.fail(f"{mode}/{sp}/{idx}", "does not terminate (60 s)", {"mode": mode, "space": sp, "index": idx})
                    found = True
                    continue
                if q.returncode != 0:
                    first = (q.stdout.decode().splitlines() or ["{}"])[0]
                    text = json.loads(first).get("input", f"{mode}/{sp}/{idx}")
                    chk.fail(text, f"the process died with status {q.returncode}: {q.stderr.decode()[-300:]}",
                             {"mode": mode, "input": text})
                    found = True
            if not found:
                raise CheckError(f"explorer died with {p.returncode}: {p.stderr.decode()[-2000:]}")
        if not spaces and not chk.failures:
            raise CheckError("the explorer reported nothing")
    chk.coverage["exhaustive"] = True
