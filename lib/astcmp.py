"""Differential enumeration: the typed syntax tree of the real parser against CPython's ast, on whole program spaces."""
import hashlib
import multiprocessing as mp
import os
import subprocess
import threading

import astref
import pyspaces
import vlib


class Server:
    """A harness process that dumps programs in batches."""

    def __init__(self, binary, mode="dump"):
        self.binary = binary
        self.mode = mode
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.binary, "serve", self.mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def batch(self, texts):
        data = b"".join(t.encode() + b"\0" for t in texts) + b"\0"

        def feed(p):
            try:
                p.stdin.write(data)
                p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass
        th = threading.Thread(target=feed, args=(self.p,))
        th.start()
        out = []
        while True:
            line = self.p.stdout.readline()
            if not line:
                th.join()
                self.p.wait()
                self.start()
                if len(texts) == 1:
                    return [f"P the process died with status {self.p.returncode}"]
                # find the text that kills it
                return [self.batch([t])[0] for t in texts]
            line = line.decode().rstrip("\n")
            if line == "F":
                break
            out.append(line)
        th.join()
        return out


def worker(args):
    binary, space, thorough, w, n, judge_name = args
    judge = JUDGES[judge_name]
    srv = Server(binary)
    evals = valid = 0
    shapes = set()
    fails = []
    nfails = 0
    samples = []
    BATCH = 500
    batch = []

    def flush():
        nonlocal evals, valid, nfails
        outs = srv.batch(batch)
        assert len(outs) == len(batch)
        for t, o in zip(batch, outs):
            ref, why = astref.reference_or_reason(t)
            evals += 1
            if ref is not None:
                valid += 1
                shapes.add(hash(ref))
                if len(samples) < 2 and evals % 997 == 0:
                    samples.append(t)
            msg = judge(t, o, ref, why)
            if msg:
                nfails += 1
                if len(fails) < 400:
                    fails.append((t, msg))
        batch.clear()

    for i, t in enumerate(pyspaces.SPACES[space](thorough)):
        if (i // BATCH) % n != w:
            continue
        batch.append(t)
        if len(batch) == BATCH:
            flush()
    if batch:
        flush()
    srv.p.stdin.close()
    srv.p.wait()
    return space, evals, valid, shapes, fails, nfails, samples


def lenient(t, o, why):
    """The deviations that the property names: they are not the grammar's business in this code base."""
    return (why.startswith("TabError")                       # tabs and spaces mixed in indentation
            or why.startswith("IndentationError") and "\n\t" in t and "\n " in t
            or t.endswith("\\\n") and "EOF" in why            # a backslash in front of the end of the file
            or "?lenient" in o)                                  # marked by the dump: four shapes in match statements


def judge_accept(t, o, ref, why):
    if o.startswith("P"):
        return "panicked: " + o[2:]
    if ref is not None and o == "E":
        return "valid Python, but the tree contains an error"
    if ref is None and o != "E" and not lenient(t, o, why):
        return f"CPython rejects this ({why}), but the tree contains no error"
    return None


def judge_ast(t, o, ref, why):
    if o.startswith("P"):
        return "panicked: " + o[2:]
    if ref is not None and o != "E":
        got = o[2:]
        if got != ref:
            i = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
            return f"differs at {i}: got …{got[max(0, i - 60):i + 80]}  want …{ref[max(0, i - 60):i + 80]}"
    return None


JUDGES = {"accept": judge_accept, "ast": judge_ast}


def run(chk, binary, judge, spaces, filter_fail=None):
    n = vlib.CORES
    thorough = chk.tier == "thorough"
    jobs = [(binary, s, thorough, w, n, judge) for s in spaces for w in range(n)]
    shapes = {}
    per = {}
    with mp.Pool(n) as pool:
        for space, evals, valid, sh, fails, nfails, samples in pool.imap_unordered(worker, jobs):
            d = per.setdefault(space, {"space": space, "evaluated": 0, "valid": 0, "failures": 0})
            d["evaluated"] += evals
            d["valid"] += valid
            d["failures"] += nfails
            chk.add("evaluations", evals)
            shapes.setdefault(space, set()).update(sh)
            for s in samples:
                chk.sample(f"{space}: {s!r}", limit=24)
            for t, m in fails:
                if filter_fail is None or not filter_fail(t, m):
                    chk.fail(t, m, {"program": t})
    allshapes = set().union(*shapes.values()) if shapes else set()
    chk.add("distinct_nontrivial", len(allshapes))
    chk.coverage["spaces"] = list(per.values())
    chk.coverage["exhaustive"] = True
