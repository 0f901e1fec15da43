"""Talks to harness/checker: the real type checker, each request on a fresh copy of an empty project."""
import glob
import json
import os
import shutil
import subprocess
import tempfile
import threading
import vlib


def typeshed():
    for p in ("/opt/veriftools/pyvenv/lib/python3*/site-packages/pyright/dist/dist/typeshed-fallback",
              "/opt/veriftools/**/typeshed-fallback"):
        for d in sorted(glob.glob(p, recursive=True)):
            if os.path.isdir(d + "/stdlib"):
                return d
    raise vlib.CheckError("no typeshed found (third_party/typeshed is an empty submodule)")


class Pool:
    """A few servers with the same settings. `root` is a scratch directory of each server unless given."""

    def __init__(self, flags=(), n=None, files=None, binary=None):
        self.binary = binary or vlib.build("checker")
        self.flags = list(flags)
        self.n = n or vlib.CORES
        self.files = files or {}
        self.scratch = tempfile.mkdtemp(prefix="zuban", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.typeshed = typeshed()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _serve(self, w, requests, answers, errors):
        root = os.path.join(self.scratch, str(w), "project")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        for p, t in self.files.items():
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as o:
                o.write(t)
        env = dict(os.environ, RAYON_NUM_THREADS="2", RUST_BACKTRACE="0")
        env.pop("ZUBAN_TYPESHED", None)
        p = subprocess.Popen([self.binary, self.typeshed, root, *self.flags], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors="replace")
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
        t.start()
        mine = list(range(w, len(requests), self.n))

        def feed():
            try:
                for i in mine:
                    p.stdin.write(json.dumps(requests[i]) + "\n")
                p.stdin.close()
            except BrokenPipeError:
                pass
        f = threading.Thread(target=feed, daemon=True)
        f.start()
        try:
            for i in mine:
                line = p.stdout.readline()
                if not line:
                    break
                answers[i] = json.loads(line)
        finally:
            p.wait()
            t.join(5)
        if any(answers[i] is None for i in mine):
            errors.append(f"the server ended early ({p.returncode}): {''.join(err)[-1500:]}")

    def ask(self, requests):
        answers = [None] * len(requests)
        errors = []
        ts = [threading.Thread(target=self._serve, args=(w, requests, answers, errors)) for w in range(self.n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errors:
            raise vlib.CheckError(errors[0])
        return answers


def crash(answer):
    """What went wrong in a request that did not come to its end, or None."""
    last = answer[-1] if answer else None
    if isinstance(last, dict) and ("panic" in last or "signal" in last):
        return str(last.get("panic") or f"killed by signal {last['signal']}")
