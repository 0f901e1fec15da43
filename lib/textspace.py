"""Runs every text of enumerated spaces through a mode of a harness server and judges each answer."""
import importlib
import multiprocessing as mp

import astcmp
import vlib

BATCH = 500


def worker(args):
    binary, mode, module, space, thorough, w, n = args
    mod = importlib.import_module(module)
    srv = astcmp.Server(binary, mode)
    evals = nfails = compared = 0
    seen = set()
    fails = []
    samples = []
    batch = []

    def flush():
        nonlocal evals, nfails, compared
        outs = srv.batch(batch)
        assert len(outs) == len(batch), (len(outs), len(batch))
        for t, o in zip(batch, outs):
            evals += 1
            msg, ref = mod.judge(t, o)
            if ref is not None:
                compared += 1
                seen.add(hash(ref))
                if len(samples) < 2 and compared % 997 == 1:
                    samples.append(t)
            if msg:
                nfails += 1
                if len(fails) < 400:
                    fails.append((t, msg))
        batch.clear()

    for i, t in enumerate(mod.SPACES[space](thorough)):
        if (i // BATCH) % n != w:
            continue
        batch.append(t)
        if len(batch) == BATCH:
            flush()
    if batch:
        flush()
    srv.p.stdin.close()
    srv.p.wait()
    return space, evals, compared, seen, fails, nfails, samples


def run(chk, binary, mode, module, spaces=None):
    """May be called several times for one check; the coverage adds up."""
    mod = importlib.import_module(module)
    n = vlib.CORES
    thorough = chk.tier == "thorough"
    jobs = [(binary, mode, module, s, thorough, w, n) for s in (spaces or mod.SPACES) for w in range(n)]
    per = {}
    seen = set()
    with mp.Pool(n) as pool:
        for space, evals, compared, sh, fails, nfails, samples in pool.imap_unordered(worker, jobs):
            d = per.setdefault(space, {"space": space, "evaluated": 0, "compared": 0, "failures": 0})
            d["evaluated"] += evals
            d["compared"] += compared
            d["failures"] += nfails
            chk.add("evaluations", evals)
            seen |= sh
            for s in samples:
                chk.sample(f"{space}: {s!r}", limit=24)
            for t, m in fails:
                chk.fail(t, m, {"text": t})
    chk.add("distinct_nontrivial", len(seen))
    chk.coverage.setdefault("spaces", []).extend(per.values())
    chk.coverage["exhaustive"] = True
