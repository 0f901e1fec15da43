import multiprocessing, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import sound, soundspaces
import itertools

SIZE = 40
TAPES = {n: [t for k in range(1, n + 1) for t in itertools.product((False, True), repeat=k)] for n in (3, 4)}


def chunks(space):
    fs, ts = [], []
    for text, inputs in space:
        fs.append(text.replace("def fN(", f"def f{len(fs)}(", 1))
        ts.append(inputs)
        if len(fs) == SIZE:
            yield fs, ts
            fs, ts = [], []
    if fs:
        yield fs, ts


def work(args):
    return sound.judge(*args)


def run():
    chk = vlib.Check(
        "C18", "exploration",
        "all programs of the listed spaces (conditions, compositions, statement shapes, patterns, all small flows), each run "
        "under CPython for all inputs of its declared types and all sequences of free decisions up to the bound; at every "
        "place that is reached the value has to belong to the type that the real type checker reveals there; an evaluation is "
        "one run of one program, a nontrivial one a distinct program",
        ["CPython 3.12 is the reference", "equality of numbers is accepted for literal types (True for Literal[1])",
         "the classes of the programs do not override __eq__",
         "programs with errors of the type checker are left out", "runs stop when a loop begins anew (apart from one space)"])
    thorough = chk.tier == "thorough"
    tapes = TAPES[4 if thorough else 3]
    binary = vlib.build("checker")
    only = os.environ.get("ONLY")
    with multiprocessing.Pool(vlib.CORES) as workers:
        for flags in ([], ["default-mode"]):
            with zuban.Pool(flags, binary=binary) as pool:
                for name, space in soundspaces.spaces(thorough):
                    if only and name not in only.split(","):
                        continue
                    todo = chunks(space)
                    while True:
                        part = list(itertools.islice(todo, 4000))
                        if not part:
                            break
                        explore(chk, pool, workers, name, part, flags, tapes)
    chk.coverage["exhaustive"] = True
    return chk.finish()


def explore(chk, pool, workers, name, part, flags, tapes):
    answers = pool.ask([[["store", "a.py", sound.module(fs)[0]], ["diag", "a.py"]] for fs, _ in part])
    jobs, origin = [], []
    for (fs, ts), a in zip(part, answers):
        c = zuban.crash(a)
        if c:
            chk.fail(f"{name} {' '.join(flags)}: crash in {fs[0]!r} and the ones that follow", c[:400], sound.module(fs)[0])
            continue
        jobs.append((fs, ts, a[1], tapes, name.startswith("everything")))
        origin.append(fs)
    for fs, (problems, accepted, runs, visits, unknown) in zip(origin, workers.imap(work, jobs, chunksize=4)):
        chk.add("evaluations", runs)
        chk.add("places_reached", visits)
        chk.add("programs", len(fs))
        chk.add("distinct_nontrivial", accepted)
        chk.add("places_with_types_not_read", unknown)
        done = set()
        for n, what, how in problems:
            sig = re.sub(r"def f\d+", "def f", fs[n], count=1)
            key = (sig, re.search(r"line \d+", what) and re.search(r"line \d+", what)[0])
            if key not in done:
                done.add(key)
                chk.fail(f"{sig!r} {' '.join(flags)} {key[1]}{' everything' * name.startswith('everything')}", f"{what} {str(how)[:200]}", sig)
    if part:
        chk.sample(f"{name}: {part[len(part) // 2][0][0]}")


if __name__ == "__main__":
    vlib.main(run)
