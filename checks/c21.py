import concurrent.futures, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import renames as R
import scopes as S

AROUND = ["x = 1", "x"]
MORE = AROUND + ["def f(): x", "class A: x = 2", "def f(x): x", "global x", "(x := 1)"]


def programs(thorough):
    yield from S.SIMPLE
    yield from ("\n".join(p) for p in itertools.product(S.SIMPLE, repeat=2))
    yield from S.modules(MORE if thorough else AROUND, 2)
    if thorough:
        yield from S.modules([], 3)
        yield from ("def f():\n" + S.indent("\n".join(p)) for p in itertools.product(S.SIMPLE, repeat=2))


def variables(chk, pool):
    """the occurrences of one variable, from each of them"""
    cases = []
    for t in dict.fromkeys(programs(chk.tier == "thorough")):
        t = t.rstrip("\n") + "\n"
        # as in Mypy, such a name is an attribute of the class
        if "x.x" in t and re.search(r"class .*\n\s+(nonlocal|global) x", t):
            continue
        if S.valid(t):
            chk.add("programs", 1)
            groups = S.variables(t)
            if groups:
                cases.append((t, groups))
    requests = [[["store", "a.py", t]] + [["references", "a.py", i] for g in groups for i in g]
                + [["rename", "a.py", g[-1], "new"] for g in groups] + [["goto", "a.py", i, False] for g in groups for i in g]
                for t, groups in cases]
    for (t, groups), a in zip(cases, pool.ask(requests)):
        want = [g for g in groups for _ in g] + groups
        chk.add("evaluations", len(want))
        chk.add("distinct_nontrivial", sum(len(g) > 1 for g in want))
        c = zuban.crash(a)
        if c:
            chk.fail(repr(t), c, t)
            continue
        for w, x in zip(want, a[1:]):
            if isinstance(x, list):
                got = sorted(r[1] for r in x if r[0] == "a.py" and r[3] == "x")
            else:
                got = sorted(r[0] for f in x.get("changes", []) for r in f[1])
            if got != w:
                chk.fail(repr(t), f"finds {got} instead of {w}: {x}", t)
                break
        else:
            flat = [(i, g) for g in groups for i in g]
            for (i, g), x in zip(flat, a[1 + len(want):]):
                chk.add("evaluations", 1)
                # from the definition of a self parameter it leads to the class
                if not x or not all(r[0] == "a.py" and (r[1] in g or r[3] == "C") for r in x):
                    chk.fail(repr(t), f"goto at {i} leads to {x} instead of one of {g}", t)
                    break
    chk.sample(cases[len(cases) // 2][0])


def worlds(chk, pool, executor):
    """what a program prints before and after each renaming"""
    all = dict(R.worlds())
    prints = dict(zip(all, executor.map(R.run, all.values())))
    for n, (_, error) in prints.items():
        if error:
            raise vlib.CheckError(f"{n}: {error}")
    cases = [(n, f, i, name) for n, files in all.items() for f in files for i, name in R.identifiers(files, f)]
    answers = pool.ask([[["store", p, t] for p, t in all[n].items()] + [["rename", f, i, "new"]] for n, f, i, _ in cases])
    todo = []
    for (n, f, i, name), a in zip(cases, answers):
        where = f"{n}: {name} at {i} of {f}"
        c = zuban.crash(a)
        if c:
            chk.fail(where, c, all[n])
            continue
        x = a[-1]
        own = "error" not in x and all_inside(x, all[n])
        if not own:
            # of the standard library, or unknown
            if name == "x":
                chk.fail(where, f"not renamed: {x}", all[n])
            continue
        new = R.renamed(all[n], x, "new")
        if new == all[n]:
            chk.fail(where, "nothing is renamed", all[n])
        todo.append((n, where, new))
    for (n, where, new), r in zip(todo, executor.map(lambda t: R.run(t[2]), todo)):
        chk.add("evaluations", 1)
        chk.add("distinct_nontrivial", 1)
        if r != prints[n]:
            chk.fail(where, f"{prints[n]} before, {r} after: {new}", new)
    chk.add("renamings_executed", len(todo))
    chk.sample(str(todo[len(todo) // 2]))


def all_inside(answer, files):
    return all(f in files for f, _ in answer["changes"]) and all("/project/" in f for f, _ in answer["files"])


def run():
    chk = vlib.Check(
        "C21", "exploration",
        "all programs of the bounded grammar over one name (each kind of binding and use, alone, in pairs, and in nested "
        "functions, classes and generic definitions, with global and nonlocal), references from each occurrence compared with "
        "the symbol tables of CPython; and each identifier of each program of several files renamed, where both the original "
        "and the renamed program are executed by CPython and print the same. An evaluation is one query; non-trivial ones "
        "have more than one occurrence",
        ["the typeshed of pyright is used, as the submodule is empty here",
         "names that are read in a class body that also binds them, and names that are read before anything binds them, are "
         "only known at run time and not judged",
         "keyword arguments, overridden members and names in strings are not judged"])
    binary = vlib.build("checker")
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as executor, zuban.Pool(binary=binary) as pool:
        worlds(chk, pool, executor)
        variables(chk, pool)
    chk.coverage["exhaustive"] = True
    return chk.finish()


vlib.main(run)
