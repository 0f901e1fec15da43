import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import calls as C


def judge(chk, jobs, pool):
    """jobs: (what is called, text, line of the first call, calls, what CPython says about each)"""
    for (what, t, line, cs, works), a in zip(jobs, pool.ask([[["store", "a.py", j[1]], ["diag", "a.py"]] for j in jobs])):
        c = zuban.crash(a)
        if c:
            chk.fail(what, c, t)
            continue
        errors = {}
        for d in a[1]:
            # a class variable over an instance variable is no question of the call
            if d[3] == "error" and not d[5].startswith("Cannot override"):
                errors.setdefault(d[2], d[5])
        if works is None:
            chk.add("evaluations", 1)
            if not any(n < line for n in errors):
                chk.fail(what, "the definition is accepted and fails when it runs", t)
            continue
        for i, (c, w) in enumerate(zip(cs, works)):
            e = errors.pop(line + i, None)
            if w is None:
                continue
            chk.add("evaluations", 1)
            chk.add("distinct_nontrivial", not w)
            if (e is None) != w:
                chk.fail(f"{what} called with {c}", e or "is accepted and fails when it runs", t)
        if errors:
            chk.fail(what, f"errors outside of the calls: {errors}", t)
    chk.sample(jobs[len(jobs) // 2][1][:1500])


def functions(chk, deep):
    many, few = C.calls(3, C.ARGS + C.MORE + C.UNKNOWN), C.calls(2, C.ARGS)
    sigs, short, known = C.signatures(3), C.signatures(2), {}
    for f in C.FRAMES:
        all = deep or f == "function"
        cs = many if all else few
        for s in sigs if all else short:
            if (s, all) not in known:
                known[s, all] = C.binds(s, cs)
            yield (f"{f} ({s})", *C.text(f, s, cs), cs, known[s, all])


def typed(chk, deep):
    cs = C.calls(3, C.TYPED)
    for s in C.signatures(3 if deep else 2):
        s = C.typed(s)
        for f in ["function", "init", "param spec"] if deep else ["function"]:
            yield (f"typed {f} ({s})", *C.text(f, s, cs), cs, C.fits(s, cs))


def classes(chk, deep):
    cs = C.calls(3, C.CLASS_CALLS)
    for t in C.classes(deep):
        head = C.DATA + t
        yield repr(t), head + "".join(f"A{c}\n" for c in cs), head.count("\n") + 1, cs, C.constructs(t, cs)


def run():
    chk = vlib.Check(
        "C19", "exploration",
        "all parameter lists of up to three named parameters (each kind, with and without defaults, *args, **kwargs) times all calls "
        "of up to three arguments (positional, keywords, unpacked tuples, typed dicts, lists and dicts), in all kinds of callables; the same with "
        "parameters of different types, where the values have to arrive at the right ones; and the constructors of all "
        "bounded dataclasses and named tuples, with inheritance. CPython executes each definition and each call. An evaluation is one "
        "call; non-trivial ones fail in CPython",
        ["the typeshed of pyright is used, as the submodule is empty here",
         "an unpacked list or dict is accepted if it works for one content; as in Mypy, a list gives a value to each "
         "positional parameter, so keywords next to it are not judged",
         "names that are given twice to **kwargs by typed dicts are not judged"])
    binary = vlib.build("checker")
    with zuban.Pool(binary=binary) as pool:
        for space in (classes, typed, functions):
            jobs = list(space(chk, chk.tier == "thorough"))
            chk.add(space.__name__, len(jobs))
            judge(chk, jobs, pool)
    chk.coverage["exhaustive"] = True
    return chk.finish()


vlib.main(run)
