import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import datamodel as D


def cases(deep):
    yield "mro", list(D.mro(3, 3)) + list(D.mro(4, 3)) + (list(D.mro(5, 2)) if deep else [])
    yield "attributes", list(D.attributes())
    for op, name in D.BIN.items():
        if deep or name in ("add", "mod"):
            yield "operator " + op, list(D.operators(op, name, "r" + name, deep))
    for op, names in D.COMPARE.items():
        if op not in ("==", "!=") and (deep or op in ("<", ">=")):
            yield "operator " + op, list(D.operators(op, *names, deep))
    yield "in place", list(D.inplace())
    yield "protocols", list(D.protocols(deep))


def text(definitions, expressions):
    t = D.RESULTS + definitions
    return t + "".join(e[1:] + "\n" if e.startswith("!") else f"reveal_type({e})\n" for e in expressions), t.count("\n") + 1


def judge(chk, space, all, pool):
    requests = [[["store", "a.py", text(*c)[0]], ["diag", "a.py"]] for c in all]
    for (defs, exprs), r, a in zip(all, requests, pool.ask(requests)):
        t, line = r[0][2], text(defs, exprs)[1]
        name = defs[defs.index("# ") + 2:-1] if "# " in defs and "ignore" not in defs else repr(defs)
        c = zuban.crash(a)
        if c:
            chk.fail(f"{space}: {name}", c, t)
            continue
        errors, types = {}, {}
        for d in a[1]:
            if d[3] == "error":
                errors.setdefault(d[2], d[5])
            m = re.match('Revealed type is "(.*)"$', d[5])
            if m:
                types[d[2]] = m[1]
        want = D.outcome(defs, exprs)
        if want is None:
            chk.add("evaluations", 1)
            if not any(n < line for n in errors):
                chk.fail(f"{space}: {name}", "the definition is accepted and fails when it runs", t)
            continue
        bad = [m for n, m in errors.items() if n < line and "MRO" in m]
        if bad:
            chk.fail(f"{space}: {name}", f"{bad} for a working class", t)
            continue
        for i, (e, w) in enumerate(zip(exprs, want)):
            chk.add("evaluations", 1)
            chk.add("distinct_nontrivial", w is None or w != "")
            error, type = errors.get(line + i), types.get(line + i, "")
            if (error is None) != (w is not None):
                chk.fail(f"{space}: {e} of {name}", error or f"is accepted and fails when it runs", t)
            elif w and not re.fullmatch(rf"(type\[)?(def \(.*\) -> )?(a\.)?{w}\]?", type):
                chk.fail(f"{space}: {e} of {name}", f"is {w} and not {type}", t)
    chk.sample(requests[len(requests) // 2][0][2][-600:])


def run():
    chk = vlib.Check(
        "C22", "exploration",
        "all hierarchies of up to four (five) classes with each subset of them defining a method, looked up directly and with "
        "super() from each class; all pairs of definitions of an attribute in a class and its base or metaclass, looked up on "
        "the instance and the class; all combinations of (reflected) operator methods of two classes, related or not; all "
        "sets of up to two (three) special methods in each syntax that uses them. CPython executes each definition and expression. An "
        "evaluation is one expression; the non-trivial ones fail or have a value of a class that tells where it came from",
        ["the typeshed of pyright is used, as the submodule is empty here",
         "where zuban deliberately imitates an imprecision of Mypy the space is cut: reflected comparisons of related "
         "classes, attributes that a class and its metaclass both define, iteration by __getitem__, overridden instance variables"])
    binary = vlib.build("checker")
    with zuban.Pool(binary=binary) as pool:
        for space, all in cases(chk.tier == "thorough"):
            chk.add("programs", len(all))
            judge(chk, space, all, pool)
    chk.coverage["exhaustive"] = True
    return chk.finish()


vlib.main(run)
