import itertools, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import assign as A, calls

KEYS = ["", "int", "bool", "NotRequired[int]", "ReadOnly[int]", "ReadOnly[object]", "NotRequired[ReadOnly[int]]", "NotRequired[bool]"]
CALLS = ["(" + ", ".join(["1"] * k + [x + "=1" for x in kw]) + ")" for k in range(6) for r in range(5) for kw in itertools.combinations("abcz", r)]


def spaces(deep):
    """(name, head, pairs)"""
    base = [b for b in A.BASE]
    sources = [b for b in base if b not in ("type", "type[Any]")]  # for protocols, Mypy is stricter about these two
    yield "base", A.HEAD, list(itertools.product(sources, base))
    unions = A.unions()
    if not deep:
        unions = unions[::4]
    yield "union targets", A.HEAD, list(itertools.product(sources, unions))
    yield "union sources", A.HEAD, list(itertools.product(unions, base))
    yield "two unions", A.HEAD, list(itertools.product(unions[::3], unions[::3]))
    short = A.SHORT if deep else A.SHORT[::2]
    nested = [n for s in short for n in A.nested(s)]
    yield "nested", A.HEAD, list(itertools.product(nested, nested))
    if deep:
        twice = [m for s in ("int", "bool", "A", "B", "Literal[1]") for n in A.nested(s) for m in A.nested(n)]
        yield "nested twice", A.HEAD, list(itertools.product(twice, twice))
    keys = KEYS if deep else KEYS[:6]
    head, names = A.typed_dicts(keys)
    yield "typed dicts", head, list(itertools.product(names, names))
    head, names, targets = A.members(["int", "bool", "str"] if deep else ["int", "bool"])
    yield "members of protocols", head, list(itertools.product(names, targets))
    head, names = A.functions()
    yield "generic and overloaded", head, list(itertools.product(names, names))


def callables(deep):
    """parameter lists; CPython says which calls they take"""
    sigs = [s for s in calls.signatures(3 if deep else 2) if not ("/" in s and "kwargs" in s)]
    takes = [calls.binds(s, CALLS) for s in sigs]
    head, names = A.protocol_callables(sigs)
    pairs, expected = [], []
    for i, j in itertools.product(range(len(sigs)), repeat=2):
        if "*args" in sigs[j] and "**kwargs" in sigs[j] and "*args" in sigs[i] and "**kwargs" in sigs[i]:
            continue  # both take nearly everything; zuban accepts as Mypy does
        pairs.append((i, j))
        expected.append(all(x or not y for x, y in zip(takes[i], takes[j])))
    return sigs, head, names, pairs, expected


def split(all, size=6000):
    return [all[i:i + size] for i in range(0, len(all), size)]


def judge(chk, space, head, pairs, rejected, answer, show):
    text, line = A.text(pairs, head)
    c = zuban.crash(answer)
    if c:
        chk.fail(space, c, text)
        return
    errors = {d[2] - line: d[5] for d in answer[1] if d[3] == "error"}
    outside = {n: m for n, m in errors.items() if n < 0}
    if outside:
        chk.fail(space, f"errors in the definitions: {outside}", text)
    for i, (s, t) in enumerate(pairs):
        if A.skipped(s, t):
            chk.add("skipped", 1)
            continue
        chk.add("evaluations", 1)
        chk.add("distinct_nontrivial", not rejected[i] and s != t)
        if rejected[i] != (i in errors):
            chk.fail(f"{show(s)} for {show(t)}", errors.get(i) or "is accepted and must not be", head + f"def f(x: {s}) -> {t}: return x\n")


def run():
    chk = vlib.Check(
        "C23", "exploration",
        "all pairs of types of lib/assign.py: builtin, nominal, generic (in all variances), literal, enum, tuple, class object, callable, "
        "protocol, typed dict, named tuple and union types, nested in each other; protocols with each kind of "
        "member against classes with each kind; typed dicts with each kind of keys; generic and overloaded callables. "
        "One evaluation is one question whether a value of the one type can be returned as the other; Mypy answers it too. For parameter lists, the "
        "answer is computed: each call that CPython accepts for the one has to be accepted for the other. Non-trivial are different types that are assignable",
        ["Mypy 2.4.1 is trusted for types, CPython for parameter lists",
         "the typeshed of pyright is used, as the submodule is empty here",
         "pairs where zuban and Mypy deliberately differ are left out (see skipped in lib/assign.py)"])
    binary = vlib.build("checker")
    deep = chk.tier == "thorough"
    jobs = [(name, head, part) for name, head, pairs in spaces(deep) for part in split(pairs)]
    with zuban.Pool(binary=binary) as pool, ThreadPoolExecutor(6) as ex:
        theirs = list(ex.map(lambda j: A.mypy(j[2], j[1]), jobs))
        ours = pool.ask([[["store", "a.py", A.text(j[2], j[1])[0]], ["diag", "a.py"]] for j in jobs])
        for (name, head, pairs), bad, answer in zip(jobs, theirs, ours):
            judge(chk, name, head, pairs, [i in bad for i in range(len(pairs))], answer, lambda t: t if head == A.HEAD else A.definition(head, t))
            chk.add(name, len(pairs))
            chk.sample(f"{name}: {pairs[len(pairs) // 2]}")
        sigs, head, names, pairs, expected = callables(deep)
        parts = list(zip(split(pairs), split(expected)))
        answers = pool.ask([[["store", "a.py", A.text([(names[i], names[j]) for i, j in p], head)[0]], ["diag", "a.py"]] for p, _ in parts])
        for (p, e), answer in zip(parts, answers):
            judge(chk, "parameter lists", head, [(names[i], names[j]) for i, j in p], [not x for x in e], answer, lambda n: f"({sigs[int(n[1:])]})")
            chk.add("parameter lists", len(p))
    chk.coverage["exhaustive"] = True
    return chk.finish()


vlib.main(run)
