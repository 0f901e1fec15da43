"""The programs for lib/sound.py: (name of the space, programs); a program is (text with the function name fN, inputs)."""
import itertools

ATOMS = ["None", "int", "bool", "str", "float", "Literal[0, 2]", "Literal['a', 'b']", "A", "B", "C", "E", "N", "tuple[int, str]",
         "tuple[int, ...]", "tuple[str, str, int]", "list[int]", "type[A]", "type[int]", "Callable[[], int]", "object"]
SMALL = ["None", "int", "str", "A", "B", "C", "E", "Literal[0, 2]", "tuple[int, ...]", "type[A]"]

CONDITIONS = [
    "x", "not x", "x is None", "x is not None", "x == None", "x != None", "None is x",
    "x == 2", "x != 2", "x == 'a'", "2 == x", "x is True", "x == True", "x is E.x", "x is not E.x", "x == E.x", "x != E.y",
    "x in (2, 'a')", "x not in (2, 'a')", "x in ('a',)", "x in [None, 0]", "x in (E.x,)", "x in ()",
    "isinstance(x, int)", "isinstance(x, str)", "isinstance(x, (int, str))", "isinstance(x, A)", "isinstance(x, B)", "isinstance(x, C)",
    "isinstance(x, D)", "isinstance(x, (A, C))", "isinstance(x, int | str)", "isinstance(x, E)", "isinstance(x, tuple)",
    "isinstance(x, list)", "isinstance(x, bool)", "isinstance(x, float)", "isinstance(x, type)", "isinstance(x, object)", "isinstance(x, ())",
    "callable(x)", "not callable(x)", "type(x) is int", "type(x) == A", "type(x) is not B", "type(x) != bool",
    "isinstance(x, type) and issubclass(x, A)", "isinstance(x, type) and issubclass(x, B)", "isinstance(x, tuple) and len(x) == 2",
    "isinstance(x, tuple) and len(x) > 1", "isinstance(x, tuple) and len(x) != 2", "isinstance(x, tuple) and len(x) < 3",
    "isinstance(x, tuple) and not x", "hasattr(x, 'a')", "hasattr(x, 'zz')", "bool(x)", "not bool(x)", "not not x",
]
FEW = ["x", "x is None", "isinstance(x, int)", "isinstance(x, A)", "isinstance(x, C)", "isinstance(x, (str, B))", "x == 2", "x is E.x",
       "x in (2, 'a')", "callable(x)", "type(x) is A", "k()"]

IF = """def fN(x: {t}) -> None:
    if {c}:
        reveal_type(x)
    else:
        reveal_type(x)
    reveal_type(x)
"""


def union(atoms):
    return " | ".join(atoms)


def unions(atoms, n):
    return [list(c) for k in range(1, n + 1) for c in itertools.combinations(atoms, k) if k == 1 or "object" not in c]


def single(types, conditions):
    for t in types:
        for c in conditions:
            if not ("type(x)" in c and any(a.startswith("Literal") for a in t)):  # a literal counts as another type
                yield IF.format(t=union(t), c=c), [t]


def composite(types, conditions, shapes=("{c} and {d}", "{c} or {d}", "not ({c} and {d})", "not ({c} or {d})", "{d} if {c} else k()")):
    for t in types:
        for c in conditions:
            for d in conditions:
                for s in shapes:
                    if c != d:
                        yield IF.format(t=union(t), c=s.format(c=f"({c})", d=f"({d})")), [t]


SHAPES = """
    y = x if {c} else {e}
    reveal_type(y)
    reveal_type(x)
--
    y = x and {e}
    reveal_type(y)
    z = x or {e}
    reveal_type(z)
    w = not x
    reveal_type(w)
--
    y = ({c}) and x
    reveal_type(y)
    z = ({c}) or x
    reveal_type(z)
--
    while {c}:
        reveal_type(x)
        if k():
            break
        x = {e}
        reveal_type(x)
    else:
        reveal_type(x)
    reveal_type(x)
--
    while k():
        reveal_type(x)
        if {c}:
            continue
        reveal_type(x)
        x = {e}
    reveal_type(x)
--
    while True:
        if {c}:
            reveal_type(x)
            break
        x = {e}
        if k():
            return
    reveal_type(x)
--
    for y in [x, {e}]:
        reveal_type(y)
        if {c}:
            break
        x = y
        reveal_type(x)
    else:
        reveal_type(x)
    reveal_type(x)
--
    try:
        if {c}:
            raise ValueError
        x = {e}
        if k():
            raise KeyError
    except ValueError:
        reveal_type(x)
    except KeyError:
        reveal_type(x)
        return
    else:
        reveal_type(x)
    finally:
        reveal_type(x)
    reveal_type(x)
--
    try:
        x = {e}
        if k():
            return
    finally:
        if {c}:
            reveal_type(x)
        reveal_type(x)
    reveal_type(x)
--
    assert {c}
    reveal_type(x)
--
    assert not ({c}), ''
    reveal_type(x)
--
    if {c}:
        return
    reveal_type(x)
    x = {e}
    reveal_type(x)
--
    y = x
    if {c}:
        reveal_type(y)
        y = {e}
        reveal_type(x)
    reveal_type(y)
--
    if (y := x) is not None and ({c}):
        reveal_type(y)
        reveal_type(x)
    else:
        reveal_type(y)
--
    l = [x for x in [x, {e}] if {c}]
    reveal_type(l)
    reveal_type(x)
--
    l = [(reveal_type(x), 1)[1] for _ in [1] if {c}]
    d = {{1: x for _ in [1] if {c}}}
    reveal_type(d)
--
    x, y = {e}, x
    reveal_type(x)
    reveal_type(y)
    if {c}:
        x = y
        reveal_type(x)
    (x, [y]) = (y, [x])
    reveal_type(x)
    reveal_type(y)
--
    def g() -> None:
        reveal_type(x)
    if {c}:
        g()
    x = {e}
    g()
--
    if {c}:
        l = lambda: reveal_type(x)
        l()
    reveal_type(x)
--
    if {c}:
        pass
    elif x is None:
        reveal_type(x)
    elif isinstance(x, (int, B)):
        reveal_type(x)
        x = {e}
    else:
        reveal_type(x)
    reveal_type(x)
--
    y = None
    if {c}:
        y = x
    reveal_type(y)
    if y is not None:
        reveal_type(y)
        reveal_type(x)
--
    with open('/dev/null') as f:
        if {c}:
            x = {e}
        reveal_type(x)
    reveal_type(x)
--
    t = (x, {e})
    if {c}:
        reveal_type(t)
        reveal_type(t[0])
    a, *b = t
    reveal_type(a)
    reveal_type(b)
--
    while k() or ({c}):
        reveal_type(x)
        try:
            if k():
                break
            x = {e}
        finally:
            reveal_type(x)
            if x is None:
                break
    reveal_type(x)
--
    global GLOBAL
    GLOBAL = x
    if {c}:
        reveal_type(x)
    del x
    x = {e}
    reveal_type(x)
""".split("--\n")
EXPRESSIONS = ["None", "1", "'a'", "A()", "E.x", "[]"]


def shapes(types, conditions, expressions):
    for s in SHAPES:
        for t in types:
            for c in conditions if "{c}" in s else ["x"]:
                for e in expressions if "{e}" in s else ["1"]:
                    if e == "1" and "float" in t:
                        continue  # an int as a float
                    yield f"def fN(x: {union(t)}) -> None:" + ("" if s.startswith("\n") else "\n") + s.format(c=c, e=e), [t]


PATTERNS = ["None", "True", "2", "'a'", "2 | 'a'", "int()", "str()", "int() | str()", "A()", "B()", "A(a=1)", "A(a=int())", "C()", "E.x",
            "E.x | E.y", "[]", "[a]", "[a, b]", "[int(), str()]", "[a, *b]", "[*a, 1]", "tuple()", "list()", "float()", "bool()", "type()",
            "{}", "{'a': a}", "int(y)", "str() as y", "(2 | 'a') as y", "object()", "N()", "D()", "y"]
MATCH = """def fN(x: {t}) -> None:
    match x:
        case {p}:
            reveal_type(x)
        case {q}:
            reveal_type(x)
        case _:
            reveal_type(x)
    reveal_type(x)
"""
MATCH_GUARD = """def fN(x: {t}) -> None:
    match x:
        case {p} if {c}:
            reveal_type(x)
            {a}
        case None:
            reveal_type(x)
            return
        case {q}:
            reveal_type(x)
    reveal_type(x)
"""


def matches(types, patterns, seconds):
    for t in types:
        for p in patterns:
            if p in ("y",):
                continue
            for q in seconds:
                if q != p:
                    yield MATCH.format(t=union(t), p=p, q=q if q != "y" else "y if k()"), [t]


def guards(types, patterns, conditions):
    for t in types:
        for p in patterns:
            for c in conditions:
                for q in ("int()", "A()", "str() | E.x"):
                    yield MATCH_GUARD.format(t=union(t), p=p, c=c, q=q, a="x = None" if "None" in t else "pass"), [t]


# -- all small programs over one variable -------------------------------------------------------------
def blocks(size, loop, memo={}):
    """All blocks with exactly that many statements, as lists of lines; what follows a jump is left out"""
    key = (size, loop)
    if key in memo:
        return memo[key]
    res = []
    if size == 0:
        res = [[]]
    else:
        for n in range(1, size + 1):
            for first in statements(n, loop):
                for rest in blocks(size - n, loop) if not first[-1].strip() in ("break", "continue", "return", "raise ValueError") else \
                        ([[]] if n == size else []):
                    res.append(first + ["reveal_type(x)"] + rest if rest or True else first)
    memo[key] = res
    return res


def indent(ls):
    return ["    " + l for l in ls]


def statements(size, loop):
    """All statements of that size"""
    if size == 1:
        yield from (["x = 1"], ["x = None"], ["x = ''"], ["return"], ["raise ValueError"])
        if loop:
            yield from (["break"], ["continue"])
        return
    for body in blocks(size - 1, loop):
        for c in ("x is None", "isinstance(x, int)", "x", "k()"):
            yield [f"if {c}:", "    reveal_type(x)"] + indent(body)
    for body in blocks(size - 1, True):
        for c in ("k()", "x is None", "not isinstance(x, str)"):
            yield [f"while {c}:", "    reveal_type(x)"] + indent(body)
    for body in blocks(size - 1, loop):
        yield ["try:"] + indent(body) + ["finally:", "    reveal_type(x)"]
        yield ["try:"] + indent(body) + ["except ValueError:", "    reveal_type(x)"]
    for a in range(1, size - 1):
        for b1 in blocks(a, loop):
            for b2 in blocks(size - 1 - a, loop):
                for c in ("x is None", "isinstance(x, int)", "x"):
                    yield [f"if {c}:"] + indent(b1) + ["else:", "    reveal_type(x)"] + indent(b2)
                yield ["try:"] + indent(b1) + ["except ValueError:", "    reveal_type(x)"] + indent(b2)
        for b1 in blocks(a, True):
            for b2 in blocks(size - 1 - a, loop):
                yield ["while k():", "    reveal_type(x)"] + indent(b1) + ["else:", "    reveal_type(x)"] + indent(b2)


def flows(size):
    t = ["None", "int", "str"]
    for n in range(1, size + 1):
        for b in blocks(n, False):
            yield "def fN(x: int | str | None) -> None:\n" + "".join("    " + l + "\n" for l in b), [t]


TWO = """def fN(x: {t}, y: {u}) -> None:
    if {c}:
        reveal_type(x)
        reveal_type(y)
    else:
        reveal_type(x)
        reveal_type(y)
"""
TWO_CONDITIONS = ["x is y", "x is not y", "x == y", "x != y", "x in (y,)", "x and y", "x or y", "(x is None) == (y is None)",
                  "type(x) is type(y)", "type(x) == type(y)", "isinstance(x, int) and x == y", "x is not None and x == y", "x is y is None",
                  "2 == x == y", "x == y == 'a'"]


def two(atoms):
    ts = unions(atoms, 2)
    for t in ts:
        for u in ts:
            for c in TWO_CONDITIONS:
                if "type(x)" in c and any("tuple" in a or "Literal" in a or a == "object" for a in t + u):
                    continue  # a class says nothing about the elements
                yield TWO.format(t=union(t), u=union(u), c=c), [t, u]


# -- expressions ------------------------------------------------------------------------------------------
VALUES = ["None", "int", "bool", "str", "bytes", "float", "Literal[0, 2]", "Literal['a', 'b']", "A", "B", "C", "E", "N", "tuple[int, str]",
          "tuple[int, ...]", "tuple[str, str, int]", "tuple[()]", "tuple[int, *tuple[str, ...]]", "list[int]", "dict[str, int]", "type[A]",
          "Callable[[], int]", "set[str]", "slice", "range", "P", "Q"]
ONE = """-x|+x|~x|not x|x[0]|x[1]|x[-1]|x[2]|x[:1]|x[1:]|x[::-1]|x[-2:]|x[:-1]|x[1:1]|x[::2]|x['a']|x()|x.a|x.b|x.t|x.x|x.name|x.value|
len(x)|str(x)|repr(x)|list(x)|tuple(x)|set(x)|sorted(x)|sum(x)|min(x)|max(x)|abs(x)|round(x)|int(x)|float(x)|bool(x)|type(x)|iter(x)|next(iter(x))|
list(enumerate(x))|list(zip(x, x))|list(reversed(x))|hash(x)|divmod(x, 2)|pow(x, 2)|[z for z in x]|{z for z in x}|{z: x for z in x}|[*x]|(*x,)|(*x, 1)|
(1, *x, '')|{**x}|{*x}|f'{x}'|[x, 1]|[x, None]|{'a': x}|(x, x)|(x,)[0]|[x][0]|(x, 1)[:1]|(x, 1)[1]|(x, 1) + (x,)|(x, 1) * 2|{1: x}[1]|
x if x else 1|x or 1|x and 1|x or None|x is None or x|(lambda: x)()|(lambda y: y)(x)|(y := x)|[y := x, y]|x.real|x.imag|x.upper()|x.split()|x.encode()|
x.join(['a'])|x.count(1)|x.index(1)|x.get('a')|x.get('a', None)|x.items()|list(x.items())|list(x.values())|x.keys()|x.pop()|x.copy()|x.union([1])|
x.start|x.indices(2)|x.mro()|x.__name__|x == x|x != 1|x < x|x in [x]|x is x|callable(x)|isinstance(x, int)|isinstance(x, type)|id(x)|
all(x)|any(x)|list(map(str, x))|list(filter(None, x))|dict.fromkeys(x)|''.join(x)|x.e|x.f|x._replace(e=2)|x._asdict()|x.p|x.m()|x.c()|x.s(x)|
getattr(x, 'a')|getattr(x, 'a', None)|dict(x)|x[0][0]|x[0:1][0]|[z for y in [x] for z in y]|[z for z in x if z]|(z for z in x)|x[x]|x[None]|
x.hex()|x.decode()|x.bit_length()|x.is_integer()|x.as_integer_ratio()|x * 2|2 * x|x + x|x - x|x / x|x % 2|x // 2|x ** 2|x & x|x | x|x ^ x|x << 1|1 if x else ''"""
ONE = [e.strip() for e in ONE.replace("\n", "").split("|") if e.strip()]
# the | operator cannot be written above
ONE = [e for e in ONE if e not in ("x",)] + ["x | x", "x | 1", "x | None"]
BINARY = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^", "@", "<", "<=", "==", "!=", "in", "not in", "is", "and", "or"]
BOTH = ["x {o} y".format(o=o) for o in BINARY] + [
    "x[y]", "[x, y]", "(x, *y)", "{x: y}", "[*x, *y]", "x if y else x", "max(x, y)", "min([x, y])", "divmod(x, y)", "round(x, y)", "list(zip(x, y))",
    "x.get(y)", "x(y)", "{**x, **y}", "(x, y)[0]", "[(z, w) for z in x for w in y]", "(lambda z, w=y: w)(x)", "[x for x, z in [y]]", "pow(x, y)",
    "isinstance(x, y)", "getattr(x, y)", "x.join(y)", "dict([(x, y)])", "sum(x, y)", "(x or y, x and y)"]
EXPRESSION = """def fN({p}) -> None:
    reveal_type({e})
"""
AUGMENTED = """def fN({p}) -> None:
    x {o}= y
    reveal_type(x)
"""
UNPACK = """a, b = {e}|a, *b = {e}|*a, b = {e}|(a, b), c = {e}, 1|[a, *b, c] = {e}|a = b = {e}|for a in {e}: b = a|a, = {e}|a, b, c = {e}|*a, = {e}|for a, b in [{e}]: pass|
with {e} as a: b = a|a, (b, *c) = 1, {e}|*a, b, c = {e}, 1, 2|a, *b, c = 0, *{e}, 1|(a, b) = (b, a) = {e}""".replace("\n", "").split("|")


def unpack(types):
    for t in types:
        for u in UNPACK:
            for e in ("x", "[x, x]", "(x, 1)", "(1, *x)", "[*x]"):
                names = [n for n in "abc" if n in u.replace("for", "").replace("as", "").replace("in", "").replace("pass", "")]
                s = f"def fN(x: {union(t)}) -> None:\n    {u.format(e=e)}\n"
                if u.startswith("for"):
                    yield s + "    else: return\n" if False else s.replace(": b = a", ":\n        b = a\n        reveal_type(a)").replace(
                        ": pass", ":\n        reveal_type(a)\n        reveal_type(b)"), [t]
                elif u.startswith("with"):
                    continue
                else:
                    yield s + "".join(f"    reveal_type({n})\n" for n in names), [t]


def expressions(types, pairs):
    for t in types:
        for e in ONE:
            yield EXPRESSION.format(p=f"x: {union(t)}", e=e), [t]
    for t, u in pairs:
        for e in BOTH:
            if e == "x | y" and t == u == ["type[A]"]:
                continue  # the union of types is not an object of its own
            yield EXPRESSION.format(p=f"x: {union(t)}, y: {union(u)}", e=e), [t, u]
        for o in BINARY[:13]:
            if o == "**" or o == "|" and t == u == ["type[A]"]:
                continue  # the result is Any in typeshed
            yield AUGMENTED.format(p=f"x: {union(t)}, y: {union(u)}", o=o), [t, u]


def spaces(thorough):
    one = unions(VALUES, 1)
    yield "expressions", expressions(unions(VALUES, 2), [(t, u) for t in one for u in one])
    yield "unpacking", unpack(unions(VALUES, 2))
    small = unions(SMALL, 2)
    yield "conditions", single(unions(ATOMS, 2 if not thorough else 3), CONDITIONS)
    yield "composed conditions", composite(unions(SMALL, 2) if thorough else unions(SMALL[:8], 2), CONDITIONS[:40:2] if thorough else FEW)
    yield "shapes", shapes(unions(ATOMS, 2) if thorough else small, FEW if thorough else FEW[:6] + FEW[8:9], EXPRESSIONS if thorough else EXPRESSIONS[:4])
    yield "patterns", matches(unions(ATOMS, 2), PATTERNS, PATTERNS if thorough else ["int()", "A()", "[a, b]", "y"])
    yield "guards", guards(small, PATTERNS[:-1], FEW if thorough else FEW[:3] + ["k()"])
    yield "flows", flows(4 if thorough else 3)
    # loops that run more than once, and jumps through finally blocks: see the known findings
    yield "everything of small flows", flows(3)
    yield "two variables", two(ATOMS if thorough else ["None", "int", "str", "A", "C", "E", "Literal[0, 2]"])
