"""Programs whose expressions go through Python's data model: hierarchies of classes, attributes, operators and protocols.
A case is (definitions, expressions); the values are instances of R0, R1, ..., so that a value tells where it came from."""
import itertools

RESULTS = "from __future__ import annotations\nfrom typing import *\n" + "".join(f"class R{i}: ...\n" for i in range(10))


def indent(t):
    return "".join("    " + l + "\n" for l in t.splitlines())


def ordered_subsets(names, most):
    for k in range(most + 1):
        yield from itertools.permutations(names, k)


def hierarchies(n, most):
    """all hierarchies of n classes, as the tuples of their bases"""
    names = [f"C{i}" for i in range(n)]
    yield from itertools.product(*(list(ordered_subsets(names[:i], most)) for i in range(n)))


def mro(n, most):
    """who provides x: each subset of the classes; with super()"""
    for h in hierarchies(n, most):
        if n > 3 and not h[-1]:
            continue
        for who in itertools.product([0, 1], repeat=n):
            if not any(who):
                continue
            t = ""
            for i, bases in enumerate(h):
                t += f"class C{i}({', '.join(bases)}):\n" + (f"    def x(self) -> R{i}: return R{i}()\n" if who[i] else "    pass\n")
                if i == n - 1:
                    t += "    def s(self): return super().x()\n    @classmethod\n    def c(cls): return cls().x()\n"
            yield t, [f"C{n - 1}().x()", f"C{n - 1}.x(C{n - 1}())"] + [f"super(C{i}, C{n - 1}()).x()" for i in range(n)]


# How an attribute x can be defined; ~ is the type of the value
KINDS = {
    "none": "pass",
    "class variable": "x: ~ = ~()",
    "instance variable": "def __init__(self) -> None: self.x: ~ = ~()",
    "method": "def x(self) -> ~: return ~()",
    "property": "@property\ndef x(self) -> ~: return ~()",
    "settable": "@property\ndef x(self) -> ~: return ~()\n@x.setter\ndef x(self, value: ~) -> None: ...",
    "class method": "@classmethod\ndef x(cls) -> ~: return ~()",
    "static method": "@staticmethod\ndef x() -> ~: return ~()",
    "descriptor": "x: D~ = D~()",
    "data descriptor": "x: E~ = E~()",
    "getattr": "def __getattr__(self, name: str) -> ~: return ~()",
    "nested class": "class x(~): ...",
    "callable": "x: F~ = F~()",
}


def helpers(i):
    return (f"class D{i}:\n    def __get__(self, instance: Any, owner: Any) -> R{i}: return R{i}()\n"
            f"class E{i}:\n    def __get__(self, instance: Any, owner: Any) -> R{i}: return R{i}()\n"
            f"    def __set__(self, instance: Any, value: R{i}) -> None: ...\n"
            f"class F{i}:\n    def __call__(self) -> R{i}: return R{i}()\n")


def kind(k, i):
    t = KINDS[k]
    if k in ("descriptor", "data descriptor", "callable"):
        return t.replace("~", str(i))
    return t.replace("~", f"R{i}")


def attributes():
    head = "".join(helpers(i) for i in range(3))
    for a, b in itertools.product(KINDS, repeat=2):
        # a variable of an instance hides what a subclass defines, but the checkers report that as an override
        if "instance variable" in (a, b) and not {a, b} <= {"instance variable", "none", "getattr"}:
            continue
        t = head + f"class B:\n{indent(kind(b, 1))}class A(B):\n{indent(kind(a, 0))}"
        yield t + f"# {b} below {a}\n", ["A().x", "A().x()"]
        if "instance variable" not in (a, b):
            yield t + f"# {b} below {a}\n", ["A.x", "A.x()", "type(A()).x"]
    # where both define it, zuban imitates Mypy, which looks at the metaclass first for some kinds
    for m, a in itertools.product(KINDS, KINDS):
        if "instance variable" in (m, a) or m == "nested class" or "none" not in (m, a) and m != "getattr":
            continue
        t = head + f"class M(type):\n{indent(kind(m, 2))}class A(metaclass=M):\n{indent(kind(a, 0))}"
        yield t + f"# {m} of the metaclass, {a}\n", ["A.x", "A.x()", "A().x", "A().x()"]


BIN = {"+": "add", "-": "sub", "*": "mul", "@": "matmul", "//": "floordiv", "%": "mod", "**": "pow", "<<": "lshift", "&": "and", "|": "or", "^": "xor", "/": "truediv"}
COMPARE = {"<": ("lt", "gt"), "<=": ("le", "ge"), "==": ("eq", "eq"), "!=": ("ne", "ne"), ">": ("gt", "lt"), ">=": ("ge", "le")}


def operator(name, accepts, i):
    """a method that only knows the types that it says it accepts"""
    types = accepts.replace(" | ", ", ")
    return f"def {name}(self, other: {accepts}) -> R{i}: return R{i}() if isinstance(other, ({types})) else NotImplemented\n"


def operators(op, forward, backward, deep):
    """left and right with each combination of the methods, unrelated or in both directions of inheritance"""
    choices = [None, "L", "R", "L | R", "int"] if deep else [None, "L", "R", "int"]
    # for comparisons of related classes zuban imitates Mypy, which tries the reflected method first
    comparison = not backward.startswith("r")
    for relation in ["class L:\n~class R:\n^", "class L:\n~class R(L):\n^", "class R:\n^class L(R):\n~"][:1 if comparison else 3]:
        for f, b, f2, b2 in itertools.product(choices, choices, [None, "L", "int"], [None, "L", "int"]):
            if forward == backward and (b or b2):
                continue
            l = (operator(f"__{forward}__", f, 0) if f else "") + (operator(f"__{backward}__", f2, 1) if f2 else "")
            r = (operator(f"__{backward}__", b, 2) if b else "") + (operator(f"__{forward}__", b2, 3) if b2 else "")
            t = relation.replace("~", indent(l or "pass")).replace("^", indent(r or "pass"))
            yield t, [f"L() {op} R()", f"R() {op} L()", f"L() {op} L()", f"R() {op} R()"]


def inplace():
    for op, name in (("+", "add"), ("|", "or")):
        for i, f, b in itertools.product([None, "L", "R"], repeat=3):
            t = f"class L:\n{indent((operator(f'__i{name}__', i, 0) if i else '') + (operator(f'__{name}__', f, 1) if f else '') or 'pass')}"
            t += f"class R:\n{indent(operator(f'__r{name}__', b, 2) if b else 'pass')}"
            # the result of the operation itself
            yield t, [f"L() {op} R()"]


METHODS = {
    "__iter__": "def __iter__(self) -> Iterator[R0]: return iter([R0()])",
    "__getitem__": "def __getitem__(self, i: int) -> R1:\n    if i: raise IndexError\n    return R1()",
    "__contains__": "def __contains__(self, x: object) -> bool: return True",
    "__len__": "def __len__(self) -> int: return 1",
    "__next__": "def __next__(self) -> R3: return R3()",
    "__call__": "def __call__(self) -> R4: return R4()",
    "__enter__": "def __enter__(self) -> R5: return R5()",
    "__exit__": "def __exit__(self, *a: Any) -> None: ...",
    "__neg__": "def __neg__(self) -> R6: return R6()",
    "__class_getitem__": "def __class_getitem__(cls, i: int) -> R7: return R7()",
    "__index__": "def __index__(self) -> int: return 0",
    "__missing__": "def __missing__(self, i: int) -> R8: return R8()",
    "__reversed__": "def __reversed__(self) -> Iterator[R9]: return iter([R9()])",
    "__hash__": "__hash__ = None  # type: ignore",
    "__setitem__": "def __setitem__(self, i: int, x: R0) -> None: ...",
    "__delitem__": "def __delitem__(self, i: int) -> None: ...",
}
USES = ["[x for x in A()][0]", "A()[0]", "R0() in A()", "len(A())", "next(A())", "A()()", "-A()", "+A()", "list(A())[0]", "[R0()][A()]", "[*A()][0]",
        "next(iter(A()))", "dict([(1, A())])[1]", "[x for (x,) in [A()]][0]", "hex(A())"]
NO_ITERATION = ["A()[0]", "len(A())", "next(A())", "A()()", "-A()", "+A()", "[R0()][A()]", "dict([(1, A())])[1]", "hex(A())"]
STATEMENTS = ["for _ in A(): pass", "with A(): pass", "a, = A()", "A()[0] = R0()", "del A()[0]", "a, *b = A()"]


def protocols(deep):
    for k in range(3 if not deep else 4):
        for ms in itertools.combinations(METHODS, k):
            t = f"class A:\n{indent(chr(10).join(METHODS[m] for m in ms) or 'pass')}"
            # the old iteration by __getitem__ is not supported, as in Mypy
            old = "__getitem__" in ms and "__iter__" not in ms
            yield t, [u for u in USES if not old or u in NO_ITERATION]
            yield t, ["!" + s for s in STATEMENTS if not old or "[" in s]


def outcome(definitions, expressions):
    """per expression: the class of the value, or None if it fails with a TypeError or AttributeError"""
    d = {}
    try:
        exec(RESULTS + definitions, d)
    except TypeError:
        return None
    out = []
    for e in expressions:
        try:
            if e.startswith("!"):
                exec(e[1:], d)
                out.append("")
            else:
                v = eval(e, d)
                n = type(v).__name__
                out.append(n if len(n) == 2 and n[0] == "R" else v.__name__ if isinstance(v, type) and v.__name__[0] == "R" else "")
        except (TypeError, AttributeError) as err:
            out.append(None)
    return out
