"""Signatures and calls; CPython decides which calls bind."""
import itertools, re

# How a parameter can look like: positional only, normal, *args, keyword only, **kwargs
NAMES = "abc"


def signatures(n, defaults=True):
    """all parameter lists with up to n named parameters"""
    out = []
    for k in range(n + 1):
        for po in range(k + 1):
            for no in range(k - po + 1):
                ko = k - po - no
                for star in (["", "*args: int"] if not ko else ["*", "*args: int"]):
                    for kw in ["", "**kwargs: int"]:
                        for d in itertools.product(*([["", " = 0"]] * k if defaults else [[""]] * k)):
                            pos = d[:po + no]
                            if any(x and not y for x, y in zip(pos, pos[1:])):
                                continue
                            p = [f"{NAMES[i]}: int{d[i]}" for i in range(k)]
                            parts = p[:po] + (["/"] if po else []) + p[po:po + no] + ([star] if star else []) + p[po + no:] + ([kw] if kw else [])
                            out.append(", ".join(parts))
    return out


ARGS = ["1", "a=1", "b=1", "c=1", "z=1", "*()", "*(1,)", "*(1, 1)"]
UNKNOWN = ["*L", "**D"]  # *L only as the last argument, **D without others of its kind
MORE = ["**VA", "**VAB", "**VZ"]
HEAD = "from typing import TypedDict\nL: list[int] = []\nD: dict[str, int] = {}\n" + "".join(
    f"class T{n}(TypedDict):\n" + "".join(f"    {k}: int\n" for k in n.lower()) + f"V{n}: T{n} = {dict.fromkeys(n.lower(), 1)}\n" for n in ["A", "AB", "Z"])


def calls(n, args):
    out = []
    for k in range(n + 1):
        for p in itertools.product(args, repeat=k):
            # like Mypy, zuban lets *L give a value to every positional parameter
            if "*L" in p[:-1] or sum(a.startswith("**") for a in p) > 1 and "**D" in p or p and p[-1] == "*L" and any("=" in a for a in p):
                continue
            c = "(" + ", ".join(p) + ")"
            try:
                compile("f" + c, "a", "eval")
            except SyntaxError:
                continue
            out.append(c)
    return out


# frame -> the definition with ~ for the parameters (^ where a self or cls has to be in front of them), what is called
FRAMES = {
    "function": ("def f(~) -> None: ...\n", "f"),
    "async": ("async def f(~) -> None: ...\nasync def g() -> None:\n    call()\n", "await f"),
    "method": ("class A:\n    def f(^~) -> None: ...\na = A()\n", "a.f"),
    "unbound": ("class A:\n    @staticmethod\n    def f(~) -> None: ...\na = A()\n", "A.f"),
    "static": ("class A:\n    @staticmethod\n    def f(~) -> None: ...\na = A()\n", "a.f"),
    "class method": ("class A:\n    @classmethod\n    def f(^~) -> None: ...\na = A()\n", "A.f"),
    "class method of instance": ("class A:\n    @classmethod\n    def f(^~) -> None: ...\na = A()\n", "a.f"),
    "init": ("class A:\n    def __init__(^~) -> None: ...\n", "A"),
    "inherited init": ("class B:\n    def __init__(^~) -> None: ...\nclass A(B): ...\n", "A"),
    "new": ("from typing import Any\nclass A:\n    def __new__(^~) -> Any: ...\n", "A"),
    "call": ("class A:\n    def __call__(^~) -> None: ...\na = A()\n", "a"),
    "type": ("class B:\n    def __init__(^~) -> None: ...\nA: type[B] = B\n", "A"),
    "generic": ("from typing import Generic, TypeVar\nT = TypeVar('T')\nclass B(Generic[T]):\n    def f(^~) -> None: ...\nclass A(B[int]): ...\na = A()\n", "a.f"),
    "param spec": ("from typing import Callable, ParamSpec, TypeVar\nP = ParamSpec('P')\nT = TypeVar('T')\n"
                   "def deco(x: Callable[P, T]) -> Callable[P, list[T]]:\n    def inner(*args: P.args, **kwargs: P.kwargs) -> list[T]:\n"
                   "        return [x(*args, **kwargs)]\n    return inner\n@deco\ndef f(~) -> None: ...\n", "f"),
    "identity": ("from typing import Callable, TypeVar\nT = TypeVar('T', bound=Callable)\ndef deco(x: T) -> T: return x\n@deco\ndef f(~) -> None: ...\n", "f"),
    "wraps": ("import functools\n@functools.wraps(print)\ndef g() -> None: ...\ndef f(~) -> None: ...\n", "f"),
    "overload": ("from typing import overload\n@overload\ndef f(~) -> int: ...\n@overload\ndef f(*, other: str) -> str: ...\ndef f(*args, **kwargs): ...\n", "f"),
    "conditional": ("import sys\nif sys.version_info >= (3, 8):\n    def f(~) -> None: ...\nelse:\n    def f() -> None: ...\n", "f"),
    "protocol": ("from typing import Protocol\nclass P(Protocol):\n    def __call__(^~) -> None: ...\ndef g(f: P) -> None:\n    call()\n", "f"),
    "super": ("class B:\n    def m(^~) -> None: ...\nclass A(B):\n    def n(self) -> None:\n        call()\n", "super().m"),
    "lambda": ("f = lambda ~: None\n", "f"),
}


def text(frame, params, call_list):
    """the text, and the first line of the calls"""
    t, name = FRAMES[frame]
    bare = params.replace(": int", "") if frame == "lambda" else params
    t = t.replace("^~", ", ".join(["self"] + ([bare] if bare else []))).replace("~", bare)
    if any("**V" in c or "L" in c for c in call_list):
        t = HEAD + t
    if "call()" in t:
        i = t.index("call()")
        ind = t[:i][t[:i].rindex("\n") + 1:]
        head, tail = t[:i - len(ind)], t[i + len("call()\n"):]
        assert not tail
        return head + "".join(f"{ind}{name}{c}\n" for c in call_list), head.count("\n") + 1
    return t + "".join(f"{name}{c}\n" for c in call_list), t.count("\n") + 1


def twice(params, call):
    """a name that only **kwargs takes, given twice with the help of a TypedDict: not judged, as in Mypy"""
    if "kwargs" not in params:
        return False
    names = [n for p in re.findall(r"\*\*V(\w+)|(\w)=", call) for n in (p[0].lower() or p[1])]
    normal = params.split("/")[-1]
    return any(names.count(n) > 1 and n + ": int" not in normal for n in names)


def binds(params, call_list):
    """whether each call works; for arguments of unknown length, whether it works for any of them"""
    d = {"V" + n: dict.fromkeys(n.lower(), 1) for n in ["A", "AB", "Z"]}
    exec(f"def f({params.replace(': int', '')}): pass", d)

    def works(c):
        try:
            eval("f" + c, d)
            return True
        except TypeError:
            return False
    out = []
    for c in call_list:
        if twice(params, c):
            out.append(None)
        elif "L" in c or "D" in c:
            all = []
            for n in range(5) if "L" in c else [0]:
                d["L"] = [1] * n
                for k in range(5) if "D" in c else [0]:
                    for keys in itertools.combinations("abcz", k):
                        d["D"] = dict.fromkeys(keys, 1)
                        all.append(works(c))
            out.append(any(all))
        else:
            out.append(works(c))
    return out


# Parameters of different types: which value goes where
TYPED = ["1", "'s'", "a=1", "a='s'", "b=1", "b='s'", "z=1", "z='s'", "*(1, 's')", "*('s',)"]
KINDS = {"a": "int", "b": "str", "c": "int", "args": "str", "kwargs": "int"}


def typed(params):
    """the parameters with other types"""
    return re.sub(r"(\w+): int( = 0)?", lambda m: f"{m[1]}: {KINDS[m[1]]}" + (" = " + repr({"int": 0, "str": ""}[KINDS[m[1]]]) if m[2] else ""), params)


def fits(params, call_list):
    d = {}
    checks = "".join(f"    assert isinstance({n}, {KINDS[n]})\n" for n in re.findall(r"\w+(?=: )", params) if n not in ("args", "kwargs"))
    if "*args" in params:
        checks += "    assert all(isinstance(x, str) for x in args)\n"
    if "**kwargs" in params:
        checks += "    assert all(isinstance(x, int) for x in kwargs.values())\n"
    exec(f"def f({params}):\n{checks}    pass\n", d)
    out = []
    for c in call_list:
        try:
            eval("f" + c, d)
            out.append(True)
        except (TypeError, AssertionError):
            out.append(False)
    return out


# Classes whose constructor is synthesized
FIELDS = ["~: int", "~: int = 0", "~: int = field(default=0)", "~: int = field(default_factory=int)", "~: int = field(init=False)",
          "~: int = field(init=False, default=0)", "~: int = field(kw_only=True)", "~: int = field(kw_only=True, default=0)", "_: KW_ONLY",
          "~: ClassVar[int] = 0", "~: InitVar[int]", "~: InitVar[int] = 0", "~: 'int'"]
FEW = ["~: int", "~: int = 0", "~: int = field(kw_only=True)", "~: int = field(init=False)", "_: KW_ONLY", "~: ClassVar[int] = 0"]
DATA = "from dataclasses import dataclass, field, KW_ONLY, InitVar\nfrom typing import ClassVar, NamedTuple, Any\nfrom collections import namedtuple\n"
DECORATORS = ["@dataclass", "@dataclass()", "@dataclass(kw_only=True)", "@dataclass(frozen=True)", "@dataclass(slots=True)", "@dataclass(init=False)",
              "@dataclass(eq=False, order=False)"]


def body(fields, names=NAMES):
    return "".join("    " + f.replace("~", n) + "\n" for f, n in zip(fields, names)) or "    pass\n"


def classes(deep):
    """texts that define A"""
    for n in range(4 if deep else 3):
        for fs in itertools.product(FIELDS, repeat=n):
            if fs.count("_: KW_ONLY") < 2:
                yield f"@dataclass\nclass A:\n{body(fs)}"
    for d in DECORATORS[1:]:
        for fs in itertools.product(FEW, repeat=2):
            # without an __init__ the order of defaults does not matter to Python, but to Mypy and zuban
            if fs.count("_: KW_ONLY") < 2 and not ("init=False" in d and fs[0] == FEW[1] and fs[1] == FEW[0]):
                yield f"{d}\nclass A:\n{body(fs)}"
    for d, e in itertools.product(DECORATORS[:3] + [""], repeat=2):
        for f, g, same in itertools.product(FEW, FEW, [False, True]):
            # in a class without the decorator these are normal variables
            if not d and ("field" in f or "KW" in f) or not e and ("field" in g or "KW" in g):
                continue
            # zuban reports this as an override
            if same and ("ClassVar" in f) != ("ClassVar" in g):
                continue
            # Python finds the default of the class above, which is not obvious and not what Mypy does
            if same and "=" in f and "default" not in f and g == FEW[0]:
                continue
            first, second = body([f], "a"), body([g], "a" if same else "b")
            yield f"{d}\nclass B:\n{first}{e}\nclass A(B):\n{second}"
    for f, g, h in itertools.product(FEW[:4], repeat=3):
        yield f"@dataclass\nclass C:\n{body([f], 'a')}@dataclass\nclass B:\n{body([g], 'b')}@dataclass\nclass A(B, C):\n{body([h], 'c')}"
        if not (f == FEW[1] and h == FEW[0]):
            yield f"@dataclass\nclass C:\n{body([f], 'a')}@dataclass\nclass B(C):\n{body([g], 'b')}@dataclass\nclass A(B):\n{body([h], 'a')}"
    for n in range(4):
        for fs in itertools.product(["~: int", "~: int = 0"], repeat=n):
            yield f"class A(NamedTuple):\n{body(fs)}"
            yield f"class B(NamedTuple):\n{body(fs)}class A(B):\n    pass\n"
        names = list(NAMES[:n])
        yield f"A = NamedTuple('A', {[*names]!r})\n".replace("'a'", "('a', int)").replace("'b'", "('b', int)").replace("'c'", "('c', int)")
        yield f"A = namedtuple('A', {names})\n"
        yield f"A = namedtuple('A', {' '.join(names)!r})\n"
        for k in range(n + 1):
            yield f"A = namedtuple('A', {names}, defaults={(0,) * k})\n"


CLASS_CALLS = ["1", "a=1", "b=1", "c=1"]


def constructs(text, call_list):
    """None if the class itself is wrong, otherwise whether the calls work"""
    d = {}
    try:
        exec(DATA + text, d)
    except (TypeError, ValueError):
        return None
    out = []
    for c in call_list:
        try:
            eval("A" + c, d)
            out.append(True)
        except TypeError:
            out.append(False)
    return out
