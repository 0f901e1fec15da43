"""Worlds of modules that depend on each other, with variants of each, for edit histories."""
import re

WORLDS = {
    # plain and qualified imports, functions, variables
    "functions": {
        "a.py": ["import b\nfrom b import f, x\nreveal_type(b.f(1))\nreveal_type(f(1))\nreveal_type(x)\ny: int = f(1)\n",
                 "from b import g\nreveal_type(g)\n", None],
        "b.py": ["def f(a: int) -> int: return a\nx = f(1)\n", "def f(a: str) -> str: return a\nx = f('')\ng = x\n",
                 "from c import z as x, f\n", "def f(\n", None],
        "c.py": ["z = 1\ndef f(a): return z\n", "class z: pass\nf = z\n", None],
    },
    # inheritance over three modules
    "classes": {
        "a.py": ["from b import B\nclass A(B):\n    def m(self) -> int: return 1\nA().n()\nreveal_type(A().attr)\n",
                 "from b import B\nx: B = B()\nreveal_type(x.attr)\nclass D(B):\n    attr = ''\n"],
        "b.py": ["from c import C\nclass B(C):\n    def m(self) -> int: return 1\n    def n(self) -> None: ...\n",
                 "from c import C as B\n", "class B:\n    attr: str = ''\n    def m(self) -> str: return ''\n", None],
        "c.py": ["class C:\n    attr = 1\n", "class C:\n    def __init__(self) -> None:\n        self.attr = 'x'\n", "C = int\n", None],
    },
    # cycles
    "cycles": {
        "a.py": ["from b import B\nclass A:\n    def b(self) -> 'B': return B()\nreveal_type(A().b().a())\n",
                 "import b\nclass A(b.B): pass\nreveal_type(A().a())\n", "from b import *\nA = 1\n"],
        "b.py": ["from a import A\nclass B:\n    def a(self) -> 'A': return A()\nreveal_type(B().a())\n",
                 "import a\nclass B:\n    x = a.A\nreveal_type(B.x)\n", "from a import *\nclass B: pass\nreveal_type(A)\n", None],
    },
    # names through star imports and __all__
    "stars": {
        "a.py": ["from b import *\nreveal_type(x)\nreveal_type(_y)\n", "from b import *\nfrom c import *\nreveal_type(x)\n"],
        "b.py": ["x = 1\n_y = 2\n", "__all__ = ['_y']\nx = 1\n_y = 2\n", "from c import *\n", "from c import x as x\n_y = ''\n", None],
        "c.py": ["x = ''\n_y = ''\n", "y = 1\n__all__ = ['y', 'x']\n", None],
    },
    # packages, relative imports, modules that appear and vanish
    "packages": {
        "p/__init__.py": ["", "from .m import x\n", "from . import m\nm = 1\n", None],
        "p/m.py": ["x = 1\n", "from . import n\nx = n.y\n", None],
        "p/n.py": ["y = ''\n", "from ..p import m\ny = m.x\n", None],
        "a.py": ["import p.m\nreveal_type(p.m)\nreveal_type(p.m.x)\n", "from p import m, x\nreveal_type(m)\nreveal_type(x)\n"],
    },
    # stubs before modules
    "stubs": {
        "a.py": ["import m\nreveal_type(m.x)\nfrom m import y\nreveal_type(y)\n"],
        "m.py": ["x = 1\ny = 1\n", "y = ''\n", None],
        "m.pyi": ["x: str\n", "x: bytes\ny: bytes\n", None],
        "m/__init__.py": ["x: list[int]\ny = 1.0\n", None],
    },
    # stubs and packages that appear next to modules (variant 0 does not exist; the directory is not on disk)
    "appear": {
        "a.py": ["import n\nreveal_type(n.x)\nfrom n import y\nreveal_type(y)\n"],
        "n.py": [None, "x = 1\ny = 1\n"],
        "n.pyi": [None, "x: str\n"],
        "n/__init__.py": [None, "x: list[int]\ny = 1.0\n", "y = b''\n"],
        "n/x.py": [None, "", "from . import y\n"],
    },
    # generic classes, protocols, aliases
    "generics": {
        "a.py": ["from b import G, Alias\ndef f(x: G[int], y: Alias) -> None:\n    reveal_type(x.get())\n    reveal_type(y)\nf(G(1), 1)\n",
                 "from b import G\nclass H(G[str]): pass\nreveal_type(H('').get())\n"],
        "b.py": ["from typing import Generic, TypeVar\nT = TypeVar('T')\nclass G(Generic[T]):\n    def __init__(self, x: T) -> None: ...\n    def get(self) -> T: ...\nAlias = G[int]\n",
                 "from typing import Protocol, TypeVar\nfrom c import Alias\nT = TypeVar('T', covariant=True)\nclass G(Protocol[T]):\n    def get(self) -> T: ...\n",
                 "class G[T]:\n    x: T\n    def __init__(self, x: T) -> None: ...\n    def get(self) -> list[T]: ...\ntype Alias = int\n"],
        "c.py": ["from typing import Union\nAlias = Union[int, str]\n", "Alias = 1\n", "from b import G\nAlias = G[str]\n"],
    },
    # special classes
    "special": {
        "a.py": ["from b import D, E, N, T\nreveal_type(D(1))\nreveal_type(E.x)\nn: N = N(1)\nreveal_type(n.a)\nt: T = {'k': 1}\n",
                 "from b import D, E\nfrom dataclasses import dataclass\n@dataclass\nclass F(D):\n    z: int = 1\nF(1, 2)\ndef g(e: E) -> int:\n    if e is E.x: return 1\n"],
        "b.py": ["from dataclasses import dataclass\nfrom enum import Enum\nfrom typing import NamedTuple, TypedDict\n@dataclass\nclass D:\n    a: int\nclass E(Enum):\n    x = 1\nclass N(NamedTuple):\n    a: int\nclass T(TypedDict):\n    k: int\n",
                 "from dataclasses import dataclass\nfrom enum import Enum\nfrom typing import NamedTuple, TypedDict\n@dataclass\nclass D:\n    a: str\n    b: int = 1\nclass E(Enum):\n    x = 1\n    y = ''\nclass N(NamedTuple):\n    a: str\n    b: int = 1\nclass T(TypedDict, total=False):\n    l: int\n",
                 "from c import D, E\nN = D\nT = dict\n"],
        "c.py": ["class D: pass\nclass E: x = 1\n", "class D:\n    def __init__(self, x: str, *y: int) -> None: ...\nfrom enum import IntEnum as E\n"],
    },
    # decorators, overloads, properties, inferred attributes
    "decorators": {
        "a.py": ["from b import d, C\n@d\ndef f(x: int) -> int: return x\nreveal_type(f)\nreveal_type(C().p)\nreveal_type(C().s)\n"],
        "b.py": ["from typing import Callable\nfrom c import h\ndef d(f: Callable[[int], int]) -> str: ...\nclass C:\n    def __init__(self):\n        self.s = h()\n    @property\n    def p(self) -> int: ...\n",
                 "from typing import TypeVar\nfrom c import h\nT = TypeVar('T')\ndef d(f: T) -> T: return f\nclass C:\n    s = h\n    p = d(h)\n",
                 "import c\nd = c.h\nclass C(c.K): ...\n"],
        "c.py": ["def h() -> int: ...\n", "from typing import overload\n@overload\ndef h() -> str: ...\n@overload\ndef h(x) -> int: ...\ndef h(x=1): ...\nclass K:\n    def __getattr__(self, n: str) -> bytes: ...\n", None],
    },
    # unused ignores and unreachable code depend on the other module
    "ignores": {
        "a.py": ["import b\nx: int = b.x  # type: ignore\nb.f()  # type: ignore[attr-defined]\ny = x\nreveal_type(y)\n",
                 "import b  # type: ignore\nfrom typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    import c\nif b.x is None:\n    reveal_type(b.x)\nelse:\n    reveal_type(b.x)\n"],
        "b.py": ["x = 1\ndef f() -> None: ...\n", "x = ''\n", "from typing import Optional\nx: Optional[int] = None\n", "from c import *\n", None],
        "c.py": ["x: None = None\n", "# type: ignore\nx: int = ''\n", None],
    },
    # __all__ composed from other modules
    "alls": {
        "a.py": ["from b import *\nreveal_type(x)\nreveal_type(y)\n", "import b\nfrom b import *\nreveal_type(b.__all__)\ny\n"],
        "b.py": ["import c\nx = 1\ny = 1\n__all__ = ['x']\n__all__ += c.__all__\n", "from c import *\nfrom c import __all__\nx = ''\n",
                 "from c import __all__ as al, x, y\n__all__ = al\n"],
        "c.py": ["__all__ = ['y']\ny = ''\n", "__all__ = ['x']\nx = b''\n", "__all__ = []\n__all__.append('x')\nx = 1.0\n", None],
    },
    # annotations inside of strings and type comments are files of their own
    "subfiles": {
        "a.py": ["import b\nfrom b import C\ndef f(x: 'C', y: 'b.C') -> 'b.D':\n    z = x  # type: b.D\n    reveal_type(x)\n    reveal_type(y.a)\n    return z\n",
                 "from typing import cast, List\nimport b\nreveal_type(cast('b.C', 1))\nx: List['b.D'] = []\nfor i in []:  # type: b.C\n    reveal_type(i)\n"],
        "b.py": ["class C:\n    a: 'D'\nclass D: pass\n", "from c import C\nD = C\n", "class D:\n    a: 'C'\nC = int\n", None],
        "c.py": ["class C:\n    a: 'int'\n", "C = 'int'\n", None],
    },
    # partial types, nested scopes, imports inside of functions
    "scopes": {
        "a.py": ["def f():\n    import b\n    def g():\n        return b.x\n    return g()\nreveal_type(f())\n",
                 "from b import x\nl = []\nl.append(x)\nreveal_type(l)\nclass A:\n    def __init__(self) -> None:\n        self.q = x\n    def m(self) -> None:\n        from b import x as r\n        reveal_type(self.q)\n        reveal_type(r)\n"],
        "b.py": ["x = 1\n", "from c import x\n", "import c\nx = []\nx.append(c.x)\n", "try:\n    from c import x\nexcept ImportError:\n    x = None\n", None],
        "c.py": ["x = ''\n", "def x(): return [1]\n", "if x: pass\n", None],
    },
    # protocols, abstract classes and overrides across modules
    "protocols": {
        "a.py": ["from b import P, I\np: P = I()\nclass J(I):\n    def m(self, x: int) -> str: ...\nJ()\n",
                 "from b import P, I\ndef f(x: P | int) -> None:\n    if isinstance(x, I):\n        reveal_type(x)\n    else:\n        reveal_type(x)\n"],
        "b.py": ["from typing import Protocol\nfrom c import Q\nclass P(Protocol):\n    def m(self, x: int) -> str: ...\nclass I(Q):\n    def m(self, x: int) -> str: return ''\n",
                 "from typing import Protocol\nfrom c import Q\nclass P(Q, Protocol):\n    def m(self, x: str) -> str: ...\nclass I:\n    def m(self, x: int) -> str: return ''\n",
                 "from c import Q as P, Q as I\n"],
        "c.py": ["class Q: pass\n", "from abc import ABC, abstractmethod\nclass Q(ABC):\n    @abstractmethod\n    def n(self) -> int: ...\n",
                 "from typing import Protocol\nclass Q(Protocol):\n    n: int\n"],
    },
    # literals, finals, enums and narrowing that depends on another module
    "narrowing": {
        "a.py": ["from b import E, v, is_int\ndef f(e: E, x: object) -> None:\n    if e == v: reveal_type(e)\n    else: reveal_type(e)\n    if is_int(x): reveal_type(x)\n",
                 "from b import E\nfrom typing import assert_never\ndef f(e: E) -> int:\n    match e:\n        case E.a: return 1\n        case _: assert_never(e)\n"],
        "b.py": ["from enum import Enum\nfrom typing import Final\nfrom typing_extensions import TypeIs\nclass E(Enum):\n    a = 1\n    b = 2\nv: Final = E.a\ndef is_int(x: object) -> TypeIs[int]: ...\n",
                 "from c import E\nv = E.a\ndef is_int(x: object) -> bool: ...\n",
                 "from c import *\nfrom typing import TypeGuard\nv: E = E.a\ndef is_int(x: object) -> TypeGuard[E]: ...\n"],
        "c.py": ["from enum import Enum\nclass E(Enum):\n    a = 1\n", "class E:\n    a = 1\n", "from typing import Literal\nE = Literal[1, 2]\n", None],
    },
    # inference through untyped code in a cycle of modules
    "untyped": {
        "a.py": ["import b\ndef f(): return b.g()\ndef h(): return 1\nreveal_type(f())\n", "from b import g\nh = g\nreveal_type(h())\n", "import b\nh = lambda: b.g()\nclass X(b.Y): pass\nreveal_type(X().y)\n"],
        "b.py": ["import a\ndef g(): return a.h()\nclass Y:\n    y = a.h()\nreveal_type(g())\n", "from a import h\ndef g(): return ''\nclass Y:\n    def __init__(self):\n        self.y = h()\n", "g = 1\nfrom a import X as Y\n", None],
    },
}


# on disk all the time, everything else is created by the histories
ON_DISK = {"p/.keep": "", "m/.keep": ""}


def edits(world):
    # A directory of which only unsaved buffers exist survives them (a known finding of C07)
    virtual = {p for p in world if "/" in p and p.split("/")[0] + "/.keep" not in ON_DISK}
    return [(p, k) for p, vs in world.items() for k in range(len(vs)) if not (p in virtual and vs[k] is None)]


def op(world, edit, disk=False):
    p, k = edit
    t = world[p][k]
    if disk:
        # a watcher also reports the directories that are created for the file
        events = [["event", "/".join(p.split("/")[:i + 1])] for i in range(p.count("/") + 1)]
        return [["remove", p], events[-1]] if t is None else [["write", p, t], *events]
    return [["close", p] if t is None else ["store", p, t]]


def names(text):
    return [(m.start(), m.end()) for m in re.finditer(r"\b[a-zA-Z_]\w*", text)]


def queries(mode, world, state):
    """What an editor may ask between two edits."""
    paths = [p for p in world if world[p][state[p]] is not None]
    if mode == "all":
        return [["diag", p] for p in paths]
    if mode == "reversed":
        return [["diag", p] for p in paths[::-1]]
    if mode == "first":
        return [["diag", p] for p in paths[:1]]
    if mode == "last":
        return [["diag", p] for p in paths[-1:]]
    if mode == "none":
        return []
    if mode == "check":
        return [["check"]]
    if mode == "recover":
        return [["recover"]]
    if mode == "editor":  # in the first file
        r = []
        for p in paths[:1]:
            for a, b in names(world[p][state[p]]):
                r += [["infer", p, a], ["references", p, a], ["complete", p, b]]
        return r
    raise ValueError(mode)


def histories(world, depth, modes, disk=False):
    """(contents at the end, operations, description) of all histories: before each edit all kinds of queries."""
    paths = list(world)
    start = {p: 0 for p in paths}
    init = [o for p in paths if world[p][0] is not None for o in op(world, (p, 0), disk)]

    def go(state, ops, n, what):
        if n == 0:
            yield state, ops, what
            return
        for m in modes:
            qs = queries(m, world, state)
            for p, k in edits(world):
                if state[p] != k:
                    yield from go({**state, p: k}, ops + qs + op(world, (p, k), disk), n - 1, what + [m, f"{p}={k}"])
    yield from go(start, init, depth, [])


def fresh(world, state, disk=False):
    ops = [o for p, k in state.items() if world[p][k] is not None for o in op(world, (p, k), disk)]
    return ops + [["restart"]] if disk else ops


def final(world):
    return [["diag", p] for p in world]
