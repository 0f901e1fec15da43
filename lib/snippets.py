"""Small programs that between them use most of what the type checker knows about."""
PROGRAMS = [
    "import os\nfrom typing import Any\ndef f(a: int, *b: str, c: Any = 1, **d: float) -> list[int]:\n    return [a, *b]\nx = f(1, '', c=2, e=3.0)\n",
    "class A:\n    x: int = 1\n    def __init__(self, y: str) -> None:\n        self.y = y\n    @property\n    def p(self) -> int: return self.x\n    @p.setter\n    def p(self, v: int) -> None: ...\na = A('')\na.p = a.x\ndel a.y\n",
    "from typing import Generic, TypeVar\nT = TypeVar('T', bound=int)\nclass G(Generic[T]):\n    def m(self, t: T) -> 'G[T]': return self\nG[int]().m(1).m(True)\n",
    "class G[T: int, *Ts, **P]:\n    def m[U](self, u: U, t: T) -> tuple[T, U]: return t, u\ntype L[T] = list[T] | None\nx: L[int] = G[int, str, [int]]().m('', 1)\n",
    "from dataclasses import dataclass, field\n@dataclass(frozen=True, order=True)\nclass D:\n    a: int\n    b: list[str] = field(default_factory=list)\n    def __post_init__(self) -> None: ...\nd = D(1, b=[''])\nd < d\nd.a = 2\n",
    "from enum import Enum, auto\nclass E(Enum):\n    a = 1\n    b = auto()\n    def m(self) -> str: return self.name\nfor e in E:\n    if e is E.a: e.value\n    else: reveal_type(e)\nE['a'], E(1)\n",
    "from typing import TypedDict, NotRequired, NamedTuple\nclass T(TypedDict, total=False):\n    a: int\n    b: NotRequired[str]\nt: T = {'a': 1}\nt['b'], t.get('a'), t | {'a': 2}\nclass N(NamedTuple):\n    x: int\n    y: str = ''\nx, y = N(1)\nN(1)._replace(x=2)\n",
    "from typing import Protocol, runtime_checkable\n@runtime_checkable\nclass P(Protocol):\n    x: int\n    def m(self, a: str, /) -> None: ...\nclass C:\n    x = 1\n    def m(self, a: str) -> None: ...\np: P = C()\nisinstance(p, P) and p.m('')\n",
    "from typing import overload, Callable\n@overload\ndef f(x: int) -> str: ...\n@overload\ndef f(x: str, y: int = ...) -> int: ...\ndef f(x, y=1): return x\nf(f(1)), f(b'')\ng: Callable[..., int] = f\n",
    "import asyncio, contextlib\nfrom typing import AsyncIterator\n@contextlib.asynccontextmanager\nasync def c() -> AsyncIterator[int]:\n    yield 1\nasync def f() -> int:\n    async with c() as x, c():\n        async for y in g(): await asyncio.sleep(y)\n    return [z async for z in g()][0]\nasync def g():\n    yield 1\n",
    "from typing import ParamSpec, Callable, Concatenate, TypeVar\nP = ParamSpec('P')\nR = TypeVar('R')\ndef d(f: Callable[Concatenate[int, P], R]) -> Callable[P, R]:\n    def i(*args: P.args, **kwargs: P.kwargs) -> R: return f(1, *args, **kwargs)\n    return i\n@d\ndef h(a: int, b: str, *, c: bytes) -> None: ...\nh('', c=b'')\n",
    "def f(x: int | str | None | list[int]):\n    match x:\n        case int(y) | [y, *_]: return y\n        case {'a': z, **r} if r: return z\n        case str() as s: return s\n        case None | True: ...\n        case _: return x\n",
    "try:\n    import foo\nexcept (ImportError, ValueError) as e:\n    foo = None\n    raise e from None\nelse:\n    foo.bar\nfinally:\n    with open('x') as f: f.read()\nwhile foo: break\nelse: pass\n",
    "x = [i for i in range(3) if i]\ny = {k: v for k, v in zip(x, 'abc')}\nz = lambda a, *b, c=1: (a, b, c)\nw = (n := 1) if x else None\nx[0], y[1:2], *r = z(1)\nassert x, f'{x!r:>{n}} {y}'\n",
    "class M(type):\n    def __call__(cls, *a): return 1\n    def __getitem__(cls, i): return i\nclass A(metaclass=M):\n    __slots__ = ('a', 'b')\n    def __new__(cls): return super().__new__(cls)\n    def __getattr__(self, n: str) -> int: ...\nclass B(A):\n    def __init_subclass__(cls, **kw) -> None: super().__init_subclass__()\n    @classmethod\n    def c(cls) -> 'B': return cls()\n    @staticmethod\n    def s(): return B.c().foo\nA[1], B()\n",
    "from __future__ import annotations\nfrom typing import *\nif TYPE_CHECKING:\n    from collections.abc import Iterable as I\n__all__ = ['f']\n__all__ += ['g']\ndef f(x: I[int] = ()) -> Literal['a', 1]: \"doc\"; return 'a'\ng: Final = cast('int', f)\n",
    "from typing import Self, ClassVar, Final, Annotated, TypeGuard, TypeIs, Never, assert_never\nclass A:\n    c: ClassVar[int] = 1\n    d: Final = 2\n    e: Annotated[int, 'x']\n    def s(self) -> Self: return self\ndef g(x: object) -> TypeGuard[int]: ...\ndef i(x: int | str) -> TypeIs[int]: ...\ndef n(x: int | str) -> Never:\n    if i(x): A.c\n    elif g(x): x\n    else: assert_never(x)\n",
    "import functools, collections\n@functools.cache\ndef f(x): return functools.partial(f, x)\n@functools.wraps(f)\ndef g(): global h; h = 1\nN = collections.namedtuple('N', ['a', 'b'])\nN(1, b=2).a\nd = collections.defaultdict(list)\nd[1].append('')\n@functools.total_ordering\nclass O:\n    def __lt__(self, o): return True\n",
    "from typing import Unpack, TypeVarTuple, Generic, Required\nTs = TypeVarTuple('Ts')\nclass A(Generic[Unpack[Ts]]):\n    def __init__(self, *a: *Ts) -> None: self.a = a\ndef f(*args: *tuple[int, *Ts, str], **kw: Unpack['K']) -> tuple[*Ts]: ...\nA(1, '').a[0], f(1, b'', '')\n",
    "class A:\n    def f(self):\n        return self.g()\n    def g(self):\n        x = []\n        x.append(self.h)\n        return x\n    h = None\n    def __enter__(self): return self\n    def __exit__(self, *a): ...\nwith A() as (a, b): a\ndef outer():\n    y = 1\n    def inner():\n        nonlocal y\n        y = yield y\n        z = yield from inner()\n    return inner\n",
    "from abc import ABC, abstractmethod\nfrom typing import NewType, TypeAlias\nI = NewType('I', int)\nL: TypeAlias = 'list[L] | I'\nclass A(ABC):\n    @abstractmethod\n    def f(self) -> L: ...\nclass B(A):\n    def f(self, x=I(1)) -> I: return super().f()  # type: ignore[return]\nA(), B().f(x=2)\n",
]
