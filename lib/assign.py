"""Types, and the question which of them can be used for which others."""
import itertools, os, re, shutil, subprocess, tempfile

HEAD = '''from typing import *
from enum import Enum
class A:
    def m(self) -> int: return 1
class B(A): ...
class C(B): ...
class Other: ...
class Both(A, Other): ...
T = TypeVar("T")
Tco = TypeVar("Tco", covariant=True)
Tcontra = TypeVar("Tcontra", contravariant=True)
class Inv(Generic[T]): x: T
class Co(Generic[Tco]): ...
class Contra(Generic[Tcontra]): ...
class SubInv(Inv[T]): ...
class SubInt(Inv[int]): ...
class P(Protocol):
    def m(self) -> int: ...
class PB(Protocol):
    def m(self) -> bool: ...
class PVar(Protocol):
    x: int
class PRead(Protocol):
    @property
    def x(self) -> object: ...
class PGen(Protocol[Tco]):
    def get(self) -> Tco: ...
class Getter:
    x: int
    def get(self) -> int: return 1
class PCall(Protocol):
    def __call__(self, a: int) -> str: ...
class E(Enum):
    a = 1
    b = 2
class F(Enum):
    a = 1
class TD(TypedDict):
    a: int
class TD2(TypedDict):
    a: int
    b: str
class TDPart(TypedDict, total=False):
    a: int
class NT(NamedTuple):
    a: int
    b: str
N = NewType("N", int)
'''
BASE = """int str bool float bytes None object Any A B C Other Both N E F
Literal[1] Literal[2] Literal[1,2] Literal[True] Literal['a'] Literal[E.a] Literal[E.a,E.b] Literal[None]
list[int] list[bool] list[object] list[Any] Sequence[int] Sequence[object] Iterable[bool] Collection[int] Sequence[str] dict[str,int] dict[str,object] Mapping[str,object] Mapping[str,bool] set[int] frozenset[bool]
Inv[int] Inv[bool] Inv[Any] Co[int] Co[bool] Contra[int] Contra[bool] SubInv[int] SubInt Inv[int|str] Inv[str|int] Co[int|str]
tuple[int] tuple[bool] tuple[int,str] tuple[bool,str] tuple[int,...] tuple[bool,...] tuple[object,...] tuple[()] tuple[int,*tuple[str,...]] tuple[int,*tuple[int,...]] tuple[*tuple[int,...],str] tuple[Any,...] NT tuple
type[int] type[bool] type[object] type[A] type[B] type[Any] type type[int|str]
Callable[[int],str] Callable[[bool],str] Callable[[object],str] Callable[[int],object] Callable[[],str] Callable[...,str] Callable[...,Any] Callable[[int,str],str] PCall
P PB PVar PRead PGen[int] PGen[object] Getter
TD TD2 TDPart Never Iterator[int] Generator[int,str,bool] Sized Awaitable[int] Coroutine[Any,Any,int] Sequence[Any] Iterable[str]""".split()
SHORT = "int str bool None object A B Literal[1] E Literal[E.a] list[int] tuple[int,...] tuple[int] type[int] Callable[[int],str] TD P".split()


def unions():
    return [f"{a} | {b}" for a, b in itertools.permutations(SHORT, 2)] + ["A | B | Other", "Literal[1, 'a'] | None", "int | str | None", "bool | Literal['a']"]


def nested(t):
    return [f"list[{t}]", f"Sequence[{t}]", f"tuple[{t}, ...]", f"tuple[{t}, int]", f"type[{t}]" if re.fullmatch(r"\w+", t) and t not in ("None", "P") else f"Co[{t}]",
            f"Contra[{t}]", f"Inv[{t}]", f"Callable[[{t}], {t}]", f"PGen[{t}]", f"dict[str, {t}]", f"{t} | None"]


def skipped(s, t):
    """where zuban and Mypy deliberately differ"""
    # the callable that zuban makes of object.__init__ does not take any arguments; Mypy takes all of them
    return "type[" in s + t and "Callable[" in s + t or s == "Never" and t in ("None", "Literal[None]") or (
        # an overload for a union of its parameters: Mypy adds up the overloads
        s.startswith("O_") and t == "F_union")


def protocol_callables(params):
    """one callable per parameter list"""
    head = "from typing import *\n"
    names = []
    for i, p in enumerate(params):
        head += f"class P{i}(Protocol):\n    def __call__({', '.join(['self'] + ([p] if p else []))}) -> None: ...\n"
        names.append(f"P{i}")
    return head, names


def typed_dicts(kinds):
    """all dicts with the kinds of two keys"""
    head, names = "from typing import *\nfrom typing_extensions import ReadOnly\n", []
    for i, (a, b) in enumerate(itertools.product(kinds, repeat=2)):
        body = (f"    a: {a}\n" if a else "") + (f"    b: {b}\n" if b else "")
        head += f"class D{i}(TypedDict):\n{body or '    pass' + chr(10)}"
        names.append(f"D{i}")
    return head, names + ["Mapping[str, object]", "Mapping[str, int]", "dict[str, int]", "dict[str, object]"]


MEMBERS = {
    "method": "def x(self) -> ~: ...",
    "method with argument": "def x(self, a: int) -> ~: ...",
    "method with optional": "def x(self, a: int = 1) -> ~: ...",
    "variable": "x: ~",
    "class variable": "x: ClassVar[~]",
    "property": "@property\n    def x(self) -> ~: ...",
    "settable": "@property\n    def x(self) -> ~: ...\n    @x.setter\n    def x(self, value: ~) -> None: ...",
    "class method": "@classmethod\n    def x(cls) -> ~: ...",
    "static method": "@staticmethod\n    def x() -> ~: ...",
    "callable": "x: Callable[[], ~]",
    "final": "x: Final[~] = cast(Any, 1)",
    "none": "pass",
}


def members(types):
    """classes and protocols with each kind of member; the protocols are the targets"""
    head = "from typing import *\n"
    sources, targets = [], []
    for i, (kind, t) in enumerate(itertools.product(MEMBERS, types)):
        if kind == "none" and t != types[0]:
            continue
        head += f"class C{i}:\n    {MEMBERS[kind].replace('~', t)}\n"
        sources.append(f"C{i}")
        if kind not in ("none", "final"):
            head += f"class P{i}(Protocol):\n    {MEMBERS[kind].replace('~', t)}\n"
            targets.append(f"P{i}")
    return head.replace("-> int: ...", "-> int: return 1").replace("-> bool: ...", "-> bool: return True").replace("-> str: ...", "-> str: return ''"), sources + targets, targets


def text(pairs, head=HEAD):
    """one line per pair, and the number of the first"""
    return head + "".join(f"def f{i}(x: {s}) -> {t}: return x\n" for i, (s, t) in enumerate(pairs)), head.count("\n") + 1


def mypy(pairs, head=HEAD):
    """the lines that Mypy rejects"""
    d = tempfile.mkdtemp()
    try:
        t, line = text(pairs, head)
        with open(os.path.join(d, "a.py"), "w") as f:
            f.write(t)
        r = subprocess.run(["mypy", "--strict-optional", "--no-incremental", "--cache-dir=/dev/null", "--no-error-summary", "--config-file=", "--hide-error-context",
                            "--python-version=3.12", "a.py"], cwd=d, capture_output=True, text=True)
        if r.returncode not in (0, 1):
            raise RuntimeError(r.stdout[-2000:] + r.stderr[-2000:])
        bad = {int(m[1]): m[2] for m in re.finditer(r"^a\.py:(\d+): error: (.*)$", r.stdout, re.M)}
        outside = {n: m for n, m in bad.items() if n < line}
        if outside:
            raise RuntimeError(str(outside))
        return {n - line: m for n, m in bad.items()}
    finally:
        shutil.rmtree(d)


GENERIC = {
    "identity": "(self, x: T) -> T",
    "to list": "(self, x: T) -> list[T]",
    "from list": "(self, x: list[T]) -> T",
    "two": "(self, x: T, y: T) -> T",
    "pair": "(self, x: T, y: U) -> tuple[T, U]",
    "swap": "(self, x: T, y: U) -> tuple[U, T]",
    "bound": "(self, x: B) -> B",
    "constrained": "(self, x: C) -> C",
    "bound list": "(self, x: list[B]) -> B",
    "callback": "(self, x: Callable[[T], U]) -> Callable[[list[T]], list[U]]",
    "int": "(self, x: int) -> int",
    "str": "(self, x: str) -> str",
    "bool": "(self, x: bool) -> bool",
    "object": "(self, x: object) -> int",
    "int list": "(self, x: int) -> list[int]",
    "list int": "(self, x: list[int]) -> int",
    "two ints": "(self, x: int, y: int) -> int",
    "int str": "(self, x: int, y: str) -> tuple[int, str]",
    "str int": "(self, x: int, y: str) -> tuple[str, int]",
    "any": "(self, x: Any) -> Any",
    "union": "(self, x: int | str) -> int | str",
}
OVERLOADS = [["int", "str"], ["str", "int"], ["bool", "str"], ["identity", "two"], ["int", "two ints"], ["str", "union"]]


def functions():
    """protocols with generic and overloaded __call__ methods"""
    head = "from typing import *\nT = TypeVar('T')\nU = TypeVar('U')\nB = TypeVar('B', bound=int)\nC = TypeVar('C', int, str)\n"
    names = []
    for k, s in GENERIC.items():
        names.append("F_" + k.replace(" ", "_"))
        head += f"class {names[-1]}(Protocol):\n    def __call__{s}: ...\n"
    for ks in OVERLOADS:
        names.append("O_" + "_".join(ks).replace(" ", "_"))
        head += f"class {names[-1]}(Protocol):\n" + "".join(f"    @overload\n    def __call__{GENERIC[k]}: ...\n" for k in ks)
    return head, names


def definition(head, name):
    """how a class of the head is written"""
    m = re.search(rf"^class {re.escape(name)}[(:].*\n(?:    .*\n)*", head, re.M)
    return re.sub(r"\s+", " ", m[0]).strip() if m else name
