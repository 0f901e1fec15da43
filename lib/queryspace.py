"""Texts as they are while somebody types."""
import itertools
import snippets, halftyped

TOKENS = ("x 1 'a' f\"{ ( ) [ ] { } : , . = := * ** -> @ def class lambda import from return if else for in while match case "
          "with as async await yield type del global raise except try not is #c").split() + ["\n", "\n ", "\nx", "é"]
NAMES = ["A", "f", "int", "T", "None", "..."]
SMALL = "x 1 'a' f\"{ ( ) [ ] : , . = * -> @ def class lambda import from if for match case as".split() + ["\n", "\n ", "é"]
HOLES = [
    "class A:\n    def f(self, ~): self.x\nA().f\n", "def f(x): ...\ny = f(~)\ny\n", "from a import ~\nx\n",
    "from ~ import x\nx\n", "import ~\nx\n", "def f(a: ~) -> int: ...\nf\n", "class A: ...\nmatch A():\n    case ~: x\n",
    "x = [~ for x in y]\nx\n", "class A: ...\nclass B(~): ...\nB\n", "x: list[~] = []\nx\n", "@~\ndef f(): ...\nf()\n",
    "type X[~] = X\nX\n", "with ~: x\n", "for ~: x\n", "def f[T](x: T) -> ~: ...\nf\n", "f'{~}' + x\n",
    "class A:\n  ~ = 1\n  y = 2\nA.y\n", "if ~:\n  x = 1\nelse: x\n", "from typing import *\nx = TypedDict('x', ~)\nx\n",
    "from typing import *\nx = NamedTuple('x', [~])\nx\n",
    "from typing import *\nT = TypeVar('T', ~)\nP = ParamSpec('P')\ndef f(x: Callable[P, T]) -> ~: ...\n", " x = lambda ~: x\n",
    "import enum\nclass A(enum.Enum):\n  x = ~\nA.x\n", "from dataclasses import *\n@dataclass(~)\nclass A:\n  x: int\nA(1).x\n",
    "try: x\nexcept ~: x\n", "x = {~: 1}\nx\n", "def f():\n  ~\n  return x\nf()\n", "del ~\n", "x[~].y\n", "x = y = (yield ~)\n",
]


def unique(texts):
    return list(dict.fromkeys(texts))


def half_typed(inserted):
    """each of the programs cut off, with a token or the rest of a line missing, and with something inserted, at each token"""
    for t in snippets.PROGRAMS:
        yield t
        for s, e in halftyped.tokens(t):
            yield t[:e]
            yield t[:s] + t[e:]
            yield t[:e] + "\n" + t[e:].split("\n", 1)[-1]
            for i in inserted:
                yield t[:e] + i + t[e:]


def sequences(alphabet, length):
    for n in range(length + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield " ".join(s)


def holes(alphabet, length):
    for s in sequences(alphabet, length):
        for h in HOLES:
            yield h.replace("~", s)
