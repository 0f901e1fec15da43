"""Programs of several files over the names x and X, whose behaviour (what they print) a renaming must not change."""
import ast, io, itertools, json, keyword, subprocess, sys, tokenize

# module level: definitions of x, and an expression over {x} that shows it
DEFINED = {
    "variable": ("x = 1", "{x}"),
    "annotated": ("x: int = 1", "{x} + 1"),
    "twice": ("x = 1\nx = x + 1", "{x}"),
    "conditional": ("if len('a'):\n    x = 1\nelse:\n    x = 2", "{x}"),
    "function": ("def x(y=2): return y", "{x}(y=3)"),
    "recursive": ("def x(n): return n and x(n - 1)", "{x}(2)"),
    "decorated": ("def d(f): return f\n@d\ndef x(): return 5", "{x}()"),
    "class": ("class x:\n    y = 1\n    def z(self): return x.y", "{x}().z()"),
    "base": ("class x:\n    y = 1\nclass B(x): ...", "{x}.y"),
    "enum": ("import enum\nclass x(enum.Enum):\n    A = 1", "{x}.A.value"),
    "dataclass": ("import dataclasses\n@dataclasses.dataclass\nclass x:\n    y: int", "{x}(2).y"),
    "generator": ("def x():\n    yield 1", "list({x}())"),
    "loop": ("for x in [1, 2]: x", "{x}"),
    "with": ("import contextlib\nwith contextlib.nullcontext(3) as x: x", "{x}"),
    "walrus": ("(x := 4)", "{x}"),
    "tuple": ("x, y = 1, 2", "{x}"),
    "lambda": ("x = lambda a: a", "{x}(7)"),
    "global": ("x = 1\ndef f():\n    global x\n    x = 2\nf()", "{x}"),
    "closure": ("x = 1\ndef f(): return [x for _ in [x] if (lambda: x)()]\nf()", "{x}"),
    "shadowed": ("x = 1\ndef f(x): return x\nclass A:\n    x = 5\n    y = x\nprint(f(2), A.x, [x for x in [3]])", "{x}"),
    "annotation": ("class x: ...\ndef f(a: x, c: list[x]) -> x: return a\nv: x", "{x}.__mro__[1:]"),
    "f-string": ("x = 1\nprint(f'{x} {x!r:>{x}} {{y}}')", "{x}"),
    "alias": ("class A: y = 2\nx = A\nz = x", "{x}.y"),
    "match": ("match [1, 2]:\n    case [x, *_] if x: print(x)", "{x}"),
    "deleted": ("x = 0\ndel x\nx = 2", "{x}"),
    "try": ("try:\n    x = int('a')\nexcept ValueError as e:\n    x = 9", "{x}"),
}
USED = {
    "from": "from a import x\nprint({x})",
    "alias": "from a import x as y\nprint({y})",
    "module": "import a\nprint({a.x})",
    "module alias": "import a as z\nprint({z.x})",
    "star": "from a import *\nprint({x})",
    "both": "import a\nfrom a import x\nprint({x}, {a.x})",
    "local": "def f():\n    from a import x\n    return {x}\nprint(f())\nx = 100\nprint(x)",
    "try": "try:\n    from a import x\nexcept ImportError:\n    x = None\nprint({x})",
    "reexport": "from c import x\nprint({x})",
    "reexport module": "import c\nprint({c.x})",
    "two reexports": "from d import x\nprint({x})",
    "cycle": "import c\nimport a\nprint({a.x}, {c.x})",
    "reexport alias": "from c import y\nprint({y})",
    "package": "from p import x\nprint({x})",
    "package module": "import p.q\nprint({p.q.x})",
    "package from": "from p.q import x as x\nprint({x})",
    "own name": "from a import x\nclass A:\n    x = x\n    def f(self, x=x): return x is not None\nprint(A().f())",
}
# definitions of members x, and an expression that shows them
MEMBERS = {
    "attribute": "class A:\n    def __init__(self): self.x = 1\n    def f(self): return self.x\no = A()\nprint(o.x, o.f())",
    "class variable": "class A:\n    x = 1\n    y = x\n    def f(self): return self.x + A.x\nA.x = 2\nprint(A().f(), A.y)",
    "method": "class A:\n    def x(self, y): return y\n    def f(self): return self.x(y=2)\nprint(A().x(1), A().f(), A.x(A(), 3))",
    "inherited": "class A:\n    def x(self): return 1\nclass B(A): ...\nclass C(B):\n    def f(self): return self.x()\nprint(C().x(), C().f(), B().x())",
    "property": "class A:\n    @property\n    def x(self): return 1\n    @x.setter\n    def x(self, v): print(v)\na = A()\na.x = 3\nprint(a.x)",
    "static": "class A:\n    @staticmethod\n    def x(): return 1\n    @classmethod\n    def y(cls): return cls.x()\nprint(A.x(), A.y(), A().x())",
    "enum": "import enum\nclass A(enum.Enum):\n    x = 1\n    y = 2\nprint(A.x.value, A.y is A.x, A.x in A)",
    "dataclass": "import dataclasses\n@dataclasses.dataclass\nclass A:\n    x: int\n    y: int = 2\nprint(A(1, y=3).x, A(1).x, dataclasses.replace(A(1), y=3).x)",
    "named tuple": "from typing import NamedTuple\nclass A(NamedTuple):\n    x: int\n    y: int = 2\nprint(A(1).x, A(2, y=1).x)",
    "slots": "class A:\n    x: int\n    def __init__(self, x): self.x = x\nprint(A(2).x, A(3).x)",
    "parameter": "def f(x, *, y=1): return x + y\nprint(f(1), f(2), f(4, y=3))",
    "keyword only": "def f(*, x=1):\n    def g(): return x\n    return g()\nprint(f())",
    "star parameter": "def f(*x, **y): return x, y\nprint(f(1, y=2))",
    "method parameter": "class A:\n    def f(self, x): return x\n    def g(self): return self.f(1)\nprint(A().f(2), A().g())",
    "init parameter": "class A:\n    def __init__(self, x): self.y = x\nclass B(A): ...\nprint(A(1).y, B(2).y)",
    "lambda parameter": "f = lambda x, y=1: x + y\nprint(f(1), (lambda x: x)(3))",
    "nonlocal": "def f():\n    x = 1\n    def g():\n        nonlocal x\n        x += 1\n        return x\n    return g(), x\nprint(f())",
    "comprehension": "x = 5\nprint([x for x in range(x) if x], {x: x for x in [x]}, list(x for _ in 'a'))",
    "nested class": "class A:\n    class x:\n        y = 1\n    def f(self): return self.x.y\nprint(A.x.y, A().f())",
    "same name": "class A:\n    x = 1\nclass B:\n    x = 2\nprint(A.x, B.x, A().x, B().x)",
    "typed dict": "from typing import TypedDict\nclass x(TypedDict):\n    y: int\na: x = {'y': 1}\nprint(x(y=2), a)",
    "type parameter": "def f[x](a: x) -> x:\n    b: x = a\n    return b\nclass A[x]:\n    def g(self, y: x) -> x: return y\nprint(f(1), A[int]().g(2))",
    "type alias": "type x = int\ndef f(a: x) -> x: return a\nprint(f(1), x.__value__)",
    "exception": "class x(Exception): ...\ntry:\n    raise x()\nexcept x as e:\n    y = e\nprint(isinstance(y, x))",
    "chain": "class A:\n    def x(self): return self\nprint(type(A().x().x()) is A)",
    "unicode": "é = 'ä'; x = 'ß'; print('🎉', x, é, f'🎉{x}')",
    "augmented": "x = 1\nx += x\nx = x if x else -x\nprint(x)",
    "assert": "x = 1\nassert x, x\nprint(not x, x is x, x[0] if 0 else x)",
}


def worlds():
    for (d, (definition, shown)), (u, use) in itertools.product(DEFINED.items(), USED.items()):
        text = use
        for place in ("a.x", "z.x", "c.x", "p.q.x", "x", "y"):
            text = text.replace("{%s}" % place, shown.replace("{x}", place))
        files = {"a.py": definition + "\n", "b.py": text + "\n"}
        if "reexport" in u:
            files["c.py"] = "from a import x as y\n" if u == "reexport alias" else "from a import x as x\nx\n"
        if u == "two reexports":
            files["c.py"] = "from a import *\n"
            files["d.py"] = "from c import x\n"
        if u == "cycle":
            files["c.py"] = "import a\nfrom a import x\n"
            files["a.py"] += "import c\ndef cyclic():\n    from c import x as y\n    return y\n"
        if "package" in u:
            files = {"p/q.py": definition + "\n", "p/__init__.py": "from .q import x as x\n", "b.py": text + "\n"}
        yield f"{d} / {u}", files
    for m, text in MEMBERS.items():
        yield m, {"b.py": text + "\n"}
        head, _, last = text.rpartition("\n")
        if head:
            yield m + " imported", {"a.py": head + "\n", "b.py": "from a import *\n" + last + "\n"}


def identifiers(files, file):
    """the positions (in bytes) of all names, apart from those whose renaming is not promised: keyword arguments, names that
    Python itself gives a meaning, and what is in strings"""
    skip = {k.arg for t in files.values() for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Call) for k in n.keywords}
    text = files[file]
    lines = [0]
    for l in text.splitlines(keepends=True):
        lines.append(lines[-1] + len(l))
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.NAME and not keyword.iskeyword(t.string) and t.string not in skip \
                and t.string not in ("self", "cls", "match", "case", "type", "_") and not t.string.startswith("__"):
            yield len(text[:lines[t.start[0] - 1] + t.start[1]].encode()), t.string


def renamed(files, answer, new):
    out = dict(files)
    for f, ranges in answer["changes"]:
        b = bytearray(out[f].encode())
        for s, e in sorted(ranges, reverse=True):
            b[s:e] = new.encode()
        out[f] = b.decode()
    for f, t in answer["files"]:
        f, t = (x.split("/project/")[1] for x in (f, t))
        out = {(t + q[len(f):] if q == f or q.startswith(f + "/") else q): c for q, c in out.items()}
    return out


RUNNER = """
import sys, json
from importlib.machinery import ModuleSpec
sys.dont_write_bytecode = True
files = json.load(sys.stdin)

class Finder:
    # the files are never on a disk
    def find_spec(self, name, path=None, target=None):
        p = name.replace(".", "/")
        for f, package in ((p + "/__init__.py", True), (p + ".py", False)):
            if f in files:
                return ModuleSpec(name, Loader(f), is_package=package)

class Loader:
    def __init__(self, f): self.f = f
    def create_module(self, spec): return None
    def exec_module(self, m): exec(compile(files[self.f], self.f, "exec"), m.__dict__)

sys.meta_path.insert(0, Finder())
exec(compile(files["b.py"], "b.py", "exec"), {"__name__": "b"})
"""


def run(files):
    """what the program prints, and the last line of what it complains about"""
    r = subprocess.run([sys.executable, "-I", "-S", "-c", RUNNER], input=json.dumps(files), capture_output=True, text=True, timeout=60)
    return r.stdout, "".join(r.stderr.splitlines()[-1:])
