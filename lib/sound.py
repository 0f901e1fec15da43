"""Small programs, all of their runs under CPython, and the types and reachability that the type checker claims for them."""
import bisect
import builtins
import enum
import itertools
import re
import sys

PRELUDE = '''from dataclasses import dataclass
from enum import Enum
from typing import Any, Callable, Literal, NamedTuple
class A:
    a: int = 1
class B(A):
    b: str = ""
class C:
    def __init__(self, t: bool = True) -> None:
        self.t = t
    def __bool__(self) -> bool:
        return self.t
class D(A, C): ...
class E(Enum):
    x = 1
    y = 2
class N:
    __slots__ = ()
    def __call__(self) -> int: return 1
class P(NamedTuple):
    e: int
    f: str = ""
@dataclass
class Q:
    a: int
    b: str | None = None
    @property
    def p(self) -> int | str: return self.a
    def m(self) -> "Q": return self
    @classmethod
    def c(cls) -> "Q": return cls(1)
    @staticmethod
    def s(x: object) -> object: return x
def k() -> bool: return True
'''


class Stop(BaseException):
    """The tape of decisions is used up."""


class Env:
    """One execution: decisions come from a tape, reached places are recorded."""

    def __init__(self, once=True):
        self.once = once  # whether a run ends when a place is reached again
        self.ns = {"__name__": "a"}
        exec(PRELUDE, self.ns)
        self.ns["k"] = self.k
        self.ns["reveal_type"] = self.reveal
        self.tape, self.log, self.dead = [], [], False

    def k(self):
        if self.dead or not self.tape:
            self.dead = True
            raise Stop
        return self.tape.pop(0)

    def reveal(self, v):
        line = sys._getframe(1).f_lineno
        if self.dead:
            return v  # a finally block on the way out
        if self.once and any(l == line for l, _ in self.log) or len(self.log) > 60:
            self.dead = True
            raise Stop
        self.log.append((line, v))
        return v

    def values(self):
        A, B, C, D, E, N, P, Q = (self.ns[n] for n in "ABCDENPQ")
        return {
            "None": [None], "int": [0, 1, 2, True, False], "bool": [True, False], "str": ["", "a", "b"], "bytes": [b"", b"a"],
            "float": [0.0, 1.5],
            "Literal[0, 2]": [0, 2], "Literal['a']": ["a"], "Literal['a', 'b']": ["a", "b"],
            "Literal[True]": [True],
            "A": [A(), B(), D()], "B": [B()], "C": [C(True), C(False), D()], "E": [E.x, E.y], "Literal[E.x]": [E.x], "N": [N()],
            "tuple[int, str]": [(0, "")], "tuple[int, ...]": [(), (1,), (1, 2)], "tuple[str, str, int]": [("a", "b", 1)],
            "list[int]": [[], [1]], "dict[str, int]": [{}, {"a": 1}],
            "type[A]": [A, B], "type[int]": [int, bool], "Callable[[], int]": [lambda: 1, N()],
            "tuple[()]": [()], "tuple[int, *tuple[str, ...]]": [(1,), (1, "a"), (2, "", "b")], "set[str]": [set(), {"a"}],
            "slice": [slice(0, 1), slice(None)], "range": [range(0), range(2)], "P": [P(0), P(1, "a")], "Q": [Q(0), Q(1, "")],
            "object": [None, 0, 2, "", "a", A(), C(False), E.x, (), [1], A, lambda: 1],
        }


# -- what the type checker says --------------------------------------------------------------------
TOKEN = re.compile(r'\s*(<subclass of (?:"[^"]*"(?:, | and )?)+>|<callable subtype of [^>]*>|\.\.\.|->|[\w.]+|\'(?:[^\'\\]|\\.)*\'|b\'[^\']*\'|"[^"]*"|-?\d+|[\[\]|,()?*=:{}<>-])')


class Unknown(Exception):
    """Not a type that this can read: nothing is concluded."""


class Reader:
    def __init__(self, text):
        self.t = TOKEN.findall(text)
        if "".join(self.t).replace(" ", "") != text.replace(" ", ""):
            raise Unknown(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def union(self):
        ts = [self.one()]
        while self.peek() == "|":
            self.next()
            ts.append(self.one())
        return ("union", ts) if len(ts) > 1 else ts[0]

    def args(self):
        res = []
        self.next()
        while self.peek() != "]":
            if self.peek() == "":
                raise Unknown
            if self.t[self.i:self.i + 2] == ["(", ")"]:
                self.i += 2
                res.append(("()",))
            elif self.peek() == "fallback":
                self.i += 3
                res.append(("fallback", self.t[self.i - 1]))
            else:
                res.append(("...",) if self.peek() == "..." and self.next() else self.union())
            if self.peek() == ",":
                self.next()
        self.next()
        return res

    def one(self):
        w = self.next()
        if w.startswith("<subclass of"):
            return ("and", re.findall(r'"([^"]*)"', w))
        if w.startswith("<callable subtype of"):
            return ("callable",)
        if w == "(":
            r = self.union()
            if self.next() != ")":
                raise Unknown
            return r
        if w == "def":
            return self.function()
        if w == "Literal":
            self.next()
            vals = []
            while self.peek() != "]":
                x = self.next()
                if x != ",":
                    vals.append(x)
            self.next()
            if self.peek() == "?":
                self.next()
            return ("literal", vals)
        if w == "Overload":
            raise Unknown
        if not re.fullmatch(r"[A-Za-z_][\w.]*", w):
            raise Unknown(w)
        a = self.args() if self.peek() == "[" else []
        while self.peek() in ("?", "*"):
            self.next()
        return ("name", w, a)

    def function(self):
        depth = 0
        while True:
            w = self.next()
            depth += (w == "(") - (w == ")")
            if depth == 0:
                break
        if self.peek() == "->":
            self.next()
            self.one()
        return ("callable",)


def read(text):
    try:
        r = Reader(text)
        t = r.union()
        if r.i != len(r.t):
            raise Unknown(text)
        return t
    except IndexError:
        raise Unknown(text)


def literal(ns, w):
    m = re.fullmatch(r"a\.(\w+)\.(\w+)", w)
    if m:
        return getattr(ns[m[1]], m[2])
    try:
        return eval(w, {})
    except Exception:
        raise Unknown(w)


def named(ns, w):
    w = w.split("[")[0]
    try:
        return getattr(builtins, w[9:]) if w.startswith("builtins.") else ns[w[2:]]
    except (AttributeError, KeyError):
        raise Unknown(w)


def elements(ns, a, v):
    """Whether the tuple has these elements"""
    if a[-1][0] == "fallback":
        return isinstance(v, named(ns, a[-1][1])) and elements(ns, a[:-1], v)
    if a == [("()",)]:
        return v == ()
    if len(a) == 2 and a[1] == ("...",):
        return all(member(ns, a[0], x) for x in v)
    for i, x in enumerate(a):
        if x[0] == "name" and x[1] == "Unpack":
            after = len(a) - i - 1
            return len(v) >= len(a) - 1 and all(member(ns, y, w) for y, w in zip(a[:i], v)) and \
                all(member(ns, y, w) for y, w in zip(a[i + 1:], v[len(v) - after:])) and elements(ns, x[2][0][2], v[i:len(v) - after])
    return len(a) == len(v) and all(member(ns, x, y) for x, y in zip(a, v))


def member(ns, t, v):
    """Whether the value can belong to the type; generics are looked into as far as the value allows it."""
    k = t[0]
    if k == "union":
        return any(member(ns, x, v) for x in t[1])
    if k == "callable":
        return callable(v)
    if k == "and":
        return all(isinstance(v, named(ns, w)) for w in t[1])
    if k == "literal":
        return any(v is x if isinstance(x, enum.Enum) else v == x for x in (literal(ns, w) for w in t[1]))
    if k == "name":
        w, a = t[1], t[2]
        if w == "Any":
            return True
        if w == "Never":
            return False
        if w == "None":
            return v is None
        if w == "type":
            return isinstance(v, type) and (a[0][0] != "name" or a[0][1] == "Any" or issubclass(v, named(ns, a[0][1])))
        c = tuple if w == "tuple" else named(ns, w)
        if c is float and isinstance(v, int):
            return True
        if c is tuple:
            if not isinstance(v, tuple):
                return False
            return not a or elements(ns, a, v)
        if c in (list, set, frozenset) and a and isinstance(v, c):
            return all(member(ns, a[0], x) for x in v)
        if c is dict and a and isinstance(v, c):
            return all(member(ns, a[0], x) and member(ns, a[1], y) for x, y in v.items())
        return isinstance(v, c)
    raise Unknown


# -- a program and its runs ----------------------------------------------------------------------------
def module(functions):
    """One module of many functions; (text, first line of each)"""
    text, lines = PRELUDE, []
    for f in functions:
        lines.append(text.count("\n") + 1)
        text += f
    return text, lines


REVEAL = re.compile(r'Revealed type is "(.*)"$', re.S)


# what the signatures in typeshed allow for arguments that are not really possible
LAX = re.compile(r"getattr|\bmax\(|\bmin\(|sorted|\bsum\(|hash|dict\(\[|\{x: y\}|\{\w: |%|\bin\b|\|=|(?<!:) x \| |\(x \| |__name__|[(: ]*tuple.* <|P\b.* <", re.S)


def behind_jumps(text):
    """Lines (from 1) in the finally blocks of try statements with a jump"""
    res, tries, inside = set(), {}, {}
    for i, l in enumerate(text.split("\n"), 1):
        n = len(l) - len(l.lstrip())
        tries = {k: v for k, v in tries.items() if k < n or k == n and l.strip().startswith(("except", "finally", "else"))}
        inside = {k: v for k, v in inside.items() if k < n}
        if l.strip() == "try:":
            tries[n] = False
        elif l.strip() == "finally:":
            inside[n] = tries.pop(n)
        elif l.strip().startswith(("return", "break", "continue", "raise")):
            for k in tries:
                tries[k] = True
        if any(inside.values()):
            res.add(i)
    return res


def judge(functions, types, diagnostics, tapes, full=False):
    """Problems and the number of runs and visits of a module; types[i] are the inputs of function i"""
    text, lines = module(functions)
    revealed = {}
    for d in diagnostics:
        m = REVEAL.match(d[5])
        if m:
            revealed.setdefault(d[2], []).append(m[1])
    wrong = {bisect.bisect_right(lines, d[2]) - 1 for d in diagnostics if d[3] == "error" and "unreachable" not in d[5]}
    env = Env(not full)
    try:
        exec(compile(text.replace(PRELUDE, "\n" * PRELUDE.count("\n"), 1), "m", "exec"), env.ns)
    except Exception as e:  # the program is not one at all
        return [(0, f"cannot be run: {e!r}", None)], 0, 0, 0, 0
    values = env.values()
    parsed, problems, accepted, runs, visits, unknown = {}, [], 0, 0, 0, 0
    for n, (f, ps) in enumerate(zip(functions, types)):
        name = re.search(r"def (f\d+)", f)[1]
        if n in wrong:
            continue
        accepted += 1
        seen, left_out = set(), set() if full else behind_jumps(f)
        inputs = itertools.product(*[[v for a in p for v in values[a]
                                      # an object of two unrelated members is taken for the first one
                                      if not (type(v).__name__ == "D" and (len(ps) > 1 or a == "C" and "B" in p))] for p in ps])
        for args in inputs:
            for tape in (tapes if "k()" in f else [()]):
                env.tape, env.log, env.dead = list(tape), [], False
                runs += 1
                try:
                    env.ns[name](*args)
                except Stop:
                    pass
                except (TypeError, AttributeError, NameError) as e:
                    if not env.dead and not isinstance(e, UnboundLocalError) and not LAX.search(f):
                        key = (type(e), str(e))
                        if key not in seen:
                            seen.add(key)
                            problems.append((n, f"is accepted, but raises {e!r}", repr((args, tape))))
                except Exception:
                    pass  # an error of the program: what it reached before counts
                for line, v in env.log:
                    if line - lines[n] + 1 in left_out:
                        continue
                    visits += 1
                    key = (line, type(v), repr(v) if not isinstance(v, object) or type(v).__module__ == "builtins" else id(v))
                    if key in seen:
                        continue
                    seen.add(key)
                    ts = revealed.get(line)
                    if not ts:
                        problems.append((n, f"line {line - lines[n] + 1} is said to be unreachable, but {v!r} gets there", repr((args, tape))))
                        continue
                    ok = False
                    for s in ts:
                        if s not in parsed:
                            try:
                                parsed[s] = read(s)
                            except Unknown:
                                parsed[s] = None
                        try:
                            ok |= parsed[s] is None or member(env.ns, parsed[s], v)
                        except Unknown:
                            parsed[s] = None
                            ok = True
                    unknown += any(parsed[s] is None for s in ts)
                    if not ok:
                        problems.append((n, f"line {line - lines[n] + 1} reveals {' and '.join(ts)}, but {v!r} gets there", repr((args, tape))))
    return problems, accepted, runs, visits, unknown
