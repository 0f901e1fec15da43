"""The Python programs that the differential checks enumerate completely.

A template is a text with holes: `$e` expression, `$t` assignment target, `$p` match pattern, `$b` block body,
`$a` parameter list, `$k` call arguments.  Depth 1 fills every hole with its default; depth n+1 replaces one hole at
a time (thorough: every pair of holes) by every depth-n text.
"""
import itertools
import re

ATOMS = ["a", "1", "'s'", "None", "...", "True", "b''", "1.5", "2j", "f''", "_", "match", "type", "case"]
EXPRS = [
    "($e)", "()", "($e,)", "($e, $e)", "($e, *$e, $e)", "(*$e, $e)", "[]", "[$e]", "[$e, $e,]", "[*$e, $e]", "{}", "{$e}", "{$e, *$e}",
    "{*$e}", "{$e: $e}", "{$e: $e, **$e}", "{**$e, $e: $e,}",
    "(x := $e)", "[x := $e]", "f(x := $e)", "[x := $e, y]", "{x := $e}",
    "$e.n", "$e()", "$e($e)", "$e($e,)", "$e($e, $e)", "$e(k=$e)", "$e(k=$e,)", "$e(*$e)", "$e(**$e)", "$e($e, *$e, k=$e, **$e)",
    "$e(k=$e, *$e)", "$e(*$e, $e, k=$e)", "$e(**$e, k=$e)", "$e(k=$e, *$e, **$e, m=$e)", "$e($e for x in $e)",
    "$e[$e]", "$e[$e, $e]", "$e[$e,]", "$e[:]", "$e[$e:]", "$e[:$e]", "$e[$e:$e]", "$e[::]", "$e[$e::]", "$e[:$e:]", "$e[::$e]",
    "$e[$e:$e:]", "$e[$e::$e]", "$e[:$e:$e]", "$e[$e:$e:$e]", "$e[$e:$e, $e]", "$e[*$e]", "$e[*$e, $e]", "$e[($e, $e)]", "$e[:, $e]",
    "$e[x := $e]", "$e[...]",
    "-$e", "+$e", "~$e", "not $e", "await $e", "- -$e", "not not $e", "$e ** -$e", "-$e ** $e", "await $e ** $e",
    "$e + $e", "$e - $e", "$e * $e", "$e / $e", "$e // $e", "$e % $e", "$e @ $e", "$e ** $e", "$e << $e", "$e >> $e",
    "$e & $e", "$e | $e", "$e ^ $e", "$e and $e", "$e or $e",
    "$e < $e", "$e > $e", "$e <= $e", "$e >= $e", "$e == $e", "$e != $e", "$e in $e", "$e not in $e", "$e is $e", "$e is not $e",
    "$e < $e < $e", "$e in $e not in $e is $e", "$e and $e or $e", "$e or $e and $e", "$e and $e and $e", "$e + $e * $e - $e",
    "$e if $e else $e", "lambda: $e", "lambda x: $e", "lambda x, *y, z=$e, **w: $e", "lambda x, /, y=$e: $e", "lambda *, x: $e",
    "lambda *x: $e", "lambda **x: $e", "lambda x=$e, /: $e",
    "[$e for x in $e]", "{$e for x in $e}", "($e for x in $e)", "{$e: $e for x in $e}", "[$e for x in $e if $e if $e]",
    "[$e for x, y in $e for z in $e]", "[$e async for x in $e]", "[x := $e for y in $e]", "[$e for x.y in $e]", "[$e for x, in $e]",
    "[$e for x[$e] in $e]", "[$e for (x, *y) in $e]",
    "(yield)", "(yield $e)", "(yield $e, $e)", "(yield from $e)", "(yield *$e, $e)",
    "f'{$e}'", "f'{$e!r}'", "f'{$e:>{$e}}'", "f'a{$e}b{$e}c'", "f'{$e=}'", "'x' f'{$e}' 'y'", "f'{$e,}'", "f'''{\n$e}'''", "rf'{$e:\\d}'",
    "f'{$e!r:^{$e}.{$e}}'", "f'{{{$e}}}'", "f\"{f'{$e}'}\"",
    "'a' 'b'", "'a' \"b\" r'\\n'", "b'a'", "0x1F", "0o17", "0b11", "1_000", "1e5", "1.", ".5", "1e-3", "0", "00", "1_0.0_1e1_0", "0xFFj" [:4], "10j",
    "print", "\\\n$e", "(\n$e\n)", "[ # c\n$e, # d\n]",
]
TARGETS = [
    "$t, $t", "$t,", "($t)", "($t, $t)", "($t,)", "[$t]", "[$t, $t]", "[$t,]", "()", "[]", "*$t, $t", "$t, *$t", "($t, *$t)", "[*$t]", "*$t,",
    "x.y", "x.y.z", "x[0]", "x[0].y", "x().y", "x.y[0:1]", "x(1)[2]", "(x).y", "(x, y)[0]", "[x][0]", "x[0, 1]", "x[*y]", "x(y for y in z).a",
    "'s'.x", "x(k=1).y", "x[a:b, c]", "(yield).x", "match", "type", "_", "case.x", "{}[1]", "f''.x", "x.match", "(*$t, $t)",
]
PATTERNS = [
    "1", "-1", "1.5", "-1j", "1+2j", "-1-2j", "'s'", "'a' 'b'", "b''", "None", "True", "False", "_", "x", "a.b", "a.b.c", "f''",
    "$p | $p", "$p | $p | $p", "($p)", "($p,)", "($p, $p)", "()", "[]", "[$p]", "[$p, $p]", "[*x]", "[*_]", "[$p, *x, $p]", "(*x, $p)",
    "{}", "{1: $p}", "{'a': $p, a.b: $p}", "{1: $p, **r}", "{**r}", "{None: $p,}", "{-1: $p, 1+2j: $p}", "{1: $p, **r,}",
    "C()", "C($p)", "C($p,)", "C($p, $p)", "C(k=$p)", "C(k=$p,)", "C($p, k=$p)", "C($p, $p, k=$p, m=$p)", "a.C($p)", "a.b.C(k=$p)",
    "$p as x", "($p as x)", "[$p as x]", "C($p as x)", "{1: $p as x}", "$p, $p", "$p,", "*x, $p", "$p, *_", "C(k=$p, m=$p)",
    "match", "case", "type", "match.x", "match()", "_x", "*_,",
]
PARAMS = [
    "", "x", "x,", "x, y", "x=1", "x, y=1", "x=1, y=2", "x, /", "x, /, y", "x, /, y=1", "x=1, /", "x=1, /, y=2", "x, y=1, /", "x, y=1, /, z=2",
    "*x", "*x,", "*x, y", "*x, y=1", "*x, y, z=1", "*, x", "*, x=1", "*, x, y=1", "**x", "**x,", "x, *y", "x, *y, z", "x, *, y", "x, **y",
    "x=1, *y, z, w=2, **v", "x, /, *y", "x, /, *, y", "x, /, **y", "x, /, y, *z, w, **v", "x, /, y, z=1, *, w", "*x, **y", "*x, y, **z",
    "*, x, **y", "*, x, **y,", "x, /, y, ", "x, /, y=1, *z", "x=1, /, *y", "x, y=1, *z", "x, y=1, **z", "x, /,", "*x, y,", "*, x,",
    "x=1, /, y=2, *z, w=3, **v", "match, type=1, *, case",
    # rejected
    "x=1, y", "*", "*,", "/", "/, x", "x, /, y, /", "**x, y", "*x, *y", "x, *y, /", "*, **x", "**x=1", "*x=1", "x=1, /, y", "x, , y", ",",
]
ANN_PARAMS = ["x: int", "x: int = 1", "x, y: int", "*x: int", "*x: *int", "**x: int", "x: int, /, y: int = 1, *z: int, w: int, **v: int",
              "*, x: int = 1", "x: int, /", "x: lambda: 1", "x: (yield)", "x: 1 if a else b = 2", "**x: *int", "x: *int"]
TPARAMS = ["", "[T]", "[T,]", "[T, U]", "[T: int]", "[*Ts]", "[**P]", "[T: (int, str), *Ts, **P]", "[]", "[T, *Ts,]", "[type]", "[*Ts: int]", "[1]"]
BODIES = ["pass", "x; y", "x;", "'doc'", "'doc'; x", "\n pass", "\n x\n y", "\n\n x", "\n #c\n x\n#d", "\n 'doc'\n x", "\n\tx", "\n  if z: x\n  y",
          "\n 'a' 'b'", "\n f''", "\n b''", "\n ('doc')", "\n x;\n y;z", "...", "\n x\n\n"]
SIMPLE = [
    "$e", "$e,", "$e, $e", "*$e,", "*$e, $e", "$t = $e", "$t = $t = $e", "$t = $e,", "$t = *$e,", "$t = yield", "$t = yield $e", "$t = yield from $e",
    "x: $e", "x: $e = $e", "x.y: $e", "x[0]: $e = $e", "(x): $e", "(x.y): $e = yield", "((x)): $e", "x: $e = $e, $e", "x: $e = *$e,",
    "x += $e", "x.y -= $e", "x[0] *= $e", "(x) /= $e", "x //= $e", "x %= $e", "x @= $e", "x &= $e", "x |= $e", "x ^= $e", "x >>= $e", "x <<= $e",
    "x **= $e", "x += yield", "x += $e, $e", "x.y.z += yield $e",
    "del $t", "del $t, $t", "del ($t, $t), $t", "del ((x))", "del (x, (y, [z]))", "del x,", "del (x,)", "del x.y, z[0]",
    "pass", "break", "continue", "return", "return $e", "return $e, $e", "return *$e, $e", "raise", "raise $e", "raise $e from $e",
    "global x", "global x, y", "nonlocal x", "nonlocal x, y", "assert $e", "assert $e, $e", "yield", "yield $e", "yield $e, $e", "yield from $e",
    "import x", "import x.y", "import x.y.z", "import x as y", "import x.y as z", "import x, y.z as w, v", "import match", "import x.type",
    "from x import y", "from x import y as z", "from x import y, z as w", "from x import (y)", "from x import (y, z,)", "from x import *",
    "from . import x", "from .. import x", "from ... import x", "from .... import x", "from .x import y", "from ...x.y import z", "from . .. x import y",
    "from x.y.z import w", "from . import *", "from . import (x as y)", "from ..... x import y", "from x import (y\n, z)", "from .match import case",
    "type X = $e", "type X[T] = $e", "type X[T: $e, *Ts, **P] = $e", "type = $e", "type(x)", "type[x]", "type.x", "type X[T,] = $e", "type type = type",
    "match = $e", "match(x)", "match[x]", "match.x", "match * x", "match - x", "match, x", "case = $e", "_ = $e", "print $e", "match x", "match (x), y",
    "x = match", "x = type", "match: $e", "match -$e", "case: $e = 1", "type: $e", "match = case = type = _",
]
SIMPLE_BAD = [
    "$t", "x := $e", "x = ", "= x", "x + = 1", "from import x", "import", "import x.", "from x import", "from x import y,", "from x import ()",
    "from x import (y", "from x import (*)", "del", "del x + 1", "del f()", "global", "global x.y", "nonlocal", "assert", "raise from x", "return =",
    "lambda", "x = = y", "f(x for x in y, z)", "f(**x, *y)", "f(k=1, x)", "f(**x, y)", "1 = x", "f() = 1", "x + y = 1", "None = 1", "x: y: z", "x += y += z",
    "(x, y): int", "[x]: int", "(x, y) += 1", "x if y", "x if y else", "not", "x not y", "x is is y", "x in", "await", "{x: }", "{x:y, z}", "{x, y:z}",
    "{**x, y}", "{*x: y}", "[x for]", "[for x in y]", "[x for x]", "[x for x in]", "(x for x in y, z)", "[*x for x in y]", "{**x for x in y}",
    "(*x)", "*x", "**x", "x = **y", "f(*)", "f(**)", "f(x=)", "f(=x)", "x[", "x[]", "x[:::]", "x.", ".x", "x..y", "x.1", "1x", "0x", "0b2", "0o8", "01", "1__0",
    "1_", "1e", "1e+", "'", "\"", "'''", "f'{'", "f'}'", "f'{}'", "f'{!r}'", "f'{x!}'", "f'{x!r'", "f'{x:'", "f'{x'", "b'a' 'b'", "'a' b'b'", "?", "$", "!x",
    "x ! y", "x <> y", "a b", "if x", "else", "for x in y", "while x", "try", "except", "class", "class x", "def", "def f", "def f()", "with x", "async", "async x",
    "@x", "pass x", "break x", "continue x", ";", "x;;y", ";x", "(", ")", "[", "]", "{", "}", "(]", "x = (", "f(x", "f(x))", "->", ":", "x:", ":x",
    "import x as", "import x as y.z", "import x as (y)", "from x import y as", "type X", "type X =", "type X.y = 1", "type X[] = 1", "yield = 1", "x = yield = y",
    "x, yield", "f(yield)", "return yield", "return x := y", "assert x := y", "lambda x: y := 1", "lambda (x): y", "x = y := 1", "f(x=y:=1)", "[x := 1, 2]",
    "{x := 1: 2}", "{1: x := 2}", "x[y := 1]", "x[y := 1, z]", "x[y:=1:2]", "x[a:b:=1]", "(x.y := 1)", "(x[0] := 1)", "((x) := 1)", "(x := y := 1)", "f(a.b=1)", "f(1=2)",
    "f((a)=1)", "f(a)(b)=1", "lambda *: x", "lambda *, : x", "lambda /: x", "print x", "exec x", "x = print y", "not x = y", "-x = y", "(x) = (y) = 1", "x, y += 1",
    "*x = y", "*x += 1", "*x: int", "x: *y", "x = *y", "return *x", "yield *x", "for x in *y", "del *x", "del *x, y", "[*x, y] = *z,", "assert *x, y", "x[*y:]", "x[*y:*z]",
]
COMPOUND = [
    "if $e: $b", "if $e: $b\nelse: $b", "if $e: $b\nelif $e: $b", "if $e: $b\nelif $e: $b\nelif $e: $b\nelse: $b", "if x := $e: $b",
    "while $e: $b", "while $e: $b\nelse: $b", "while x := $e: $b", "for $t in $e: $b", "for $t in $e: $b\nelse: $b", "for $t in $e, $e: $b", "for $t in *$e, $e: $b",
    "async for $t in $e: $b", "async for $t in $e: $b\nelse: $b",
    "with $e: $b", "with $e as $u: $b", "with $e as $u, $e: $b", "with $e, $e as $u: $b", "with ($e): $b", "with ($e, $e): $b", "with ($e as $u): $b",
    "with ($e as $u, $e as $u,): $b", "with ($e), $e: $b", "with ($e) as $u: $b", "with ($e, $e) as $u: $b", "async with $e as $u: $b", "async with ($e as $u): $b",
    "async with $e, $e: $b", "with (x := $e): $b", "with (yield $e): $b", "with ($e,): $b", "with (): $b", "with ($e for x in y): $b", "with ($e).x: $b", "with ($e) + $e: $b",
    "try: $b\nexcept: $b", "try: $b\nexcept $e: $b", "try: $b\nexcept $e as x: $b", "try: $b\nexcept $e: $b\nexcept: $b\nelse: $b\nfinally: $b",
    "try: $b\nfinally: $b", "try: $b\nexcept* $e: $b", "try: $b\nexcept *$e as x: $b\nexcept* $e: $b\nelse: $b\nfinally: $b", "try: $b\nexcept ($e, $e): $b",
    "try: $b\nexcept ($e, $e) as x: $b", "try: $b\nexcept: $b\nfinally: $b", "try: $b\nexcept $e: $b\nelse: $b",
    "def f($a): $b", "def f($a) -> $e: $b", "async def f($a): $b", "async def f($a) -> $e: $b", "def f$q(x): $b", "def match($a): $b", "def type$q(): $b",
    "@$e\ndef f($a): $b", "@$e\n@$e\ndef f(): $b", "@$e\nclass C: $b", "@$e\nasync def f(): $b", "@x := $e\ndef f(): $b", "@$e\n\n# c\n@$e\nclass C($k): $b",
    "class C: $b", "class C(): $b", "class C($k): $b", "class C$q: $b", "class C$q($k): $b", "class C$q(): $b", "class match: $b", "class type($k): $b",
    "match $e:\n case $p: $b", "match $e:\n case $p if $e: $b", "match $e:\n case $p: $b\n case $p: $b", "match $e, $e:\n case $p: $b", "match $e,:\n case $p: $b",
    "match *$e, $e:\n case $p: $b", "match x := $e:\n case $p if x := $e: $b", "match ($e):\n case $p: $b", "match [$e]:\n case $p: $b", "match -$e:\n case $p: $b",
    "match match:\n case case: $b", "match(x):\n case $p: $b", "match {$e}:\n case $p: $b", "match not $e:\n case _: $b", "match lambda: $e:\n case _: $b",
    "match $e:\n\n case $p:\n  x\n # c\n case _: $b", "match (x, y):\n case $p: $b", "match x.y, z:\n case $p: $b", "match (yield):\n case _: $b", "match await $e:\n case _: $b",
]
COMPOUND_BAD = [
    "if $e $b", "if: $b", "else: $b", "elif $e: $b", "if $e: $b\nelse: $b\nelse: $b", "if $e: $b\nelse: $b\nelif $e: $b", "for $t: $b", "for in $e: $b", "for $e in: $b",
    "for f() in $e: $b", "while: $b", "while $e: $b\nelif $e: $b", "with: $b", "with $e as: $b", "with $e as f(): $b", "with $e as 1: $b", "with () as: $b", "with (*$e): $b", "with *$e: $b",
    "with ($e as x) as y: $b", "with $e as x as y: $b", "try: $b", "try: $b\nelse: $b", "try: $b\nexcept: $b\nexcept* $e: $b", "try: $b\nexcept*: $b",
    "try: $b\nfinally: $b\nexcept: $b", "try: $b\nexcept as x: $b", "try: $b\nexcept $e as x.y: $b", "except: $b", "finally: $b",
    "def f(): ", "def f: $b", "def (): $b", "def f() ->: $b", "def f.g(): $b", "def f(x.y): $b", "def f(1): $b", "def f((x)): $b", "async class C: $b", "async if x: $b",
    "class C(: $b", "class C): $b", "class C.D: $b", "class 1: $b", "@\ndef f(): $b", "@x\nx", "@x\nif x: $b", "@x", "@x def f(): $b",
    "match x: pass", "match x:\n pass", "match x:\n case: $b", "match x:\ncase 1: $b", "match x:\n case $p $b", "case 1: $b", "match:\n case 1: $b", "match x\n case 1: $b",
    "match x:\n case -x: $b", "match x:\n case 1+1: $b", "match x:\n case x.y+1: $b", "match x:\n case f(): $b\n else: $b", "match x:\n case *x: $b", "match x:\n case {*x}: $b",
    "match x:\n case {**_}: $b", "match x:\n case {x: 1}: $b", "match x:\n case {**r, 1: x}: $b", "match x:\n case C(k=1, x): $b", "match x:\n case x as y.z: $b", "match x:\n case x as _: $b",
    "match x:\n case 1 as 2: $b", "match x:\n case (x := 1): $b", "match x:\n case x[0]: $b", "match x:\n case C(**x): $b", "match x:\n case C(*x): $b", "match x:\n case 1 if: $b",
    "match x:\n case not 1: $b", "match x:\n case 'a' + 'b': $b", "match x:\n case 1 -2: $b", "match x:\n case - 1j + 1j: $b", "match x:\n case |x: $b", "match x:\n case x|: $b",
    "match *x:\n case 1: $b", "match x:\n case C(a.b=1): $b", "match x:\n case [*x.y]: $b", "match x:\n case +1: $b", "match x:\n case ~1: $b", "match x:\n case ...: $b",
]
ARGS = ["A", "A, B", "A,", "*A", "k=A", "A, k=B", "**A", "A, *B, k=C, **D", "metaclass=A", "A for A in B", "x := A", "*A, k=1, *B", "k=1, **A, j=2"]
UTARGETS = ["x", "x.y", "x[0]", "(x, y)", "[x, y]", "(x)", "x, y", "*x", "()", "[]", "x().y", "(x,)", "[*x]", "match", "(x.y)", "x()"]

HOLE = re.compile(r"\$[etpbakqu]")
DEFAULT = {"$e": "a", "$t": "x", "$p": "1", "$b": "pass", "$a": "", "$k": "A", "$q": "", "$u": "x"}


def fill(t, choice=None):
    """Fill the holes of t; choice maps a hole's ordinal to its text."""
    choice = choice or {}
    n = [-1]

    def sub(m):
        n[0] += 1
        return choice.get(n[0], DEFAULT[m.group()])
    return HOLE.sub(sub, t)


def holes(t):
    return HOLE.findall(t)


def indent_body(b, ind):
    return b.replace("\n", "\n" + ind) if ind else b


def once(templates, choices, kind):
    """Every template with every single hole of `kind` filled by every choice."""
    for t in templates:
        hs = holes(t)
        for i, h in enumerate(hs):
            if h == kind:
                for c in choices:
                    yield fill(t, {i: c})


def expr1():
    return ATOMS + [fill(t) for t in EXPRS]


def targets1():
    return ["x"] + [fill(t) for t in TARGETS]


def patterns1():
    return [fill(t) for t in PATTERNS]


def bracketed(xs):
    for x in xs:
        yield x
        yield f"({x})"


def compound_fill(t, choice):
    """Bodies of a template are indented to the depth of their clause."""
    n = [-1]

    def sub(m):
        n[0] += 1
        c = choice.get(n[0], DEFAULT[m.group()])
        if m.group() == "$b":
            line = t[t.rfind("\n", 0, m.start()) + 1:m.start()]
            c = indent_body(c, line[:len(line) - len(line.lstrip())])
        return c
    return HOLE.sub(sub, t)


def space_expr2(thorough):
    e1 = list(bracketed(expr1()))
    yield from (f"{x}\n" for x in e1)
    yield from (f"{x}\n" for x in once(EXPRS, e1, "$e"))


def space_expr_pairs(thorough):
    """Two operators side by side: every pair of holes of every template gets every pair of small texts."""
    small = ["a", "not a", "-a", "a + b", "a * b", "a < b", "a and b", "a or b", "a if b else c", "lambda: a", "a.b", "a(b)", "await a", "*a", "a, b",
             "x := a", "yield", "a ** b", "a | b", "'s'"]
    if thorough:
        small = list(dict.fromkeys(small + ["a[b]", "[a]", "{a: b}", "1", "f'{a}'", "a << b", "a & b", "a is not b", "a == b == c", "~a", "(a)", "a @ b",
                                            "[a for b in c]", "a if b else lambda: c", "not a == b", "-a ** -b", "None", "...", "()", "a,"]))
    for t in EXPRS:
        n = len(holes(t))
        for i, j in itertools.combinations(range(n), 2):
            for x, y in itertools.product(small, repeat=2):
                # replacement fields that start with * or yield are listed in ODD
                if "f'" in t and (x in ("*a", "yield") or y in ("*a", "yield")):
                    continue
                yield fill(t, {i: x, j: y}) + "\n"


def space_simple(thorough):
    e1 = expr1()
    t1 = list(bracketed(targets1()))
    t2 = list(once(TARGETS, list(bracketed(targets1())), "$t"))
    for t in SIMPLE + SIMPLE_BAD:
        yield fill(t) + "\n"
    yield from (x + "\n" for x in once(SIMPLE + SIMPLE_BAD, e1, "$e"))
    yield from (x + "\n" for x in once(SIMPLE, t1 + t2, "$t"))
    # every expression as an assignment target, annotation target and del target: what is assignable?
    for x in bracketed(e1):
        yield f"{x} = 1\n"
        yield f"{x} += 1\n"
        yield f"{x}: int\n"
        yield f"del {x}\n"
        yield f"for {x} in y: pass\n"
        yield f"with a as {x}: pass\n"
        yield f"[a for {x} in y]\n"
        yield f"({x} := 1)\n"
        yield f"f({x} = 1)\n"
        yield f"{x}, y = 1\n"
        yield f"*{x}, y = 1\n"
        yield f"[{x}] = 1\n"
        yield f"@{x}\ndef f(): pass\n"
        yield f"import {x}\n"
        yield f"def f(x={x}): pass\n"
        yield f"def {x}(): pass\n"
        yield f"lambda x={x}: 1\n"
        yield f"global {x}\n"


def space_compound(thorough):
    e1 = expr1()
    t1 = list(bracketed(targets1()))
    all_ = COMPOUND + COMPOUND_BAD
    fills = {"$e": list(bracketed(e1)), "$t": t1 + list(once(TARGETS, targets1(), "$t")), "$b": BODIES + [s for s in SIMPLE if not holes(s)],
             "$a": PARAMS + ANN_PARAMS, "$k": ARGS, "$q": TPARAMS, "$u": UTARGETS}
    p1 = patterns1()
    fills["$p"] = p1 + list(once(PATTERNS, list(bracketed(p1)), "$p"))
    for t in all_:
        yield compound_fill(t, {}) + "\n"
        for i, h in enumerate(holes(t)):
            for c in fills[h]:
                yield compound_fill(t, {i: c}) + "\n"
    # nested compound statements
    one = [compound_fill(t, {}) for t in COMPOUND]
    for t in COMPOUND + ["x\n$b" for _ in range(0)]:
        for i, h in enumerate(holes(t)):
            if h == "$b":
                for c in one + [compound_fill(x, {}) for x in COMPOUND_BAD]:
                    body = "\n " + c.replace("\n", "\n ")
                    yield compound_fill(t, {i: body}) + "\n"
                    yield compound_fill(t, {i: body + "\n y"}) + "\nz\n"
    for x, y in itertools.product(one, repeat=2):
        yield f"{x}\n{y}\n"
    for x in PARAMS + ANN_PARAMS:
        yield f"lambda {x}: 1\n"
        yield f"f(lambda {x}: 1, y)\n"
    for x in TPARAMS:
        yield f"type X{x} = int\n"
    if thorough:
        for x, y, z in itertools.product(one[::2], repeat=3):
            yield f"{x}\n{y}\n{z}\n"
        p2 = fills["$p"]
        for x in once(PATTERNS, p2, "$p"):
            yield f"match a:\n case {x}: pass\n"


TOKENS = ["a", "1", "''", "(", ")", "[", "]", "{", "}", ",", ":", "=", ":=", ".", "*", "**", "-", "->", "@", "~", "|", "<", "!=", "+=", "...", ";", "\n",
          "\n ", "\n  ", "if", "else", "for", "in", "not", "is", "lambda", "await", "async", "yield", "from", "import", "as", "def", "class", "with", "try",
          "except", "finally", "while", "return", "del", "global", "assert", "raise", "pass", "match", "case", "type", "_", "None", "and", "elif", "/"]
CORE = ["a", "1", "(", ")", "[", "]", "{", "}", ",", ":", "=", ":=", ".", "*", "**", "-", "\n", "\n ", "if", "else", "for", "in", "not", "lambda", "yield",
        "import", "as", "def", "class", "with", "try", "except", "match", "case", "type", "_"]
TINY = ["a", "1", "(", ")", "[", "]", ",", ":", "=", ":=", ".", "*", "\n", "\n ", "if", "for", "in", "lambda", "match", "case"]


def space_tokens(thorough):
    for n in range(1, 4):
        for s in itertools.product(TOKENS, repeat=n):
            yield " ".join(s) + "\n"
    for s in itertools.product(CORE if thorough else TINY, repeat=4):
        yield " ".join(s) + "\n"
    if thorough:
        for s in itertools.product(TINY, repeat=5):
            yield " ".join(s) + "\n"


def space_lines(thorough):
    """Layout: every sequence of lines made of an indentation and a kind of line."""
    kinds = ["a", "", "#c", "if a:", "else:", "a(", ")", "a\\", "'''", "def f(): a; b", "class A:", "@d", "try:", "except:", "\\\n b", "\\\nb", "\\\n  \\\n b"]
    inds = ["", " ", "  ", "\t"]
    # CPython counts a tab in front of a continued line differently from other tabs
    lines = [i + k for i in inds for k in kinds if not (i == "\t" and k.startswith("\\"))]
    for n in range(1, 4):
        for s in itertools.product(lines, repeat=n):
            yield "\n".join(s) + "\n"
    if thorough:
        small = [i + k for i in ("", " ", "  ") for k in ("a", "", "#c", "if a:", "else:", "a(", ")", "a\\", "'''")]
        for s in itertools.product(small, repeat=4):
            yield "\n".join(s) + "\n"


FRAGS = ["{", "}", "{{", "}}", "a", ":", "!r", "=", " ", "'", '"', "(", ")", ",", "[b:c]", ">", "\\n", "f'", "x := b", "lambda: b"]


def space_fstrings(thorough):
    """f-strings by fragments, in four quoting frames."""
    frames = ["f'%s'", 'f"%s"', "f'''%s'''", 'rf"%s"']
    for n in range(0, 5 if thorough else 4):
        for s in itertools.product(FRAGS, repeat=n):
            for f in frames[:4 if n < 4 else 2]:
                yield f % "".join(s) + "\n"
    fields = ["a", "a,b", "a ", " a", "a[1:2]", "(lambda: a)", " {a: b} ", "a if b else c", "f'{a}'", 'f"{a}"', "'s'", '"s"', "(a)"]
    tails = ["", "!r", "!s", "=", " = ", "=!r", " !r", "!r "]
    specs = ["", ":", ":>3", " :>3", ": 3", ":{b}", ":{b}.{c}", ":%H:%M", ":{b:{c}}", ":{{}}", ":{b!r:>3}", ":=3", ":a:b"]
    for x in fields:
        for t in tails:
            for sp in specs:
                for pre in ("", "a", "{{"):
                    for post in ("", "b", "}}", "{d}"):
                        body = pre + "{" + x + t + sp + "}" + post
                        for f in frames:
                            yield f % body + "\n"


def space_endings(thorough):
    """Other line endings, and files without a final line ending."""
    one = [compound_fill(t, {}) for t in COMPOUND]
    base = one + [f"{x}\n{y}" for x in one for y in one[::5]]
    base += [compound_fill(t, {i: b}) for t in COMPOUND[::3] for i, h in enumerate(holes(t)) if h == "$b" for b in BODIES]
    base += ["x = '''a\nb'''", "x = 'a\\\nb'", "f'''{\na\n}\n'''", "x = \\\n1", "(\na,\n\n#c\nb)", "#c\n\n#d\na#e\n#f",
             "'''doc\n  more\n'''\nx", "b'''a'''", "rf'''\n{a}\n'''", "if a:\n\\\n b", "@d\n\n#c\nclass A:\n\n x\n\n\n #d\n y\nz",
             "r'''\n\n'''", "f'{a}'\n", "\n\n\n", "#c"]
    for t in base:
        for e in ("\n", "\r\n", "\r"):
            for end in ("", "\n", "\n\n"):
                yield (t + end).replace("\n", e)


# Programs on which the tree is known to deviate; each is listed in known-findings.jsonl.
ODD = ["\x0cb", "if a:\n a\n\x0cb", "f'{*a}'", "f'{*a, b}'", "f'{yield}'", "f'{yield a}'", "f'{a:{*b}}'", "rf'\\N{a}'", "f'{f\"a'b\"}'",
       "f\"{f'a\"b'}\"", "f'{f'''a'b'''}'", "if a:\n if b:\n  c\n \\\n #a\nd"]


def space_odd(thorough):
    yield from (t + "\n" for t in ODD)


SPACES = {"f-strings": space_fstrings, "line-endings": space_endings, "odd": space_odd,
          "expressions": space_expr2, "expression-pairs": space_expr_pairs, "simple-statements": space_simple,
          "compound-statements": space_compound, "tokens": space_tokens, "lines": space_lines}
