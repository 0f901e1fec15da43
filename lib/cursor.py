"""Questions about positions in valid programs, judged against CPython's ast and tokenizer."""
import ast
import io
import itertools
import json
import tokenize
import warnings

warnings.simplefilter("ignore")

BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
       ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor",
       ast.MatMult: "matmul"}
CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
UN = {ast.UAdd: "pos", ast.USub: "neg", ast.Invert: "invert"}

# -- the programs ---------------------------------------------------------------------------------
ATOMS = ["a", "a.b", "a.b.c", "f()", "f(a)", "f(a, b)", "f(a=1)", "f(*a)", "f(a, k=b, **c)", "f(x for x in y)", "a[0]", "(a)", "(a).b",
         "f(a).b", "f(g(a), b)", "f(a, g(k=b))", "-a", "a + b", "a < b", "lambda x: f(x)", "[a, f(b)]", "'s'", "a if b else f(c)",
         "f (a )", "f( a , b , )", "f(a,)", "f(k=1, )", "f(*a, b)", "f(\n a,\n b)", "(f)(a)", "f(a)(b)", "f(a)[b].c(d)", "await_(a)",
         "f(k=1, j=2)", "f(1, 'x', k=g(a))", "f(lambda: g(a))", "f'{g(a)}'", "f(a := b)", "f([g(a)], {k: g(b)})", "f(**a, k=b)", "f(*a, *b)",
         "f(k=a, *b)", "None", "True", "f(None)"]
OPS = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "|", "&", "^", "@", "==", "!=", "<", "<=", ">", ">=", "in", "is", "and", "not in"]
STMT = ["{}", "x = {}", "x: int = {}", "return_({})", "if {}:\n    pass", "assert {}, {}", "print({}, {})", "del a.b, a.b.c",
        "with {} as b.c:\n    {}", "@{}\ndef g(): pass", "class A({}):\n    x = {}", "def g(a={}) -> {}: pass",
        "for i in {}:\n    {}", "[i for i in {} if {}]", "f(g({}), k={})", "while {}: {}; {}", "lambda p={}: {}", "x[{}] = {}",
        "x.y = {}", "f({}).z = {}", "x.y[{}] += {}", "try:\n    {}\nexcept {} as e:\n    {}\n", "a.b.c = {}", "a.b: {} = {}"]


def space_expressions(thorough):
    for s in STMT:
        n = s.count("{}")
        for i, a in enumerate(ATOMS):
            yield s.format(*([a] * n)) + "\n"
            if n > 1:
                for b in ATOMS if thorough else ATOMS[(i % 5)::5]:
                    yield s.format(*([a, b] * n)[:n]) + "\n"
    for o in OPS:
        for a, b in itertools.product(["a", "(a)", "-a", "a.b", "f(a)", "a * b", "1"], repeat=2):
            for s in ("{}", "x = ({})", "f({})", "if {}: pass"):
                yield s.format(f"{a} {o} {b}") + "\n"
        for o2 in OPS:
            yield f"a {o} b {o2} c\n"
            yield f"x = f(a) {o} - b {o2} (c)\n"
    for o in ("+", "-", "*", "/", "//", "%", "**", "<<", ">>", "|", "&", "^", "@"):
        for t in ("a", "a.b", "a[0]", "f(a).b", "(a)"):
            for v in ATOMS[:12]:
                yield f"{t} {o}= {v}\n"
    for u in ("-", "+", "~", "not "):
        for a in ATOMS:
            yield f"{u} {a}\n"
            yield f"x = {u} ({a})\n"


def space_calls(thorough):
    args = ["a", "1", "k=a", "*a", "**a", "g(b)", "j=g(b, c)", "a.b", "(a)", "lambda x: x", "x := 1"]
    for n in range(0, 4 if thorough else 3):
        for c in itertools.product(args, repeat=n):
            for sep in (", ", ",", " , "):
                for trail in ("", ",", ", "):
                    if n == 0 and trail:
                        continue
                    body = sep.join(c) + trail
                    for s in ("f({})", "x.y({})", "h(0, f({}))", "h(m=f({}))", "f({})(a)", "class A(f({})): pass", "f({}).q = 1",
                              "@f({})\ndef g(): pass", "def g():\n    return f({})", "[f({}) for a in b]"):
                        yield s.format(body) + "\n"


def space_imports(thorough):
    names = ["a", "a.b", "a.b.c", "a.b.c.d"]
    froms = names + [".", "..", "...", "....", ".a", "..a.b", "...a", "....a.b.c", ". a", ".. a . b"]
    ases = ["", " as x"]
    for n in names:
        for s in ases:
            yield f"import {n}{s}\n"
            for n2 in names:
                for s2 in ases:
                    yield f"import {n}{s}, {n2}{s2}\n"
    for f in froms:
        for k in (1, 2, 3):
            for t in itertools.product(["a", "b as c"], repeat=k):
                yield f"from {f} import {', '.join(t)}\n"
                yield f"from {f} import ({', '.join(t)})\n"
                yield f"from {f} import ({','.join(t)},)\n"
                yield f"def g():\n    from {f} import (\n        {', '.join(t)}\n    )\n    a.b\n"
        yield f"from {f} import *\n"


def space_blocks(thorough):
    heads = ["if a:", "for a in b:", "while a:", "def f(a, b=1, *c, d, **e):", "class A(B, metaclass=C):", "with a as b:", "try:",
             "match a:", "async def g(): ", "@d\ndef f(x, /, y):", "def f():", "class A:", "@d(a)\n@e\nclass B: "]
    simple = ["pass", "a.b", "x = f(a)", "a; b", "global a", "nonlocal a", "'''\n\n'''", "f(\n)"]

    def block(h, ind, depth):
        pre = " " * ind
        lines = h.split("\n")
        head = "\n".join(pre + l for l in lines)
        if h == "match a:":
            for b in body(ind + 4, depth - 1):
                yield f"{head}\n{pre}  case b.c:\n{b}"
            yield f"{head}\n{pre}  case b: pass\n{pre}  case _ if a.b:\n{pre}    c\n"
            return
        yield f"{head} pass\n"
        for b in body(ind + 2, depth - 1):
            tail = f"{pre}finally:\n{pre}  pass\n" if h == "try:" else ""
            yield f"{head}\n{b}{tail}"
            if h == "if a:":
                yield f"{head}\n{b}{pre}elif b:\n{b}{pre}else: c\n"
            if h == "try:":
                yield f"{head}\n{b}{pre}except E as e:\n{b}{pre}else:\n{pre}  d\n"

    def body(ind, depth):
        pre = " " * ind
        for s in simple:
            yield f"{pre}{s}\n"
            yield f"{pre}{s} # c\n\n{pre}# d\n{pre}{simple[1]}\n"
        if depth > 0:
            for h in heads if thorough else heads[::2]:
                yield from block(h, ind, depth)

    for h in heads:
        for b in block(h, 0, 3 if thorough else 2):
            yield b
            yield b + "x\n"
            if len(b) < 40:
                yield b + "\n# c\n" + b


SPACES = {"expressions": space_expressions, "calls": space_calls, "imports": space_imports, "blocks": space_blocks}


# -- the oracle -----------------------------------------------------------------------------------
class Source:
    def __init__(self, text):
        self.text = text
        self.lines = []
        o = 0
        for l in text.split("\n"):
            self.lines.append((o, l))
            o += len(l.encode()) + 1
        self.tokens = []
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            if t.type in (tokenize.NL, tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER, tokenize.COMMENT):
                if t.type != tokenize.COMMENT:
                    continue
            s, e = self.chars(t.start), self.chars(t.end)
            self.tokens.append((s, e, t.string, t.type))
        self.code = [t for t in self.tokens if t[3] != tokenize.COMMENT]
        self.at = {t[0]: i for i, t in enumerate(self.code) if t[3] != tokenize.NEWLINE}
        self.ends = {t[1]: i for i, t in enumerate(self.code) if t[3] != tokenize.NEWLINE}

    def chars(self, pos):
        o, l = self.lines[pos[0] - 1] if pos[0] <= len(self.lines) else (len(self.text.encode()), "")
        return o + len(l[:pos[1]].encode())

    def pos(self, line, col):
        return self.lines[line - 1][0] + col

    def rng(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def in_comment(self, p):
        return any(s < p <= e for s, e, _, t in self.tokens if t == tokenize.COMMENT)

    def after(self, off):
        """Index of the first code token that starts at or after an offset."""
        return next(i for i, t in enumerate(self.code) if t[0] >= off)


def closing(src, i):
    """Skips the closing parentheses around an expression whose last token is followed by token i."""
    while src.code[i][2] == ")":
        i += 1
    return i


def in_pattern(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.match_case):
            for m in ast.walk(n.pattern):
                out.add(m)
        if isinstance(n, ast.FormattedValue) and n.format_spec:
            for m in ast.walk(n.format_spec):
                out.add(m)
    return out


def targets(tree):
    """Nodes inside assignment targets; the calls in there are not expressions of their own in the typed tree."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            v = n.value
            while True:
                out.add(v)
                if isinstance(v, (ast.Attribute, ast.Subscript, ast.Starred)):
                    v = v.value
                elif isinstance(v, ast.Call):
                    v = v.func
                else:
                    break
    return out


def expectations(text):
    """(positions, what: 'c' | 'g' | 's', expected value, why)"""
    tree = ast.parse(text)
    src = Source(text)
    skip = in_pattern(tree)
    tgt = targets(tree)
    out = []
    calls = []
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Attribute):
            s, e = src.rng(n)
            name = src.ends[e]
            dot = name - 1
            want = ["attr", [s, src.code[dot - 1][1]]]
            for p in range(src.code[dot][1], e + 1):
                out.append((p, "c", want, "attribute"))
            for p in range(src.code[name][0], e + 1):
                out.append((p, "g", ["primary", [s, e]], "goto attribute"))
        elif isinstance(n, ast.Constant) and (n.value is None or isinstance(n.value, bool)):
            s, e = src.rng(n)
            for p in range(s, e + 1):
                out.append((p, "g", ["atom", [s, e]], "keyword constant"))
        elif isinstance(n, ast.Call):
            s, e = src.rng(n)
            i = src.after(src.rng(n.func)[1])
            i = closing(src, i)
            calls.append((n, i, src.ends[e]))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            if isinstance(n, ast.BinOp):
                s, _ = src.rng(n)
                i = closing(src, src.after(src.rng(n.left)[1]))
                want = ["op", [s, src.code[i - 1][1]], f"__{BIN[type(n.op)]}__", list(src.code[i][:2])]
            else:
                i = closing(src, src.after(src.rng(n.target)[1]))
                want = ["aug", f"__i{BIN[type(n.op)]}__", f"__{BIN[type(n.op)]}__", list(src.code[i][:2])]
            op_positions(src, i, want, out)
        elif isinstance(n, ast.UnaryOp) and type(n.op) in UN:
            i = src.at[src.rng(n)[0]]
            _, e = src.rng(n)
            op_positions(src, i, ["op", [src.code[i + 1][0], e], f"__{UN[type(n.op)]}__", list(src.code[i][:2])], out)
        elif isinstance(n, ast.Compare):
            left = n.left
            for o, right in zip(n.ops, n.comparators):
                i = closing(src, src.after(src.rng(left)[1]))
                if type(o) in CMP:
                    op_positions(src, i, ["op", [None, src.code[i - 1][1]], f"__{CMP[type(o)]}__", list(src.code[i][:2])], out)
                left = right
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            imports(src, n, out)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            i = src.at[src.rng(n)[0]]
            while src.code[i][2] not in ("def", "class"):
                i += 1
            kw, name = src.code[i], src.code[i + 1]
            for p in range(name[0], name[1] + 1):
                out.append((p, "c", [kw[2]], "after " + kw[2]))
                out.append((p, "g", ["name", [name[0], name[1]]], "goto definition name"))
            if kw[2] == "def":
                a = n.args
                decs = len(n.decorator_list) or None
                for arg in a.posonlyargs + a.args:
                    s, _ = src.rng(arg)
                    i = src.at[s]
                    if src.code[i - 1][2] in ("(", ","):
                        for p in range(s, src.code[i][1] + 1):
                            out.append((p, "c", ["param", n.name, decs], "parameter"))
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            i = src.at[src.rng(n)[0]] + 1
            for k, _ in enumerate(n.names):
                t = src.code[i + 2 * k]
                for p in range(t[0], t[1] + 1):
                    out.append((p, "g", ["global" if isinstance(n, ast.Global) else "nonlocal", [t[0], t[1]]], "goto declared name"))
    for i, t in enumerate(src.code):
        if t[2] == "as" and t[3] == tokenize.NAME and src.code[i - 1][2] not in ("case",):
            nxt = src.code[i + 1]
            if nxt[3] == tokenize.NAME:
                for p in range(nxt[0], nxt[1] + 1):
                    out.append((p, "c", ["as"], "new name"))
    # -- calls: the innermost one around each position
    length = len(text.encode())
    owner = [None] * (length + 2)
    for c in sorted(calls, key=lambda c: src.code[c[1]][0]):
        for p in range(src.code[c[1]][1], src.code[c[2]][0] + 1):
            owner[p] = c
    for p in range(length + 1):
        c = owner[p]
        if c is None:
            out.append((p, "s", None, "not in a call"))
            continue
        n, lp, rp = c
        f0 = src.rng(n)[0]
        base = [f0, src.code[lp - 1][1]]
        if n.func in tgt and not isinstance(n.func, ast.Name):
            continue                    # calls inside targets: see the property
        out.append((p, "s", [base, signature(src, n, lp, rp, p)], "signature"))
    for n, lp, rp in calls:
        names = [k.arg for k in n.keywords if k.arg]
        if len(names) == len(set(names)):       # CPython's compiler rejects repeated keywords
            call_context(src, n, lp, rp, out)
    # -- folds: from the end of the header line to the end of the block's last line
    folds = []
    stack = []
    last_newline = None
    pending = []
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.NEWLINE:
            last_newline = src.chars(t.start)
        elif t.type == tokenize.INDENT:
            stack.append(last_newline)
        elif t.type == tokenize.DEDENT:
            folds.append([stack.pop(), last_newline])
    return src, out, sorted(folds)


def op_positions(src, i, want, out):
    s, e = src.code[i][:2]
    for p in range(s, e + 1):
        if all(t[2] == src.code[i][2] and t[0] == s or not (t[0] <= p <= t[1]) for t in src.code):
            out.append((p, "g", want, "operator"))


def all_args(src, n):
    a = [(src.rng(x)[0], x, None) for x in n.args] + [(src.rng(k)[0], k.value, k) for k in n.keywords]
    return sorted(a, key=lambda x: x[0])


def separators(src, lp, rp):
    """Indices of the commas of a call."""
    out, depth = [], 0
    lam = []
    for i in range(lp + 1, rp):
        t = src.code[i][2]
        if src.code[i][3] == tokenize.FSTRING_START or t in ("(", "[", "{"):
            depth += 1
        elif src.code[i][3] == tokenize.FSTRING_END or t in (")", "]", "}"):
            depth -= 1
        elif t == "," and depth == 0:
            out.append(i)
    return out


def signature(src, n, lp, rp, p):
    if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords and src.code[lp + 1][2] != "(" \
            and src.rng(n.args[0])[0] <= src.code[lp][0]:
        return ["p"]
    kinds = []
    for _, x, k in all_args(src, n):
        if k is not None:
            kinds.append(f"k:{k.arg}" if k.arg else "**")
        elif isinstance(x, ast.Starred):
            kinds.append("*")
        elif isinstance(x, ast.Name) and src.code[src.after(src.rng(x)[0]) - 1][2] in ("(", ",") and src.code[src.after(src.rng(x)[1])][2] in (")", ",") \
                and not paren(src, x, lp):
            kinds.append(f"n:{x.id}")
        else:
            kinds.append("p")
    seps = separators(src, lp, rp)
    before = sum(1 for i in seps if src.code[i][1] <= p)
    if not kinds:
        return []
    kinds.append("p")                   # behind a trailing comma
    return kinds[:before + 1]


def paren(src, x, lp):
    """Is the name wrapped in parentheses of its own?"""
    i = src.at[src.rng(x)[0]]
    return src.code[i - 1][2] == "(" and i - 1 != lp


def call_context(src, n, lp, rp, out):
    base = [src.rng(n)[0], src.code[lp - 1][1]]
    args = all_args(src, n)
    if len(args) == 1 and isinstance(args[0][1], ast.GeneratorExp):
        return
    for i in [lp] + separators(src, lp, rp):
        nxt = src.code[i + 1]
        s = src.code[i][1]
        done = [a for a in args if a[0] < nxt[0]]
        pos = sum(1 for a in done if a[2] is None and not isinstance(a[1], ast.Starred))
        kws = sorted(a[2].arg for a in done if a[2] is not None and a[2].arg)
        if nxt[3] == tokenize.NAME and nxt[2] not in ("lambda", "not", "await"):
            for p in range(nxt[0], nxt[1] + 1):
                out.append((p, "c", ["global", base, [pos, kws]], "call context"))


def imports(src, n, out):
    i = src.at[src.rng(n)[0]]
    if isinstance(n, ast.Import):
        i += 1
        for k, al in enumerate(n.names):
            parts = al.name.split(".")
            first = src.code[i]
            for j, _ in enumerate(parts):
                t = src.code[i]
                if j == 0:
                    if k == 0:
                        for p in range(t[0], t[1] + 1):
                            out.append((p, "c", ["import", None], "import"))
                else:
                    rest = ".".join(parts[1:j]) or None
                    for p in range(t[0], t[1] + 1):
                        out.append((p, "c", ["import", [parts[0], rest]], "dotted import"))
                i += 2 if j + 1 < len(parts) else 1
            if al.asname:
                i += 2
            i += 1
        return
    i += 1
    dots = 0
    while set(src.code[i][2]) == {"."}:
        dots += len(src.code[i][2])
        i += 1
    base = None
    if n.module:
        first = src.code[i][0]
        for j, _ in enumerate(n.module.split(".")):
            t = src.code[i]
            for p in range(t[0], t[1] + 1):
                out.append((p, "c", ["from", dots, base], "module of a from import"))
            base = [first, t[1]]
            i += 2
        i -= 1
    i += 1
    if src.code[i][2] == "(":
        i += 1
    for al in n.names:
        t = src.code[i]
        if al.name == "*":
            break
        for p in range(t[0], t[1] + 1):
            out.append((p, "c", ["target", dots, base], "name of a from import"))
            e = src.code[i + 2][1] if al.asname else t[1]
            out.append((p, "g", ["fromas", [t[0], e], [t[0], t[1]]], "goto imported name"))
        i += 3 if al.asname else 1
        i += 1


def matches(got, want):
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(w is None and isinstance(g, int) or matches(g, w) for g, w in zip(got, want))
    return got == want


def judge(t, o):
    if o.startswith("P"):
        return "panicked: " + o[2:], None
    try:
        ast.parse(t)
    except SyntaxError:
        return None, None
    if o == "E":
        return None, None               # C03's business
    got = json.loads(o[2:])
    src, exp, folds = expectations(t)
    for p, what, want, why in exp:
        if src.in_comment(p):
            continue
        g = got[what][p]
        if why == "dotted import" and g[0] == "from" and g[1] == 0 and g[2]:
            # the same question in other words
            path = t.encode()[g[2][0]:g[2][1]].decode()
            g = ["import", [path.split(".")[0], ".".join(path.split(".")[1:]) or None]]
        if not matches(g, want):
            return f"{dict(c='completion', g='goto', s='signature')[what]} at {p} ({why}): got {json.dumps(g)}, expected {json.dumps(want)}", t
    if "match " not in t and sorted(got["f"]) != folds:
        return f"folding ranges {sorted(got['f'])}, expected {folds}", t
    return None, t
