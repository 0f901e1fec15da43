"""CPython's `ast` of a program, in the notation that the harness writes for the typed syntax tree."""
import ast
import struct
import warnings

warnings.simplefilter("ignore")

BIN = {ast.Add: ("+", "add"), ast.Sub: ("-", "sub"), ast.Mult: ("*", "mul"), ast.Div: ("/", "truediv"),
       ast.FloorDiv: ("//", "floordiv"), ast.Mod: ("%", "mod"), ast.Pow: ("**", "pow"), ast.MatMult: ("@", "matmul"),
       ast.BitOr: ("|", "or"), ast.BitAnd: ("&", "and"), ast.BitXor: ("^", "xor"), ast.LShift: ("<<", "lshift"),
       ast.RShift: (">>", "rshift")}
UN = {ast.UAdd: "+", ast.USub: "-", ast.Invert: "~", ast.Not: "not"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def bits(f):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", f))[0]


def enc(s):
    return s.encode("utf-8", "surrogatepass").hex()


class Ref:
    def __init__(self, src):
        self.src = src
        b = src.encode()
        self.b = b
        starts = [0]
        for i, c in enumerate(b):
            # \n, \r\n and \r all end a line
            if c == 10 or c == 13 and b[i + 1:i + 2] != b"\n":
                starts.append(i + 1)
        self.starts = starts

    def s(self, n):
        return self.starts[n.lineno - 1] + n.col_offset

    def e(self, n):
        return self.starts[n.end_lineno - 1] + n.end_col_offset

    def r(self, n):
        return f"@{self.s(n)}-{self.e(n)}"

    def module(self, m):
        return "(Module" + self.doc(m.body) + self.stmts(m.body) + ")"

    def doc(self, body):
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str) and self.b[self.s(body[0]):self.s(body[0])+1] != b"(":
            return " doc=" + enc(body[0].value.value)
        return ""

    def stmts(self, body):
        return "".join(" " + self.stmt(s) for s in body)

    def block(self, body):
        return " {" + self.stmts(body) + "}"

    def opt(self, e):
        return " " + self.x(e) if e is not None else " -"

    # -- statements -------------------------------------------------------
    def stmt(self, n):
        return getattr(self, "s_" + type(n).__name__)(n)

    def s_Assign(self, n):
        return f"(Assign@{self.s(n)}" + "".join(" " + self.t(t) for t in n.targets) + " " + self.x(n.value) + ")"

    def s_AnnAssign(self, n):
        return f"(AnnAssign@{self.s(n)} " + self.t(n.target) + " " + self.x(n.annotation) + self.opt(n.value) + ")"

    def s_AugAssign(self, n):
        o, m = BIN[type(n.op)]
        return f"(AugAssign@{self.s(n)} {o} __i{m}__ __{m}__ __r{m}__ {o} " + self.t(n.target) + " " + self.x(n.value) + ")"

    def s_Expr(self, n):
        return f"(Expr@{self.s(n)} " + self.x(n.value) + ")"

    def s_Return(self, n):
        return f"(Return{self.r(n)}" + self.opt(n.value) + ")"

    def s_Raise(self, n):
        return f"(Raise{self.r(n)}" + self.opt(n.exc) + self.opt(n.cause) + ")"

    def s_ImportFrom(self, n):
        s = f"(ImportFrom{self.r(n)} {n.level} {n.module or '-'}"
        for a in n.names:
            s += " (alias *)" if a.name == "*" else f" (alias{self.r(a)} {a.name} {a.asname or a.name})"
        return s + ")"

    def s_Import(self, n):
        return f"(Import{self.r(n)}" + "".join(f" (alias{self.r(a)} {a.name} {a.asname or '-'})" for a in n.names) + ")"

    def s_Pass(self, n):
        return f"(Pass{self.r(n)})"

    def s_Break(self, n):
        return f"(Break{self.r(n)})"

    def s_Continue(self, n):
        return f"(Continue{self.r(n)})"

    def s_Global(self, n):
        return f"(Global{self.r(n)}" + "".join(" " + x for x in n.names) + ")"

    def s_Nonlocal(self, n):
        return f"(Nonlocal{self.r(n)})"

    def s_Assert(self, n):
        return f"(Assert{self.r(n)} " + self.x(n.test) + self.opt(n.msg) + ")"

    def s_Delete(self, n):
        return f"(Delete{self.r(n)}" + "".join(self.d(t) for t in n.targets) + ")"

    def d(self, t):
        # brackets do not matter to a del statement
        if isinstance(t, (ast.Tuple, ast.List)):
            return "".join(self.d(x) for x in t.elts)
        return " " + self.t(t)

    def s_TypeAlias(self, n):
        return f"(TypeAlias{self.r(n)} {n.name.id}" + self.tparams(n) + " " + self.x(n.value) + ")"

    def tparams(self, n):
        s = ""
        for p in n.type_params:
            s += f" [{type(p).__name__}{self.r(p)} {p.name}"
            if isinstance(p, ast.TypeVar):
                s += self.opt(p.bound)
            s += "]"
        return s

    def func(self, n, kind):
        a = n.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
        typed = n.returns is not None or any(x.annotation is not None for x in allargs)
        start = 2**32 - 1 if kind.startswith("Async") else self.s(n)
        s = f"({kind}@{start} {n.name}" + (" typed" if typed else "")
        s += "".join(" @" + self.x(d) for d in n.decorator_list) + self.tparams(n) + self.params(a)
        s += " ->" + (self.x(n.returns) if n.returns is not None else "-")
        return s + self.doc(n.body) + self.block(n.body) + ")"

    def s_FunctionDef(self, n):
        return self.func(n, "FunctionDef")

    def s_AsyncFunctionDef(self, n):
        return self.func(n, "AsyncFunctionDef")

    def s_ClassDef(self, n):
        return (f"(ClassDef@{self.s(n)} {n.name}" + "".join(" @" + self.x(d) for d in n.decorator_list)
                + self.tparams(n) + self.args(n.bases, n.keywords) + self.doc(n.body) + self.block(n.body) + ")")

    def params(self, a):
        out = []
        pos = [("PosOnly", p) for p in a.posonlyargs] + [("Arg", p) for p in a.args]
        nd = len(pos) - len(a.defaults)
        for i, (k, p) in enumerate(pos):
            out.append((k, p, a.defaults[i - nd] if i >= nd else None))
        if a.vararg:
            out.append(("Star", a.vararg, None))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append(("KwOnly", p, d))
        if a.kwarg:
            out.append(("StarStar", a.kwarg, None))
        return "".join(f" ({k}@{self.s(p)} {p.arg}{self.opt(p.annotation)}{self.opt(d)})" for k, p, d in out)

    def s_If(self, n):
        s = f"(If@{self.s(n)}"
        while True:
            s += " " + self.x(n.test) + self.block(n.body)
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) and \
                    self.b[self.s(n.orelse[0]):].startswith(b"elif"):
                n = n.orelse[0]
                continue
            if n.orelse:
                s += self.block(n.orelse)
            return s + ")"

    def s_While(self, n):
        return f"(While@{self.s(n)} " + self.x(n.test) + self.block(n.body) + (self.block(n.orelse) if n.orelse else "") + ")"

    def for_(self, n, k):
        return f"({k}@{self.s(n)} " + self.t(n.target) + " " + self.x(n.iter) + self.block(n.body) + (
            self.block(n.orelse) if n.orelse else "") + ")"

    def s_For(self, n):
        return self.for_(n, "For")

    def s_AsyncFor(self, n):
        return self.for_(n, "AsyncFor")

    def with_(self, n, k):
        return f"({k}@{self.s(n)}" + "".join(
            " (item " + self.x(i.context_expr) + (" " + self.t(i.optional_vars) if i.optional_vars else " -") + ")"
            for i in n.items) + self.block(n.body) + ")"

    def s_With(self, n):
        return self.with_(n, "With")

    def s_AsyncWith(self, n):
        return self.with_(n, "AsyncWith")

    def s_Try(self, n, star=""):
        s = f"(Try@{self.s(n)}" + self.block(n.body)
        for h in n.handlers:
            s += f" (except{star}@{self.s(h)}" + self.opt(h.type) + (" " + h.name if h.name else " -") + self.block(h.body) + ")"
        if n.orelse:
            s += " else" + self.block(n.orelse)
        if n.finalbody:
            s += " finally" + self.block(n.finalbody)
        return s + ")"

    def s_TryStar(self, n):
        return self.s_Try(n, "*")

    def s_Match(self, n):
        subj = self.x(n.subject)
        if isinstance(n.subject, ast.Tuple) and not self.paren_tuple(n.subject):
            subj = "(Tuple" + "".join(" " + self.x(e) for e in n.subject.elts) + ")"
        s = f"(Match@{self.s(n)} " + subj
        for c in n.cases:
            s += " (case " + self.p(c.pattern) + self.opt(c.guard) + self.block(c.body) + ")"
        return s + ")"

    # -- targets ----------------------------------------------------------
    def t(self, n):
        if isinstance(n, ast.Name):
            return f"(Def{self.r(n)} {n.id})"
        if isinstance(n, ast.Attribute):
            return f"(TAttr{self.r(n)} " + self.x(n.value) + f" {n.attr})"
        if isinstance(n, ast.Subscript):
            return f"(TIndex{self.r(n)} " + self.x(n.value) + " " + self.index(n.slice) + ")"
        if isinstance(n, ast.Starred):
            return f"(TStar{self.r(n)} " + self.t(n.value) + ")"
        assert isinstance(n, (ast.Tuple, ast.List)), n
        return "(TTuple" + "".join(" " + self.t(x) for x in n.elts) + ")"

    # -- expressions ------------------------------------------------------
    def x(self, n):
        return getattr(self, "e_" + type(n).__name__)(n)

    def xs(self, ns):
        return "".join(" " + self.x(e) for e in ns)

    def e_Name(self, n):
        return f"(Name{self.r(n)} {n.id})"

    def e_Constant(self, n):
        v = n.value
        if v is None or v is True or v is False:
            return f"({v}{self.r(n)})"
        if v is Ellipsis:
            return f"(Ellipsis{self.r(n)})"
        if isinstance(v, str):
            return f"(Str{self.r(n)} {enc(v)})"
        if isinstance(v, bytes):
            return f"(Bytes{self.r(n)} {v.hex()})"
        if isinstance(v, int):
            return f"(Int{self.r(n)} {v})"
        if isinstance(v, float):
            return f"(Float{self.r(n)} {bits(v)})"
        return f"(Complex{self.r(n)} {bits(v.imag)})"

    def e_JoinedStr(self, n):
        return f"(FStr{self.r(n)}" + self.fmt(n.values) + ")"

    def fmt(self, vs):
        s = ""
        for v in vs:
            if isinstance(v, ast.FormattedValue):
                inner = v.value
                if isinstance(inner, ast.Tuple) and not self.paren_tuple(inner):
                    x = f"(Tuple{self.r(inner)}" + self.xs(inner.elts) + ")"
                else:
                    x = self.x(inner)
                s += " (Fmt " + x
                if v.format_spec is not None:
                    s += " :" + self.fmt(v.format_spec.values)
                s += ")"
        return s

    def e_BinOp(self, n):
        o, m = BIN[type(n.op)]
        return f"(BinOp{self.r(n)} {o} __{m}__ __r{m}__ " + self.x(n.left) + " " + self.x(n.right) + ")"

    def e_UnaryOp(self, n):
        return f"(Unary{self.r(n)} {UN[type(n.op)]} " + self.x(n.operand) + ")"

    def e_BoolOp(self, n):
        k = "And" if isinstance(n.op, ast.And) else "Or"
        s = self.x(n.values[0])
        for v in n.values[1:]:
            s = f"({k} {s} {self.x(v)})"
        return s

    def e_Compare(self, n):
        s = f"(Compare{self.r(n)}"
        left = self.x(n.left)
        for o, c in zip(n.ops, n.comparators):
            right = self.x(c)
            s += f" [{CMP[type(o)]} {left} {right}]"
            left = right
        return s + ")"

    def e_Call(self, n):
        return f"(Call{self.r(n)} " + self.x(n.func) + self.args(n.args, n.keywords) + ")"

    def args(self, args, kws):
        s = self.xs(args)
        for k in kws:
            s += f" (kw{self.r(k)} {k.arg or '**'} " + self.x(k.value) + ")"
        return s

    def e_Attribute(self, n):
        return f"(Attr{self.r(n)} " + self.x(n.value) + f" {n.attr})"

    def index(self, s):
        if isinstance(s, ast.Tuple) and not self.paren_tuple(s):
            return "(Tuple" + self.xs(s.elts) + ")"
        return self.x(s)

    def paren_tuple(self, n):
        """Whether the tuple's own brackets are in the source (its range starts at its own bracket)."""
        a, b = self.s(n), self.e(n)
        if self.b[a:a + 1] != b"(" or self.b[b - 1:b] != b")":
            return False
        # `(a), (b)` also starts and ends with brackets: match the first bracket
        if not n.elts:
            return True
        # the opening bracket belongs to the tuple iff the first element starts after it
        if self.s(n.elts[0]) == a:
            return False
        # first element may itself be parenthesised: count brackets between
        depth = 0
        i = a
        while i < b:
            c = self.b[i:i + 1]
            if c in b"([{":
                depth += 1
            elif c in b")]}":
                depth -= 1
                if depth == 0:
                    return i == b - 1
            elif c in b"'\"":
                return True
            i += 1
        return True

    def e_Subscript(self, n):
        return f"(Index{self.r(n)} " + self.x(n.value) + " " + self.index(n.slice) + ")"

    def e_Slice(self, n):
        return f"(Slice{self.r(n)}" + self.opt(n.lower) + self.opt(n.upper) + self.opt(n.step) + ")"

    def e_Starred(self, n):
        return f"(Starred{self.r(n)} " + self.x(n.value) + ")"

    def e_Tuple(self, n):
        return f"(Tuple{self.r(n)}" + self.xs(n.elts) + ")"

    def e_List(self, n):
        return f"(List{self.r(n)}" + self.xs(n.elts) + ")"

    def e_Set(self, n):
        return f"(Set{self.r(n)}" + self.xs(n.elts) + ")"

    def e_Dict(self, n):
        s = f"(Dict{self.r(n)}"
        for k, v in zip(n.keys, n.values):
            s += (" **" + self.x(v)) if k is None else (" " + self.x(k) + ":" + self.x(v))
        return s + ")"

    def gens(self, gs):
        s = ""
        for g in gs:
            s += f" [{'async' if g.is_async else 'for'} " + self.t(g.target) + " " + self.x(g.iter)
            for i in g.ifs:
                s += " if " + self.x(i)
            s += "]"
        return s

    def e_ListComp(self, n):
        return f"(ListComp{self.r(n)} " + self.x(n.elt) + self.gens(n.generators) + ")"

    def e_SetComp(self, n):
        return f"(SetComp{self.r(n)} " + self.x(n.elt) + self.gens(n.generators) + ")"

    def e_GeneratorExp(self, n):
        return "(Gen " + self.x(n.elt) + self.gens(n.generators) + ")"

    def e_DictComp(self, n):
        return f"(DictComp{self.r(n)} " + self.x(n.key) + ":" + self.x(n.value) + self.gens(n.generators) + ")"

    def e_Yield(self, n):
        return f"(Yield{self.r(n)}" + self.opt(n.value) + ")"

    def e_YieldFrom(self, n):
        return f"(YieldFrom{self.r(n)} " + self.x(n.value) + ")"

    def e_Await(self, n):
        return f"(Await{self.r(n)} " + self.x(n.value) + ")"

    def e_IfExp(self, n):
        return f"(IfExp{self.r(n)} " + self.x(n.body) + " " + self.x(n.test) + " " + self.x(n.orelse) + ")"

    def e_Lambda(self, n):
        return f"(Lambda{self.r(n)}" + self.params(n.args) + " :" + self.x(n.body) + ")"

    def e_NamedExpr(self, n):
        return f"(Walrus{self.r(n)} " + self.t(n.target) + " " + self.x(n.value) + ")"

    # -- patterns ---------------------------------------------------------
    def dotted(self, v):
        r = self.r(v)
        parts = []
        while isinstance(v, ast.Attribute):
            parts.append(v.attr)
            v = v.value
        parts.append(v.id)
        return ".".join(reversed(parts)) + r

    def pval(self, v):
        if isinstance(v, (ast.Attribute, ast.Name)):
            return "(PVal " + self.dotted(v) + ")"
        if isinstance(v, ast.BinOp):
            return "(PVal " + self.b[self.s(v):self.e(v)].decode().replace(" ", "") + ")"
        return "(PVal " + self.x(v) + ")"

    def p(self, n):
        k = type(n)
        if k is ast.MatchAs:
            if n.pattern is None:
                return f"(PName {n.name})" if n.name else "(PAny)"
            return f"(PAs{self.r(n)} " + self.p(n.pattern) + f" {n.name})"
        if k is ast.MatchOr:
            return f"(POr{self.r(n)}" + "".join(" " + self.p(x) for x in n.patterns) + ")"
        if k is ast.MatchSingleton:
            return f"(PVal {n.value})"
        if k is ast.MatchValue:
            return self.pval(n.value)
        if k is ast.MatchSequence:
            return f"(PSeq{self.r(n)}" + "".join(" " + self.p(x) for x in n.patterns) + ")"
        if k is ast.MatchStar:
            return f"(PStar{self.r(n)} {n.name or '_'})"
        if k is ast.MatchMapping:
            s = f"(PMap{self.r(n)}"
            for key, v in zip(n.keys, n.patterns):
                kk = f"(PVal {key.value})" if isinstance(key, ast.Constant) and (
                    key.value is None or isinstance(key.value, bool)) else self.pval(key)
                s += " " + kk + ":" + self.p(v)
            if n.rest:
                s += f" **{n.rest}"
            return s + ")"
        assert k is ast.MatchClass, n
        s = f"(PClass{self.r(n)} " + self.dotted(n.cls)
        for x in n.patterns:
            s += " " + self.p(x)
        for a, x in zip(n.kwd_attrs, n.kwd_patterns):
            s += f" {a}=" + self.p(x)
        return s + ")"


def reference(src):
    """The dump, or None if CPython rejects the program."""
    return reference_or_reason(src)[0]


def reference_or_reason(src):
    """(dump, None), or (None, the reason for which CPython rejects the program)."""
    try:
        m = ast.parse(src)
    except SyntaxError as e:
        return None, f"{type(e).__name__}: {e.msg}"
    except (ValueError, RecursionError, MemoryError) as e:
        return None, f"{type(e).__name__}: {e}"
    return Ref(src).module(m), None
