"""Programs over one name, and which of its occurrences are the same variable by the rules of Python (the symbol tables
that CPython itself compiles with)."""
import ast, itertools, symtable

SIMPLE = ["x = 1", "x", "x += 1", "x: int = 1", "del x", "(x := 1)", "for x in y: x", "with y() as x: x", "[x for x in y]",
          "lambda x: x", "lambda: x", "def x(): ...", "class x: ...", "import x", "import y as x",
          "try: ...\nexcept y as x: x", "{x: x for y in x}", "def f(x=x): x", "def f(*, x): x", "match y:\n    case x: x",
          "match y:\n    case [x, *_]: x", "f(x=x)", "y.x", "x.x", "x[x] = x", "a, (x, *b) = y", "[(x := y) for y in z]",
          "[lambda: x for x in x]", "@x\ndef f(): ...", "class A(x): ...", "f'{x}'", "import x.y", "from y import x as z", "from y import z as x",
          "with x as y, y as x: x", "for y in x: x", "async def f(x): await x", "return_ = x", "if x: x = 1", "while x: x = x"]
DECLARE = ["global x", "nonlocal x"]
WRAP = ["def f():\n~", "class C:\n~", "def f(x):\n~", "def f(x: x = x) -> x:\n~", "async def f():\n~", "def f[x](a: x):\n~", "class C[x]:\n~"]


def indent(t):
    return "".join("    " + l + "\n" for l in t.splitlines())


def wrap(w, body):
    return w.replace("~", indent(body)).rstrip("\n")


def valid(t):
    try:
        symtable.symtable(t, "a", "exec")
        compile(t, "a", "exec")
        return True
    except SyntaxError:
        return False


def modules(pairs, depth):
    """all modules of one or two statements, of which one can be a block with the depth of nesting"""
    bodies = list(SIMPLE)
    for d in range(depth):
        inner = bodies + [f"{a}\n{b}" for a in DECLARE for b in bodies] if d == 0 else bodies
        blocks = [wrap(w, b) for w in WRAP for b in inner]
        yield from blocks
        if pairs:
            for a, b in itertools.product(pairs, blocks):
                yield f"{a}\n{b}"
                yield f"{b}\n{a}"
        bodies = blocks


class Occurrences(ast.NodeVisitor):
    """(start, end) of every occurrence of the name -> the variable, None if it is no variable"""

    def __init__(self, text, name):
        self.text, self.name, self.found = text, name, {}
        self.bound, self.loads_in_class, self.imported = set(), set(), set()
        self.first, self.immediate = {}, {}
        self.lines = [0]
        for l in text.splitlines(keepends=True):
            self.lines.append(self.lines[-1] + len(l))
        # Comprehensions but generators are merged into their surroundings by this version of CPython: ask it about generators.
        tree, chars = ast.parse(text), list(text)
        for n in ast.walk(tree):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
                chars[self.offset(n.lineno, n.col_offset)] = "("
                chars[self.offset(n.end_lineno, n.end_col_offset) - 1] = ")"
                if isinstance(n, ast.DictComp):
                    chars[text.index(":", self.offset(n.key.end_lineno, n.key.end_col_offset))] = "+"
        top = symtable.symtable("".join(chars), "a", "exec")
        self.stack = [top]
        self.children = {top.get_id(): list(top.get_children())}
        self.visit(tree)

    def offset(self, line, col):
        return self.lines[line - 1] + col

    def add(self, start, depth=None, binds=True):
        v = self.found[start] = self.resolve(depth)
        if binds and (v or len(self.stack) == 1):
            self.bound.add(v)
            self.first[v] = min(start, self.first.get(v, start))
        if binds is False:
            # unless a function is between the variable and its use
            i = max(k for k in range(len(self.stack)) if k == 0 or self.stack[k].get_id() == v)
            if not any("function" in str(t.get_type()).lower() and t.get_name() != "genexpr" for t in self.stack[i + 1:]):
                self.immediate[v] = min(start, self.immediate.get(v, start))
        if binds is False and v and v == self.stack[-1].get_id() and "class" in str(self.stack[-1].get_type()).lower():
            self.loads_in_class.add(v)

    def resolve(self, depth=None):
        stack = self.stack if depth is None else self.stack[:depth]
        t = stack[-1]
        try:
            s = t.lookup(self.name)
        except KeyError:
            return None
        if s.is_global() or t.get_type() == "module" or t.get_type().__str__().endswith("MODULE"):
            return 0
        if s.is_free():
            for u in reversed(stack[:-1]):
                if "class" in str(u.get_type()).lower():
                    continue
                try:
                    v = u.lookup(self.name)
                except KeyError:
                    continue
                if not v.is_free():
                    return u.get_id()
            return None
        return t.get_id()

    def enter(self, name, line):
        t = self.stack[-1]
        c = self.children.setdefault(t.get_id(), list(t.get_children()))
        for i, u in enumerate(c):
            if u.get_name() == name and u.get_lineno() == line:
                self.stack.append(c.pop(i))
                return
        raise KeyError((name, line, [(u.get_name(), u.get_lineno()) for u in c]))

    def named(self, node, skip):
        # the name in the header of a definition, after the keywords
        s = self.offset(node.lineno, node.col_offset)
        i = self.text.index(node.name, s + len(skip))
        if node.name == self.name:
            self.add(i)

    def visit_Name(self, n):
        if n.id == self.name:
            self.add(self.offset(n.lineno, n.col_offset), binds=isinstance(n.ctx, ast.Store))

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            if n.target.id == self.name:
                self.add(self.offset(n.lineno, n.col_offset), binds=False)
        else:
            self.visit(n.target)

    def definition(self, n, keyword):
        for d in n.decorator_list:
            self.visit(d)
        self.named(n, keyword)
        generic = bool(n.type_params)
        if isinstance(n, ast.ClassDef):
            if generic:
                self.enter(n.name, n.lineno)
                for p in n.type_params:
                    if p.name == self.name:
                        self.add(self.offset(p.lineno, p.col_offset))
            for b in n.bases + n.keywords:
                self.visit(b)
            self.enter(n.name, n.lineno)
        else:
            for d in n.args.defaults + n.args.kw_defaults:
                if d:
                    self.visit(d)
            if generic:
                self.enter(n.name, n.lineno)
                for p in n.type_params:
                    if p.name == self.name:
                        self.add(self.offset(p.lineno, p.col_offset))
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation:
                    self.visit(a.annotation)
            if n.returns:
                self.visit(n.returns)
            self.enter(n.name, n.lineno)
            self.parameters(n.args)
        for s in n.body:
            self.visit(s)
        self.stack.pop()
        if generic:
            self.stack.pop()

    def parameters(self, args):
        for a in args.posonlyargs + args.args + args.kwonlyargs + [args.vararg, args.kwarg]:
            if a and a.arg == self.name:
                self.add(self.offset(a.lineno, a.col_offset))

    def visit_FunctionDef(self, n):
        self.definition(n, "def ")

    def visit_AsyncFunctionDef(self, n):
        self.definition(n, "async def ")

    def visit_ClassDef(self, n):
        self.definition(n, "class ")

    def visit_Lambda(self, n):
        for d in n.args.defaults + n.args.kw_defaults:
            if d:
                self.visit(d)
        self.enter("lambda", n.lineno)
        self.parameters(n.args)
        self.visit(n.body)
        self.stack.pop()

    def comprehension(self, n):
        self.visit(n.generators[0].iter)
        self.enter("genexpr", n.lineno)
        for g in n.generators:
            self.visit(g.target)
            for i in g.ifs:
                self.visit(i)
        for g in n.generators[1:]:
            self.visit(g.iter)
        for f in ("key", "value", "elt"):
            if hasattr(n, f):
                self.visit(getattr(n, f))
        self.stack.pop()

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comprehension

    def visit_NamedExpr(self, n):
        if n.target.id == self.name:
            # of the function around the comprehensions
            d = len(self.stack)
            while self.stack[d - 1].get_name() == "genexpr":
                d -= 1
            self.add(self.offset(n.lineno, n.col_offset), d)
        self.visit(n.value)

    def visit_ExceptHandler(self, n):
        if n.type:
            self.visit(n.type)
        if n.name == self.name:
            self.add(self.text.index(f"as {n.name}", self.offset(n.lineno, n.col_offset)) + 3)
        for s in n.body:
            self.visit(s)

    def visit_Global(self, n):
        for i in self.all(n):
            self.add(i, binds=None)

    visit_Nonlocal = visit_Global

    def visit_MatchAs(self, n):
        if n.pattern:
            self.visit(n.pattern)
        if n.name == self.name:
            self.add(self.offset(n.end_lineno, n.end_col_offset) - len(n.name))

    def visit_MatchStar(self, n):
        if n.name == self.name:
            self.add(self.offset(n.end_lineno, n.end_col_offset) - len(n.name))

    def all(self, n):
        """the occurrences in the text of a simple statement"""
        import re
        s, e = self.offset(n.lineno, n.col_offset), self.offset(n.end_lineno, n.end_col_offset)
        return [s + m.start() for m in re.finditer(rf"(?<![\w.]){self.name}\b", self.text[s:e])]

    def visit_Import(self, n):
        for a in n.names:
            s, e = self.offset(a.lineno, a.col_offset), self.offset(a.end_lineno, a.end_col_offset)
            if a.asname == self.name:
                self.add(e - len(self.name))
                self.imported.add(self.found[e - len(self.name)])
            elif not a.asname and a.name.split(".")[0] == self.name:
                self.add(s)
                self.imported.add(self.found[s])

    def visit_ImportFrom(self, n):
        for a in n.names:
            e = self.offset(a.end_lineno, a.end_col_offset)
            if (a.asname or a.name) == self.name:
                self.add(e - len(self.name))
                self.imported.add(self.found[e - len(self.name)])


def variables(text, name="x"):
    """the positions of each variable that is bound somewhere, apart from those whose meaning is only known at run time: a
    name that is read in a class that also binds it can be the one of the class and the one around it; one that is read
    before anything is bound is none"""
    o = Occurrences(text, name)
    groups = {}
    for i, v in o.found.items():
        groups.setdefault(v, []).append(i)
    if o.loads_in_class:
        return []
    return [sorted(g) for v, g in groups.items() if v is not None and v in o.bound and v not in o.imported
            and o.immediate.get(v, len(text)) > o.first[v]]
