"""Ignore comments, configuration comments and insertion points, judged by a plain reading of the text and by CPython."""
import ast
import io
import itertools
import json
import re
import tokenize
import warnings

warnings.simplefilter("ignore")

COMMENT = ["x", " ", "#", "type:", "zuban:", "ignore", "[a]", "[a, b]", "[", "]", "\n", "\r\n", "\t", "(", ")",
           "# type: ignore", "# type: ignore[a]", "# zuban: ignore[b ]", "é", "'#'", "# mypy: strict\n", "# mypy: "]


def space_comments(thorough):
    for n in range(1, 5 if thorough else 4):
        for c in itertools.product(COMMENT, repeat=n):
            yield "".join(c)
    tail = ["#", " ", "type:", "type: ", "zuban: ", "ignore", "ignore ", "[a]", "[a,b] ", "[]", "x", "\n"]
    for c in itertools.product(tail, repeat=5 if thorough else 4):
        yield "x # " + "".join(c)
        yield "# " + "".join(c)


LINES = ["import a", "from a import b", "from __future__ import x", '"""doc"""', "# c", "", "x = 1", "import a; import b", "import a; x",
         "if x: pass", "from . import (a,\n b)", "import a # c", "    # c", "#!/x", "'a'; import b", "\\", "\f", "def f():\n  import a",
         "import é; pass", "'''d\n# c\n\n'''", "import \\\n  a", "# type: ignore", "# mypy: strict"]


def space_heads(thorough):
    for n in range(0, 5 if thorough else 4):
        for c in itertools.product(LINES if n < 4 else LINES[:14], repeat=n):
            t = "\n".join(c)
            if t:
                yield t
            yield t + "\n"
            if n < 4:
                yield (t + "\n").replace("\n", "\r\n")


def space_froms(thorough):
    mods = ["a", ".", "..", ".a", "...a.b", "a.b", "....", ". a"]
    tgts = []
    for k in (1, 2, 3) if thorough else (1, 2):
        for names in itertools.product(["b", "c as d"], repeat=k):
            for sep in (", ", ",", " ,\n ", ", # c\n  ", ",\\\n "):
                s = sep.join(names)
                if "\n" not in s or "\\" in s:
                    tgts.append(s)
                    tgts.append(s + " # c")
                for o in ("(", "( ", "(\n  ", "( # c\n  "):
                    for z in (")", " )", ",)", ", )", ",\n)", " # c\n)", ", # c\n)", ",  )", "\n)", ",#c\n )"):
                        tgts.append(o + s + z)
    for m in mods:
        for t in tgts:
            yield f"from {m} import {t}\n"
            if thorough:
                yield f"x; from {m} import {t}; y\n"
                yield f"from {m} import {t}"


CODE = ["x", " = ", "(", ")", "[\n", "]", "'''a\n'''", "f'''{x}\n'''", "f'''\n{x}'''", ",\n", " # c\n", "  # type: ignore[a]\n",
        "# zuban: ignore[a]\n", "# type: ignore\n", " \\\n", "\n", "; ", "'s'", "if x: ", "f(x)", "'# type: ignore'", "# type: ignore[a] # c",
        "f'{x\n}'", "\r\n", " ", "f'''{x}'''"]


def space_statements(thorough):
    for n in range(1, 5 if thorough else 4):
        for c in itertools.product(CODE, repeat=n):
            yield "".join(c) + "\n"
            if n < 4:
                yield "x = [" + "".join(c) + "]\n"
                if n < 3:
                    yield "def f():\n  " + "".join(c) + "\n  y\n"
                    yield "x = f'''" + "".join(c) + "'''\n"


SPACES = {"ignore-comments": space_comments, "file-heads": space_heads, "from-imports": space_froms, "statements": space_statements}


# -- the plain reading ----------------------------------------------------------------------------
def ignore_of(b, s, e):
    """b: the text as bytes decoded with latin-1, so that indices are byte offsets."""
    m = re.compile("[\r\n]").search(b, e)
    end = m.start() if m else len(b)
    found = []
    pos = s
    for line in re.split("[\r\n]", b[s:end]):
        hashes = [i for i, c in enumerate(line) if c == "#"]
        for h, nxt in zip(hashes, hashes[1:] + [len(line)]):
            m = re.fullmatch(r" *(type|zuban): *ignore(.*)", line[h + 1:nxt], re.S)
            if not m:
                continue
            rest = m.group(2)
            c = re.fullmatch(r" *\[(.+)\][ \t]*", rest, re.S)
            if c:
                found.append((m.group(1), c.group(1), pos + h + 1 + m.start(2) + c.start(1)))
            elif rest == "" or rest[0] in " \t":
                found.append("bare")
        pos += len(line) + 1
    if not found:
        return None
    if "bare" in found:
        return "bare"
    return [found[0][0], found[0][1], found[0][2], [f[1] for f in found[1:]]]


def l1(x):
    """The harness answers with real strings; compare in latin-1 space."""
    if isinstance(x, list):
        return [x[0], x[1].encode().decode("latin-1"), x[2], [c.encode().decode("latin-1") for c in x[3]]]
    return x


def dump(t):
    return ast.dump(ast.parse(t))


def leading(t, tree):
    """How many statements belong to the docstring and the imports at the start; None if the property does not say."""
    newlines = []
    try:
        for k in tokenize.generate_tokens(io.StringIO(t).readline):
            if k.type == tokenize.NEWLINE:
                newlines.append(k.start)
    except (tokenize.TokenError, SyntaxError):
        return None
    groups = {}
    for i, s in enumerate(tree.body):
        line = sum(1 for p in newlines if p <= (s.lineno, len(t.split("\n")[s.lineno - 1].encode()[:s.col_offset].decode())))
        groups.setdefault(line, []).append(s)
    n = 0
    for i, g in enumerate(groups.values()):
        strings = [s for s in g if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.JoinedStr))
                   and (not isinstance(s.value, ast.Constant) or isinstance(s.value.value, str))]
        if i == 0 and strings:
            if g[0] is not strings[0] or re.match(r"\s*\(", ast.get_source_segment(t, g[0])) or "(" in t.split("\n")[g[0].lineno - 1][:g[0].value.col_offset]:
                return None
            n += len(g)
        elif all(isinstance(s, (ast.Import, ast.ImportFrom)) for s in g):
            n += len(g)
        else:
            break
    return n


def judge(t, o):
    if o.startswith("P"):
        return "panicked: " + o[2:], None
    got = json.loads(o[2:])
    code = got["code"]
    b = code.encode().decode("latin-1")
    for p, c, ins in got["lines"]:
        w = ignore_of(b, p, p)
        if l1(c) != w:
            return f"ignore comment for the line of {p}: got {c}, expected {w}", "x"
    for s, e, c in got["regions"]:
        w = ignore_of(b, s, e)
        if l1(c) != w:
            return f"ignore comment for {s}..{e}: got {c}, expected {w}", "x"
    want = []
    at = 0
    for line in b.split("\n"):
        if line.startswith("# mypy: "):
            want.append([at + 8, line[8:]])
        at += len(line) + 1
    if [[i, s.encode().decode("latin-1")] for i, s in got["mypy"]] != want:
        return f"mypy directives {got['mypy']}, expected {want}", "x"
    ref = json.dumps([got["head"], want, [x[1] for x in got["lines"]]])
    try:
        tree = ast.parse(code)
    except (SyntaxError, ValueError):
        return None, ref
    if o[0] == "E" or "\f" in code and "\\" in code:
        return None, ref
    raw = code.encode()

    def insert(i, s):
        return (raw[:i] + s.encode() + raw[i:]).decode()

    # -- the file's head
    first = min((x[0] for x in got["lines"] if tree.body and b[x[0]] not in "\r\n"), default=None)
    if first is not None:
        w = ignore_of(b[:first], 0, first)
        w = w[1] if isinstance(w, list) else w == "bare"
        if isinstance(got["head"], str):
            got["head"] = got["head"].encode().decode("latin-1")
        if got["head"] != w:
            return f"ignore comment in front of the first statement: got {got['head']}, expected {w}", ref
    old = dump(code)
    # -- new imports at the end of the leading ones
    k = leading(code, tree)
    if not tree.body and "\\" in code:
        k = None
    if k is not None and "\r" not in code.replace("\r\n", ""):
        i = got["imports"]
        nl = "" if b[i:i + 1] in ("\n", "\r") and i < len(b) else "\n"
        try:
            new = ast.parse(insert(i, "import zzz\n" + nl))
            del_ok = [ast.dump(s) for s in new.body] == [ast.dump(s) for s in tree.body[:k]] + ["Import(names=[alias(name='zzz')])"] \
                + [ast.dump(s) for s in tree.body[k:]]
        except SyntaxError as e:
            return f"an import inserted at {i} makes the program invalid ({e})", ref
        if not del_ok:
            return f"an import inserted at {i} is not right behind the leading imports", ref
    # -- a new name in an existing import
    fs = [s for s in tree.body if isinstance(s, ast.ImportFrom)]
    if len(fs) == len(got["from"]):
        for s, (i, add) in zip(fs, got["from"]):
            if s.names[0].name == "*":
                continue
            try:
                new = ast.parse(insert(i, add))
            except SyntaxError as e:
                return f"{add!r} inserted at {i} makes the program invalid ({e})", ref
            j = tree.body.index(s)
            s.names.append(ast.alias("new"))
            w = ast.dump(tree)
            s.names.pop()
            if ast.dump(new) != w:
                return f"{add!r} inserted at {i} does not add the name to the import", ref
    # -- ignore comments
    spans = multiline(code)
    if spans is None:
        return None, ref
    for p, c, ins in got["lines"]:
        if b[p] in "\r\n":
            continue
        m = re.compile("[\r\n]").search(b, p)
        eol = m.start() if m else len(b)
        if ins is not None:
            i, *adds = ins
            if c is not None and any(s < i < e for s, e in spans):
                continue  # the text of a string that reads like a comment
            for kind, add in zip(("type", "zuban"), adds):
                if add is None:
                    if not isinstance(c, list) or c[0] == kind:
                        return f"no '{kind}: ignore' offered at {p}", ref
                    continue
                t2 = insert(i, add)
                try:
                    same = dump(t2) == old
                except SyntaxError as e:
                    return f"{add!r} inserted at {i} for {p} makes the program invalid ({e})", ref
                if not same:
                    return f"{add!r} inserted at {i} for {p} changes the program", ref
                r = ignore_of(t2.encode().decode("latin-1"), p, p)
                if not isinstance(r, list) or "new" not in re.split(" *, *", ",".join([r[1].strip()] + r[3])):
                    return f"{add!r} inserted at {i} for {p} does not ignore the error: {r}", ref
        else:
            usable = c is None and b[eol - 1] != "\\" and not any(s < eol < e for s, e in spans)
            if usable:
                return f"no ignore comment offered at {p}", ref
    return None, ref


def multiline(t):
    """Byte ranges of the tokens that go over several lines; whole f-strings count as one."""
    if "\r" in t.replace("\r\n", ""):
        return None
    lines = [0]
    for l in t.split("\n"):
        lines.append(lines[-1] + len(l.encode()) + 1)

    def off(p):
        if p[0] > len(lines) - 1:
            return lines[-1]
        return lines[p[0] - 1] + len(t.split("\n")[p[0] - 1][:p[1]].encode())
    out = []
    stack = []
    try:
        for k in tokenize.generate_tokens(io.StringIO(t).readline):
            if k.type == tokenize.FSTRING_START:
                stack.append(off(k.start))
            elif k.type == tokenize.FSTRING_END:
                out.append((stack.pop(), off(k.end)))
            elif k.type == tokenize.STRING:
                out.append((off(k.start), off(k.end)))
    except (tokenize.TokenError, SyntaxError):
        return None
    return out
