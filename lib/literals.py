"""Literal decoding: enumerated literal texts, judged against CPython's ast.literal_eval."""
import ast
import itertools
import warnings

warnings.simplefilter("ignore")

PREFIXES = ["", "r", "R", "u", "U", "b", "B", "br", "rb", "Rb", "bR", "BR"]
QUOTES = ["'", '"', "'''", '"""']
BODY = ["\\", "x", "u", "U", "N", "{", "}", "n", "0", "1", "7", "8", "4", "a", "g", "\n", "\r", "\r\n", "'", '"', "é", "😀", " "]
ESC = ["\\", "x", "u", "n", "1", "8", "A", "\n", "\r\n", "'", '"', "é", "#"]


def space_bodies(thorough):
    for n in range(0, 4):
        for b in itertools.product(BODY, repeat=n):
            b = "".join(b)
            for p in PREFIXES:
                for q in QUOTES:
                    yield p + q + b + q
    for n in (4,) if not thorough else (4, 5):
        for b in itertools.product(ESC, repeat=n):
            b = "".join(b)
            for p in ("", "b", "r", "bR"):
                for q in ("'", '"""'):
                    yield p + q + b + q
    if thorough:
        for b in itertools.product(BODY, repeat=4):
            b = "".join(b)
            for p in ("", "b", "r"):
                for q in ('"', "'''"):
                    yield p + q + b + q


def space_escapes(thorough):
    """Every escape letter, every octal, hex and unicode escapes at all digit boundaries, each between neighbours."""
    esc = ["\\" + chr(c) for c in range(1, 256)] + ["\\😀", "\\ࠀ"]
    for n in (1, 2, 3, 4):
        esc += ["\\" + "".join(d) for d in itertools.product("01278" if n > 2 else "0123456789", repeat=n)]
    esc += ["\\" + "".join(d) for d in itertools.product("34567", "0367", "0127")]
    digits = "0179afAFgG_"
    for n in (0, 1, 2, 3):
        esc += ["\\x" + "".join(d) for d in itertools.product(digits, repeat=n)]
    for d in itertools.product("0189adefDF", "08Ffg", "0f", "0aF"):
        esc.append("\\u" + "".join(d))
        esc.append("\\u" + "".join(d)[:3])
    for d in ["00000000", "00000041", "0000d7ff", "0000d800", "0000DFFF", "0000e000", "0000ffff", "00010000", "0001F600",
              "0010ffff", "00110000", "ffffffff", "0000004", "000000410", "0001f60g", "é0000000", "100000041"]:
        esc.append("\\U" + d)
        esc.append("\\u" + d[4:])
    around = [("", ""), ("a", "b"), ("\\n", "\\\\"), ("é", "7"), ("", "\\x41"), ("\\\\", "é")]
    if thorough:
        around += [("\r\n", "\r"), ("😀", "😀"), ("\\", ""), ("'", '"'), ("\\101", "1"), ("\\\n", "\\\r\n")]
    for e in dict.fromkeys(esc):
        for a, z in around:
            for p, q in itertools.product(["", "b", "r", "u"], ["'", '"""']):
                yield p + q + a + e + z + q


PARTS = ["'a'", '"b"', "'''c'''", "u'd'", "r'\\n'", "'\\n'", "''", '""""""', "'\\\\'", "'é'", "f''", "f'{x}'", "b''", "b'\\x41'", "rb'\\'",
         "'\\\n'", "'''\r\n'''", "'\"'", '"\'"', "'\"\"\"'", "R'\\''"]
GLUE = ["", " ", " \\\n "]


def space_concat(thorough):
    for a, b in itertools.product(PARTS, repeat=2):
        for g in GLUE:
            yield a + g + b
            yield f"({a}{g}{b})"
            yield f"({a}\n# c\n{b}\n)"
    for t in itertools.product(PARTS if thorough else PARTS[:8] + PARTS[10:12], repeat=3):
        yield " ".join(t)
        yield "".join(t)


def space_ints(thorough):
    for n in range(1, 6 if not thorough else 7):
        for d in itertools.product("019_xXoObBaFe.j"[:15 if n < 5 or thorough else 12], repeat=n):
            if d[0] in "019.":
                yield "".join(d)
    for base, digs in (("0x", "0189aAfF_"), ("0X", "09f_"), ("0o", "0178_"), ("0b", "012_"), ("", "0123456789_"), ("0", "_0018")):
        for n in (1, 2, 3, 4, 5 if thorough else 4):
            for d in itertools.product(digs, repeat=n):
                yield base + "".join(d)
    for k in list(range(0, 140)) + [255, 256, 511, 512]:
        for v in (2 ** k - 1, 2 ** k, 2 ** k + 1):
            yield str(v)
            yield hex(v)
            yield oct(v)
            yield bin(v)


DOC = ["a", " ", "\t", "\n", "é"]
DOC_ODD = ["a", " ", "\n", "\u00a0", "\u2003", "\u3000", "é"]


def space_docstrings(thorough):
    for n in range(0, 8 if not thorough else 9):
        for d in itertools.product(DOC, repeat=n):
            yield '"""' + "".join(d) + '"""'
    for n in range(0, 6 if not thorough else 7):
        for d in itertools.product(DOC_ODD, repeat=n):
            yield '"""' + "".join(d) + '"""'


SPACES = {"bodies": space_bodies, "escapes": space_escapes, "concatenations": space_concat, "integers": space_ints,
          "docstrings": space_docstrings}


def lex(text):
    """The string literals of a text that consists of nothing else (but glue): (start, end, prefix, quote, body)."""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c in " \r\n()":
            i += 1
        elif c == "\\":
            i += 1
        elif c == "#":
            while i < len(text) and text[i] not in "\r\n":
                i += 1
        else:
            s = i
            while text[i] not in "'\"":
                i += 1
            prefix = text[s:i]
            q = text[i] * 3 if text.startswith(text[i] * 3, i) else text[i]
            i += len(q)
            b = i
            while not text.startswith(q, i):
                i += 2 if text[i] == "\\" else 1
            out.append((s, i + len(q), prefix, q, text[b:i]))
            i += len(q)
    return out


def hx(b):
    return "x" + b.hex()


def clean_doc(v):
    if not v.strip(" \t\n"):
        return None
    lines = v.split("\n")
    ind = min(len(l) - len(l.lstrip(" \t")) for l in lines if l.strip(" \t"))
    return "\n".join(l[ind:] if l.strip(" \t") else "" for l in lines).strip(" \t\n")


def squeeze(v):
    return "\n".join(l if l.strip(" \t") else "" for l in v.split("\n"))


def off(text, i):
    return len(text[:i].encode())


def reference(t):
    try:
        node = ast.parse(t, mode="eval").body
    except (SyntaxError, ValueError, MemoryError):
        return None
    return node


def judge(t, o):
    """None, or what is wrong with the answer `o` for the text `t`; second element: was there something to compare?"""
    if o.startswith("P"):
        return "panicked: " + o[2:], None
    if "\0" in t:
        return None, None
    node = reference(t)
    if node is None:
        return None, None
    err, rest = o[0], o[2:]
    if isinstance(node, ast.Constant) and type(node.value) is int:
        if err == "E":
            return None, None           # C03's business
        want = f"I {node.value}"
        return (None if rest == want else f"got {rest}, Python says {want}"), want
    if isinstance(node, ast.JoinedStr):
        parts = rest.split(";")
        if err == "E":
            return None, None
        if parts[0] != "SF" or parts[1] != "DF":
            return f"an f-string has no constant value, got {rest}", "F"
        return None, "F"
    if not isinstance(node, ast.Constant) or not isinstance(node.value, (str, bytes)) or err == "E":
        return None, None
    lits = lex(t)
    if isinstance(node.value, bytes):
        if len(lits) > 1:
            return (None if rest == "B*" else f"two literals, got {rest}"), "B*"
        want = f"B {off(t, lits[0][0])} {off(t, lits[0][1])} {hx(node.value)}"
        return (None if rest == want else f"got {rest}, Python says {want}"), want
    if "\\N" in t and "\\N" in "".join(l[4] for l in lits if "r" not in l[2].lower()):
        return None, None               # character names are not decoded by this code base
    v = node.value
    if any(0xD800 <= ord(c) < 0xE000 for c in v):
        return None, None               # lone surrogates have no UTF-8 form
    parts = rest.split(";")
    first = lits[0]
    want = f"S {off(t, first[0]) + len(first[2]) + len(first[3])} {hx(v.encode())}"
    if parts[0] != want:
        return f"got {parts[0]}, Python says {want}", want
    if parts[2] != f"1 {'true' if len(lits) == 1 else 'false'}":
        return f"{len(lits)} literals, but single: {parts[2]}", want
    if len(parts) != 3 + len(lits):
        return f"{len(lits)} literals, but got {rest}", want
    for l, p in zip(lits, parts[3:]):
        s, e, pre, q, body = l
        lead = len(pre) + len(q)
        w = (f"L {off(t, s)} {off(t, e)} {lead} {off(t, e) - off(t, s) - len(q)} {hx(body.encode())} "
             f"{hx(ast.literal_eval(t[s:e]).encode())}")
        if p != w:
            return f"got {p}, expected {w} (start, end, start and end of the content in the literal, content, value)", want
    d = bytes.fromhex(parts[1][3:]).decode()
    if all(c in " \t\n" or not c.isspace() and not 0x1c <= ord(c) <= 0x1f and ord(c) != 0x85 for c in v):
        w = clean_doc(v)
        if w is not None and squeeze(d).strip() != w:
            return f"docstring cleaned to {d!r}, expected {w!r}", want
        if w is None and d.strip(" \t\n"):
            return f"blank docstring cleaned to {d!r}", want
    return None, want
