"""Texts, positions in three encodings and document changes, with a plain reading of the LSP specification."""
import itertools
import re

NEWLINE = re.compile("\r\n|\n|\r")
UNITS = {"utf8": lambda c: len(c.encode()), "utf16": lambda c: len(c.encode("utf-16-le")) // 2, "chars": lambda c: 1}


def strings(alphabet, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def lines(text):
    """(start, end without the newline, newline) in characters"""
    res, last = [], 0
    for m in NEWLINE.finditer(text):
        res.append((last, m.start(), m.group()))
        last = m.end()
    return res + [(last, len(text), "")]


def positions(text, encoding):
    """All valid (line, column, index into the text)"""
    res = []
    for n, (a, b, _) in enumerate(lines(text)):
        col = 0
        for i in range(a, b + 1):
            res.append((n, col, i))
            if i < b:
                col += UNITS[encoding](text[i])
    return res


def invalid(text, encoding):
    """Positions that do not exist: behind the last line, behind the end of a line, inside of a character"""
    res = []
    ls = lines(text)
    for n, (a, b, nl) in enumerate(ls):
        cols = {c for m, c, _ in positions(text, encoding) if m == n}
        # between the two characters of \r\n there is nothing that could be relied on
        res += [(n, c) for c in range(max(cols) + 3) if c not in cols and not (nl == "\r\n" and c == max(cols) + 1)]
    # the checker may keep a newline at the end that is not part of the document
    return res + [(len(ls) + 1, 0)]


def same(text, want):
    return text in (want, want + "\n")


def replaced(text, start, end, new):
    return text[:start] + new + text[end:]


def ranges(text, encoding):
    ps = positions(text, encoding)
    return [(p, q) for i, p in enumerate(ps) for q in ps[i:]]


def change(p, q, new):
    return [p[0], p[1], q[0], q[1], new]
