"""Half-typed programs: every program of the cursor and grammar spaces cut after, or without, each of its tokens."""
import io
import tokenize

import cursor
import pyspaces


def tokens(t):
    """(start, end) of the tokens, in characters."""
    lines = [0]
    for l in t.split("\n"):
        lines.append(lines[-1] + len(l) + 1)
    out = []
    try:
        for k in tokenize.generate_tokens(io.StringIO(t).readline):
            if k.string.strip():
                out.append((lines[k.start[0] - 1] + k.start[1], lines[k.end[0] - 1] + k.end[1]))
    except (tokenize.TokenError, SyntaxError):
        pass
    return out


def cut(programs, step):
    for i, t in enumerate(programs):
        if i % step:
            continue
        for s, e in tokens(t):
            yield t[:e]
            yield t[:e] + "\n"
            yield t[:s] + t[e:]
            yield t[:e] + " ."
            yield t[:s] + "(" + t[s:]


def make(space, of, quick_step, thorough_step):
    return lambda thorough: cut(of[space](False), thorough_step if thorough else quick_step)


SPACES = {}
for _n, _q, _t in (("expressions", 6, 1), ("calls", 6, 1), ("imports", 1, 1), ("blocks", 4, 1)):
    SPACES["half-typed " + _n] = make(_n, cursor.SPACES, _q, _t)
for _n, _q, _t in (("simple-statements", 40, 4), ("compound-statements", 200, 16), ("expressions", 100, 13)):
    SPACES["half-typed grammar " + _n] = make(_n, pyspaces.SPACES, _q, _t)


def judge(t, o):
    if o.startswith("O"):
        return None, t
    return ("panicked: " + o[2:] if o.startswith("P") else o[2:]), t
