import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import lspedits as L

BATCH = 250
ERROR = object()


def singles(texts, news):
    """one change in a message, valid and invalid ones"""
    for t in texts:
        for e in L.UNITS:
            for p, q in L.ranges(t, e):
                for new in news:
                    yield t, [(e, [L.change(p, q, new)])], L.replaced(t, p[2], q[2], new)
                if p[:2] != q[:2]:
                    yield t, [(e, [L.change(q, p, "b")])], ERROR
            good = L.positions(t, e)
            for p in L.invalid(t, e):
                for q in (good[0], good[-1]):
                    a, b = sorted([p[:2], q[:2]])
                    yield t, [(e, [L.change(a, b, "b")])], ERROR


def pairs(texts, news, encodings, messages):
    """two changes: one after the other, in one message or in two"""
    for t in texts:
        for e in encodings:
            for p, q in L.ranges(t, e):
                for new in news:
                    u = L.replaced(t, p[2], q[2], new)
                    for r, s in L.ranges(u, e):
                        for new2 in news:
                            w = L.replaced(u, r[2], s[2], new2)
                            a, b = L.change(p, q, new), L.change(r, s, new2)
                            if 1 in messages:
                                yield t, [(e, [a, b])], w
                            if 2 in messages:
                                yield t, [(e, [a]), (e, [b])], w


def documents(texts, news, encodings):
    """the whole document is replaced, alone and before or after another change"""
    for t in texts:
        for u in texts:
            for e in encodings:
                yield t, [(e, [u])], u
                # refused, which must not leave anything behind
                r, s = L.ranges(t, e)[-1]
                yield t, [(e, [u, L.change((9, 0), (9, 0), "b")]), (e, [L.change(r, s, "c")])], L.replaced(t, r[2], s[2], "c"), 1
                for p, q in L.ranges(t, e)[:3]:
                    yield t, [(e, [L.change(p, q, "b"), u])], u
                for r, s in L.ranges(u, e):
                    for new in news:
                        w = L.replaced(u, r[2], s[2], new)
                        yield t, [(e, [u, L.change(r, s, new)])], w
                        yield t, [(e, [L.change((0, 0), (0, 0), "\n"), u, L.change(r, s, new)])], w


def triples(texts, news):
    """three changes in one message, which keeps or drops its index of lines in between"""
    for t in texts:
        for p, q in L.ranges(t, "chars"):
            for n1 in news:
                u = L.replaced(t, p[2], q[2], n1)
                for r, s in L.ranges(u, "chars"):
                    v = L.replaced(u, r[2], s[2], "")
                    for x, y in L.ranges(v, "chars"):
                        yield (t, [("chars", [L.change(p, q, n1), L.change(r, s, ""), L.change(x, y, "b\n")])],
                               L.replaced(v, x[2], y[2], "b\n"))


def spaces(thorough):
    A = ["a", "é", "😀", "\n"]
    N = ["a", "\r\n", "\r", "\n"]
    yield "one change", singles(L.strings(A, 4 if thorough else 3), ["", "b", "\n", "😀\n"])
    yield "one change, newlines", singles(L.strings(N, 4 if thorough else 3), ["", "b", "\n", "\r"])
    yield "two changes", pairs(L.strings(["a", "😀", "\n"], 3 if thorough else 2), ["", "b", "\n"], L.UNITS, (1, 2))
    yield "two changes, newlines", pairs(L.strings(["a", "\r\n", "\r"], 3 if thorough else 2), ["", "\n", "a\r"], ["utf16"], (1,))
    yield "two changes, lines", pairs(["a\nb\nc", "\n\n\n", "é\n😀\n"], ["", "\n"], ["utf16"], (1, 2))
    yield "three changes", triples(["a\nb\n", "\n\n\n"] + (["a\nb\nc\nd"] if thorough else []), ["", "\n"])
    yield "whole documents", documents(L.strings(["a", "😀", "\n"], 3 if thorough else 2), ["", "b", "\n"], ["utf8", "utf16"])


def edits(chk, pool):
    for name, space in spaces(chk.tier == "thorough"):
        # in a second round the file was used before, which computes its lines
        cases = [c if len(c) == 4 else (*c, 0) for c in space if not (c[0].endswith("\r") or c[2] is not ERROR and c[2].endswith("\r"))]
        cases = [(*c, w) for c in cases for w in (False, True)]
        reqs = [[o for c in cases[i:i + BATCH] for o in request(c)] for i in range(0, len(cases), BATCH)]
        answers = pool.ask(reqs)
        todo = []
        for i, a in enumerate(answers):
            batch = cases[i * BATCH:(i + 1) * BATCH]
            if zuban.crash(a):
                todo += batch
                continue
            k = 0
            for c in batch:
                n = len(c[1]) + 3
                judge(chk, name, c, a[k:k + n])
                k += n
        # a crash takes its batch with it
        for c, a in zip(todo, pool.ask([request(c) for c in todo])):
            judge(chk, name, c, a)
        chk.add("edits", len(cases))
        chk.add("distinct_nontrivial", sum(c[2] is not c[0] for c in cases))
        chk.sample(f"{name}: {cases[len(cases) // 2][:2]!r}")


def request(case):
    text, msgs, _, _, used = case
    return [["store", "a.py", text], ["positions" if used else "code", "a.py"],
            *[["lsp", "a.py", e, c] for e, c in msgs], ["code", "a.py"]]


def judge(chk, name, case, answer):
    text, msgs, want, refused, used = case
    sig = f"{text!r} {msgs!r}{' in use' if used else ''}"
    chk.add("evaluations", 1)
    payload = {"text": text, "messages": msgs}
    if zuban.crash(answer):
        return chk.fail(sig, zuban.crash(answer)[:300], payload)
    errors = [a for a in answer[2:-1] if a is not None]
    if want is ERROR:
        if not errors or not L.same(answer[-1], text):
            chk.fail(sig, f"an invalid range is not refused: the text is {answer[-1]!r}", payload)
    elif len(errors) != refused:
        chk.fail(sig, f"refused: {errors}", payload)
    elif not L.same(answer[-1], want):
        chk.fail(sig, f"the text is {answer[-1]!r} instead of {want!r}", payload)


def places(chk, pool):
    """Positions that are reported and asked for, in all encodings"""
    A = ["a", "é", "😀", "\u2028"]
    n = 4 if chk.tier == "thorough" else 3
    cases = []
    for s in L.strings(A, n):
        for before in ("", "# é\n", "# 😀\r\n\r\n", "'''\n😀\r'''\r"):
            cases.append((f"{before}'{s}'; x{'é' if len(s) % 2 else ''} = '{s[:1]}'; yy = 1" + ("\n" if len(s) < 2 else ""),))
    reqs, wants = [], []
    for (t,) in cases:
        r, w = [["store", "a.py", t], ["positions", "a.py"]], []
        at = {e: {i: (l, c) for l, c, i in L.positions(t, e)} for e in L.UNITS}
        byte = lambda i: len(t[:i].encode())
        for name in (t[t.index("; x") + 2:t.index(" =", t.index("; x"))], "yy"):
            i = t.index("; " + name) + 2
            w.append([[byte(j), *at["utf8"][j], at["utf16"][j][1], at["chars"][j][1]] for j in (i, i + len(name))])
            for e in L.UNITS:
                r.append(["goto", "a.py", [e, *at[e][i]], True])
        reqs.append(r)
        wants.append(w)
    for (t,), r, w, a in zip(cases, reqs, wants, pool.ask(reqs)):
        chk.add("evaluations", 1 + len(r) - 2)
        chk.add("distinct_nontrivial", 1)
        if zuban.crash(a):
            chk.fail(f"positions {t!r}", zuban.crash(a)[:300], t)
            continue
        if a[1] != w:
            chk.fail(f"positions {t!r}", f"reported positions {a[1]} instead of {w} (byte, line, columns in bytes, code units, code points)", t)
        for k, x in enumerate(a[2:]):
            b = w[k // 3]
            if [y[1:3] for y in x] != [[b[0][0], b[1][0]]] if isinstance(x, list) else True:
                chk.fail(f"position {r[2 + k][2]} of {t!r}", f"finds {x} instead of the name at byte {b[0][0]}", t)
    chk.sample(f"positions: {cases[len(cases) // 2][0]!r}")


def run():
    chk = vlib.Check(
        "C17", "exploration",
        "all texts up to the bound over alphabets of narrow and wide characters and all kinds of newlines, with all ranges "
        "of each (valid and invalid ones) in all three encodings, one to three changes per message and whole-document "
        "changes; an evaluation is one list of messages sent to the real project whose text is then compared with a plain "
        "reading of the LSP specification; a nontrivial one changes the text or is refused",
        ["positions between the two characters of \\r\\n are not asked for",
         "a newline that the checker adds at the end of a text is accepted",
         "texts do not end with a lone carriage return",
         "columns behind the end of a line are refused rather than moved to its end"])
    with zuban.Pool(binary=vlib.build("checker")) as pool:
        edits(chk, pool)
        places(chk, pool)
    chk.coverage["exhaustive"] = True
    return chk.finish()


vlib.main(run)
