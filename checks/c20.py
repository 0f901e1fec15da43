import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import queryspace as Q

# (flags, texts)
QUICK = [
    ([], lambda: Q.half_typed([" ."])),
    (["default-mode"], lambda: Q.holes(Q.TOKENS + Q.NAMES, 1)),
    ([], lambda: Q.sequences(Q.SMALL, 3)),
]
THOROUGH = QUICK + [
    (["default-mode"], lambda: Q.half_typed([" .", " (", "["])),
    (["strict", "unreachable"], lambda: Q.half_typed([" ,", " x", ":", "\n"])),
    ([], lambda: Q.holes(Q.TOKENS + Q.NAMES, 1)),
    ([], lambda: Q.holes(Q.SMALL + Q.NAMES, 2)),
    (["default-mode"], lambda: Q.sequences(Q.TOKENS, 3)),
]


def run():
    chk = vlib.Check(
        "C20", "exploration",
        "all texts of the spaces (each program cut off at each of its tokens, with each token or rest of a line missing, with "
        "something inserted behind each token; all sequences of tokens up to a length, alone and in the holes of programs), and "
        "for each of them every kind of query at every position; each text is given to a fresh project. An answer counts as "
        "non-trivial if it is not empty",
        ["the typeshed of pyright is used, as the submodule is empty here",
         "built as it is shipped, without debug assertions"])
    # the profile that users have
    binary = vlib.build("checker", extra_env={"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false"},
                        target=os.path.join(vlib.TARGET, "plain"))
    for flags, space in THOROUGH if chk.tier == "thorough" else QUICK:
        texts = Q.unique(space())
        with zuban.Pool(flags, binary=binary) as pool:
            answers = pool.ask([[["store", "a.py", t], ["everything", "a.py", t]] for t in texts])
        for t, a in zip(texts, answers):
            c = zuban.crash(a)
            request = {"flags": flags, "text": t}
            if c:
                chk.fail(f"{' '.join(flags)} {t!r}", c, request)
                continue
            chk.add("evaluations", a[1]["queries"])
            chk.add("distinct_nontrivial", a[1]["answered"])
            for op, why in a[1]["problems"][:3]:
                chk.fail(f"{' '.join(flags)} {t!r} {op}", str(why), request)
        chk.add("texts", len(texts))
        chk.sample(texts[len(texts) // 2])
    chk.coverage["exhaustive"] = True
    return chk.finish()


vlib.main(run)
