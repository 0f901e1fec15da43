import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, textspace


def run():
    chk = vlib.Check(
        "C13", "exploration",
        "every text of each listed space: the ignore comment found for every line and region of tokens, the directives and the "
        "comment in front of the first statement are compared with a plain reading of the text; every insertion that is "
        "offered is made, and CPython has to read the result as the old program plus exactly the intended addition; distinct = "
        "distinct answers",
        ["CPython 3.12.3's ast is the oracle for programs that it and zuban accept"])
    textspace.run(chk, vlib.build("pyparse"), "edits", "edits")
    return chk.finish()


vlib.main(run)
