import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, explorer, textspace


def run():
    chk = vlib.Check(
        "C02", "exploration",
        "every sequence of at most max_length fragments of each listed space, in each frame, is parsed by the real "
        "parser; distinct = distinct sequences of node types of the resulting trees (a text is non-trivial when its tree "
        "shape was not produced by another text of the space)",
        ["texts outside the listed fragment alphabets and lengths are not covered",
         "a parse that takes more than 20 s counts as not terminating",
         "nesting ladders of brackets that can be read two ways stop at depth 6 (exponential backtracking, DESIGN.md)"])
    binary = vlib.build("pyparse")
    explorer.run(chk, binary, "navigation")
    textspace.run(chk, binary, "check-navigation", "halftyped")
    return chk.finish()


vlib.main(run)
