import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, explorer, textspace


def run():
    chk = vlib.Check(
        "C12", "exploration",
        "every text of each listed space is asked every question at every position; the answers must be consistent with the "
        "tokens of the text, and for programs that CPython accepts (spaces expressions, calls, imports, blocks) equal to what "
        "CPython's ast and tokenizer say about the position; distinct = distinct token shapes of texts, and programs compared",
        ["CPython 3.12.3's ast and tokenize are the oracle for valid programs",
         "half-typed spaces cut every n-th program of their base space (n in lib/halftyped.py) at each of its tokens"])
    binary = vlib.build("pyparse")
    textspace.run(chk, binary, "cursor", "cursor")
    textspace.run(chk, binary, "check-cursor", "halftyped")
    explorer.run(chk, binary, "cursor")
    return chk.finish()


vlib.main(run)
