import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, textspace


def run():
    chk = vlib.Check(
        "C11", "exploration",
        "every literal text of each listed space is decoded through the typed syntax tree and compared with CPython's value "
        "of the same text (ast.literal_eval), with the literal's own source range and the range of its content; texts "
        "that CPython rejects must be decoded without a crash; distinct = distinct reference answers",
        ["CPython 3.12.3 is the oracle; \\N{...} escapes and lone surrogates are outside the property"])
    textspace.run(chk, vlib.build("pyparse"), "literals", "literals")
    return chk.finish()


vlib.main(run)
