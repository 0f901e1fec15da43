import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, astcmp, pyspaces


def run():
    chk = vlib.Check(
        "C03", "exploration",
        "every program of each listed space (templates of every grammar production with every hole filled by every "
        "construct, all token sequences and all line layouts up to a bound, f-string bodies by fragments) is parsed by "
        "the real parser and by CPython 3.12's ast.parse; the tree has an error node exactly when CPython rejects the "
        "program; distinct = distinct reference trees of accepted programs",
        ["CPython 3.12.3's ast.parse is the oracle; syntax that only newer Python versions accept is not in the spaces",
         "deviations the property names (tabs mixed with spaces, a backslash before the end of the file, four shapes in "
         "match statements) are recognised in the tree or by CPython's error class and not reported"])
    astcmp.run(chk, vlib.build("pyparse"), "accept", list(pyspaces.SPACES))
    return chk.finish()


vlib.main(run)
