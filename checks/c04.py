import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, astcmp, pyspaces


def run():
    chk = vlib.Check(
        "C04", "exploration",
        "every program of each listed space that CPython 3.12 accepts is walked with the public accessors of the typed "
        "syntax tree; kinds, nesting, order, operators, names, decoded literals and byte ranges must equal those of "
        "CPython's ast, and accessors that answer the same question must agree; distinct = distinct reference trees",
        ["CPython 3.12.3's ast is the oracle; syntax that only newer Python versions accept is not in the spaces",
         "f-string literal parts and grouping parentheses are compared only as far as the typed tree represents them"])
    astcmp.run(chk, vlib.build("pyparse"), "ast", list(pyspaces.SPACES))
    return chk.finish()


vlib.main(run)
