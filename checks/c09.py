import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vfscheck


def run():
    return vfscheck.run(
        'C09', ['recover'],
        ['modules', 'packages', 'deep', 'renames', 'database', 'swap', 'outside', 'nested'],
        'after every history with a recovery in it: open files were reported, and all properties of C05 to C08 hold as if nothing had happened')


vlib.main(run)
