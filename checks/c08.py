import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vfscheck


def run():
    return vfscheck.run(
        'C08', ['notify'],
        ['modules', 'packages', 'deep', 'renames', 'database', 'swap', 'outside', 'nested'],
        'after every operation of every history: the open files reported as invalidated include each open file whose analysis was dropped and each file that was stored, and contain only open files')


vlib.main(run)
