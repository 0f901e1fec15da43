import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vfscheck


def run():
    return vfscheck.run(
        'C05', ['overlay'],
        ['modules', 'packages', 'deep', 'renames', 'database', 'swap', 'outside'],
        'after every history of edits, disk changes, events and analyses: each open file is found under its path and index, has the text of its buffer, and nothing else counts as open')


vlib.main(run)
