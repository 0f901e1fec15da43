import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vfscheck


def run():
    return vfscheck.run(
        'C10', ['overlay', 'converge', 'identity', 'stale', 'notify'],
        ['nested', 'nested-first'],
        'one workspace inside of another one: after every history the file has one entry, one index, one text, and an edit through either route invalidates whoever imported it through the other')


vlib.main(run)
