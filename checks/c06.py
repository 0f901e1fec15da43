import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vfscheck


def run():
    return vfscheck.run(
        'C06', ['converge', 'identity'],
        ['modules', 'packages', 'deep', 'renames', 'database', 'swap', 'outside', 'findings', 'findings-replaced'],
        'after every history that ends with all events delivered: looking up and loading each path gives what disk and open buffers contain, nothing more, under one index of its own')


vlib.main(run)
