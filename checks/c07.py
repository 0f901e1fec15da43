import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vfscheck


def run():
    return vfscheck.run(
        'C07', ['stale'],
        ['modules', 'packages', 'deep', 'renames', 'database', 'swap', 'outside', 'findings', 'findings-replaced'],
        'after every history that ends with all events delivered: an analysis that was not invalidated equals the analysis the reference computes from disk and open buffers')


vlib.main(run)
