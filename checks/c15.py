import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, conccheck


def run():
    chk = vlib.Check(
        "C15", "model_checking",
        "stateless search over all interleavings (up to the preemption bound of each program) of all programs of two or "
        "three threads that look up, index, load, list, walk, register dependencies, add workspaces and sub files through "
        "the real Vfs on a scratch directory; locks, once-cells, atomics, the workspace list and disk reads are scheduling "
        "points; a state is a distinct prefix of decisions, a transition one scheduled step, a trace one complete "
        "execution of the implementation",
        ["sequentially consistent memory: each atomic operation is one step",
         "a waiting writer of a RwLock blocks new readers (the strictest policy of the platform's lock)",
         "workspaces are not added inside directories that were already listed"])
    conccheck.run(chk, "load")
    return chk.finish()


vlib.main(run)
