import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, conccheck


def run():
    chk = vlib.Check(
        "C14", "model_checking",
        "stateless search over all interleavings (up to the preemption bound of each program) of all small programs of "
        "pushing and reading threads on the real list, whose locks, atomics and buffer growth are scheduling points; a "
        "state is a distinct prefix of decisions, a transition one scheduled step, a trace one complete execution of "
        "the implementation",
        ["sequentially consistent memory: each atomic operation is one step",
         "freed or moved buffers are overwritten, so a read of them is seen as a wrong value or a crash"])
    conccheck.run(chk, "vec")
    return chk.finish()


vlib.main(run)
