#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from stecases import *

def small(name, ant, cons=(), wl=(), kind="bool"):
    """register r := a, q = not r"""
    pk = Pick("tv" if kind == "bool" else "btv")
    p = lambda s: s if s in "TF" else pk.new(s)
    ant = [(p(g), b, p(v), f, t) for g, b, v, f, t in ant]
    cons = [(p(g), b, p(v), f, t) for g, b, v, f, t in cons]
    wl = [(p(g), b, f, t) for g, b, f, t in wl]
    ck = Ckt([("a", 1)], [Node("r", 1, var("a", 1), True), Node("q", 1, not_(var("r", 1)))], ["q", "r"])
    ev = [x for t in ant + cons + wl if t[-2] < t[-1] for x in t[-2:]]
    t0, t1 = min(ev), max(ev)
    return traj_case(name, ck, ant, cons, wl, pk, [(n, t) for n in "raq" for t in range(t0, t1)], kind=kind)

def body(c):
    exe = buildfl.build(vrun.scratch())
    rng = random.Random(vrun.SEED + 20)
    cs = []
    for k in ("bool", "bexpr"):
        m = lambda n, *a, **kw: cs.append(small(n + "_" + k, *a, kind=k, **kw))
        m("pass", [("T", "a", "x", 0, 1)], [("T", "q", "y", 1, 2)])
        m("guarded", [("g", "a", "x", 0, 1)], [("h", "q", "y", 1, 2), ("T", "r", "z", 1, 2)])
        m("x_cons", [("T", "a", "x", 0, 1)], [("T", "a", "x", 1, 2)])
        m("cons_when_ant_ends", [("T", "a", "x", 0, 2)], [("T", "a", "x", 2, 3), ("g", "a", "y", 1, 3)])
        m("conflict", [("g", "a", "x", 0, 2), ("h", "a", "y", 1, 3)], [("T", "r", "z", 1, 4)])
        m("internal", [("g", "q", "x", 0, 2), ("h", "a", "y", 0, 3)], [("T", "r", "z", 0, 2), ("g", "q", "y", 1, 3)])
        m("reg", [("T", "r", "x", 0, 1), ("T", "a", "y", 0, 1)], [("T", "r", "x", 0, 1), ("T", "r", "y", 1, 2)])
        m("reg_conflict", [("T", "r", "x", 1, 2), ("T", "a", "y", 0, 1)], [("T", "q", "z", 1, 2)])
        m("nested", [("g", "a", "x", 0, 5), ("h", "a", "y", 1, 3)], [("T", "a", "x", 0, 5), ("g", "a", "y", 1, 2)])
        m("cons_nested", [("T", "a", "x", 0, 5)], [("T", "a", "y", 0, 2), ("g", "a", "x", 0, 5), ("h", "a", "z", 4, 5)])
        m("weak", [("T", "a", "x", 0, 4)], [("T", "q", "y", 2, 5)], [("g", "q", 2, 4), ("h", "r", 1, 3)])
        m("weak_overlap", [("T", "a", "x", 0, 5)], [("T", "r", "x", 1, 5)], [("g", "r", 1, 4), ("h", "r", 2, 5)])
        m("empty", [("T", "a", "x", 1, 1), ("T", "a", "y", 0, 2), ("T", "a", "x", 2, 1)], [("T", "r", "y", 2, 2), ("T", "r", "y", 1, 2)], [("T", "q", 1, 1)])
        m("late_start", [("T", "a", "x", 3, 4), ("g", "r", "y", 3, 4)], [("T", "r", "x", 4, 5)])
    n = 160 if vrun.THOROUGH else 60
    for i in range(n):
        k = "bexpr" if i % 4 == 3 else "bool"
        ck = rckt(rng, [("a", 2), ("b", 1), ("c", 1)], rng.randint(2, 5), BASIC, delays=rng.randint(0, 2), maxw=2)
        cs.append(rtraj(rng, "rand%d" % i, ck, 4, kind=k, style=i % 3, groups=rgroups(rng, ck) if i % 5 == 0 else None,
                        opts="-e" if i % 6 else ""))
        cs.append(rtraj(rng, "plain%d" % i, ck, 4, kind=k, overlap=False, weak=False, style=i % 3))
    rt = random.Random(vrun.SEED + 201)
    for i in range(90 if vrun.THOROUGH else 30):
        ck = rckt(rt, [("a", 2), ("b", 3), ("c", 1)], rt.randint(3, 6), BASIC, delays=rt.randint(0, 2), maxw=3).reshape(rt)
        cs.append(rtraj(rt, "tree%d" % i, ck, 4, kind="bexpr" if i % 4 == 3 else "bool", groups=rtree(rt, len(ck.nodes))))
    c.functions += ["fsm.c: create_event_buffer, event_cmp, process_event, add/delete_active_event, update_node, gSTE consequent check, gen_get_ste_result"]
    c.bounds += ["directed tuple sets (guards, conflicts, nested and overlapping intervals, weakenings, registers, empty intervals) and %d seeded random ones over circuits of up to 5 nodes and 2 registers, 4 phases" % n,
                 "guards and values of the tuples symbolic (shared among up to 10 variables)"]
    run_cases(c, exe, cs, batch=30)

if __name__ == "__main__":
    vrun.main("C20", "STE verdicts", body)
