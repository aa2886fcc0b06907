#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from stecases import *

def shift_reg(n, w=1):
    return Ckt([("a", w)], [Node("r%d" % i, w, var("a" if i == 0 else "r%d" % (i - 1), w), True) for i in range(n)], ["r%d" % (n - 1)])
def counter(w):
    return Ckt([("en", 1)], [Node("q", w, var("n", w), True), Node("n", w, ite(var("en", 1), bop("OR", var("q", w), not_(var("q", w))), var("q", w)))], ["q"])
def lfsr():
    return Ckt([("d", 1)], [Node("s", 3, cat(sl([1, 0], var("s", 3)), var("x", 1)), True),
                            Node("x", 1, bop("OR", bop("AND", var("d", 1), not_(sl([2], var("s", 3)))), bop("AND", not_(var("d", 1)), sl([2], var("s", 3)))))], ["s"])
def stat():
    return Ckt([("d", 2)], [Node("k", 2, const(2, 1), True), Node("k2", 2, bop("OR", var("k", 2), var("d", 2)), True), Node("k3", 2, var("k", 2), True)], ["k2", "k3"])

def runs(name, ck, T, init, kind, drop=()):
    """inputs driven in every phase (except (name,phase) in drop), state nodes initialised at phase 0"""
    pk = Pick("sq" if kind == "bool" else "bsq")
    ant = []
    for t in range(T):
        for n, w in ck.ins:
            if (n, t) in drop:
                continue
            for i, b in enumerate(ck.bn(n)):
                ant.append(("T", b, pk.new("%s_%d_%d" % (n, i, t)), t, t + 1))
    for n in init:
        for i, b in enumerate(ck.bn(n)):
            ant.append(("T", b, pk.new("%s_%d_i" % (n, i)), 0, 1))
    obs = [(b, t) for t in range(T) for n in ck.nodes for b in ck.bn(n.name)]
    return traj_case(name, ck, ant, [], [], pk, obs, kind=kind)

def body(c):
    exe = buildfl.build(vrun.scratch())
    rng = random.Random(vrun.SEED + 19)
    cs = []
    for k in ("bool", "bexpr"):
        for n in (1, 2, 3, 4):
            cs.append(runs("shift%d_%s" % (n, k), shift_reg(n), 5, [], k))
            cs.append(runs("shifti%d_%s" % (n, k), shift_reg(n), 5, ["r%d" % i for i in range(n)], k))
            cs.append(runs("shiftd%d_%s" % (n, k), shift_reg(n), 5, ["r0"], k, drop=[("a", 1), ("a", 3)]))
        cs.append(runs("shiftw_%s" % k, shift_reg(2, 3), 4, ["r0"], k))
        cs.append(runs("counter_%s" % k, counter(2), 4, ["q"], k))
        cs.append(runs("lfsr_%s" % k, lfsr(), 5, ["s"], k))
        cs.append(runs("const_%s" % k, stat(), 4, [], k))
    n = 120 if vrun.THOROUGH else 50
    for i in range(n):
        k = "bexpr" if i % 4 == 3 else "bool"
        ck = rckt(rng, [("a", 2), ("b", 1), ("c", 1)], rng.randint(3, 5), BASIC, delays=rng.randint(1, 3), maxw=2)
        cs.append(runs("seq%d" % i, ck, 4, [x.name for x in ck.nodes if x.delay and rng.random() < .5], k,
                       drop=[(rng.choice("abc"), rng.randrange(4)) for _ in range(i % 3)]))
        cs.append(rtraj(rng, "seqr%d" % i, ck, 4, kind=k, overlap=False, weak=False, internal=False, style=i % 3,
                        groups=rgroups(rng, ck) if i % 5 == 0 else None))
    rt = random.Random(vrun.SEED + 191)
    for i in range(90 if vrun.THOROUGH else 30):
        ck = rckt(rt, [("a", 2), ("b", 3), ("c", 1)], rt.randint(3, 6), BASIC, delays=rt.randint(1, 3), maxw=4).reshape(rt)
        cs.append(rtraj(rt, "tree%d" % i, ck, 4, kind="bexpr" if i % 4 == 3 else "bool", overlap=False, weak=False, internal=False,
                        groups=rtree(rt, len(ck.nodes), wrap=.2)))
    c.functions += ["fsm.c: STE/bSTE main loop, initialize, process_event, do_phase, do_combinational, update_node, record_trace, (b)get_trace_val, rank_order"]
    c.bounds += ["shift registers of 1..4 stages, a register with enable, an LFSR, constant registers, and %d seeded random circuits with 1..3 registers, over 4 or 5 phases" % n,
                 "input values in every phase and initial register values symbolic; some inputs left X in some phases"]
    run_cases(c, exe, cs, batch=30)

if __name__ == "__main__":
    vrun.main("C19", "sequential simulation", body)
