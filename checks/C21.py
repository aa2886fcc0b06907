#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from stecases import *
import importlib.util
spec = importlib.util.spec_from_file_location("C18", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C18.py"))
C18 = importlib.util.module_from_spec(spec); spec.loader.exec_module(C18)

def body(c):
    exe = buildfl.build(vrun.scratch())
    rng = random.Random(vrun.SEED + 21)
    cs = []
    ws = (1, 2, 3) if vrun.THOROUGH else (1, 2)
    ex = ("AND", "OR", "NOT", "ITE", "SX", "ZX", "SL", "CAT", "UPD")
    for nm, ck, asm in C18.family(ws) + C18.mems([(1, 2, 1), (2, 4, 1), (2, 3, 1)]):
        if asm is not None and nm[:3] != "mrd":
            continue            # completions with a zero divisor or an address outside the memory
        for k in ("bool", "bexpr"):
            if asm is None or nm[:3] != "mrd":
                cs.append(guarded("x_%s_%s" % (nm, k), ck, kind=k, exact=nm.startswith(ex), style=rng.randrange(3)))
    for i in range(100 if vrun.THOROUGH else 40):
        ins = [("a", 2), ("b", rng.randint(1, 2)), ("c", 1)]
        ck = rckt(rng, ins, rng.randint(2, 4), BASIC if i % 2 else BASIC + ARITH, maxw=2)
        cs.append(guarded("xcircuit%d" % i, ck, kind="bexpr" if i % 4 == 3 else "bool", exact=bool(i % 2), style=i % 3))
    c.functions += ["fsm.c: op_AND..op_MEM_WRITE on dual-rail values, ITE_fn/sub_fn/geq_fn/shift helpers, update_node, create_event_buffer"]
    c.bounds += ["every input bit carries its own symbolic guard (driven or X) and symbolic value; completion of the X inputs universally quantified",
                 "operator widths 1..%d, memories up to 4 lines, seeded random circuits of up to 4 nodes" % ws[-1],
                 "AND/OR/NOT/ITE/SX/ZX/SLICE/CAT/UPDATE compared exactly with the four-valued reference; other operators: sound, monotone, never contradictory"]
    run_cases(c, exe, cs, batch=30)
    # the less precise conditional that a preference selects is still sound, monotone and never contradictory
    ds = []
    for nm, ck, asm in C18.family(ws):
        if nm.startswith("ITE"):
            for k in ("bool", "bexpr"):
                ds.append(guarded("x_%s_%s" % (nm, k), ck, kind=k))
    for i in range(15):
        ck = rckt(rng, [("a", 2), ("b", 2), ("c", 1)], rng.randint(2, 4), ("ITE", "AND", "NOT", "EQ"), maxw=2)
        ds.append(guarded("xite%d" % i, ck))
        ds.append(comb_case("xited%d" % i, ck))
    run_cases(c, exe, ds, batch=30, env={"VV_RC": "ACCURATE-ITE-COMP = FALSE"}, suffix="@plainITE")
    c.bounds.append("conditionals also with the preference ACCURATE-ITE-COMP off (@plainITE)")

if __name__ == "__main__":
    vrun.main("C21", "four-valued simulation", body)
