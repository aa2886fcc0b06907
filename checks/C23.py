#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, buildfl
from flsym import *
from hflcases import *

def body(c):
    exe = buildfl.build(vrun.scratch())
    rng = random.Random(vrun.SEED + 23)
    cs = []
    for k in ("bool", "bexpr") if vrun.THOROUGH else ("bool",):
        cs += ff_cases((k,)) + delay_cases((k,)) + sel_cases(rng, k) + state_cases(k) + mem_cases(k) + enum_cases(k)
    if not vrun.THOROUGH:
        cs += state_cases("bexpr") + mem_cases("bexpr") + ff_cases(("bexpr",))
    for i in range(700 if vrun.THOROUGH else 120):
        cs.append(rcell(rng, "cell%d" % i, "bexpr" if i % 4 == 3 else "bool", d=3 if i % 5 == 4 else 2))
    c.functions += ["hfl.fl: typed operators, base_assignment, CELL, w_CASE/CASE/MUTEX_CASE, flip-flops and latches, delays, STATE/EN_STATE/Moore_FSM, SELECT/DECODER/ENCODER/INSERT, RAM, UNSIGNED/SIGNED/ENUM/STRUCT/MEMORY types",
                    "simplify.fl: const_prop, perform_binary", "util.fl: base_compact_wprint, w_substitute, w_depends", "pexlif.c, fsm.c: compilation and STE of the resulting pexlif"]
    c.bounds += ["every value of every input bit in each of 1 to 6 consecutive phases",
                 "%d seeded random cells (two or three inputs, up to 16 input bits, expression depth 2 or 3, instantiated sub-cells, CASE, shuffled order)" % (700 if vrun.THOROUGH else 120),
                 "widths 1 to 9, at most 8 select lines, memories of at most 6 lines"]
    run_cases(c, exe, cs, batch=12)

if __name__ == "__main__":
    vrun.main("C23", "HFL circuits", body)
