#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, buildfl
from flsym import *
from yosyscases import *

def body(c):
    d = vrun.scratch()
    exe = buildfl.build(d)
    buildfl.generics(d, exe)
    rng = random.Random(vrun.SEED + 24)
    cs = []
    for k in ("bool", "bexpr"):
        cs += comb_cases(rng, k) if k == "bool" or vrun.THOROUGH else []
        cs += comb_cases(rng, k, False, 8 if vrun.THOROUGH else 2) + pmux_const(rng, k, 40 if vrun.THOROUGH else 10)
        cs += ff_cases(rng, k, 5 if vrun.THOROUGH else 4, full=vrun.THOROUGH) + mem_cases(k)
    c.functions += ["yosys_lib.fl: every cell constructor except _mem_v2", "make_generic_pexlifs.fl, resize_pexlif: latches and flip-flops", "pexlif.c, fsm.c: compilation and STE of the cells"]
    c.bounds += ["operands of 1 to 4 bits (plain, extended, constant, partly constant, permuted), up to 3 select lines, memories of up to 4 lines",
                 "storage: every input value in each of %d consecutive phases, polarities %s" % (5 if vrun.THOROUGH else 4, "all" if vrun.THOROUGH else "all equal plus two random ones")]
    run_cases(c, exe, cs, batch=12)

if __name__ == "__main__":
    vrun.main("C24", "cells of the Verilog import", body)
