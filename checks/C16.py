#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from bvcases import *

def body(c):
    exe = buildfl.build(vrun.scratch())
    L = Lib("bev")
    N = 7 if vrun.THOROUGH else 4
    mulmax = 12 if vrun.THOROUGH else 8
    cs = []
    for n in range(1, N + 1):
        cs += unary_ops(L, n)
        for m in range(1, N + 1):
            cs += bin_ops(L, n, m, mulmax)
        cs += shared_ops(L, n, [0, 1, -1, 2, -2, 3, -3, 4, 5, 7, -7, 8, -8, 13, 16, 31, 64], mulmax)
    for n in range(1, 4):
        for m in range(1, 4):
            cs += pow_ops(L, n, m)
    cs += int_ops(L, [0, 1, -1, 2, -2, 127, 128, -128, -129, 2**31 - 1, 2**31, -2**31, 2**32, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 10**30, -10**30])
    c.functions += ["bev.c (all operations)", "bexpr.c constructors they use", "int_ops.c conversions"]
    c.bounds += ["operand widths 1..%d, every pair; mul/div/mod pairs with total width <= %d" % (N, mulmax),
                 "divisor 0 is outside the claim"]
    run_cases(c, exe, cs, batch=40)

if __name__ == "__main__":
    vrun.main("C16", "symbolic expression vectors", body)
