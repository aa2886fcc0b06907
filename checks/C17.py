#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from libcases import *

def body(c):
    exe = buildfl.build(vrun.scratch())
    cs = []
    ns = (1, 2, 3, 4, 5) if vrun.THOROUGH else (1, 2, 3, 4)
    for lib, kind, signed in (("bool_arithm.fl", "bool", True), ("bexpr_arithm.fl", "bexpr", True),
                              ("bool_u_arithm.fl", "bool", False), ("bexpr_u_arithm.fl", "bexpr", False)):
        for n in ns:
            cs += arith(lib, kind, signed, n)
        for n in ns:
            for m in ns:
                cs += dyn(lib, kind, n, m, n + m <= (8 if kind == "bool" else 7), signed)
    c.functions += ["gen_arithm.fl, gen_u_arithm.fl through bool_arithm/bexpr_arithm/bool_u_arithm/bexpr_u_arithm", "bITE/IF over lists"]
    c.bounds += ["operand widths 1..%d" % ns[-1], "division and modulus: dividend >= 0 and divisor > 0",
                 "shift amounts >= 0, widths >= 3", "unsigned subtraction: no borrow"]
    run_cases(c, exe, cs, batch=40)

if __name__ == "__main__":
    vrun.main("C17", "arithmetic libraries", body)
