#!/usr/bin/env python3
"""C07: unbounded integers: addition, subtraction, negation, comparison, bitwise operations"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, cbmc
from vrun import THOROUGH, VERIF
R = ["arbi_alloc:vv_alloc", "arbi_free:vv_free"]
OPS = ["add", "sub", "neg", "abs", "and", "or", "xor", "not", "copy", "compare"]
def body(c):
    src = open(os.path.join(VERIF, "harness/arb_lin.c")).read()
    top = 5 if THOROUGH else 4
    c.functions += ["arb_prec.c: Arbi_add, Arbi_sub, Arbi_neg, Arbi_abs, Arbi_cmp, Arbi_bvAND/OR/XOR/NOT, Arbi_cpy, Arbi_IsNegative, Arbi_hash and everything they call except the pool allocator"]
    c.bounds += ["operands of 1..%d words of 64 bits each, every value of every word (any canonical number)" % top, "both operands the same object as well as distinct ones"]
    c.assumptions += ["the pool allocator returns fresh storage (arbi_alloc replaced by one fixed-size object per number)"]
    c.trusted += ["CBMC 6.11 and its SAT solver", "harness/arb.h reference arithmetic on 128-bit words"]
    hs = []
    for op, nm in enumerate(OPS):
        for lx in range(1, top + 1):
            for ly in range(1, top + 1):
                if nm in ("neg", "abs", "not", "copy") and ly > 1:
                    continue
                hs.append(cbmc.H("%s_%dx%d" % (nm, lx, ly), src, ["OP=%d" % op, "LX=%d" % lx, "LY=%d" % ly, "ALIAS=0", "N=%d" % (top + 1), "CAP=%d" % (top + 3)],
                                 replace=R, unwind=top + 4, tmo=240, solver="kissat" if nm == "sub" and lx + ly > 4 else None))
            if nm in ("add", "sub", "and", "or", "xor", "compare"):
                hs.append(cbmc.H("%s_same_%d" % (nm, lx), src, ["OP=%d" % op, "LX=%d" % lx, "LY=%d" % lx, "ALIAS=1", "N=%d" % (top + 1), "CAP=%d" % (top + 3)],
                                 replace=R, unwind=top + 4, tmo=240))
    cbmc.run(c, hs)
vrun.main("C07", "unbounded integers: linear operations", body)
