#!/usr/bin/env python3
"""C08: unbounded integers: multiplication, word-sized division and modulus"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, cbmc
from vrun import THOROUGH, VERIF
R = ["arbi_alloc:vv_alloc", "arbi_free:vv_free"]
ARITH = r"overflow on signed division|division by zero|overflow on signed mod"
def body(c):
    hm = open(os.path.join(VERIF, "harness/arb_mul.c")).read()
    hd = open(os.path.join(VERIF, "harness/arb_div.c")).read()
    c.functions += ["arb_prec.c: Arbi_mlt, Arbi_div, Arbi_mod and what they call (arbi__neg, arbi__add, trim), except the pool allocator; divmod is encoded but reached only outside the bound"]
    consts = [("0", 1), ("1", 1), ("-1", 1), ("2", 1), ("-3", 1), ("10", 1), ("-10", 1), ("4294967296L", 1), ("-4294967297L", 1), ("0x8000000000000000L", 1), ("0x4000000000000000L", 1),
              ("0,1", 2), ("0x8000000000000000L,0", 2), ("0,-2147483648L", 2), ("0,0x8000000000000000L", 2), ("1,4294967296L", 2)]
    c.bounds += ["multiplication: one operand any number of 1..%d words, the other each of %d constants: %s" % (3 if THOROUGH else 2, len(consts), "; ".join(x[0] for x in consts)),
                 "division and modulus: any one-word dividend except the most negative one, divisors +-2,3,4,8,10,64",
                 "division of numbers longer than one word (divmod) is outside: its quotient estimation loop could not be discharged"]
    c.assumptions += ["the pool allocator returns fresh storage"]
    c.trusted += ["CBMC 6.11, kissat 4.0.1", "harness/arb.h reference arithmetic"]
    hs = []
    for y, ly in consts:
        for lx in range(1, (3 if THOROUGH else 2) + 1):
            for xs in (0, 1):
                for sw in (0, 1):
                    if sw and not (THOROUGH or y in ("-3", "0x8000000000000000L", "1,4294967296L")):
                        continue
                    hs.append(cbmc.H("mul_%d_%s_%s%s" % (lx, y.replace(",", "w").replace("L", ""), "n" if xs else "p", "_swap" if sw else ""), hm,
                                     ["LX=%d" % lx, "LY=%d" % ly, "YV=" + y, "XS=%d" % xs, "SWAP=%d" % sw, "N=%d" % (lx + ly + 1), "CAP=%d" % (lx + ly + 2)],
                                     replace=R, unwind=8, solver="kissat", count=ARITH if lx == ly == 1 else None, tmo=200))
    dv = []
    for y in (10, -10, 3, -3, 2, -2, 4, -4, 8, -8, 64, -64) + ((7, -7, 100, 5, -5) if THOROUGH else ()):
        for xs in (0, 1):
            dv.append(cbmc.H("divmod_%d_%s" % (y, "n" if xs else "p"), hd, ["YV=%d" % y, "XS=%d" % xs], replace=R, unwind=3, solver="kissat", tmo=900 if THOROUGH else 300))
    cbmc.run(c, dv + hs)
vrun.main("C08", "multiplication and word-sized division", body)
