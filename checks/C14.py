#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re, random
import vrun, flsym, buildfl, z3
from flsym import *
import ttcases
from bexprcases import *

def arith_identities():
    """formulas over bit vectors that are unsatisfiable or satisfiable only for few inputs"""
    out = []
    n = 3
    vs = lambda p, s: ["%s_%s%d" % (p, s, i) for i in range(n)]
    for i, (nm, t) in enumerate((("addcomm", "bNOT ((bev_add A B) = (bev_add B A))"),
                                 ("sub0", "bNOT ((bev_sub (bev_add A B) B) = A)"),
                                 ("mulcomm", "bNOT ((bev_mul A B) = (bev_mul B A))"),
                                 ("dist", "bNOT ((bev_mul A (bev_add B C)) = (bev_add (bev_mul A B) (bev_mul A C)))"),
                                 ("lt", "(bev_less A B) bAND (bev_less B C) bAND (bNOT (bev_less A C))"),
                                 ("square", "((bev_mul A A) = (int2bev 9))"),
                                 ("sum", "((bev_add A B) = (int2bev 6))"),
                                 ("sum7", "((bev_add A B) = (int2bev 7))"),
                                 ("pyth", "((bev_add (bev_mul A A) (bev_mul B B)) = (bev_mul C C)) bAND (bev_less (int2bev 0) A) bAND (bev_less (int2bev 0) B)"))):
        p = px()
        a, b, cc = vs(p, "a"), vs(p, "b"), vs(p, "c")
        out.append((nm, a + b + cc, a, b, cc, t))
    return out

def body(c):
    d = vrun.scratch()
    exe = buildfl.build(d)
    cs = ops(2) + ops(3) + convert(2) + convert(3)
    if vrun.THOROUGH:
        cs += ops(4) + convert(4)
    c.functions += ["bexpr.c: BE_And/Or/Xor/Xnor/Ite/Not, be_find_insert and SAT-based merging, bITE, bEqual, gen_bAND/bOR/bNOT, bsubstitute, bexpr2bdd, bool2bexpr, bget_model, bexpr_is_unsat",
                    "minisat_ifc.cc: Find_model, SAT_Add_AND_Clauses, SAT_and_is_same"]
    c.bounds += ["operands: every pair/triple of functions of 2 and 3 variables, tabulated by fresh variables, built in three syntactic styles",
                 "SAT answers: every function of 3 variables (all 256), conjunctions of random pairs, and identities of 3-bit arithmetic; every answer and model is decided by z3 over all assignments of the exported formula"]
    run_cases(c, exe, cs, batch=6)
    run_cases(c, exe, ttcases.be_pairs(3) + ttcases.be_convert(3), batch=1)
    # SAT answers
    rng = random.Random(vrun.SEED)
    fm = []
    xs = ["s3_a", "s3_b", "s3_c"]
    fs = list(all_functions(3, xs))
    for code, f in fs:
        fm.append(("f3_%d" % code, xs, [f]))
    for k in range(64 if not vrun.THOROUGH else 400):
        a, b, e = rng.choice(fs), rng.choice(fs), rng.choice(fs)
        fm.append(("conj%d_%d_%d_%d" % (k, a[0], b[0], e[0]), xs, [a[1], "bNOT (%s)" % b[1], e[1]]))
    for nm, vs, a, b, cc, t in arith_identities():
        m = {"A": "(list2bev %s)" % flist(a), "B": "(list2bev %s)" % flist(b), "C": "(list2bev %s)" % flist(cc)}
        t = re.sub(r"\b([ABC])\b", lambda k: m[k.group(1)], eqfix(t))
        fm.append(("arith_" + nm, vs, [t]))
    run_cases(c, exe, sat_instances(fm), batch=45)
    # the same operations while nodes are being collected
    st = buildfl.link_stress(d)
    for k in (1, 3):
        run_cases(c, st, ops(2) + convert(2) + sat_instances(fm[100:130]), batch=8, env={"VV_GC_EVERY": str(k)}, suffix="@gc%d" % k)

def eqfix(t):
    """(X = Y) over vectors -> (bev_eq X Y)"""
    out = t
    while " = " in out:
        i = out.index(" = ")
        # the left operand starts at its opening parenthesis
        j, depth = i, 0
        while True:
            j -= 1
            if out[j] == ")": depth += 1
            if out[j] == "(":
                depth -= 1
                if depth == -1:
                    break
        out = out[:j] + "(bev_eq " + out[j + 1:i] + " " + out[i + 3:]
    return out

if __name__ == "__main__":
    vrun.main("C14", "bexpr semantics and SAT answers", body)
