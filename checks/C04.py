#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
import ttcases
from bddcases import *

def body(c):
    exe = buildfl.build(vrun.scratch())
    cs = quant(3) + quant(4) + quant(2, rel=3) + subst() + subst(big=True) + misc()
    if vrun.THOROUGH:
        cs += quant(5, ("tablast", "mixed"), rel=2)
    c.functions += ["new_bdd.c: quantify, rel_prod, B_Substitute/vector_compose, top_cofactor", "preamble.fl: Quant_thereis, Quant_forall"]
    c.bounds += ["every function of 2..4 variables and every subset of them quantified; relational products of every pair of functions of 2 and 3 variables; substitutions of every function of 2 variables for variables of every function of 2 and 3"]
    run_cases(c, exe, cs, batch=4)
    c.bounds.append("every function of 3 variables: every subset of them and of 3 surrounding variables quantified (cube and list form, 3 orders); relational products of pairs of functions of 3 variables (every 5th pair per operand in the quick tier, all in the thorough tier); simultaneous substitutions of 1, 2 and 3 variables")
    run_cases(c, exe, ttcases.quant_all(3) + ttcases.relprod_all(3, full=vrun.THOROUGH) + ttcases.subst_all(3, full=vrun.THOROUGH), batch=1)

if __name__ == "__main__":
    vrun.main("C04", "quantification and substitution", body)
