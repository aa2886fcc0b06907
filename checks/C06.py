#!/usr/bin/env python3-vt
"""C06: saved formulas and values read back as what was saved"""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, buildfl
from flsym import *
from savecases import *

def body(c):
    d = vrun.scratch()
    exe = buildfl.build(d)
    st = buildfl.link_stress(d)
    fd = os.path.join(vrun.VERIF, "evidence", "replay", "C06_files")
    shutil.rmtree(fd, ignore_errors=True)
    os.makedirs(fd)
    cs, files = [], {}
    ks = (1, 2, 3, 4) if vrun.THOROUGH else (2, 3)
    for kind in ("bool", "bexpr"):
        for k in ks:
            for oi in range(4):
                for ch in range(4):
                    if kind == "bexpr" and (ch or k > 3):
                        continue
                    cs.append(same_session(kind, k, fd, oi, ch))
                for ch in range(4):
                    if kind == "bexpr" and (ch != oi or k > 3):
                        continue
                    case, (ok, rc, out, src) = two_sessions(exe, kind, k, fd, oi, ch)
                    files[kind] = src
                    cs.append(case)
    for k in ks:
        cs += [values(k, fd, oi) for oi in range(4)]
    cs += names(fd)
    if all(os.path.exists(f) for f in files.values()):
        cs += refusals(fd, files["bool"], files["bexpr"])
    c.functions += ["new_bdd.c: Save_BDDs, b_save, B_Size, Load_BDDs", "bexpr.c: Save_bexprs, be_save, Load_bexprs", "io.c: Save_graph, write_g_ptr, Load_graph, read_g_ptr", "graph.c: bdd_save, bdd_load"]
    c.bounds += ["ten formulas built from two arbitrary functions of %d..%d variables (tabulated by fresh variables), saved and loaded in the same session, after an explicit reordering, and in a second process with another order" % (ks[0], ks[-1]),
                 "values of one recursive user-defined type with numbers, strings, lists, pairs, Booleans and bexprs", "13 variable names with blanks and punctuation", "files cut after any complete line of the result section, and other files"]
    run_cases(c, exe, cs, batch=1)
    run_cases(c, st, cs[::5], batch=1, env={"VV_GC_EVERY": "1"}, suffix="@gc1")

if __name__ == "__main__":
    vrun.main("C06", "saved formulas and values", body)
