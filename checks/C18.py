#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from stecases import *

NAMEOPS = ("NOT", "AND", "OR", "ITE", "SLICE", "CAT", "UPD", "EQ", "SX")
BIN = ("AND", "OR", "EQ", "GR", "ADD", "SUB", "MUL", "DIV", "MOD", "SHL", "SHR", "ASHR")
def family(ws):
    """every operator at the given widths -> (name, ckt, assumption)"""
    out = []
    for w in ws:
        A, B = var("a", w), var("b", w)
        for o in BIN:
            e = bop(o, A, B)
            out.append(("%s_%d" % (o, w), Ckt([("a", w), ("b", w)], [Node("o", e.w, e)], ["o"]),
                        (lambda v: z3.Or(*v["b"])) if o in ("DIV", "MOD") else None))
        un = [("NOT", not_(A))] + [("SX%d" % k, sx(k, A)) for k in range(1, w + 3)] + [("ZX%d" % k, zx(k, A)) for k in range(1, w + 3)]
        un += [("SL_%s" % "".join(map(str, i)), sl(i, A)) for i in ([0], [w - 1], [0, w - 1], [w - 1, 0, 0], list(range(w - 1, -1, -1)))]
        for nm, e in un:
            out.append(("%s_%d" % (nm, w), Ckt([("a", w)], [Node("o", e.w, e)], ["o"]), None))
        for nm, e in (("ITE", ite(var("c", 1), A, B)), ("CAT", cat(A, const(2, 2), B)),
                      ("UPD", upd(A, [w - 1], sl([0], B))), ("UPDall", upd(A, list(range(w)), B)),
                      ("UPDrev", upd(A, list(range(w - 1, -1, -1)), B))):
            ins = ([("c", 1)] if nm == "ITE" else []) + [("a", w), ("b", w)]
            out.append(("%s_%d" % (nm, w), Ckt(ins, [Node("o", e.w, e)], ["o"]), None))
        for k in range(-1, 2):
            for v in {0, 1, (1 << w) - 1, (1 << (w - 1))}:
                e = bop("ADD", A, const(w, v if k >= 0 else v - (1 << w))) if k else bop("EQ", A, const(w, v))
                out.append(("const%d_%d_%d" % (k, v, w), Ckt([("a", w)], [Node("o", e.w, e)], ["o"]), None))
    return out

def mems(dims):
    out = []
    for asz, lines, d in dims:
        M, AD, B = var("m", lines * d), var("d", asz), var("b", d)
        full = lines == 1 << asz
        asm = None if full else (lambda v, lines=lines: z3.ULT(b2bv(v["d"]), lines))
        e = mrd(asz, lines, d, M, AD)
        out.append(("mrd_%d_%d_%d" % (asz, lines, d), Ckt([("m", lines * d), ("d", asz)], [Node("o", e.w, e)], ["o"]), asm))
        e = mwr(asz, lines, d, M, AD, B)
        out.append(("mwr_%d_%d_%d" % (asz, lines, d), Ckt([("m", lines * d), ("d", asz), ("b", d)], [Node("o", e.w, e)], ["o"]), None if full else asm))
    return out

def body(c):
    exe = buildfl.build(vrun.scratch())
    rng = random.Random(vrun.SEED)
    ws = (1, 2, 3, 4, 5) if vrun.THOROUGH else (1, 2, 3, 4)
    cs = []
    for nm, ck, asm in family(ws) + mems([(1, 2, 1), (1, 2, 3), (2, 4, 2), (2, 3, 2), (3, 8, 1), (3, 5, 2)]):
        for k in ("bool", "bexpr"):
            cs.append(comb_case("%s_%s" % (nm, k), ck, kind=k, assume=asm, style=rng.randrange(3)))
    # shifts by any amount on wide vectors: the shift amount has more bits than a machine word
    for w in (33, 34):
        for o in ("SHL", "SHR", "ASHR"):
            e = bop(o, var("a", w), cat(var("h", 1), const(w - 1, 0)))
            cs.append(comb_case("wide_%s_%d" % (o, w), Ckt([("a", w), ("h", 1)], [Node("o", w, e)], ["o"]), style=0))
    # random circuits: several nodes, shared sub-expressions, hierarchies, three ways to name formals and actuals
    n = 120 if vrun.THOROUGH else 40
    for i in range(n):
        ins = [("a", rng.randint(1, 3)), ("b", rng.randint(1, 3)), ("c", 1)]
        ck = rckt(rng, ins, rng.randint(2, 5), BASIC if i % 2 else BASIC + ARITH)
        st, k = i % 3, "bexpr" if i % 4 == 3 else "bool"
        cs.append(comb_case("circuit%d" % i, ck, kind=k, style=st))
        cs.append(comb_case("hier%d" % i, ck, kind=k, style=(st + 1) % 3, groups=rgroups(rng, ck)))
        cs.append(comb_case("trl%d" % i, ck, kind=k, style=(st + 2) % 3, opts=""))
    # every vector declared in a random way: ascending, multiple and offset ranges, two dimensions, fields, split declarations
    rn = random.Random(vrun.SEED + 180)
    for i in range(200 if vrun.THOROUGH else 60):
        ins = [("a", rn.choice((2, 4, 6))), ("b", rn.choice((1, 3, 4))), ("c", 1)]
        ck = rckt(rn, ins, rn.randint(2, 4), NAMEOPS, maxw=rn.choice((4, 6))).reshape(rn)
        k = "bexpr" if i % 4 == 3 else "bool"
        cs.append(comb_case("names%d" % i, ck, kind=k, style=3))
        cs.append(comb_case("nameh%d" % i, ck, kind=k, style=3, groups=rgroups(rn, ck)))
    # hierarchies of up to four levels whose ports collect arbitrary bits of several nets in arbitrary order
    rt = random.Random(vrun.SEED + 181)
    for i in range(250 if vrun.THOROUGH else 80):
        ins = [("a", rt.choice((2, 4, 6))), ("b", rt.choice((1, 3, 4))), ("c", 1)]
        ck = rckt(rt, ins, rt.randint(2, 6), NAMEOPS, maxw=rt.choice((4, 6))).reshape(rt)
        cs.append(comb_case("tree%d" % i, ck, kind="bexpr" if i % 4 == 3 else "bool", groups=rtree(rt, len(ck.nodes), wrap=.2 if i % 3 == 0 else 0)))
    c.functions += ["fsm.c: pexlif2fsm (compile_expr, map_vector, hierarchy flattening), op_AND..op_MEM_WRITE, do_wl_op, do_combinational, update_node, STE/bSTE, (b)get_trace_val",
                    "strings/vector names: mk_vec_name, expand and merge of vector names used by the compiler"]
    c.bounds += ["operator widths 1..%d, memories up to 8 lines, shifts of 33/34-bit vectors by 2^(w-1) or 0" % ws[-1],
                 "%d seeded random circuits of up to 5 nodes over 3 inputs, each flat, in a two-level hierarchy, and with tracing restricted to a trace list" % n,
                 "every input bit driven; DIV/MOD with a nonzero divisor; memory addresses below the number of lines"]
    run_cases(c, exe, cs, batch=30)

if __name__ == "__main__":
    vrun.main("C18", "combinational simulation", body)
