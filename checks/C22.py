#!/usr/bin/env python3-vt
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
from stecases import *

OPS = ("NOT", "AND", "OR", "ITE", "SLICE", "CAT", "UPD", "EQ", "SX")
PRE = r'''
let vv_kids (PINST _ _ _ _ _ _ (P_HIER cs)) = cs;
let vv_isleaf (PINST _ _ _ _ _ _ (P_LEAF _)) = T
 /\ vv_isleaf _ = F;
letrec vv_first i [] = 0
 /\    vv_first i (p:ps) = (vv_isleaf p => vv_first (i+1) ps | i);
letrec vv_flat p = (let i = vv_first 1 (vv_kids p) in ((i = 0) => p | vv_flat (unfold_pexlif p i)));
letrec vv_flat_last p =
    (let n = length (vv_kids p) in
     let ii = filter (\i. NOT (vv_isleaf (el i (vv_kids p)))) (1 upto n) in
     ((ii = []) => p | vv_flat_last (unfold_pexlif p (last ii))));
letrec vv_deep (PINST n a l i o t (P_HIER cs)) = (vv_flat (PINST n a l i o t (P_HIER (map vv_deep cs))))
 /\    vv_deep p = p;
let vv_count p = length (vv_kids p);
let vv_unfold1 p i = unfold_pexlif p i;
let vv_allleaf p = ((vv_first 1 (vv_kids p)) = 0);
'''

def how(rng, tree):
    """-> (fl function on the pexlif, description)"""
    n = len(tree.kids)
    k = rng.randrange(5)
    if k == 0: return "vv_flat", "flat"
    if k == 1: return "vv_flat_last", "flatlast"
    if k == 2: return "vv_deep", "deep"
    i = rng.randint(1, n)
    return "(\\p. vv_unfold1 p %d)" % i, "one%d" % i

class UCkt(Ckt):
    """a circuit whose pexlif is first transformed by an fl function"""
    fun = None
    def pexlif(self, style=0, groups=None):
        return "(%s %s)" % (self.fun, Ckt.pexlif(self, style, groups))

def mk(rng, ins, nodes, delays, maxw, ops):
    ck = rckt(rng, ins, nodes, ops, delays=delays, maxw=maxw)
    u = UCkt(ck.ins, ck.nodes, ck.outs)
    return u.reshape(rng)

def struct_case(name, ck, tree):
    """number of children after one inlining; unchanged for a leaf; out of range is an error; everything inlined leaves only leaves"""
    p = ck.pexlif(3, tree)
    n = len(tree.kids)
    exp = []
    for k in tree.kids:
        exp.append(n if not isinstance(k, Tree) else n - 1 + len(k.kids))
    tot = len(ck.nodes)
    e = ["(vv_count (unfold_pexlif p %d) = %d => v | F)" % (i + 1, x) for i, x in enumerate(exp)]
    e += ["((unfold_pexlif p %d) fseq F) catch v" % (n + 1), "((unfold_pexlif p 0) fseq F) catch v",
          "((vv_allleaf (vv_flat p)) => v | F)", "(vv_count (vv_flat p) = %d => v | F)" % tot,
          "(vv_count (vv_flat_last p) = %d => v | F)" % tot]
    expr = "let p = %s in %s" % (p, flist(["(%s)" % x for x in e]))
    v = name + "_v"
    return Case(name, [v], expr.replace("v)", v + ")").replace("v |", v + " |"), lambda env, r: z3.And(*[x == env[v] for x in r]), pre=PRE, load="ste.fl")

def body(c):
    exe = buildfl.build(vrun.scratch())
    rng = random.Random(vrun.SEED + 22)
    cs = []
    n = int(os.environ.get("NN","0")) or (300 if vrun.THOROUGH else 90)
    for i in range(n):
        ins = [("a", rng.choice((2, 4, 6))), ("b", rng.choice((1, 3, 4))), ("c", 1)]
        ck = mk(rng, ins, rng.randint(3, 7), 0, rng.choice((3, 6)), OPS)
        t = rtree(rng, len(ck.nodes), depth=3)
        while not any(isinstance(x, Tree) for x in t.kids):
            t = rtree(rng, len(ck.nodes), depth=3)
        ck.fun, d = how(rng, t)
        x = comb_case("comb%d_%s" % (i, d), ck, kind="bexpr" if i % 4 == 3 else "bool", groups=t)
        x.pre = PRE
        cs.append(x)
        if i % 3 == 0:
            ck = mk(rng, [("a", 2), ("b", 3), ("c", 1)], rng.randint(3, 6), rng.randint(1, 3), 4, BASIC)
            t = rtree(rng, len(ck.nodes), depth=3)
            ck.fun, d = how(rng, t)
            x = rtraj(rng, "seq%d_%s" % (i, d), ck, 4, kind="bool", overlap=False, weak=False, internal=False, groups=t)
            x.pre = PRE
            cs.append(x)
        if i % 5 == 0:
            ck = rckt(rng, ins, rng.randint(3, 7), OPS, maxw=4).reshape(rng)
            cs.append(struct_case("struct%d" % i, ck, rtree(rng, len(ck.nodes), depth=3)))
    c.functions += ["pexlif.c: unfold_pexlif, mk_formal_actuals_substitution, subst_fa_list, vector name database, mk_pinst (signatures)",
                    "fsm.c: compilation and simulation of the transformed circuit"]
    c.bounds += ["%d seeded random circuits of 3..7 nodes in hierarchies of up to four levels whose ports collect arbitrary bits in arbitrary order and whose internal names collide between levels" % n,
                 "transformations: one child inlined, everything inlined from the first or the last child on, bottom-up inlining; every input bit symbolic"]
    run_cases(c, exe, cs, batch=15)

if __name__ == "__main__":
    vrun.main("C22", "inlining of instances", body)
