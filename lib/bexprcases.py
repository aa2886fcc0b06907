"""Cases for the bexpr layer (and-inverter expressions + SAT), over arbitrary
functions tabulated by fresh variables; also conversions to and from BDDs."""
import z3, itertools
from flsym import Case, flist
from bddcases import px, subsets, zq

class BFn:
    def __init__(self, name, xs):
        self.name, self.xs = name, list(xs)
        self.tab = ["%s_t%d" % (name, i) for i in range(1 << len(xs))]
    def fl(self, style=0):
        def mux(xs, lo, n):
            if not xs:
                return self.tab[lo]
            h = n // 2
            a, b = mux(xs[1:], lo + h, h), mux(xs[1:], lo, h)
            if style == 0:
                return "((%s bAND %s) bOR (bNOT %s bAND %s))" % (xs[0], a, xs[0], b)
            if style == 1:
                return "((bNOT %s bOR %s) bAND (%s bOR %s))" % (xs[0], a, xs[0], b)
            return "(bITE %s %s %s)" % (xs[0], a, b)
        return mux(self.xs, 0, len(self.tab))
    def z(self, env, sub=None):
        sub = sub or {}
        def mux(xs, lo, n):
            if not xs:
                return env[self.tab[lo]]
            h = n // 2
            c = sub.get(xs[0], env[xs[0]])
            return z3.If(c, mux(xs[1:], lo + h, h), mux(xs[1:], lo, h))
        return mux(self.xs, 0, len(self.tab))

def mk(name, xs, fns, results, kind="bexpr", pre="", concrete=True, style=0, order=None):
    vars = list(xs) + [t for f in fns for t in f.tab]
    def check(env, res):
        assert len(res) == len(results), "%d results" % len(res)
        return z3.And(*[r == s(env) for r, (_, s) in zip(res, results)])
    fl = "let %s in " % " in let ".join("%s = %s" % (f.name, f.fl(style)) for f in fns) if fns else ""
    return Case(name, vars, fl + pre + flist([e for e, _ in results]), check, order=order or vars, kind=kind,
                concrete=concrete, functional=concrete)

BIN = [("AND", "(%s bAND %s)", lambda a, b: z3.And(a, b)), ("OR", "(%s bOR %s)", lambda a, b: z3.Or(a, b)),
       ("XOR", "(%s bXOR %s)", lambda a, b: z3.Xor(a, b)), ("XNOR", "(%s bXNOR %s)", lambda a, b: a == b),
       ("EQ", "(bEqual [%s] [%s])", lambda a, b: a == b),
       ("gAND", "(hd (gen_bAND [%s] [%s]))", lambda a, b: z3.And(a, b)),
       ("gOR", "(hd (gen_bOR [%s] [%s]))", lambda a, b: z3.Or(a, b)),
       ("NAND", "(bNOT (%s bAND %s))", lambda a, b: z3.Not(z3.And(a, b))),
       ("ANDN", "(%s bAND bNOT %s)", lambda a, b: z3.And(a, z3.Not(b)))]

def ops(k):
    out = []
    for style in (0, 1, 2):
        for nm, e, s in BIN:
            p = px()
            xs = ["%s_x%d" % (p, i) for i in range(k)]
            f, g = BFn(p + "_f", xs), BFn(p + "_g", xs)
            out.append(mk("be_%s_%d_s%d" % (nm, k, style), xs, [f, g],
                          [(e % (f.name, g.name), lambda env, s=s, f=f, g=g: s(f.z(env), g.z(env))),
                           ("(bNOT %s)" % f.name, lambda env, f=f: z3.Not(f.z(env))),
                           (e % (g.name, f.name), lambda env, s=s, f=f, g=g: s(g.z(env), f.z(env))),
                           (e % (f.name, f.name), lambda env, s=s, f=f, g=g: s(f.z(env), f.z(env)))], style=style))
        out.append(_ite(k, style))
        out.append(_lists(k, style))
        out.append(_subst(style))
    return out

def _ite(k, style):
    p = px()
    xs = ["%s_x%d" % (p, i) for i in range(k)]
    f, g, h = BFn(p + "_f", xs), BFn(p + "_g", xs[:1]), BFn(p + "_h", xs)
    F, G, H = f.name, g.name, h.name
    I = lambda a, b, c: z3.If(a, b, c)
    return mk("be_ITE_%d_s%d" % (k, style), xs, [f, g, h], [
        ("(bITE %s %s %s)" % (F, G, H), lambda e: I(f.z(e), g.z(e), h.z(e))),
        ("(bITE %s (bITE %s %s bF) (bITE %s bT %s))" % (F, G, H, H, G),
         lambda e: I(f.z(e), I(g.z(e), h.z(e), False), I(h.z(e), True, g.z(e)))),
        ("(bITE %s (bITE bT %s %s) (bITE (bNOT %s) bF %s))" % (G, F, H, F, H),
         lambda e: I(g.z(e), f.z(e), I(z3.Not(f.z(e)), False, h.z(e)))),
        ("(let c = bITE %s %s %s in bITE (bITE %s c (bNOT c)) c (bITE c %s %s))" % (F, G, H, G, H, G),
         lambda e: (lambda c: I(I(g.z(e), c, z3.Not(c)), c, I(c, h.z(e), g.z(e))))(I(f.z(e), g.z(e), h.z(e)))),
        ("(hd (tl (bITE %s [%s,%s] [%s,%s])))" % (F, G, H, H, G), lambda e: I(f.z(e), h.z(e), g.z(e))),
        ("(snd (bITE %s (%s,(bITE %s %s %s)) (%s,%s)))" % (F, G, G, H, F, H, G), lambda e: I(f.z(e), I(g.z(e), h.z(e), f.z(e)), g.z(e))),
    ], style=style)

def _lists(k, style):
    p = px()
    xs = ["%s_x%d" % (p, i) for i in range(k)]
    f, g, h = BFn(p + "_f", xs), BFn(p + "_g", xs[:1]), BFn(p + "_h", xs)
    F, G, H = f.name, g.name, h.name
    return mk("be_lists_%d_s%d" % (k, style), xs, [f, g, h], [
        ("(bEqual [%s,%s] [%s,%s])" % (F, G, G, H), lambda e: z3.And(f.z(e) == g.z(e), g.z(e) == h.z(e))),
        ("(bEqual (%s,[%s]) (%s,[%s]))" % (F, G, H, F), lambda e: z3.And(f.z(e) == h.z(e), g.z(e) == f.z(e))),
        ("(el 2 (gen_bAND [%s,%s] [%s,%s]))" % (F, G, G, H), lambda e: z3.And(g.z(e), h.z(e))),
        ("(el 1 (gen_bOR [%s,%s] [%s,%s]))" % (F, G, G, H), lambda e: z3.Or(f.z(e), g.z(e))),
        ("(snd (gen_bNOT (%s,%s)))" % (F, G), lambda e: z3.Not(g.z(e))),
        ("(fst (gen_bOR (%s,%s) (%s,%s)))" % (F, G, H, F), lambda e: z3.Or(f.z(e), h.z(e))),
    ], style=style)

def _subst(style):
    p = px()
    xs = ["%s_x%d" % (p, i) for i in range(3)]
    x, y, z = xs
    f, g, h = BFn(p + "_f", xs), BFn(p + "_g", [x, y]), BFn(p + "_h", [y])
    F, G, H = f.name, g.name, h.name
    items = [([(x, "bT")], {x: lambda e: z3.BoolVal(True)}), ([(y, "bF")], {y: lambda e: z3.BoolVal(False)}),
             ([(x, G)], {x: g.z}), ([(x, "bNOT " + G)], {x: lambda e: z3.Not(g.z(e))}),
             ([(x, y), (y, x)], {x: lambda e: e[y], y: lambda e: e[x]}),
             ([(x, G), (y, H)], {x: g.z, y: h.z}), ([(y, H), (x, G), (z, F)], {x: g.z, y: h.z, z: f.z}), ([], {})]
    res = []
    for lst, m in items:
        a = flist(['("%s",%s)' % (v, e) for v, e in lst])
        def spec(env, m=m):
            s = {v: fn(env) for v, fn in m.items()}
            return f.z(env, s)
        res.append(("(bsubstitute %s %s)" % (a, F), spec))
        res.append(("(snd (bsubstitute %s (1,bNOT %s)))" % (a, F), lambda env, spec=spec: z3.Not(spec(env))))
    return mk("be_subst_s%d" % style, xs, [f, g, h], res, concrete=False, style=style)

def convert(k):
    """bexpr -> BDD (with and without substitution, repeatedly) and back"""
    return [c for style in (0, 1, 2) for c in _convert(k, style)]

def _convert(k, style):
    out = []
    if True:
        p = px()
        xs = ["%s_x%d" % (p, i) for i in range(k)]
        f, g = BFn(p + "_f", xs), BFn(p + "_g", xs)
        F, G = f.name, g.name
        allv = list(xs) + f.tab + g.tab
        # the Boolean variables are declared under their own names; the bexpr ones get the prefix b_
        defs = "let %s in " % " in let ".join('%s = bvariable "%s"' % (v, v) for v in allv)
        defs += "let %s = %s in let %s = %s in " % (F, f.fl(style), G, g.fl(style))
        x, t = xs[0], f.tab[0]
        vx = 'variable "%s"' % xs[-1]
        c = mk("be2bdd_%d_s%d" % (k, style), xs, [], [
            ("(bexpr2bdd [] %s)" % F, lambda e: f.z(e)),
            ("(bexpr2bdd [] (%s bXOR %s))" % (F, G), lambda e: z3.Xor(f.z(e), g.z(e))),
            ('(bexpr2bdd [("%s",T)] %s)' % (x, F), lambda e: f.z(e, {x: z3.BoolVal(True)})),
            ('(bexpr2bdd [("%s",F)] %s)' % (x, F), lambda e: f.z(e, {x: z3.BoolVal(False)})),
            ('(bexpr2bdd [("%s",NOT (%s))] (bNOT %s))' % (x, vx, F), lambda e: z3.Not(f.z(e, {x: z3.Not(e[xs[-1]])}))),
            ("(bexpr2bdd [] (bNOT %s))" % F, lambda e: z3.Not(f.z(e))),
            ("(hd (bexpr2bdd [(\"%s\",F)] [%s]))" % (t, F), lambda e: f.z(dict(e, **{t: z3.BoolVal(False)}))),
            ("(prim_bexpr2bdd (%s bAND %s))" % (F, G), lambda e: z3.And(f.z(e), g.z(e))),
        ], kind="bool", pre=defs, concrete=False, order=xs + f.tab + g.tab)
        c.vars = allv
        out.append(c)
        # and back
        p = px()
        xs2 = ["%s_x%d" % (p, i) for i in range(k)]
        f2 = BFn(p + "_f", xs2)
        allv = xs2 + f2.tab
        bd = f2.fl(0).replace("bAND", "AND").replace("bOR", "OR").replace("bNOT", "NOT")
        defs = "let %s in let bf = %s in let bl = bool2bexprs__ [bf,NOT bf] in " % (" in let ".join('%s = variable "%s"' % (v, v) for v in allv), bd)
        c = mk("bdd2be_%d_s%d" % (k, style), xs2, [], [
            ("(el 1 bl)", lambda e, f2=f2: f2.z(e)), ("(el 2 bl)", lambda e, f2=f2: z3.Not(f2.z(e)))], pre=defs.replace("bool2bexprs__", "bool2bexpr"), concrete=False, order=xs2 + f2.tab)
        c.vars = allv
        out.append(c)
    return out

def sat_instances(formulas):
    """formulas: list of (name, xs, fl text list of bexprs). The verdict of the SAT interface on the
    conjunction and the model it returns are checked against the exported formulas."""
    out = []
    for nm, xs, fs in formulas:
        lst = flist(fs)
        expr = ("let fs = %s in let f = itlist (\\a.\\b. a bAND b) fs bT in let m = bget_model fs 20 in "
                "[f, ((bexpr_is_unsat f 20) => bT | bF), ((m == []) => bT | bF), ((m == []) => bF | (bsubstitute m f))]") % lst
        def check(env, res):
            f, uns, nom, val = res
            return z3.And(z3.Implies(z3.Or(uns, nom), z3.Not(f)),          # "unsat" only if false everywhere
                          z3.Or(nom, val),                                # a model makes it true whatever the rest is
                          uns == nom)
        out.append(Case("be_sat_" + nm, xs, expr, check, kind="bexpr", concrete=False, functional=False))
    return out

def all_functions(k, xs):
    """every function of k variables as sum of minterms / product of maxterms"""
    for code in range(1 << (1 << k)):
        terms = []
        for m in range(1 << k):
            if code >> m & 1:
                terms.append("(" + " bAND ".join((x if m >> (k - 1 - i) & 1 else "bNOT " + x) for i, x in enumerate(xs)) + ")")
        yield code, (" bOR ".join(terms) if terms else "(%s bAND bNOT %s)" % (xs[0], xs[0]))
