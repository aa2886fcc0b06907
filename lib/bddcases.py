"""Cases for the BDD layer: the operands are *arbitrary* Boolean functions,
written as multiplexer trees whose leaves are fresh table variables, so one
symbolic run covers every function of the given number of variables."""
import z3, itertools
from flsym import Case, flist

_n = [0]
class Fn:
    """arbitrary function of xs (names), tabulated by fresh variables"""
    def __init__(self, name, xs):
        self.name, self.xs = name, list(xs)
        self.tab = ["%s_t%d" % (name, i) for i in range(1 << len(xs))]
    def fl(self):
        def mux(xs, lo, n):
            if not xs:
                return self.tab[lo]
            h = n // 2
            return "((%s AND %s) OR (NOT %s AND %s))" % (xs[0], mux(xs[1:], lo + h, h), xs[0], mux(xs[1:], lo, h))
        return mux(self.xs, 0, len(self.tab))
    def z(self, env, sub=None):
        sub = sub or {}
        def mux(xs, lo, n):
            if not xs:
                return env[self.tab[lo]]
            h = n // 2
            c = sub.get(xs[0], env[xs[0]] if xs[0] in env else z3.Bool(xs[0]))
            return z3.If(c, mux(xs[1:], lo + h, h), mux(xs[1:], lo, h))
        return mux(self.xs, 0, len(self.tab))

def ordered(style, xs, fns):
    tabs = [t for f in fns for t in f.tab]
    if style == "tabfirst":
        return tabs + list(xs)
    if style == "tablast":
        return list(xs) + tabs
    if style == "rev":
        return (list(xs) + tabs)[::-1]
    # mixed
    out, a, b = [], list(xs), list(tabs)
    per = max(1, len(b) // (len(a) + 1))
    while a or b:
        out += b[:per]; b = b[per:]
        if a:
            out.append(a.pop(0))
    return out

STYLES = ("tabfirst", "tablast", "mixed", "rev")

def mk(name, xs, fns, style, results, pre="", concrete=True):
    """results: list of (fl expr, z3 fn(env))"""
    vars = list(xs) + [t for f in fns for t in f.tab]
    def check(env, res):
        assert len(res) == len(results), "%d results" % len(res)
        return z3.And(*[r == s(env) for r, (_, s) in zip(res, results)])
    fl = "let %s in " % " in let ".join("%s = %s" % (f.name, f.fl()) for f in fns) if fns else ""
    return Case("%s_%s" % (name, style), vars, fl + pre + flist([e for e, _ in results]), check,
                order=ordered(style, xs, fns), kind="bool", concrete=concrete, functional=concrete)

def px():
    _n[0] += 1
    return "q%d" % _n[0]

BIN = [("AND", "(%s AND %s)", lambda a, b: z3.And(a, b)), ("OR", "(%s OR %s)", lambda a, b: z3.Or(a, b)),
       ("XOR", "(%s XOR %s)", lambda a, b: z3.Xor(a, b)), ("XNOR", "(%s XNOR %s)", lambda a, b: a == b),
       ("IMPL", "(%s ==> %s)", lambda a, b: z3.Implies(a, b)), ("EQ", "(%s = %s)", lambda a, b: a == b),
       ("NEQ", "(%s != %s)", lambda a, b: a != b),
       ("NAND", "(NOT (%s AND %s))", lambda a, b: z3.Not(z3.And(a, b))),
       ("ANDN", "(%s AND NOT %s)", lambda a, b: z3.And(a, z3.Not(b))),
       ("limAND", "(limitedAND %s %s 100000)", lambda a, b: z3.And(a, b)),
       ("limOR", "(limitedOR %s %s 100000)", lambda a, b: z3.Or(a, b))]

def bool_ops(k, styles=STYLES):
    out = []
    for style in styles:
        for nm, e, s in BIN:
            p = px()
            xs = ["%s_x%d" % (p, i) for i in range(k)]
            f, g = Fn(p + "_f", xs), Fn(p + "_g", xs)
            out.append(mk("bdd_%s_%d" % (nm, k), xs, [f, g], style,
                          [(e % (f.name, g.name), lambda env, s=s, f=f, g=g: s(f.z(env), g.z(env))),
                           ("(NOT %s)" % f.name, lambda env, f=f: z3.Not(f.z(env)))]))
        # if-then-else over three functions, also nested and over lists
        p = px()
        kk = min(k, 2)
        xs = ["%s_x%d" % (p, i) for i in range(kk)]
        f, g, h = Fn(p + "_f", xs), Fn(p + "_g", xs[:1]), Fn(p + "_h", xs)
        out.append(mk("bdd_ITE_%d" % kk, xs, [f, g, h], style,
                      [("(%s => %s | %s)" % (f.name, g.name, h.name), lambda env, f=f, g=g, h=h: z3.If(f.z(env), g.z(env), h.z(env))),
                       ("(%s => (%s => %s | F) | (%s => %s | T))" % (f.name, g.name, h.name, h.name, g.name),
                        lambda env, f=f, g=g, h=h: z3.If(f.z(env), z3.And(g.z(env), h.z(env)), z3.Or(z3.Not(h.z(env)), g.z(env)))),
                       ("(%s => NOT %s | %s)" % (g.name, g.name, f.name), lambda env, f=f, g=g, h=h: z3.And(z3.Not(g.z(env)), f.z(env)))]))
    return out

CANON = [("(%(f)s AND %(g)s)", "(NOT ((NOT %(f)s) OR (NOT %(g)s)))"),
         ("(%(f)s XOR %(g)s)", "((%(f)s AND NOT %(g)s) OR (%(g)s AND NOT %(f)s))"),
         ("(%(f)s XNOR %(g)s)", "((NOT %(f)s OR %(g)s) AND (NOT %(g)s OR %(f)s))"),
         ("(%(f)s => %(g)s | NOT %(g)s)", "(NOT (%(g)s XOR %(f)s))"),
         ("(NOT (NOT %(f)s))", "(%(f)s OR (%(f)s AND %(g)s))"),
         ("((%(f)s OR %(g)s) AND (%(f)s OR NOT %(g)s))", "%(f)s"),
         ("(%(f)s AND NOT %(f)s)", "F"), ("(%(f)s OR NOT %(f)s)", "T"),
         ("(quant_thereis %(x)s %(f)s)", "((substitute [(\"%(x)s\",T)] %(f)s) OR (substitute [(\"%(x)s\",F)] %(f)s))"),
         ("(quant_forall %(x)s %(f)s)", "(NOT (quant_thereis %(x)s (NOT %(f)s)))"),
         ("(substitute [(\"%(x)s\",NOT %(x)s)] (substitute [(\"%(x)s\",NOT %(x)s)] %(f)s))", "%(f)s")]

def canonical(k, styles=STYLES):
    """two routes to the same function give one node: == answers T; and T only if equal"""
    out = []
    for style in styles:
        for i, (a, b) in enumerate(CANON):
            p = px()
            xs = ["%s_x%d" % (p, j) for j in range(k)]
            f, g = Fn(p + "_f", xs), Fn(p + "_g", xs)
            d = dict(f=f.name, g=g.name, x=xs[0])
            out.append(mk("bdd_canon%d_%d" % (i, k), xs, [f, g], style,
                          [("(%s == %s)" % (a % d, b % d), lambda env: z3.BoolVal(True)),
                           ("(%s == (NOT %s))" % (a % d, b % d), lambda env: z3.BoolVal(False))], concrete=False))
    return out

def subsets(xs):
    for r in range(len(xs) + 1):
        yield from itertools.combinations(xs, r)

def zq(ex, vs, fn):
    """quantify the names vs in fn(sub)"""
    vals = [fn({v: z3.BoolVal(bool(b)) for v, b in zip(vs, bits)}) for bits in itertools.product((0, 1), repeat=len(vs))]
    return z3.Or(*vals) if ex else z3.And(*vals)

def quant(k, styles=STYLES, rel=2):
    out = []
    for style in styles:
        p = px()
        xs = ["%s_x%d" % (p, j) for j in range(k)]
        f = Fn(p + "_f", xs)
        for ex, nm in ((True, "thereis"), (False, "forall")):
            res = []
            for vs in subsets(xs):
                cube = " AND ".join(vs) if vs else "T"
                alt = " XOR ".join("(%s)" % v for v in vs) if vs else "F"
                res.append(("(quant_%s (%s) %s)" % (nm, cube, f.name), lambda env, vs=vs, ex=ex, f=f: zq(ex, vs, lambda s: f.z(env, s))))
                res.append(("(quant_%s (%s) (NOT %s))" % (nm, alt, f.name), lambda env, vs=vs, ex=ex, f=f: zq(ex, vs, lambda s: z3.Not(f.z(env, s)))))
                res.append(("(Quant_%s %s %s)" % (nm, flist(['"%s"' % v for v in reversed(vs)]), f.name), lambda env, vs=vs, ex=ex, f=f: zq(ex, vs, lambda s: f.z(env, s))))
            # quantifying table variables (bottom / top / middle of the order)
            for t in (f.tab[0], f.tab[-1]):
                res.append(("(quant_%s %s %s)" % (nm, t, f.name), lambda env, t=t, ex=ex, f=f: zq(ex, [t], lambda s: f.z(dict(env, **s)))))
            out.append(mk("bdd_quant_%s_%d" % (nm, k), xs, [f], style, res, concrete=False))
        if rel:
            p = px()
            kk = rel
            xs = ["%s_x%d" % (p, j) for j in range(kk)]
            f, g = Fn(p + "_f", xs), Fn(p + "_g", xs)
            for ex, nm in ((True, "thereis"), (False, "forall")):
                res = []
                for vs in subsets(xs):
                    cube = " AND ".join(vs) if vs else "T"
                    res.append(("(relprod_%s (%s) %s %s)" % (nm, cube, f.name, g.name),
                                lambda env, vs=vs, ex=ex, f=f, g=g: zq(ex, vs, lambda s: z3.And(f.z(env, s), g.z(env, s)))))
                    res.append(("(relprod_%s (%s) (NOT %s) %s)" % (nm, cube, f.name, g.name),
                                lambda env, vs=vs, ex=ex, f=f, g=g: zq(ex, vs, lambda s: z3.And(z3.Not(f.z(env, s)), g.z(env, s)))))
                    res.append(("(relprod_%s (%s) (NOT %s) (NOT %s))" % (nm, cube, g.name, f.name),
                                lambda env, vs=vs, ex=ex, f=f, g=g: zq(ex, vs, lambda s: z3.And(z3.Not(f.z(env, s)), z3.Not(g.z(env, s))))))
                out.append(mk("bdd_relprod_%s_%d" % (nm, kk), xs, [f, g], style, res, concrete=False))
    return out

def subst(styles=STYLES, big=False):
    return [_subst(style, big) for style in styles]

def _subst(style, big):
    if True:
        p = px()
        xs = ["%s_x%d" % (p, j) for j in range(3)]
        x, y, z = xs
        f, g, h = Fn(p + "_f", xs if big else xs[:2]), Fn(p + "_g", [x, y]), Fn(p + "_h", [y] if not big else [x, y])
        F, G, H = f.name, g.name, h.name
        def sub(**m):
            return m
        items = [
            ([(x, "T")], {x: lambda e: z3.BoolVal(True)}), ([(y, "F")], {y: lambda e: z3.BoolVal(False)}),
            ([(x, G)], {x: lambda e: g.z(e)}), ([(x, "NOT " + G)], {x: lambda e: z3.Not(g.z(e))}),
            ([(x, y), (y, x)], {x: lambda e: e[y], y: lambda e: e[x]}),
            ([(x, G), (y, H)], {x: lambda e: g.z(e), y: lambda e: h.z(e)}),
            ([(y, H), (x, G)], {x: lambda e: g.z(e), y: lambda e: h.z(e)}),
            ([(x, z), (z, x)], {x: lambda e: e[z], z: lambda e: e[x]}),
            ([], {}), ([(z, G)], {z: lambda e: g.z(e)}),
            ([(f.tab[0], x), (x, f.tab[1])], {f.tab[0]: lambda e: e[x], x: lambda e: e[f.tab[1]]}),
        ]
        res = []
        for lst, m in items:
            a = flist(['("%s",%s)' % (v, e) for v, e in lst])
            def spec(env, m=m, neg=False):
                s = {v: fn(env) for v, fn in m.items()}
                r = f.z(dict(env, **s), {v: s[v] for v in s if v in f.xs})
                return z3.Not(r) if neg else r
            res.append(("(substitute %s %s)" % (a, F), spec))
            res.append(("(hd (substitute %s [NOT %s]))" % (a, F), lambda env, spec=spec: spec(env, neg=True)))
        return mk("bdd_subst_%d" % (3 if big else 2), xs, [f, g, h], style, res, concrete=False)


def misc(styles=STYLES):
    out = []
    for style in styles:
        p = px()
        xs = ["%s_x%d" % (p, j) for j in range(2)]
        f, g = Fn(p + "_f", xs), Fn(p + "_g", xs)
        out.append(mk("bdd_topcof", xs, [f, g], style,
                      [("(val (v,H,L) = top_cofactor (%s XOR %s) in (variable v => H | L))" % (f.name, g.name), lambda env, f=f, g=g: z3.Xor(f.z(env), g.z(env))),
                       ("(val (v,H,L) = top_cofactor (NOT %s) in (variable v => H | L))" % f.name, lambda env, f=f: z3.Not(f.z(env))),
                       ("([%s,%s] = [%s,%s])" % (f.name, g.name, g.name, xs[0]), lambda env, f=f, g=g, x=xs[0]: z3.And(f.z(env) == g.z(env), g.z(env) == env[x])),
                       ("([%s,%s] != [%s,%s])" % (f.name, g.name, g.name, xs[0]), lambda env, f=f, g=g, x=xs[0]: z3.Not(z3.And(f.z(env) == g.z(env), g.z(env) == env[x]))),
                       ]))
    return out

def perms(k):
    """explicit var_order between operations"""
    out = []
    for i, pm in enumerate(itertools.permutations(range(k))):
        p = px()
        xs = ["%s_x%d" % (p, j) for j in range(k)]
        f, g = Fn(p + "_f", xs[:2]), Fn(p + "_g", xs[-2:])
        allv = xs + f.tab + g.tab
        neworder = [xs[j] for j in pm]
        for tag, lst in (("xfirst", neworder + g.tab + f.tab), ("xlast", f.tab + g.tab + neworder), ("some", [g.tab[0]] + neworder)):
            pre = "let r = (%s XOR %s) then let o = var_order %s then " % (f.name, g.name, flist(['"%s"' % v for v in lst]))
            pfx = px()
            # fresh names for every case
            ren = lambda s: s.replace(p + "_", pfx + "_")
            f2, g2 = Fn(pfx + "_f", [ren(x) for x in f.xs]), Fn(pfx + "_g", [ren(x) for x in g.xs])
            out.append(mk("bdd_varorder%d_%s" % (i, tag), [ren(x) for x in xs], [f2, g2], STYLES[i % 4],
                          [("r", lambda env, f=f2, g=g2: z3.Xor(f.z(env), g.z(env))),
                           (f2.name, lambda env, f=f2: f.z(env)),
                           ("(r == (%s XOR %s))" % (f2.name, g2.name), lambda env: z3.BoolVal(True)),
                           ("(%s AND NOT %s)" % (f2.name, g2.name), lambda env, f=f2, g=g2: z3.And(f.z(env), z3.Not(g.z(env)))),
                           ("(quant_thereis %s r)" % ren(xs[1]), lambda env, f=f2, g=g2, x=ren(xs[1]): zq(True, [x], lambda s: z3.Xor(f.z(env, s), g.z(env, s)))),
                           ("(firstn (length %s) o = %s)" % (flist(['"%s"' % ren(v) for v in lst]), flist(['"%s"' % ren(v) for v in lst])), lambda env: z3.BoolVal(True))],
                          pre=ren(pre), concrete=False))
    return out

def reorder(styles=STYLES, k=2):
    out = []
    for style in styles:
        p = px()
        xs = ["%s_x%d" % (p, j) for j in range(3)]
        f, g, h = Fn(p + "_f", xs), Fn(p + "_g", xs[:2]), Fn(p + "_h", xs[1:])
        F, G, H = f.name, g.name, h.name
        pre = "let r = (%s XOR %s) then let s = (%s AND NOT %s) then let o = bdd_reorder %d then " % (F, G, F, H, k)
        out.append(mk("bdd_reorder%d" % k, xs, [f, g, h], style,
                      [("r", lambda env, f=f, g=g: z3.Xor(f.z(env), g.z(env))),
                       ("s", lambda env, f=f, h=h: z3.And(f.z(env), z3.Not(h.z(env)))),
                       ("(r == (%s XOR %s))" % (G, F), lambda env: z3.BoolVal(True)),
                       ("(s == (NOT (NOT %s OR %s)))" % (F, H), lambda env: z3.BoolVal(True)),
                       ("(r AND s)", lambda env, f=f, g=g, h=h: z3.And(z3.Xor(f.z(env), g.z(env)), f.z(env), z3.Not(h.z(env)))),
                       ("(quant_forall %s r)" % xs[0], lambda env, f=f, g=g, x=xs[0]: zq(False, [x], lambda s: z3.Xor(f.z(env, s), g.z(env, s)))),
                       (F, lambda env, f=f: f.z(env)), (G, lambda env, g=g: g.z(env)), (H, lambda env, h=h: h.z(env))], pre=pre, concrete=False))
    return out
