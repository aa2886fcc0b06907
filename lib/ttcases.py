"""Exhaustive families: every pair of Boolean functions of k variables (built as
multiplexer trees, so they may not depend on all variables) through each
operation of the real interpreter; results are exported as formulas over the
symbolic variables and z3 compares each with the function of the expected truth table."""
import z3, itertools
from flsym import Case, flist

PRE = r'''
letrec vv_mk i (x:xs) = (let m = 2**(2**(length xs)) in ((x AND (vv_mk (i/m) xs)) OR ((NOT x) AND (vv_mk (i%m) xs))))
/\     vv_mk i [] = ((i % 2) = 1 => T | F);
let vv_fs k xs = map (\i. vv_mk i xs) (0 -- ((2**(2**k))-1));
'''
BPRE = r'''
letrec vv_bmk i (x:xs) = (let m = 2**(2**(length xs)) in ((x bAND (vv_bmk (i/m) xs)) bOR ((bNOT x) bAND (vv_bmk (i%m) xs))))
/\     vv_bmk i [] = ((i % 2) = 1 => bT | bF);
let vv_bfs k xs = map (\i. vv_bmk i xs) (0 -- ((2**(2**k))-1));
'''

class TT:
    """truth tables over the ordered names xs: bit j is the value at assignment j, xs[0] most significant"""
    def __init__(self, xs):
        self.xs, self.k = list(xs), len(xs)
        self.n = 1 << self.k
        self.mask = (1 << self.n) - 1
        self._z = {}
        self.v = [sum(1 << j for j in range(self.n) if j >> (self.k - 1 - i) & 1) for i in range(self.k)]
    def z(self, env, code):
        if code not in self._z:
            xs = self.xs
            def go(c, i, n):
                if i == self.k:
                    return z3.BoolVal(bool(c & 1))
                h = n // 2
                hi, lo = c >> h, c & ((1 << h) - 1)
                if hi == lo:
                    return go(lo, i + 1, h)
                return z3.If(env[xs[i]], go(hi, i + 1, h), go(lo, i + 1, h))
            self._z[code] = go(code, 0, self.n)
        return self._z[code]
    def inv(self, f):
        return self.mask & ~f
    def ite(self, c, a, b):
        return (c & a) | (self.inv(c) & b)
    def cof(self, f, i, val):
        s = 1 << (self.k - 1 - i)
        v = self.v[i]
        if val:
            p = f & v
            return p | p >> s
        p = f & self.inv(v)
        return p | p << s
    def ex(self, f, i):
        return self.cof(f, i, 0) | self.cof(f, i, 1)
    def all(self, f, i):
        return self.cof(f, i, 0) & self.cof(f, i, 1)
    def sub(self, f, m):
        """simultaneous substitution {index: function}"""
        out = 0
        for j in range(self.n):
            t = 0
            for i in range(self.k):
                b = (m[i] >> j & 1) if i in m else (j >> (self.k - 1 - i) & 1)
                t = t << 1 | b
            out |= (f >> t & 1) << j
        return out

def tt_case(name, xs, expr, codes, pre=PRE, kind="bool", order=None, tmo=200, tt=None, **kw):
    """expr: fl list of the same length as codes()"""
    tt = tt or TT(xs)
    def check(env, res):
        exp = codes(tt)
        assert len(res) == len(exp), "%d results, %d expected" % (len(res), len(exp))
        for i, c in enumerate(exp):
            assert isinstance(c, (int, bool)), i
        seen, terms = set(), []
        zs = {}
        for r, c in zip(res, exp):
            key = (r.get_id(), c)
            if key in seen:
                continue
            seen.add(key)
            terms.append(r == tt.z(env, int(c)))
        return z3.And(*terms)
    return Case(name, xs, expr, check, pre=pre, kind=kind, order=order or list(xs), concrete=False, functional=False, tmo=tmo, **kw)

def orders(xs):
    return [list(xs), list(xs)[::-1], list(xs[1:]) + [xs[0]]]

def bool_pairs(k=3):
    """every pair of functions through each binary operator; every order of declaration rotates"""
    out = []
    for oi in range(2):
        for nm, e, s in (("AND", "f AND g", lambda t, f, g: f & g), ("OR", "f OR g", lambda t, f, g: f | g),
                         ("XOR", "f XOR g", lambda t, f, g: f ^ g), ("XNOR", "f XNOR g", lambda t, f, g: t.inv(f ^ g)),
                         ("NAND", "NOT (f AND g)", lambda t, f, g: t.inv(f & g)), ("NOR", "NOT (f OR g)", lambda t, f, g: t.inv(f | g)),
                         ("EQ", "f = g", lambda t, f, g: t.inv(f ^ g)), ("NEQ", "f != g", lambda t, f, g: f ^ g),
                         ("SAME", "(f == g) => T | F", lambda t, f, g: t.mask if f == g else 0)):
            xs = ["w%d%s_%d" % (oi, nm, i) for i in range(k)]
            order = xs if oi == 0 else xs[::-1]
            N = 1 << (1 << k)
            step = 1
            out.append(tt_case("pairs_%s_%d_o%d" % (nm, k, oi), xs,
                "(let fs = vv_fs %d %s in flatmap (\\f. map (\\g. (%s)) fs) fs)" % (k, flist(xs), e),
                lambda t, s=s, N=N: [s(t, f, g) for f in range(N) for g in range(N)], order=order))
        xs = ["w%dITE_%d" % (oi, i) for i in range(k)]
        N = 1 << (1 << k)
        out.append(tt_case("pairs_ITE_%d_o%d" % (k, oi), xs,
            "(let fs = vv_fs %d %s in let n = %d in letrec nth i = el (i+1) fs in flatmap (\\i. map (\\j. (nth i) => (nth j) | (nth ((i*7+j*13+%d)%%n))) (0--(n-1))) (0--(n-1)))"
            % (k, flist(xs), N, oi) if k <= 2 else
            "(let fs = vv_fs %d %s in let h = [vv_mk 77 %s, vv_mk 150 %s, vv_mk 240 %s, vv_mk 12 %s] in flatmap (\\c. flatmap (\\f. map (\\g. f => g | c) fs) fs) h)"
            % ((k, flist(xs)) + (flist(xs),) * 4),
            (lambda t, N=N, oi=oi: [t.ite(i, j, (i * 7 + j * 13 + oi) % N) for i in range(N) for j in range(N)]) if k <= 2 else
            (lambda t, N=N: [t.ite(f, g, c) for c in (77, 150, 240, 12) for f in range(N) for g in range(N)]),
            order=xs if oi == 0 else xs[::-1]))
    return out

def quant_all(k=3, perm=((0, 1, 2), (2, 1, 0), (1, 2, 0))):
    """every function of k variables, every subset of them and two variables around, quantified"""
    out = []
    for pi, pm in enumerate(perm):
        for nm in ("thereis", "forall"):
            p = "y%d%s" % (pi, nm[0])
            xs = ["%s_%d" % (p, i) for i in range(k)]
            lo, mid, hi = p + "_lo", p + "_mid", p + "_hi"
            od = [xs[i] for i in pm]
            order = [lo] + od[:1] + [mid] + od[1:] + [hi]
            subs = [s for r in range(k + 1) for s in itertools.combinations(range(k), r)]
            extra = [[], [lo], [hi], [mid], [lo, mid, hi]]
            lists = [[xs[i] for i in s] + x for s in subs for x in extra]
            cubes = [(" AND ".join(l) if l else "T") for l in lists]
            N = 1 << (1 << k)
            q = (lambda t, f, i: t.ex(f, i)) if nm == "thereis" else (lambda t, f, i: t.all(f, i))
            def codes(t, subs=subs, extra=extra, N=N, q=q):
                r = []
                for s in subs:
                    row = []
                    for f in range(N):
                        for i in s:
                            f = q(t, f, i)
                        row.append(f)
                    for _ in extra:
                        r += row
                return r
            tt = TT(xs)
            c = tt_case("quantall_%s_%d_%d" % (nm, k, pi), xs + [lo, mid, hi],
                "(let fs = vv_fs %d %s in flatmap (\\c. map (\\f. quant_%s c f) fs) %s)" % (k, flist(xs), nm, flist(cubes)), codes, order=order, tt=tt)
            out.append(c)
            lst = flist([flist(['"%s"' % v for v in l]) for l in lists])
            p2 = "Y%d%s" % (pi, nm[0])
            ren = lambda s: s.replace(p + "_", p2 + "_")
            xs2 = [ren(x) for x in xs]
            out.append(tt_case("quantlist_%s_%d_%d" % (nm, k, pi), xs2 + [ren(lo), ren(mid), ren(hi)],
                "(let fs = vv_fs %d %s in flatmap (\\l. map (\\f. Quant_%s l f) fs) %s)" % (k, flist(xs2), nm, ren(lst)), codes,
                order=[ren(v) for v in order], tt=TT(xs2)))
    return out

def relprod_all(k=3, full=False):
    out = []
    for nm in ("thereis", "forall"):
        for oi in range(2):
            p = "z%d%s" % (oi, nm[0])
            xs = ["%s_%d" % (p, i) for i in range(k)]
            lo, hi = p + "_lo", p + "_hi"
            order = ([lo] + xs + [hi]) if oi == 0 else ([lo] + xs[::-1] + [hi])
            subs = [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2), ()][: None if k == 3 else None]
            subs = [s for s in subs if all(i < k for i in s)]
            step = 1 if full else 5
            N = 1 << (1 << k)
            cubes = flist(["((%s) AND %s)" % (" AND ".join(xs[i] for i in s) if s else "T", (lo if len(s) == 2 else hi if len(s) == 1 else "T")) for s in subs])
            q = (lambda t, f, i: t.ex(f, i)) if nm == "thereis" else (lambda t, f, i: t.all(f, i))
            def codes(t, subs=subs, q=q, N=N, step=step):
                r = []
                memo = {}
                for s in subs:
                    for f in range(0, N):
                        for g in range(f % step, N, step):
                            x = f & g
                            if (s, x) not in memo:
                                y = x
                                for i in s:
                                    y = q(t, y, i)
                                memo[(s, x)] = y
                            r.append(memo[(s, x)])
                return r
            ex = ("(let gs = map (\\o. map (\\i. vv_mk (i*%d+o) %s) (0--((%d-1-o)/%d))) (0--%d) in letrec go i (f:fs) c = (map (\\g. relprod_%s c f g) (el ((i%%%d)+1) gs))@(go (i+1) fs c) /\\ go i [] c = [] in "
                  "flatmap (\\c. go 0 (vv_fs %d %s) c) %s)") % (step, flist(xs), N, step, step - 1, nm, step, k, flist(xs), cubes)
            out.append(tt_case("relprodall_%s_%d_o%d" % (nm, k, oi), xs + [lo, hi], ex, codes, order=order, tt=TT(xs)))
    return out

def subst_all(k=3, full=False):
    """every function of k variables under single, double and triple substitutions"""
    out = []
    N = 1 << (1 << k)
    G = [0, N - 1] + [(i * 37 + 11) % N for i in range(10 if not full else 60)]
    for oi in range(2):
        p = "u%d" % oi
        xs = ["%s_%d" % (p, i) for i in range(k)]
        order = xs if oi == 0 else xs[::-1]
        tt = TT(xs)
        subs = [{i: g} for i in range(k) for g in G]
        subs += [{i: G[(a * 3 + i) % len(G)], j: G[(a * 5 + j + 1) % len(G)]} for i, j in ((0, 1), (1, 0), (1, 2), (2, 0)) for a in range(len(G)) if max(i, j) < k]
        subs += [{i: G[(a * (i + 2) + i) % len(G)] for i in range(k)} for a in range(len(G))]
        ls = flist([flist(['("%s", vv_mk %d %s)' % (xs[i], g, flist(xs)) for i, g in s.items()]) for s in subs])
        out.append(tt_case("substall_%d_o%d" % (k, oi), xs, "(let fs = vv_fs %d %s in flatmap (\\s. map (\\f. substitute s f) fs) %s)" % (k, flist(xs), ls),
                           lambda t, subs=subs, N=N: [t.sub(f, s) for s in subs for f in range(N)], order=order, tt=tt))
        # one traversal shared by a list of functions (the cache of one call)
        p = "U%d" % oi
        ys = ["%s_%d" % (p, i) for i in range(k)]
        ls = flist([flist(['("%s", vv_mk %d %s)' % (ys[i], g, flist(ys)) for i, g in s.items()]) for s in subs])
        out.append(tt_case("substlist_%d_o%d" % (k, oi), ys, "(let fs = vv_fs %d %s in flatmap (\\s. substitute s fs) %s)" % (k, flist(ys), ls),
                           lambda t, subs=subs, N=N: [t.sub(f, s) for s in subs for f in range(N)], order=ys if oi == 0 else ys[::-1], tt=TT(ys)))
    return out

# ---------------------------------------------------------------- bexpr
def be_exprs(tt):
    """small structures over the variables: literals, conjunctions, conjunctions of those; (text, code)"""
    names = list(tt.xs)
    lits = [(n, tt.v[i]) for i, n in enumerate(names)]
    lits += [("(bNOT %s)" % n, tt.inv(c)) for n, c in lits]
    a1 = [("(%s bAND %s)" % (x, y), c & d) for x, c in lits for y, d in lits if x.strip("(bNOT )") != y.strip("(bNOT )")]
    a1 += [("(bNOT %s)" % x, tt.inv(c)) for x, c in a1]
    return lits, a1

def be_pairs(k=3):
    out = []
    base = TT(["v%d" % i for i in range(k)])
    for oi, (nm, e, s) in enumerate((("AND", "f bAND g", lambda t, f, g: f & g), ("OR", "f bOR g", lambda t, f, g: f | g),
                                     ("XOR", "f bXOR g", lambda t, f, g: f ^ g))):
        for part in range(4):
            xs = ["s%d%d_%d" % (oi, part, i) for i in range(k)]
            t = TT(xs)
            lits, a1 = be_exprs(t)
            L = [("bT", t.mask), ("bF", 0)] + lits + a1
            A = L[part::4]
            out.append(tt_case("bepairs_%s_%d_p%d" % (nm, k, part), xs,
                "(let l = %s in let a = %s in flatmap (\\f. map (\\g. %s) l) a)" % (flist([x for x, _ in L]), flist([x for x, _ in A]), e),
                lambda t, s=s, L=L, A=A: [s(t, f, g) for _, f in A for _, g in L], pre="", kind="bexpr", tt=t))
    # conjunctions of three levels: lit AND (x AND (y AND z)) and mirrored, signs everywhere
    xs = ["s9_%d" % i for i in range(k)]
    t = TT(xs)
    lits, a1 = be_exprs(t)
    B = a1[::3]
    out.append(tt_case("bedeep_%d" % k, xs,
        "(let l = %s in let a = %s in flatmap (\\x. flatmap (\\f. let u = x bAND f in let v = f bAND (bNOT x) in [x bAND u, (bNOT x) bAND u, u bAND f, u bAND (bNOT f), v bAND u, (bNOT u) bAND v, (bNOT u) bAND (bNOT v)]) a) l)"
        % (flist([x for x, _ in lits]), flist([x for x, _ in B])),
        lambda t, B=B, lits=lits: [r for _, x in lits for _, f in B for u, v in ((x & f, f & t.inv(x)),)
                                   for r in (x & u, t.inv(x) & u, u & f, u & t.inv(f), v & u, t.inv(u) & v, t.inv(u) & t.inv(v))],
        pre="", kind="bexpr", tt=t))
    # every function, all three-variable if-then-else and equality
    xs = ["s8_%d" % i for i in range(2)]
    out.append(tt_case("be_ite_all2", xs,
        "(let fs = vv_bfs 2 %s in flatmap (\\f. flatmap (\\g. map (\\h. bITE f g h) fs) fs) fs)" % flist(xs),
        lambda t: [t.ite(f, g, h) for f in range(16) for g in range(16) for h in range(16)], pre=BPRE, kind="bexpr"))
    xs = ["s7_%d" % i for i in range(2)]
    out.append(tt_case("be_eq_all2", xs,
        "(let fs = vv_bfs 2 %s in flatmap (\\f. flatmap (\\g. map (\\h. (bEqual [f,g] [g,h])) fs) fs) fs)" % flist(xs),
        lambda t: [t.inv(f ^ g) & t.inv(g ^ h) for f in range(16) for g in range(16) for h in range(16)], pre=BPRE, kind="bexpr"))
    return out

def be_convert(k=3):
    out = []
    N = 1 << (1 << k)
    xs = ["r1_%d" % i for i in range(k)]
    defs = "".join('let %s = bvariable "%s" in ' % ("b" + x, x) for x in xs)
    pre = BPRE
    out.append(tt_case("be2bdd_all%d" % k, xs, "(" + defs + "let fs = vv_bfs %d %s in (map (bexpr2bdd []) fs)@(map (\\f. bexpr2bdd [] (bNOT f)) fs)@(map (\\f. bexpr2bdd [(\"%s\",T)] f) fs)@(map (\\f. bexpr2bdd [(\"%s\",F),(\"%s\",NOT %s)] f) fs)@(map (bexpr2bdd []) fs))"
        % (k, flist(["b" + x for x in xs]), xs[0], xs[1], xs[0], xs[0]),
        lambda t: list(range(N)) + [t.inv(f) for f in range(N)] + [t.cof(f, 0, 1) for f in range(N)] + [t.sub(f, {1: 0, 0: t.inv(t.v[0])}) for f in range(N)] + list(range(N)), pre=pre))
    xs = ["r2_%d" % i for i in range(k)]
    out.append(tt_case("bdd2be_all%d" % k, xs, "(" + "".join('let %s = variable "%s" in ' % ("a" + x, x) for x in xs) +
        "let fs = vv_fs %d %s in (bool2bexpr fs)@(map (\\f. hd (bool2bexpr [f])) fs))" % (k, flist(["a" + x for x in xs])),
        lambda t: list(range(N)) * 2, pre=PRE, kind="bexpr"))
    return out

def big_tables(orders=(0, 1), reorder=True, nb=20, tag=""):
    """thousands of nodes on one variable (its unique table has to grow and be rehashed) and thousands of
    parents of one node (its reference count saturates), then new variable orders, then the same functions again"""
    out = []
    for oi in orders:
        xs = ["bt%s%d_%s" % (tag, oi, v) for v in ("x1", "x0", "y0", "y1", "y2")]
        x1, x0 = xs[:2]
        ys = flist(xs[2:])
        perm = [xs[3], xs[1], xs[4], xs[0], xs[2]] if oi == 0 else [xs[1], xs[2], xs[0], xs[4], xs[3]]
        full = (1 << 8) - 1
        pairs = [(a, (b * 13 + oi) % 256) for a in range(256) for b in range(nb)]
        n_ix = 137
        def Gc(a, b):
            # order x1,x0,y*: x0 is bit 3 of the 5-bit assignment index
            h = a << 8 | b
            return h << 16 | h
        def codes(tt, pairs=pairs):
            G = [Gc(a, b) for a, b in pairs]
            n = G[n_ix]
            F = [(n & 0xffff0000) | (g & 0xffff) for g in G]
            H = [tt.mask & ~((n & 0xffff0000) | (g & 0xffff)) for g in G[:40]]
            return G + F + [tt.mask] * 3 + H + [n]
        expr = ("(let fs = vv_fs 3 {ys} in let h = map (\\b. vv_mk ((b*13+{oi}) % 256) {ys}) (0--{nb1}) in "
                "let G = flatmap (\\a. map (\\b. ({x0} AND a) OR ((NOT {x0}) AND b)) h) fs in "
                "let n = el {nix} G in "
                "let FF = map (\\g. ({x1} => n | g)) G in "
                "(length (filter (\\i. i == {x0}) (G@FF)) = (-1)) => [] | "
                "let P = bdd_size (G@FF) in (P < 0) => [] | "
                "let chk _ = (let G2 = flatmap (\\a. map (\\b. ({x0} ==> a) AND ({x0} OR b)) h) fs in let F2 = map (\\g. (({x1} ==> n) AND ({x1} OR g))) G2 in ((G2@F2) == (G@FF)) => T | F) in "
                "let c1 = chk () in (c1 AND F) => [] | "
                + ("let o = var_order {perm} in (length o < 0) => [] | " if reorder else "") +
                "let c2 = chk () in (c2 AND F) => [] | "
                "let H = map (\\g. NOT (({x1} AND n) OR ((NOT {x1}) AND g))) (firstn 40 G) in (bdd_size H < 0) => [] | "
                + ("let o = var_order {rev} in (length o < 0) => [] | " if reorder else "") +
                "let c3 = chk () in "
                "G@FF@[c1,c2,c3]@H@[n])").format(ys=ys, x0=x0, x1=x1, nb1=nb - 1, nix=n_ix + 1, perm=flist(['"%s"' % p for p in perm]), rev=flist(['"%s"' % p for p in xs[::-1]]), oi=oi)
        out.append(tt_case("bigtable%s_o%d%s" % (tag, oi, "r" if reorder else ""), xs, expr, codes, order=xs if oi == 0 else xs[::-1], tmo=300))
    return out
