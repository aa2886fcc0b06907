"""Cases for saving and loading formulas and values."""
import z3, os
from flsym import Case, flist, run_fl, script
from bddcases import Fn, ordered, STYLES, px

def _items(kind, f, g, xs):
    """list of (fl expr, z3 fn(env)) with sharing, complements, constants, duplicates"""
    N, X, A, T, F = ("NOT", "XOR", "AND", "T", "F") if kind == "bool" else ("bNOT", "bXOR", "bAND", "bT", "bF")
    z = lambda fn: fn
    return [(f.name, lambda e: f.z(e)), ("(%s %s)" % (N, f.name), lambda e: z3.Not(f.z(e))), (g.name, lambda e: g.z(e)), (F, lambda e: z3.BoolVal(False)),
            ("(%s %s %s)" % (f.name, X, g.name), lambda e: z3.Xor(f.z(e), g.z(e))), (T, lambda e: z3.BoolVal(True)),
            ("(%s %s)" % (N, xs[-1]), lambda e: z3.Not(e[xs[-1]])), (f.name, lambda e: f.z(e)), (xs[0], lambda e: e[xs[0]]),
            ("(%s %s (%s %s))" % (g.name, A, N, f.name), lambda e: z3.And(g.z(e), z3.Not(f.z(e))))]

class BFn(Fn):
    def fl(self):
        def mux(xs, lo, n):
            if not xs:
                return self.tab[lo]
            h = n // 2
            return "((%s bAND %s) bOR ((bNOT %s) bAND %s))" % (xs[0], mux(xs[1:], lo + h, h), xs[0], mux(xs[1:], lo, h))
        return mux(self.xs, 0, len(self.tab))

def _mk(kind, k):
    p = px()
    xs = ["%s_x%d" % (p, i) for i in range(k)]
    C = Fn if kind == "bool" else BFn
    f, g = C(p + "_f", xs), C(p + "_g", xs[1:])
    vars = xs + f.tab + g.tab
    lets = "let %s = %s in let %s = %s in " % (f.name, f.fl(), g.name, g.fl())
    return p, xs, f, g, vars, lets

def _perm(vars, i):
    return [vars, vars[::-1], vars[1::2] + vars[::2], vars[len(vars) // 2:] + vars[:len(vars) // 2]][i % 4]

def same_session(kind, k, d, oi, change):
    p, xs, f, g, vars, lets = _mk(kind, k)
    it = _items(kind, f, g, xs)
    path = os.path.join(d, p)
    sv = "bdd" if kind == "bool" else "bexpr"
    order = _perm(vars, oi)
    mid = ("(var_order %s) fseq " % flist(['"%s"' % v for v in _perm(vars, oi + change)])) if change and kind == "bool" else ""
    expr = lets + "let l = %s in (%s_save \"%s\" l) fseq %s (let r = %s_load \"%s\" in r%s)" % (
        flist([e for e, _ in it]), sv, path, mid, sv, path, " @ (map2 (\\a. \\b. (a == b) => T | F) l r)" if kind == "bool" else "")
    def check(env, res):
        n = len(it)
        assert len(res) == n * (2 if kind == "bool" else 1), "%d formulas read back, %d saved" % (len(res), n)
        return z3.And(*([r == s(env) for r, (_, s) in zip(res, it)] + list(res[n:])))
    return Case("save_load_%s_%d_o%d%s" % (kind, k, oi, "_reordered%d" % change if change else ""), vars, expr, check, kind=kind, order=order, functional=False, concrete=False)

def two_sessions(exe, kind, k, d, oi, change):
    """saved by one fl process, loaded by another with another order"""
    p, xs, f, g, vars, lets = _mk(kind, k)
    it = _items(kind, f, g, xs)
    path = os.path.join(d, p)
    sv = "bdd" if kind == "bool" else "bexpr"
    w = Case("w", vars, lets + flist([e for e, _ in it]), None, kind=kind, order=_perm(vars, oi))
    wd = path + ".d"
    os.makedirs(wd, exist_ok=True)
    rc, out = run_fl(exe, script([w], wd), wd)
    src = os.path.join(wd, "r0")
    ok = os.path.exists(src)
    expr = '%s_load "%s"' % (sv, src)
    def check(env, res):
        assert len(res) == len(it), "%d formulas read back, %d saved" % (len(res), len(it))
        return z3.And(*[r == s(env) for r, (_, s) in zip(res, it)])
    return Case("two_sessions_%s_%d_o%d_%d" % (kind, k, oi, change), vars, expr, check, kind=kind, order=_perm(vars, oi + change), functional=False, concrete=False), (ok, rc, out, src)

def values(k, d, oi):
    """a value of a user-defined type containing numbers, strings, lists, pairs, formulas"""
    p, xs, f, g, vars, lets = _mk("bool", k)
    path = os.path.join(d, p + ".val")
    it = _items("bool", f, g, xs)
    pre = ("lettype vvT_%s = VVA_%s {i::int} {s::string} {bl::bool list} {pr::string#(int list)} {be::bexpr} | VVB_%s {t::vvT_%s} {b::bool} | VVC_%s;\n" % (p, p, p, p, p) +
           "lettype vvU_%s = VVU_%s int;\n" % (p, p) +
           "let vv_get (VVB_%s (VVB_%s (VVA_%s i s bl pr be) c) b) = (i,s,bl,pr,be,b,c);\n" % (p, p, p))
    for n, (i, s, pr) in enumerate([("123456789012345678901234567890", r'12 a\"b\nx', '("",[0,-1,4611686018427387904])'), ("(-9223372036854775808)", "", '("7 7",[])')]):
        pass
    i, s, pr = [("123456789012345678901234567890", r'12 a\"b\nx', '("",[0,-1,4611686018427387904])'), ("(-9223372036854775808)", "", '("7 7",[])')][oi % 2]
    expr = lets + ('let v = VVB_%s (VVB_%s (VVA_%s %s "%s" %s %s (bvariable "q" bAND bNOT (bvariable "r r"))) %s) %s in '
                   '(vv_get v = vv_get v) fseq (write_vvT_%s "%s" v) fseq '
                   '(val (i,s,bl,pr,be,b,c) = vv_get (read_vvT_%s "%s") in bl @ [b, c, ((i = %s) => T | F), ((s = "%s") => T | F), ((pr = %s) => T | F), '
                   '(((be bXOR (bvariable "q" bAND bNOT (bvariable "r r"))) == bF) => T | F), (((read_vvU_%s "%s") == (read_vvU_%s "%s")) fseq F) gen_catch (\\m. T), (length (bdepends be) = 2) => T | F])') % (
        p, p, p, i, s, flist([e for e, _ in it]), pr, it[9][0], it[4][0], p, path, p, path, i, s, pr, p, path, p, path)
    def check(env, res):
        n = len(it)
        assert len(res) == n + 8, len(res)
        return z3.And(*([r == sp(env) for r, (_, sp) in zip(res, it)] + [res[n] == it[4][1](env), res[n + 1] == it[9][1](env)] + list(res[n + 2:])))
    return Case("value_%d_o%d" % (k, oi), vars, expr, check, pre=pre, order=_perm(vars, oi), functional=False, concrete=False)

def refusals(d, bddfile, befile):
    """other files, missing files and files cut at any line are refused; an unwritable target is reported"""
    chk = lambda env, res: z3.And(*res)
    out = []
    bad = ["((%s_load \"%s\") fseq F) gen_catch (\\m. T)" % (sv, f) for sv in ("bdd", "bexpr") for f in ("/dev/null", os.path.join(d, "nosuch"), __file__, befile if sv == "bdd" else bddfile)]
    bad += ["((bdd_save \"%s/nosuch/x\" [T]) fseq F) gen_catch (\\m. T)" % d, "((bexpr_save \"%s/nosuch/x\" [bT]) fseq F) gen_catch (\\m. T)" % d]
    out.append(Case("refused_files", ["rf"], flist(bad), chk, functional=False, concrete=False))
    for sv, f in (("bdd", bddfile), ("bexpr", befile)):
        lines = open(f).read().split("\n")[:-1]
        n = [i for i, l in enumerate(lines) if l.startswith("r ")]
        items = []
        for i in range(n[0] + 1, len(lines)):
            cut = "%s.cut%d" % (f, i)
            with open(cut, "w") as fh:
                fh.write("\n".join(lines[:i]) + "\n")
            items.append("((%s_load \"%s\") fseq F) gen_catch (\\m. T)" % (sv, cut))
        out.append(Case("refused_incomplete_%s" % sv, ["rg"], flist(items), chk, functional=False, concrete=False))
    return out

def names(d):
    """names with blanks, digits, punctuation"""
    nm = ["a b", "1", " lead", "x  y", "%d%s", "n 0 +1 -0", "r +1", "v x", "a'*\\\\", "[3]", "i/c/d[0]", "-", "trail "]
    vs = flist(['"%s"' % n for n in nm])
    out = []
    for sv, var, T in (("bdd", "variable", "T"), ("bexpr", "bvariable", "bT")):
        path = os.path.join(d, "names_" + sv)
        N, A = ("NOT", "AND") if sv == "bdd" else ("bNOT", "bAND")
        e = ("(let vs = map %s %s in let l = itlist (\\a.\\r. ((%s (hd r)) %s a):r) vs [%s] in (%s_save \"%s\" (l@vs)) fseq (let r = %s_load \"%s\" in "
             "[((length r = length (l@vs)) => T | F), (((map (\\x. hd (%s x)) (lastn %d r)) = %s) => T | F)] @ (map2 (\\a.\\b. (a == b) => T | F) r (l@vs))))") % (
            var, vs, N, A, T, sv, path, sv, path, "depends" if sv == "bdd" else "bdepends", len(nm), vs)
        out.append(Case("names_" + sv, ["rn"], e, lambda env, res: z3.And(*res), functional=False, concrete=False))
    return out
