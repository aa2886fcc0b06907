"""Cases for questions about BDDs: support, size, cofactors, model counts, sums."""
import z3, itertools
from flsym import Case, flist, b2bv, vec
import ttcases
from ttcases import TT, tt_case, PRE
from bddcases import Fn, ordered, STYLES, px

def popcount(bits, w):
    s = z3.BitVecVal(0, w)
    for b in bits:
        s = s + z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return s

def gen_count(k, nfree, style, reorder=False, neg=False):
    """gen_model_count over xs of an arbitrary function of xs and nfree free variables, tabulated: the
    result, as a function of the table (and the free variables), is the number of ones"""
    p = px()
    xs = ["%s_x%d" % (p, i) for i in range(k)]
    fr = ["%s_f%d" % (p, i) for i in range(nfree)]
    f, g = Fn(p + "_f", fr + xs), Fn(p + "_g", xs[:max(0, k - 1)])
    vars = xs + fr + f.tab + g.tab
    allx = xs + fr
    def cnt(env, h, vs, w, n):
        t = []
        for bits in itertools.product((0, 1), repeat=len(vs)):
            r = h.z(env, {v: z3.BoolVal(bool(b)) for v, b in zip(vs, bits)})
            t.append(z3.Not(r) if n else r)
        return popcount(t, w)
    lets = "let %s = %s in let %s = %s in " % (f.name, f.fl(), g.name, g.fl())
    W = k + 3
    pr = ""
    if reorder:
        pr = "let o = var_order %s in (length o = (-1)) => [] | " % flist(['"%s"' % v for v in (allx + f.tab)[::-1]])
    expr = lets + pr + ("(let pad b = (let l = bv2list b in (replicate (%d-(length l)) (hd l))@l) in flatmap pad (gen_model_count %s %s))"
                        % (W, flist(['"%s"' % x for x in xs]), flist(["NOT " + f.name if neg else f.name, g.name, f.name, "T", "F"])))
    def check(env, res):
        assert len(res) == 5 * W, len(res)
        r = [b2bv(res[i * W:(i + 1) * W]) for i in range(5)]
        return z3.And(r[0] == cnt(env, f, xs, W, neg), r[1] == cnt(env, g, xs, W, False), r[2] == cnt(env, f, xs, W, False),
                      r[3] == (1 << k), r[4] == 0)
    return Case("gen_count_%d_%d_%s%s%s" % (k, nfree, style, "_ro" if reorder else "", "_n" if neg else ""), vars, expr, check,
                order=ordered(style, xs + fr, [f, g]), functional=False, concrete=False)

def bvsum(k, n, style, reorder=False):
    """bv_sum over xs of a vector of n arbitrary functions of xs: the exact signed sum"""
    p = px()
    xs = ["%s_x%d" % (p, i) for i in range(k)]
    fs = [Fn("%s_f%d" % (p, i), xs) for i in range(n)]
    vars = xs + [t for f in fs for t in f.tab]
    lets = "".join("let %s = %s in " % (f.name, f.fl()) for f in fs)
    W = n + k + 3
    if reorder:
        lets += "let o = var_order %s in (length o = (-1)) => [] | " % flist(['"%s"' % v for v in vars[::-1]])
    expr = lets + ("(let l = bv2list (bv_sum %s (list2bv %s)) in (replicate (%d-(length l)) (hd l))@l)" %
                   (flist(['"%s"' % x for x in xs]), flist([f.name for f in fs]), W))
    def check(env, res):
        assert len(res) == W, len(res)
        tot = z3.BitVecVal(0, W)
        for bits in itertools.product((0, 1), repeat=k):
            s = {x: z3.BoolVal(bool(b)) for x, b in zip(xs, bits)}
            v = [f.z(env, s) for f in fs]
            tot = tot + (z3.SignExt(W - n, b2bv(v)))
        return b2bv(res) == tot
    return Case("bv_sum_%d_%d_%s%s" % (k, n, style, "_ro" if reorder else ""), vars, expr, check,
                order=ordered(style, xs, fs), functional=False, concrete=False)

def support(k=3, orders=None):
    """depends/bdd_size/top_cofactor/model counts of every function of k variables; the answers are
    compared with what z3 derives from the exported function itself"""
    out = []
    for oi, pm in enumerate(orders or list(itertools.permutations(range(k)))):
        p = px()
        xs = ["%s_x%d" % (p, i) for i in range(k)]
        extra = ["%s_u" % p, "%s_v" % p]
        order = [extra[0]] + [xs[i] for i in pm] + [extra[1]]
        if oi % 2:      # created in one order, then moved
            pre = PRE + "let vv_o = var_order %s;\n" % flist(['"%s"' % v for v in order])
            decl = xs + extra
        else:
            pre, decl = PRE, order
        N = 1 << (1 << k)
        sel = lambda v: 'f => T | F'
        q = lambda l: flist(['"%s"' % x for x in l])
        # per function: f; support bits (xs, u); counts over xs / xs+u / reversed list, 6 bits each; top cofactor
        nb = lambda e: "(map (\\i. (((%s)/(2**i))%%2) = 1 => T | F) (0--5))" % e
        expr = ("(let fs = vv_fs %d %s in let cs = [fs] in flatmap (\\f. [f] @ (let d = depends (f,[NOT f]) in map (\\v. (mem v d) => T | F) %s) @ [(length (depends f)) = (length (depends [f,T,f])) => T | F] "
                "@ %s @ %s @ %s @ %s) fs)") % (k, flist(xs), q(xs + extra[:1]),
                nb("simple_model_count %s f" % q(xs)), nb("simple_model_count %s f" % q(extra + xs)),
                nb("hd (truth_cover_n %s [NOT f, f])" % q(xs[::-1])), nb("el 3 (truth_cover_n %s [T, F, f])" % q(xs + extra[:1])))
        L = 1 + (k + 1) + 1 + 24
        def check(env, res, xs=xs, L=L, extra=extra):
            assert len(res) == N * L, len(res)
            tt = TT(xs)
            cs = []
            for c in range(N):
                r = res[c * L:(c + 1) * L]
                f = tt.z(env, c)
                cs.append(r[0] == f)
                vals = [z3.substitute(f, *[(env[x], z3.BoolVal(bool(b))) for x, b in zip(xs, bits)]) for bits in itertools.product((0, 1), repeat=k)]
                for i, x in enumerate(xs):
                    st = 1 << (k - 1 - i)
                    dep = z3.Or(*[vals[j] != vals[j ^ st] for j in range(1 << k)])
                    cs.append(r[1 + i] == dep)
                cs.append(z3.Not(r[1 + k]))
                cs.append(r[2 + k])
                o = 3 + k
                def num(i):
                    b = r[o + 6 * i:o + 6 * i + 6]
                    return b2bv(b[::-1])
                n = popcount(vals, 6)
                cs += [num(0) == n, num(1) == 4 * n, num(2) == (1 << k) - n, num(3) == 2 * n]
            return z3.And(*cs)
        out.append(Case("support_%d_o%d" % (k, oi), decl, expr, check, pre=pre, order=decl, functional=False, concrete=False))
    return out

def fpcounts(k=3, orders=None, step=1):
    """floating point counts, plain and conditional, of pairs of functions"""
    out = []
    for oi, pm in enumerate(orders or list(itertools.permutations(range(k)))):
        p = px()
        xs = ["%s_x%d" % (p, i) for i in range(k)]
        extra = ["%s_u" % p]
        order = [extra[0]] + [xs[i] for i in pm]
        if oi % 2:
            pre = PRE + "let vv_o = var_order %s;\n" % flist(['"%s"' % v for v in order])
            decl = xs + extra
        else:
            pre, decl = PRE, order
        N = 1 << (1 << k)
        q = lambda l: flist(['"%s"' % x for x in l])
        sel = [0, N - 1] + [c for c in range(1, N - 1) if c % step == (oi % step)]
        expr = ("(let fs = vv_fs %d %s in let fl = map (\\i. el (i+1) fs) [%s] in let bits x = (let n = floor x in map (\\i. ((n/(2**i))%%2) = 1 => T | F) (0--5)) in "
                "(flatmap bits (fp_truth_cover_n %s fl)) @ (flatmap bits (fp_truth_cover_n %s (rev fl))) @ "
                "(flatmap (\\c. flatmap bits (defix fp_model_count %s fl c)) fl))") % (
                k, flist(xs), ",".join(map(str, sel)), q(xs), q(xs[::-1] + extra), q(xs[::-1]))
        def check(env, res, xs=xs, sel=sel):
            tt = TT(xs)
            n = len(sel)
            assert len(res) == 6 * (2 * n + n * n), (len(res), n)
            num = lambda i: b2bv(res[6 * i:6 * i + 6][::-1])
            def ones(c):
                f = tt.z(env, c)
                return popcount([z3.substitute(f, *[(env[x], z3.BoolVal(bool(b))) for x, b in zip(xs, bits)]) for bits in itertools.product((0, 1), repeat=k)], 6)
            memo = {}
            def cnt(c):
                if c not in memo:
                    memo[c] = ones(c)
                return memo[c]
            cs = [num(i) == cnt(c) for i, c in enumerate(sel)]
            cs += [num(n + i) == 2 * cnt(c) for i, c in enumerate(sel[::-1])]
            for a, c in enumerate(sel):
                for b, f in enumerate(sel):
                    cs.append(num(2 * n + a * n + b) == cnt(c & f))
            return z3.And(*cs)
        out.append(Case("fpcount_%d_o%d" % (k, oi), decl, expr, check, pre=pre, order=decl, functional=False, concrete=False, tmo=300))
    return out

def misc():
    xs = ["em_x%d" % i for i in range(3)]
    out = []
    # counts over the empty list of variables, cofactors and sizes
    def chk(env, res):
        return z3.And(*res)
    t = ["((simple_model_count [] T) = 1 => T | F)", "((simple_model_count [] F) = 0 => T | F)",
         "((truth_cover_n [] [T,F,T]) = [1,0,1] => T | F)", "((floor (hd (fp_truth_cover_n [] [T]))) = 1 => T | F)",
         "((floor (hd (fp_truth_cover_n [] [F]))) = 0 => T | F)", "((floor (hd (fp_model_count [] [T] T))) = 1 => T | F)",
         "((bv2int (hd (gen_model_count [] [T]))) = 1 => T | F)", "((bv2int (hd (gen_model_count [] [F]))) = 0 => T | F)",
         "((hd (gen_model_count [] [em_x0 AND em_x1])) = (list2bv [F,em_x0 AND em_x1]) => T | F)",
         "((bv2int (hd (gen_model_count [\"em_x0\",\"em_x1\"] [T]))) = 4 => T | F)",
         "((((simple_model_count [\"em_x0\"] (em_x0 AND em_x1)) = 5) gen_catch (\\m. T)) => T | F)",
         "(depends [] = [] => T | F)", "(depends (T,F) = [] => T | F)", "((bdd_size T) = 0 => T | F)", "((bdd_size em_x0) = 1 => T | F)",
         "((bdd_size [em_x0, NOT em_x0]) = 1 => T | F)", "((bdd_size [em_x0 XOR em_x1, em_x1]) = 2 => T | F)",
         "((bdd_size (NOT (em_x0 XOR em_x1), em_x1, NOT em_x1)) = 2 => T | F)"]
    for i, e in enumerate(t):
        out.append(Case("empty_%d" % i, xs, "[%s]" % e, chk, functional=False, concrete=False))
    # top_cofactor of every function: (v=>H|L) is the function, neither depends on v, v is the first of the support in the order
    for oi, order in enumerate((xs, xs[::-1], [xs[1], xs[2], xs[0]])):
        xx = ["tc%d_x%d" % (oi, i) for i in range(3)]
        od = [xx[xs.index(v)] for v in order]
        expr = ("(let fs = firstn 254 (tl (vv_fs 3 %s)) in flatmap (\\f. val (v,H,L) = top_cofactor f in [(((variable v) AND H) OR (NOT (variable v) AND L)), H, L, (mem v (depends [H,L]) => F | T), (v = (hd (depends f))) => T | F]) fs)") % flist(xx)
        def check(env, res, xx=xx, od=od):
            tt = TT(xx)
            assert len(res) == 5 * 254
            cs = []
            for c in range(1, 255):
                r = res[5 * (c - 1):5 * c]
                cs.append(r[0] == tt.z(env, c))
                for v in od:
                    i = xx.index(v)
                    if tt.cof(c, i, 0) != tt.cof(c, i, 1):
                        cs += [r[1] == tt.z(env, tt.cof(c, i, 1)), r[2] == tt.z(env, tt.cof(c, i, 0))]
                        break
                cs += [r[3], r[4]]
            return z3.And(*cs)
        out.append(Case("top_cofactor_o%d" % oi, xx, expr, check, pre=PRE, order=od, functional=False, concrete=False))
    return out
