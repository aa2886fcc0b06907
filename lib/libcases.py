"""Cases for the fl arithmetic libraries (gen_arithm / gen_u_arithm instances),
unary.fl and symbolic_lists.fl"""
import z3
from flsym import Case, vec, flist, interleave, U, S
from bvcases import floor_div

def fixed_case(name, lib, kind, vecs, expr, spec, n, signed, pred=False, assume=None, **kw):
    names = [v for vs in vecs for v in vs]
    rd = S if signed else U
    def vals(env, w):
        return [rd([env[v] for v in vs], w) for vs in vecs]
    def check(env, res):
        if pred:
            assert len(res) == 1
            return res[0] == spec(*vals(env, 2 * n + 4))
        assert len(res) == n, "fixed-size result has %d bits, not %d" % (len(res), n)
        t = spec(*vals(env, 2 * n + 4))
        return U(res, n) == z3.Extract(n - 1, 0, t)
    a = (lambda env: assume(*vals(env, 2 * n + 4))) if assume else None
    return Case(name, names, ("[%s]" if pred else "%s") % expr, check, kind=kind, order=interleave(*vecs), load=lib, assume=a, **kw)

def dyn_case(name, lib, kind, vecs, expr, spec, W, pred=False, assume=None, signed=True, **kw):
    S = globals()["S"] if signed else U
    names = [v for vs in vecs for v in vs]
    def check(env, res):
        if pred:
            assert len(res) == 1
            return res[0] == spec(*[S([env[v] for v in vs], W) for vs in vecs])
        assert len(res) > 0
        w = max(W, len(res) + 1)
        return S(res, w) == spec(*[S([env[v] for v in vs], w) for vs in vecs])
    a = (lambda env: assume(*[S([env[v] for v in vs], W) for vs in vecs])) if assume else None
    return Case(name, names, ("[%s]" if pred else "%s") % expr, check, kind=kind, order=interleave(*vecs), load=lib, assume=a, **kw)

def arith(lib, kind, signed, n, mul=True):
    p = lib.split(".")[0]
    a, b = vec("a", n), vec("b", n)
    A, B = flist(a), flist(b)
    out = []
    def f(nm, spec, op=None, **kw):
        out.append(fixed_case("%s_%s_%d" % (p, nm, n), lib, kind, [a, b], "(%s %s %s)" % (nm, A, B) if op is None else "(%s %s %s)" % (A, op, B), spec, n, signed, **kw))
    f("fbvadd", lambda x, y: x + y)
    f("fbvsub", lambda x, y: x - y)
    if mul:
        f("fbvmult", lambda x, y: x * y)
        nonneg = (lambda x, y: z3.And(x >= 0, y > 0)) if signed else (lambda x, y: y > 0)
        f("fbvdiv", lambda x, y: z3.UDiv(x, y), assume=nonneg)
        f("fbvmod", lambda x, y: z3.URem(x, y), assume=nonneg)
        for k in (1, 2, 3, 4, 5):
            if k < (1 << (n - 1)):
                out.append(fixed_case("%s_fbvmult_%dxK%d" % (p, n, k), lib, kind, [a], "(fbvmult %s (int2fbv %d %d))" % (A, n, k), lambda x, k=k: x * k, n, signed))
                out.append(fixed_case("%s_fbvdiv_%dxK%d" % (p, n, k), lib, kind, [a], "(fbvdiv %s (int2fbv %d %d))" % (A, n, k), lambda x, k=k: z3.UDiv(x, z3.BitVecVal(k, x.size())), n, signed, assume=lambda x: x >= 0))
    f("fbvgAND", lambda x, y: x & y)
    f("fbvgOR", lambda x, y: x | y)
    f("fbvgXOR", lambda x, y: x ^ y)
    lt = (lambda x, y: x < y)
    f("fbvless", lambda x, y: x < y, pred=True)
    f("fbvleq", lambda x, y: x <= y, pred=True)
    f("fbvgreater", lambda x, y: x > y, pred=True)
    f("fbvgeq", lambda x, y: x >= y, pred=True)
    f("fbveq", lambda x, y: x == y, pred=True)
    f("fbvneq", lambda x, y: x != y, pred=True)
    out.append(fixed_case("%s_fbvnot_%d" % (p, n), lib, kind, [a], "(map gNOT %s)" % A, lambda x: ~x, n, signed))
    out.append(fixed_case("%s_iszero_%d" % (p, n), lib, kind, [a], "(fbv_is_zero %s)" % A, lambda x: x == 0, n, signed, pred=True))
    s = ["s"]
    c = Case("%s_fbvMUX_%d" % (p, n), s + a + b, "fbvMUX s %s %s" % (A, B),
             lambda env, res: z3.And(len(res) == n, *[r == z3.If(env["s"], env[x], env[y]) for r, x, y in zip(res, a, b)]), kind=kind, load=lib)
    out.append(c)
    if signed:
        out.append(fixed_case("%s_fbvnegate_%d" % (p, n), lib, kind, [a], "(fbvnegate %s)" % A, lambda x: -x, n, signed))
    if n >= 3:
        nn = lambda x, y: y >= 0
        for nm, op, spec in (("shl", "'<<'", lambda x, y: x << y), ("shr", "'>>'", lambda x, y: z3.LShR(z3.ZeroExt(n + 4, z3.Extract(n - 1, 0, x)), y)),
                             ("ashr", "'|>>'", (lambda x, y: x >> y) if signed else (lambda x, y: z3.SignExt(n + 4, z3.Extract(n - 1, 0, x)) >> y))):
            f("op_" + nm, spec, op=op, assume=nn)
    for k in range(0, min(1 << (n - 1), 9)):
        out.append(fixed_case("%s_int2fbv_%d_%d" % (p, n, k), lib, kind, [], "(int2fbv %d %d)" % (n, k), lambda k=k: z3.BitVecVal(k, 2 * n + 4), n, signed))
    return out

def dyn(lib, kind, n, m, mul, signed=True):
    p = lib.split(".")[0]
    a, b = vec("a", n), vec("b", m)
    A, B = flist(a), flist(b)
    W = n + m + 4
    out = []
    def d(nm, spec, **kw):
        out.append(dyn_case("%s_%s_%dx%d" % (p, nm, n, m), lib, kind, [a, b], "(%s %s %s)" % (nm, A, B), spec, W, signed=signed, **kw))
    d("dbvadd", lambda x, y: x + y)
    d("dbvsub", lambda x, y: x - y, **({} if signed else dict(assume=lambda x, y: z3.UGE(x, y))))
    if mul:
        d("dbvmult", lambda x, y: x * y)
        pos = lambda x, y: z3.And(x >= 0, y > 0)
        d("dbvdiv", lambda x, y: z3.UDiv(x, y), assume=pos)
        d("dbvmod", lambda x, y: z3.URem(x, y), assume=pos)
    d("dbvgAND", lambda x, y: x & y)
    d("dbvgOR", lambda x, y: x | y)
    d("dbvgXOR", lambda x, y: x ^ y)
    d("dbvless", lambda x, y: x < y, pred=True)
    d("dbvleq", lambda x, y: x <= y, pred=True)
    d("dbvgreater", lambda x, y: x > y, pred=True)
    d("dbvgeq", lambda x, y: x >= y, pred=True)
    d("dbveq", lambda x, y: x == y, pred=True)
    d("dbvneq", lambda x, y: x != y, pred=True)
    if not signed:
        return out
    out.append(dyn_case("%s_dbvnegate_%d" % (p, n), lib, kind, [a], "(dbvnegate %s)" % A, lambda x: -x, W))
    out.append(dyn_case("%s_dbvgNOT_%d" % (p, n), lib, kind, [a], "(dbvgNOT %s)" % A, lambda x: ~x, W))
    return out
