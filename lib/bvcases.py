"""Cases for the two bit-vector libraries (bv over BDDs, bev over bexprs)."""
import z3
from flsym import Case, vec, flist, interleave, U, S, b2bv

class Lib:
    def __init__(self, p):
        self.p = p                      # "bv" / "bev"
        self.kind = "bool" if p == "bv" else "bexpr"
        self.T, self.F = ("T", "F") if p == "bv" else ("bT", "bF")
    def of(self, names):
        return "(list2%s %s)" % (self.p, flist(names))
    def lst(self, e):
        return "%s2list (%s)" % (self.p, e)

def floor_div(a, b):
    q = a / b          # z3 signed division truncates
    r = z3.SRem(a, b)
    return z3.If(z3.And(r != 0, (r < 0) != (b < 0)), q - 1, q)
def floor_mod(a, b):
    r = z3.SRem(a, b)
    return z3.If(z3.And(r != 0, (r < 0) != (b < 0)), r + b, r)

def value_case(L, name, vecs, expr, spec, W, assume=None, **kw):
    """result vector, read as a signed number, equals spec(values)"""
    names = [v for vs in vecs for v in vs]
    def check(env, res):
        assert len(res) > 0, "empty vector"
        w = max(W, len(res) + 1)
        return S(res, w) == spec(*[S([env[v] for v in vs], w) for vs in vecs])
    a = None
    if assume is not None:
        a = lambda env: assume(*[S([env[v] for v in vs], W) for vs in vecs])
    return Case(name, names, L.lst(expr), check, kind=L.kind, order=interleave(*vecs), assume=a, **kw)

def pred_case(L, name, vecs, expr, spec, W, **kw):
    names = [v for vs in vecs for v in vs]
    def check(env, res):
        assert len(res) == 1
        return res[0] == spec(*[S([env[v] for v in vs], W) for vs in vecs])
    return Case(name, names, "[%s]" % expr, check, kind=L.kind, order=interleave(*vecs), **kw)

def bin_ops(L, n, m, mulmax):
    p = L.p
    a, b = vec("a", n), vec("b", m)
    A, B = L.of(a), L.of(b)
    W = n + m + 4
    out = []
    def bop(nm, spec, assume=None, **kw):
        out.append(value_case(L, "%s_%s_%dx%d" % (p, nm, n, m), [a, b], "%s_%s %s %s" % (p, nm, A, B), spec, W, assume, **kw))
    bop("add", lambda x, y: x + y)
    bop("sub", lambda x, y: x - y)
    bop("AND", lambda x, y: x & y)
    bop("OR", lambda x, y: x | y)
    bop("XOR", lambda x, y: x ^ y)
    bop("XNOR", lambda x, y: ~(x ^ y))
    if n + m <= mulmax:
        bop("mul", lambda x, y: x * y)
        nz = lambda x, y: y != 0
        bop("div", floor_div, nz)
        bop("mod", floor_mod, nz)
    for nm, sp in (("less", lambda x, y: x < y), ("leq", lambda x, y: x <= y), ("greater", lambda x, y: x > y),
                   ("geq", lambda x, y: x >= y), ("eq", lambda x, y: x == y), ("neq", lambda x, y: x != y)):
        out.append(pred_case(L, "%s_%s_%dx%d" % (p, nm, n, m), [a, b], "%s_%s %s %s" % (p, nm, A, B), sp, W))
    # arguments that share variables: x op x, x op (NOT x), x op const
    return out

def shared_ops(L, n, consts, mulmax):
    """one operand is a fixed number (both orders), or the same vector"""
    p = L.p
    a = vec("a", n)
    A = L.of(a)
    out = []
    W = 2 * n + 14
    for k in consts:
        K = "(int2%s (%d))" % (p, k)
        kn = ("m%d" % -k) if k < 0 else str(k)
        def bop(nm, spec, rspec=None, assume=None, rassume=None):
            out.append(value_case(L, "%s_%s_%dxK%s" % (p, nm, n, kn), [a], "%s_%s %s %s" % (p, nm, A, K), spec, W, assume))
            if rspec is not None:
                out.append(value_case(L, "%s_%s_K%sx%d" % (p, nm, kn, n), [a], "%s_%s %s %s" % (p, nm, K, A), rspec, W, rassume))
        bop("add", lambda x, k=k: x + k, lambda x, k=k: k + x)
        bop("sub", lambda x, k=k: x - k, lambda x, k=k: k - x)
        bop("mul", lambda x, k=k: x * k, lambda x, k=k: k * x)
        nz = lambda x: x != 0
        if k != 0:
            bop("div", lambda x, k=k: floor_div(x, z3.BitVecVal(k, x.size())), lambda x, k=k: floor_div(z3.BitVecVal(k, x.size()), x), None, nz)
            bop("mod", lambda x, k=k: floor_mod(x, z3.BitVecVal(k, x.size())), lambda x, k=k: floor_mod(z3.BitVecVal(k, x.size()), x), None, nz)
        for nm, sp in (("less", lambda x, k=k: x < k), ("eq", lambda x, k=k: x == k), ("geq", lambda x, k=k: x >= k)):
            out.append(pred_case(L, "%s_%s_%dxK%s" % (p, nm, n, kn), [a], "%s_%s %s %s" % (p, nm, A, K), sp, W))
    for nm, sp in (("add", lambda x: x + x), ("sub", lambda x: x - x), ("mul", lambda x: x * x), ("XOR", lambda x: x ^ x)):
        if nm == "mul" and 2 * n > mulmax + 2:
            continue
        out.append(value_case(L, "%s_%s_same%d" % (p, nm, n), [a], "let x = %s in %s_%s x x" % (A, p, nm), sp, W))
    return out

def unary_ops(L, n):
    p = L.p
    a = vec("a", n)
    A = L.of(a)
    W = n + 4
    out = [
        value_case(L, "%s_roundtrip_%d" % (p, n), [a], A, lambda x: x, W),
        value_case(L, "%s_NOT_%d" % (p, n), [a], "%s_NOT %s" % (p, A), lambda x: ~x, W),
        value_case(L, "%s_neg_%d" % (p, n), [a], "%s_neg %s" % (p, A), lambda x: -x, W),
    ]
    nm = "%s_ZX_%d" % (p, n)
    def zx(env, res, a=a, n=n):
        w = max(n, len(res)) + 2
        return S(res, w) == U([env[v] for v in a], w)
    # ZX reinterprets the bits of the *canonical* (trimmed) vector, so state it on a vector whose
    # top two bits differ (no redundant sign bits) and on numbers >= 0
    if n >= 2:
        out.append(Case(nm, a, L.lst("%s_ZX %s" % (p, A)), zx, kind=L.kind,
                        assume=lambda env, a=a: z3.Or(env[a[0]] != env[a[1]], z3.Not(env[a[0]]))))
    for s in range(0, n + 2):
        out.append(value_case(L, "%s_ashr_%d_by%d" % (p, n, s), [a], "%s_ashr %s %d" % (p, A, s), lambda x, s=s: x >> s, W))
    # canonical form: no representation with a redundant sign bit that is equal for all inputs
    return out

def int_ops(L, ks):
    """int -> vector -> int on constants; decided trivially, but the symbolic part is in add/sub with constants"""
    out = []
    for k in ks:
        kn = ("m%d" % -k) if k < 0 else str(k)
        W = max(8, k.bit_length() + 6)
        out.append(value_case(L, "int2%s_%s" % (L.p, kn), [], "int2%s (%d)" % (L.p, k), lambda k=k, W=W: z3.BitVecVal(k, W), W))
        out[-1].check = (lambda env, res, k=k, W=W: S(res, max(W, len(res) + 1)) == z3.BitVecVal(k, max(W, len(res) + 1)))
        out.append(Case("%s2int_%s" % (L.p, kn), [], "[%s2int (int2%s (%d)) = (%d) => %s | %s]" % (L.p, L.p, k, k, L.T, L.F),
                        lambda env, res: res[0], kind=L.kind))
    return out

def pow_ops(L, n, m):
    p = L.p
    a, b = vec("a", n), vec("b", m)
    A, B = L.of(a), L.of(b)
    top = 2 ** (m - 1) - 1 if m > 1 else 0
    W = max(8, n * max(1, top) + 4, n + top + 4)
    def power(x, y):
        r = z3.BitVecVal(1, x.size())
        for k in range(1, top + 1):
            e = z3.BitVecVal(1, x.size())
            for _ in range(k):
                e = e * x
            r = z3.If(y == k, e, r)
        return r
    amt = lambda y: z3.If(y < 0, z3.BitVecVal(0, y.size()), y)
    out = []
    if n * max(1, top) <= 16:
        out.append(value_case(L, "%s_pow_%d_%d" % (p, n, m), [a, b], "%s_pow %s %s" % (p, A, B), power, W))
    out.append(value_case(L, "%s_shl_%d_%d" % (p, n, m), [a, b], "%s_shl %s %s" % (p, A, B), lambda x, y: x << amt(y), W))
    other = "bv_ashr_bvbv" if p == "bv" else "bev_ashr_bevbev"
    out.append(value_case(L, "%s_ashrv_%d_%d" % (p, n, m), [a, b], "%s %s %s" % (other, A, B), lambda x, y: x >> amt(y), W))
    if n >= 2:
        def shr(env, res):
            w = max(W, len(res) + 2)
            y = S([env[v] for v in b], w)
            return S(res, w) == z3.LShR(U([env[v] for v in a], w), amt(y))
        out.append(Case("%s_shr_%d_%d" % (p, n, m), a + b, L.lst("%s_shr %s %s" % (p, A, B)), shr, kind=L.kind, order=interleave(a, b),
                        assume=lambda env: z3.Or(env[a[0]] != env[a[1]], z3.Not(env[a[0]]))))
    return out
