"""The cells of the Verilog import (IDVII/src/fl/design/yosys_lib.fl): each cell is built,
compiled and simulated by the real code; the reference is the meaning that Yosys gives the cell."""
import z3, random
from flsym import flist
from hflcases import hfl_case, ite, one, b1, ext, slic, BV, Tr, Fa, q
from stecases import bitname
PRE_ = 'load "ste.fl";'

def vn(n, w): return n if w == 1 else "%s[%d:0]" % (n, w - 1)
def vl(*l): return flist([q(x) for x in l])

def ycase(name, ins, outs, cells, spec, T=1, kind="bool", ints=(), obs_from=0):
    """cells: fl expressions of pexlifs; ins/outs/ints: [(name,width)]"""
    fa = lambda l: flist(['(%s,%s)' % (q(vn(n, w)), vl(vn(n, w))) for n, w in l])
    top = 'yosys_PINST "top" [] F %s %s %s (P_HIER %s)' % (fa(ins), fa(outs), vl(*[vn(n, w) if not isinstance(w, str) else w for n, w in ints]), flist(["(%s)" % x for x in cells]))
    return hfl_case("y_" + name, "id", "(%s)" % top, ins, outs, spec, T=T, kind=kind, obs_from=obs_from)

def S(n, w): return vl(vn(n, w))
def c(cell, *a): return "%s %s" % (cell, " ".join(str(x) for x in a))

ALU = {"_add": lambda a, b: a + b, "_sub": lambda a, b: a - b, "_mul": lambda a, b: a * b, "_and": lambda a, b: a & b, "_or": lambda a, b: a | b,
       "_xor": lambda a, b: a ^ b, "_xnor": lambda a, b: ~(a ^ b), "_shl": lambda a, b: a << b, "_sshl": lambda a, b: a << b, "_div": z3.UDiv, "_mod": z3.URem}
CMP = {"_eq": lambda a, b: a == b, "_eqx": lambda a, b: a == b, "_ne": lambda a, b: a != b, "_gt": z3.UGT, "_ge": z3.UGE, "_lt": z3.ULT, "_le": z3.ULE}

def operand(rng, w, n):
    """an operand of w bits: plain, extended, constant, or a mixture; returns (ins, fl list, sem)"""
    k = rng.randrange(5)
    if k == 0 and w > 1:
        u = rng.randint(1, w - 1)
        sg = rng.random() < .5
        return [(n, u)], "(_%sExt %d %s)" % ("Sign" if sg else "Zero", w, S(n, u)), lambda h, t: ext(h[n][t], w, sg)
    if k == 1:
        v = rng.randrange(1 << w)
        return [], vl("0b" + bin(v)[2:].zfill(w)), lambda h, t: BV(v, w)
    if k == 2 and w > 1:
        u = rng.randint(1, w - 1)
        v = rng.randrange(1 << (w - u))
        if rng.random() < .5:
            return [(n, u)], vl(vn(n, u), "0b" + bin(v)[2:].zfill(w - u)), lambda h, t: z3.Concat(h[n][t], BV(v, w - u))
        return [(n, u)], vl("0b" + bin(v)[2:].zfill(w - u), vn(n, u)), lambda h, t: z3.Concat(BV(v, w - u), h[n][t])
    if k == 3 and w > 1:
        p = [rng.randrange(w) for _ in range(w)]
        return [(n, w)], vl(*["%s[%d]" % (n, i) for i in p]), lambda h, t: slic(h[n][t], p)
    return [(n, w)], S(n, w), lambda h, t: h[n][t]

def comb_cases(rng, k, plain=True, reps=1):
    r = []
    op = lambda w, n: ([(n, w)], S(n, w), lambda h, t: h[n][t]) if plain else operand(rng, w, n)
    tag = lambda s: "%s_%s%s" % (s, k, "" if plain else "_%d" % len(r))
    def two(wa, wb=None):
        while True:
            a, b = op(wa, "a"), op(wb or wa, "b")
            if a[0] or b[0]: return a, b
    for _ in range(reps):
        for f, sem in ALU.items():
            for w in (1, 2, 3, 4) if plain else (rng.randint(1, 4),):
                if w == 4 and f in ("_mul", "_div", "_mod"): continue
                a, b = two(w)
                def spec(h, t, a=a, b=b, sem=sem, f=f):
                    x, y = a[2](h, t), b[2](h, t)
                    return {"y": (sem(x, y), Tr, y != 0 if f in ("_div", "_mod") else Tr)}
                r.append(ycase(tag("%s%d" % (f, w)), a[0] + b[0], [("y", w)], [c(f, w, q(""), S("y", w), a[1], b[1])], spec, kind=k))
        for f, sem in CMP.items():
            for w in (1, 2, 4) if plain else (rng.randint(1, 4),):
                a, b = two(w)
                r.append(ycase(tag("%s%d" % (f, w)), a[0] + b[0], [("y", 1)], [c(f, w, q(""), S("y", 1), a[1], b[1])],
                               lambda h, t, a=a, b=b, sem=sem: {"y": b1(sem(a[2](h, t), b[2](h, t)))}, kind=k))
        for f, sem in (("_land", lambda x, y: z3.And(x != 0, y != 0)), ("_lor", lambda x, y: z3.Or(x != 0, y != 0))):
            for w in (1, 2, 3) if plain else (rng.randint(1, 3),):
                a, b = two(w)
                r.append(ycase(tag("%s%d" % (f, w)), a[0] + b[0], [("y", 1)], [c(f, w, q(""), S("y", 1), a[1], b[1])],
                               lambda h, t, a=a, b=b, sem=sem: {"y": b1(sem(a[2](h, t), b[2](h, t)))}, kind=k))
        for f, ow, sem in (("_not", None, lambda x: ~x), ("_neg", None, lambda x: -x), ("_buf", None, lambda x: x), ("_logic_not", 1, lambda x: b1(x == 0)),
                           ("_logic_reduce_bool", 1, lambda x: b1(x != 0)), ("_logic_reduce_or", 1, lambda x: b1(x != 0)), ("_logic_reduce_and", 1, lambda x: b1(x == -1))):
            for w in (1, 2, 4) if plain else (rng.randint(1, 4),):
                a = two(w)[0]
                if not a[0]: continue
                r.append(ycase(tag("%s%d" % (f, w)), a[0], [("y", ow or w)], [c(f, w, q(""), S("y", ow or w), a[1])],
                               lambda h, t, a=a, sem=sem: {"y": sem(a[2](h, t))}, kind=k))
        for f, ar in (("_shr", False), ("_ashr", True)):
            for w, wb in ((1, 1), (2, 1), (3, 2), (4, 2), (4, 3), (4, 4), (2, 3), (1, 2)) if plain else ((4, 2), (3, 2)):
                a, b = two(w, wb)
                def spec(h, t, a=a, b=b, ar=ar, w=w, wb=wb):
                    m = max(w, wb) + 1
                    x, y = ext(a[2](h, t), m, ar), ext(b[2](h, t), m, False)
                    return {"y": z3.Extract(w - 1, 0, x >> y if ar else z3.LShR(x, y))}
                r.append(ycase(tag("%s%d_%d" % (f, w, wb)), a[0] + b[0], [("y", w)], [c(f, w, w, wb, q(""), S("y", w), a[1], b[1])], spec, kind=k))
        for w in (1, 3) if plain else (2,):
            a, b = two(w)
            r.append(ycase(tag("_mux%d" % w), a[0] + b[0] + [("s", 1)], [("y", w)], [c("_mux", w, q(""), S("y", w), a[1], b[1], S("s", 1))],
                           lambda h, t, a=a, b=b: {"y": z3.If(one(h["s"][t]), b[2](h, t), a[2](h, t))}, kind=k))
        for f in ("_pmux", "_base_pmux"):
            for w, n in ((1, 2), (2, 2), (2, 3), (1, 3), (3, 1)) if plain else ((2, 2), (1, 3)):
                a, b = two(w, w * n)
                sl = S("s", n) if f == "_base_pmux" else vl(*(["s[%d]" % i for i in range(n - 1, -1, -1)] if n > 1 else ["s"]))
                def spec(h, t, a=a, b=b, w=w, n=n):
                    s, bv, v = h["s"][t], b[2](h, t), a[2](h, t)
                    cnt = sum([ext(slic(s, [i]), 4, False) for i in range(n)], BV(0, 4))
                    for i in range(n):
                        v = z3.If(slic(s, [i]) == 1, z3.Extract(w * (i + 1) - 1, w * i, bv), v)
                    return {"y": (v, Tr, z3.ULE(cnt, 1))}
                r.append(ycase(tag("%s_%d_%d" % (f, w, n)), a[0] + b[0] + [("s", n)], [("y", w)], [c(f, w, n, q(""), S("y", w), a[1], b[1], sl)], spec, kind=k))
    return r

def pmux_const(rng, k, n_):
    """the special forms with constant default and constant alternatives, possibly with don't-cares"""
    r = []
    for j in range(n_):
        w, n = rng.randint(1, 4), rng.randint(1, 3)
        bits = lambda m: "".join(rng.choice("01" if rng.random() < .7 else "01x") for _ in range(m))
        A, B = bits(w), bits(w * n)
        def cv(s): return (BV(int(s.replace("x", "0"), 2), len(s)), s)
        sl = vl(*(["s[%d]" % i for i in range(n - 1, -1, -1)] if n > 1 else ["s"]))
        for x in range(w):
            pass
        def spec(h, t, A=A, B=B, w=w, n=n):
            # one output per bit, so that unknown bits can be told apart
            out = {}
            s = h["s"][t]
            cnt = sum([ext(slic(s, [i]), 4, False) for i in range(n)], BV(0, 4))
            for i in range(w):
                bit = lambda st: (BV(int(st == "1"), 1), z3.BoolVal(st != "x"))
                v = bit(A[w - 1 - i])
                for m in range(n):
                    word = B[w * (n - 1 - m): w * (n - m)]
                    v = ite(slic(s, [m]) == 1, bit(word[w - 1 - i]), v)
                out["y%d" % i] = (v[0], v[1], z3.ULE(cnt, 1))
            return out
        ys = [("y%d" % i, 1) for i in range(w)]
        r.append(ycase("_pmux_const%d_%s" % (j, k), [("s", n)], ys, [c("_pmux", w, n, q(""), vl(*["y%d" % i for i in range(w - 1, -1, -1)]), vl("0b" + A), vl("0b" + B), sl)], spec, kind=k))
    return r

# ---- storage: data and synchronous controls are sampled in the phase before the edge
def ff(h, t, w, pclk=True, d="d", en=None, ar=None, sr=None, rv=0, ce_over=False, srs=None, al=None):
    qv = (BV(0, w), Fa)
    on = lambda x, i, p: (h[x][i] == 1) if p else (h[x][i] == 0)
    R = (BV(rv, w), Tr)
    for i in range(t + 1):
        if i:
            a, b = one(h["clk"][i - 1]), one(h["clk"][i])
            edge = z3.And(z3.Not(a), b) if pclk else z3.And(a, z3.Not(b))
            v = (h[d][i - 1], Tr)
            if en and not ce_over: v = ite(on(en[0], i - 1, en[1]), v, qv)
            if sr: v = ite(on(sr[0], i - 1, sr[1]), R, v)
            if en and ce_over: v = ite(on(en[0], i - 1, en[1]), v, qv)
            qv = ite(edge, v, qv)
        if ar: qv = ite(on(ar[0], i, ar[1]), R, qv)
        if al: qv = ite(on(al[0], i, al[1]), (h["ad"][i], Tr), qv)
    return {"q": qv}

def dffsr(h, t, w, pclk, pset, pclr, pen=None):
    """per bit outputs q0..; clear wins over set, both are asynchronous levels"""
    out = {}
    for j in range(w):
        b = lambda x, i: slic(h[x][i], [j])
        qv = (BV(0, 1), Fa)
        for i in range(t + 1):
            if i:
                x, y = one(h["clk"][i - 1]), one(h["clk"][i])
                edge = z3.And(z3.Not(x), y) if pclk else z3.And(x, z3.Not(y))
                v = (b("d", i - 1), Tr)
                if pen is not None: v = ite((h["en"][i - 1] == 1) if pen else (h["en"][i - 1] == 0), v, qv)
                qv = ite(edge, v, qv)
            st = (b("set", i) == 1) if pset else (b("set", i) == 0)
            cl = (b("clr", i) == 1) if pclr else (b("clr", i) == 0)
            qv = ite(cl, (BV(0, 1), Tr), ite(st, (BV(1, 1), Tr), qv))
        out["q%d" % j] = qv
    return out

def ff_cases(rng, k, T=4, full=False):
    r = []
    B = lambda p: "T" if p else "F"
    pols = lambda n: [[(m >> i) & 1 == 1 for i in range(n)] for m in range(1 << n)] if full else [[True] * n, [False] * n] + [[rng.random() < .5 for _ in range(n)] for _ in range(2)]
    w = 2
    Q, D, CLK, EN, AR, SR = S("q", w), S("d", w), S("clk", 1), S("en", 1), S("ar", 1), S("sr", 1)
    I = lambda *x: [("clk", 1)] + [(y, 1) for y in x] + [("d", w)]
    rvs = [("10", 2), ("01", 1), ("00", 0), ("11", 3)]
    r.append(ycase("_dff_%s" % k, I(), [("q", w)], [c("_dff", w, q(""), Q, CLK, D)], lambda h, t: ff(h, t, w), T=T, kind=k))
    for p in (True, False):
        def lat(h, t, p=p):
            v = (BV(0, w), Fa)
            for i in range(t + 1):
                v = ite((h["en"][i] == 1) if p else (h["en"][i] == 0), (h["d"][i], Tr), v)
            return {"q": v}
        r.append(ycase("_dlatch_%s_%s" % (B(p), k), [("en", 1), ("d", w)], [("q", w)], [c("_dlatch", B(p), w, q(""), Q, EN, D)], lat, T=T, kind=k))
    seen = set()
    def add(nm, *a, **kw):
        if nm not in seen:
            seen.add(nm)
            r.append(ycase(nm, *a, **kw))
    for pe, pa in pols(2):
        s, rv = rng.choice(rvs)
        def al(h, t, pe=pe, pa=pa, rv=rv):
            v = (BV(0, w), Fa)
            for i in range(t + 1):
                v = ite((h["en"][i] == 1) if pe else (h["en"][i] == 0), (h["d"][i], Tr), v)
                v = ite((h["ar"][i] == 1) if pa else (h["ar"][i] == 0), (BV(rv, w), Tr), v)
            return {"q": v}
        add("_adlatch_%s%s_%s" % (B(pe), B(pa), k), [("en", 1), ("ar", 1), ("d", w)], [("q", w)], [c("_adlatch", B(pe), B(pa), q(s), w, q(""), Q, EN, AR, D)], al, T=T, kind=k)
        add("_aldff_%s%s_%s" % (B(pe), B(pa), k), I("ld") + [("ad", w)], [("q", w)], [c("_aldff", B(pe), B(pa), w, q(""), Q, S("ld", 1), S("ad", w), CLK, D)],
            lambda h, t, pe=pe, pa=pa: ff(h, t, w, pclk=pe, al=("ld", pa)), T=T, kind=k)
        add("_adff_%s%s_%s" % (B(pe), B(pa), k), I("ar"), [("q", w)], [c("_adff", B(pe), B(pa), q(s), w, q(""), Q, AR, CLK, D)],
            lambda h, t, pe=pe, pa=pa, rv=rv: ff(h, t, w, pclk=pe, ar=("ar", pa), rv=rv), T=T, kind=k)
        add("_sdff_%s%s_%s" % (B(pe), B(pa), k), I("sr"), [("q", w)], [c("_sdff", B(pe), B(pa), q(s), w, q(""), Q, SR, CLK, D)],
            lambda h, t, pe=pe, pa=pa, rv=rv: ff(h, t, w, pclk=pe, sr=("sr", pa), rv=rv), T=T, kind=k)
        add("_dffe_%s%s_%s" % (B(pe), B(pa), k), I("en"), [("q", w)], [c("_dffe", B(pe), B(pa), w, q(""), Q, EN, CLK, D)],
            lambda h, t, pe=pe, pa=pa: ff(h, t, w, pclk=pe, en=("en", pa)), T=T, kind=k)
    for pc, pe, pr in pols(3):
        s, rv = rng.choice(rvs)
        n3 = B(pc) + B(pe) + B(pr)
        add("_adffe_%s_%s" % (n3, k), I("en", "ar"), [("q", w)], [c("_adffe", B(pc), B(pe), B(pr), q(s), w, q(""), Q, AR, EN, CLK, D)],
            lambda h, t, pc=pc, pe=pe, pr=pr, rv=rv: ff(h, t, w, pclk=pc, en=("en", pe), ar=("ar", pr), rv=rv), T=T, kind=k)
        add("_sdffe_%s_%s" % (n3, k), I("en", "sr"), [("q", w)], [c("_sdffe", B(pc), B(pe), B(pr), q(s), w, q(""), Q, SR, EN, CLK, D)],
            lambda h, t, pc=pc, pe=pe, pr=pr, rv=rv: ff(h, t, w, pclk=pc, en=("en", pe), sr=("sr", pr), rv=rv), T=T, kind=k)
        add("_sdffce_%s_%s" % (n3, k), I("en", "sr"), [("q", w)], [c("_sdffce", B(pc), B(pe), B(pr), q(s), w, q(""), Q, SR, EN, CLK, D)],
            lambda h, t, pc=pc, pe=pe, pr=pr, rv=rv: ff(h, t, w, pclk=pc, en=("en", pe), sr=("sr", pr), rv=rv, ce_over=True), T=T, kind=k)
        qs = [("q0", 1), ("q1", 1)]
        add("_dffsr_%s_%s" % (n3, k), [("clk", 1), ("clr", 2), ("set", 2), ("d", 2)], qs, [c("_dffsr", B(pc), B(pe), B(pr), w, q(""), vl("q1", "q0"), S("clr", 2), S("set", 2), CLK, D)],
            lambda h, t, pc=pc, pe=pe, pr=pr: dffsr(h, t, w, pc, pe, pr), T=T, kind=k)
        add("_dffsre_%s_%s" % (n3, k), [("clk", 1), ("en", 1), ("clr", 2), ("set", 2), ("d", 2)], qs,
            [c("_dffsre", B(pc), B(pe), B(pr), B(pc ^ pr), w, q(""), vl("q1", "q0"), S("clr", 2), S("set", 2), EN, CLK, D)],
            lambda h, t, pc=pc, pe=pe, pr=pr: dffsr(h, t, w, pc, pe, pr, pc ^ pr), T=T, kind=k)
    return r

def mem_cases(k, T=3):
    r = []
    for lines, ab, w in ((4, 2, 2), (3, 2, 1), (2, 1, 2), (4, 2, 1)):
        mem = "m[%d:0][%d:0]" % (lines - 1, w - 1)      # yosys memories always have both dimensions
        def hist(h, t, lines=lines, ab=ab, w=w):
            m = [[(BV(0, 1), Fa)] * w for _ in range(lines)]
            for i in range(t + 1):
                for a in range(lines):
                    m[a] = [ite(z3.And(h["wa"][i] == BV(a, ab), slic(h["en"][i], [j]) == 1), (slic(h["wd"][i], [j]), Tr), m[a][j]) for j in range(w)]
            out = {}
            for j in range(w):
                v = (BV(0, 1), Fa)
                for a in range(lines):
                    v = ite(h["ra"][t] == BV(a, ab), m[a][j], v)
                ok = z3.And([z3.ULT(z3.ZeroExt(2, h["wa"][i]), lines) for i in range(t + 1)] + [z3.ULT(z3.ZeroExt(2, h["ra"][t]), lines)])
                out["q%d" % j] = (v[0], v[1], z3.And(ok, v[1]))
            return out
        qs = [("q%d" % j, 1) for j in range(w)]
        for wr in ("_memwr", "_memwr_v2"):
            r.append(ycase("%s_%d_%d_%s" % (wr, lines, w, k), [("en", w), ("wa", ab), ("wd", w), ("ra", ab)], qs,
                           [c(wr, q(""), w, ab, q(mem), S("en", w), S("wa", ab), S("wd", w)),
                            c("_memrd", q(""), w, ab, q(mem), vl("0b1"), S("ra", ab), vl(*["q%d" % j for j in reversed(range(w))]))],
                           hist, T=T, kind=k, ints=[("m", mem)]))
        rng = random.Random(lines * 10 + w)
        v = rng.randrange(1 << (lines * w))
        r.append(ycase("_meminit_%d_%d_%s" % (lines, w, k), [("ra", ab)], [("y", w)],
                       [c("_meminit", q(""), w, ab, q(mem), vl("0b" + bin(v)[2:].zfill(lines * w))), c("_memrd", q(""), w, ab, q(mem), vl("0b1"), S("ra", ab), S("y", w))],
                       lambda h, t, v=v, lines=lines, ab=ab, w=w: {"y": (z3.Extract(w - 1, 0, z3.LShR(BV(v, 16), z3.ZeroExt(16 - ab, h["ra"][t]) * w)), Tr, z3.ULT(z3.ZeroExt(2, h["ra"][t]), lines))},
                       kind=k, ints=[("m", mem)]))
    return r
