"""HFL (IDVII/src/fl/design/hfl.fl): circuits described with the embedded hardware
language are built, compiled and simulated by the real code on symbolic inputs;
the reference is the documented meaning of the operators and components over z3."""
import os, z3, random
from flsym import Case, flist
from stecases import Pick, tuples, tr, q, bits_of, bitname

PRE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "hfl_prelude.fl")
UNS = {"bit": 1, "u2": 2, "u3": 3, "u4": 4, "u6": 6, "u8": 8}
SIG = {"s2": 2, "s3": 3, "s4": 4, "s6": 6}
W = dict(UNS, **SIG)
W.update(op2=2, st4=4, pr=8, ov=8, m3=9, m22=12)
FIELDS = {"pr": {"hi": ("u4", [7, 6, 5, 4]), "lo": ("s3", [3, 2, 1]), "fl": ("bit", [0])},
          "ov": {"all": ("u8", [7, 6, 5, 4, 3, 2, 1, 0]), "top": ("u3", [7, 6, 0]), "mid": ("u4", [5, 4, 3, 2]), "one": ("bit", [1])}}
signed = lambda t: t in SIG

class H:
    """typed HFL expression: fl text and z3 meaning"""
    __slots__ = ("t", "fl", "sem", "plain")
    def __init__(self, t, fl, sem, plain=False):
        self.t, self.fl, self.sem, self.plain = t, fl, sem, plain
    @property
    def ty(self):
        """with a type cast ({{ is not legal fl)"""
        return self.fl if self.fl.startswith("{") else "{%s::%s}" % (self.fl, self.t)

def hv(n, t): return H(t, "%s" % n, lambda e: e[n], True)
def hc(t, v, rng=None):
    w = W[t]
    s = "'-%d" % -v if v < 0 else ("'%d" if not rng else rng.choice(("'%d", "'0x%x"))) % v
    if rng and v >= 0 and rng.random() < .2:
        s = "'0b" + bin(v)[2:]
    return H(t, "{%s::%s}" % (s, t), lambda e: z3.BitVecVal(v, w))
def b1(c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
def slic(v, idx):
    r = [z3.Extract(i, i, v) for i in idx]
    return r[0] if len(r) == 1 else z3.Concat(*r)
def ext(v, w, sg):
    n = w - v.size()
    return v if n == 0 else (z3.SignExt if sg else z3.ZeroExt)(n, v)

BIN = {"'&'": lambda a, b: a & b, "'|'": lambda a, b: a | b, "'^'": lambda a, b: a ^ b,
       "'+'": lambda a, b: a + b, "'-'": lambda a, b: a - b, "'*'": lambda a, b: a * b}
UBIN = {"'<<'": lambda a, b: a << b, "'>>'": lambda a, b: z3.LShR(a, b), "'|>>'": lambda a, b: a >> b}
def cmp_(op, sg):
    U = {"'>'": (z3.UGT, lambda a, b: a > b), "'<'": (z3.ULT, lambda a, b: a < b),
         "'>='": (z3.UGE, lambda a, b: a >= b), "'<='": (z3.ULE, lambda a, b: a <= b)}
    if op == "'='": return lambda a, b: a == b
    if op == "'!='": return lambda a, b: a != b
    return U[op][1 if sg else 0]

def hbin(op, a, b):
    f = BIN.get(op) or UBIN[op]
    return H(a.t, "(%s %s %s)" % (a.fl, op, b.fl), lambda e: f(a.sem(e), b.sem(e)))
def hcmp(op, a, b):
    f = cmp_(op, signed(a.t))
    return H("bit", "(%s %s %s)" % (a.fl, op, b.fl), lambda e: b1(f(a.sem(e), b.sem(e))))
def hdiv(op, a, b):
    one = hc(a.t, 1)
    f = z3.UDiv if op == "'/'" else z3.URem
    return H(a.t, "(%s %s (%s '|' %s))" % (a.fl, op, b.fl, one.fl), lambda e: f(a.sem(e), b.sem(e) | 1))
def hnot(a): return H(a.t, "('~' %s)" % a.fl, lambda e: ~a.sem(e))
def hite(c, a, b, st):
    s = "(IF %s THEN %s ELSE %s)" if st else "(%s '?' %s ':' %s)"
    return H(a.t, s % (c.fl, a.fl, b.fl), lambda e: z3.If(c.sem(e) == 1, a.sem(e), b.sem(e)))
def hext(sx, a, t):
    return H(t, "{(%s %s)::%s}" % ("SX" if sx else "ZX", a.ty, t), lambda e: ext(a.sem(e), W[t], sx))
def hcat(a, b, t):
    return H(t, "{(%s ++ %s)::%s}" % (a.ty, b.ty, t), lambda e: z3.Concat(a.sem(e), b.sem(e)))
def hrange(a, idx, t):
    return H(t, "{(%s~~~%s)::%s}" % (a.ty, flist([str(i) for i in idx]), t), lambda e: slic(a.sem(e), idx))
def hbit(a, i): return H("bit", "(%s~~%d)" % (a.ty, i), lambda e: slic(a.sem(e), [i]))
def hconv(a, t): return H(t, "{(convert %s)::%s}" % (a.ty, t), lambda e: a.sem(e))
def hfrombits(a, t, how):
    s = {0: "{(frombits (tobits %s))::%s}", 1: "{(hw_unsplit (hw_split %s))::%s}",
         2: "{(frombits (rev (tobits %s)))::%s}", 3: "{(hw_unsplit (rev (hw_split %s)))::%s}"}[how]
    return H(t, s % (a.ty, t), lambda e: a.sem(e) if how < 2 else slic(a.sem(e), range(W[t])))
def hfield(a, f):
    t, idx = FIELDS[a.t][f]
    return H(t, "{(%s-->%s)::%s}" % (a.ty, f, t), lambda e: slic(a.sem(e), idx))
def hupd(a, fs):
    """fs: list of (field, expr), applied left to right"""
    def sem(e):
        v = a.sem(e)
        bits = {i: z3.Extract(i, i, v) for i in range(v.size())}
        for f, x in fs:
            xs, idx = x.sem(e), FIELDS[a.t][f][1]
            for k, i in enumerate(idx):
                j = len(idx) - 1 - k
                bits[i] = z3.Extract(j, j, xs)
        return z3.Concat(*[bits[i] for i in range(v.size() - 1, -1, -1)])
    return H(a.t, "{(%s %s)::%s}" % (a.ty, " ".join("<-- %s ? %s" % (f, x.ty) for f, x in fs), a.t), sem)

def rh(rng, t, vars, d, depth_div=True):
    """random expression of type t over vars [(name,type)]"""
    cand = [n for n, ty in vars if ty == t]
    if d == 0 or rng.random() < .12:
        if cand and rng.random() < .8:
            return hv(rng.choice(cand), t)
        w = W[t]
        if t in SIG and rng.random() < .5:
            return hc(t, -rng.randint(1, 1 << (w - 1)))
        return hc(t, rng.randrange(1 << (w - 1 if t in SIG else w)), rng)
    R = lambda ty=t, k=1: rh(rng, ty, vars, d - k)
    ops = ["'&'", "'|'", "'^'", "not", "ite", "ite", "conv", "frombits", "field"]
    if t == "bit":
        ops += ["cmp"] * 4 + ["bit", "bit"]
    else:
        ops += ["'+'", "'-'", "'*'", "'+'", "'-'", "ext", "ext", "cat", "range", "range"]
        if t in UNS:
            ops += list(UBIN) + ["div"]
    o = rng.choice(ops)
    num = [x for x in W if x in UNS or x in SIG]
    if o in BIN or o in UBIN: return hbin(o, R(), R())
    if o == "not": return hnot(R())
    if o == "ite": return hite(R("bit"), R(), R(), rng.random() < .5)
    if o == "div": return hdiv(rng.choice(("'/'", "'%'")), R(), R())
    if o == "cmp":
        ty = rng.choice([x for x in num if x != "u8"])
        return hcmp(rng.choice(("'='", "'!='", "'>'", "'<'", "'>='", "'<='")), R(ty), R(ty))
    if o == "bit":
        ty = rng.choice([x for x in num if x != "bit"])
        return hbit(R(ty), rng.randrange(W[ty]))
    if o == "ext":
        ty = rng.choice([x for x in num if W[x] <= W[t]])
        return hext(rng.random() < .5, R(ty), t)
    if o == "conv":
        ty = rng.choice([x for x in num if W[x] == W[t]])
        return hconv(R(ty), t)
    if o == "frombits":
        ty = rng.choice([x for x in num if W[x] == W[t]])
        return hfrombits(R(ty), t, rng.randrange(4))
    if o == "cat":
        ps = [(x, y) for x in num for y in num if W[x] + W[y] == W[t]]
        if not ps: return R()
        x, y = rng.choice(ps)
        return hcat(R(x), R(y), t)
    if o == "range":
        ty = rng.choice([x for x in num if W[x] >= 2])
        return hrange(R(ty), [rng.randrange(W[ty]) for _ in range(W[t])], t)
    if o == "field":
        ps = [(s, f) for s in FIELDS for f in FIELDS[s] if FIELDS[s][f][0] == t]
        if not ps: return R()
        s, f = rng.choice(ps)
        base = rng.choice([n for n, ty in vars if ty == s] or [None])
        if s == "pr":
            b = hv(base, s) if base else None
        else:
            b = hv(base, s) if base else None
        if b is None: return R()
        if rng.random() < .6:
            fs = rng.sample(list(FIELDS[s]), rng.randint(1, 2))
            b = hupd(b, [(g, R(FIELDS[s][g][0], 1)) for g in fs])
        return hfield(b, f)
    raise ValueError(o)

def nm(n, t): return n if W[t] == 1 else "%s[%d:0]" % (n, W[t] - 1)
def bn(n, t, i): return bitname(n, W[t], i)
def decl(kind, l):
    return " ".join("%s_%s %s." % (t, kind, n) for n, t in l)

def hfl_case(name, cell, args, ins, outs, spec, T=1, kind="bool", known=None, extra_ants=None, obs_from=0):
    """cell: fl expression of the circuit; args: actuals; ins/outs: [(name,type or width)];
    every input bit is a fresh variable in each phase.  spec(h, t): h[n][t] is the BV of input n at phase t;
    returns {out: BV or (BV, known)}; known is a z3 Bool or BV mask: unknown bits have to be X."""
    wd = lambda t: W[t] if isinstance(t, str) else t
    def bitname(n, w, i):
        """i counted from the MSB"""
        k, t = w - 1 - i, tyof.get(n)
        if t == "m3": return "%s[%d][%d]" % (n, k // 3, k % 3)
        if t == "m22": return "%s[%d][%d][%d]" % (n, k // 6, k // 2 % 3, k % 2)
        return n if w == 1 else "%s[%d]" % (n, k)
    tyof = dict(list(ins) + list(outs))
    pk = Pick("hf" if kind == "bool" else "bhf")
    ant = []
    for t in range(T):
        for n, ty in ins:
            w = wd(ty)
            for i in range(w):
                ant.append(("T", bitname(n, w, i), pk.new("%s_%d_%d" % (n, t, i)), t, t + 1))
    for n, w, t, f in extra_ants or ():
        for i in range(w):
            ant.append(("T", bitname(n, w, i), pk.new("%s_i_%d" % (n, i)), t, f))
    obs = [(bitname(n, wd(ty), i), t) for t in range(obs_from, T) for n, ty in outs for i in range(wd(ty))]
    p = "b" if kind == "bexpr" else ""
    r = ["val (h,l) = %sget_trace_val s %s %d in [h,l]" % (p, q(n), t) for n, t in obs]
    r.append('[%sget_ste_result s "trajOK"]' % p)
    expr = ("let c = pexlif2fsm (%s %s) in let s = %sSTE \"-e\" c [] %s [] [] in flat %s"
            % (cell, args, p, tuples(tr(kind, ant)), flist(["(%s)" % x for x in r])))
    def check(env, res):
        from flsym import b2bv
        h = {n: [b2bv([env["%s_%s_%d_%d" % (pk.p, n, t, i)] for i in range(wd(ty))]) for t in range(T)] for n, ty in ins}
        for n, w, t, f in extra_ants or ():
            h[n + "_i"] = b2bv([env["%s_%s_i_%d" % (pk.p, n, i)] for i in range(w)])
        out, k = [res[-1]], 0
        for t in range(obs_from, T):
            want = spec(h, t)
            for n, ty in outs:
                v = want[n]
                v = v if isinstance(v, tuple) else (v, z3.BoolVal(True))
                care = v[2] if len(v) == 3 else z3.BoolVal(True)
                v, kn = v[:2]
                if v.size() != wd(ty):
                    raise ValueError("width of %s" % n)
                for b in bits_of(v):
                    out.append(z3.Implies(care, z3.And(res[k] == z3.Or(b, z3.Not(kn)), res[k + 1] == z3.Or(z3.Not(b), z3.Not(kn)))))
                    k += 2
        return z3.And(*out)
    return Case(name, pk.vars, expr, check, kind=kind, load=PRE)

def rcell(rng, name, kind="bool", d=2):
    """random combinational cell with internals and an instantiated generic sub-cell"""
    types = ["bit", "u3", "u4", "s3", "s4", "u2", "pr", "ov", "u6"]
    ins = [("i%d" % i, rng.choice(types)) for i in range(rng.randint(2, 3))]
    while sum(W[t] for _, t in ins) > 16:
        ins[max(range(len(ins)), key=lambda i: W[ins[i][1]])] = ("i%d" % max(range(len(ins)), key=lambda i: W[ins[i][1]]), rng.choice(["bit", "u2", "u3", "s3"]))
    num = ["bit", "u2", "u3", "u4", "s3", "s4", "u6"]
    ints = [("m%d" % i, rng.choice(num)) for i in range(rng.randint(1, 3))]
    outs = [("o%d" % i, rng.choice(num)) for i in range(2)]
    lines, vals, avail = [], [], list(ins)
    st = rng.choice(num[1:])
    sub_e = rh(rng, st, [("x", st), ("y", "bit")], d)
    sub = 'let sub = %s CELL "sub" [ o <- %s ] in ' % ("%s_input x. bit_input y. %s_output o." % (st, st), sub_e.fl)
    for n, t in ints + outs:
        if t == st and rng.random() < .7:
            a, b = rh(rng, st, avail, d - 1), rh(rng, "bit", avail, d - 1)
            lines.append("sub %s %s %s" % (a.fl, b.fl, n))
            vals.append((n, lambda e, a=a, b=b: sub_e.sem({"x": a.sem(e), "y": b.sem(e)})))
        elif rng.random() < .15 and len([1 for m, ty in avail if ty == t]) >= 1:
            conds = [(rh(rng, "bit", avail, d - 1), rh(rng, t, avail, d - 1)) for _ in range(rng.randint(1, 3))]
            df = rh(rng, t, avail, 1)
            lines.append("CASE %s %s %s" % (n, flist(["(%s, %s)" % (c.fl, v.fl) for c, v in conds]), df.fl))
            def sem(e, conds=conds, df=df):
                r = df.sem(e)
                for c, v in reversed(conds):
                    r = z3.If(c.sem(e) == 1, v.sem(e), r)
                return r
            vals.append((n, sem))
        else:
            x = rh(rng, t, avail, d)
            lines.append("%s <- %s" % (n, x.fl) if rng.random() < .8 else "%s <<-- %s" % (n, x.fl))
            vals.append((n, x.sem))
        avail.append((n, t))
    rng.shuffle(lines)
    cell = "(%slet top = %s %s %s CELL %s [ %s ] in top)" % (sub, decl("input", ins), decl("output", outs), decl("internal", ints), q("top"), ", ".join(lines))
    def spec(h, t):
        e = {n: h[n][t] for n, _ in ins}
        for n, f in vals:
            e[n] = f(e)
        return {n: e[n] for n, _ in outs}
    return hfl_case(name, cell, " ".join("'" + n for n, _ in ins + outs), ins, outs, spec, kind=kind)

# ---------------------------------------------------------------- components
Tr = z3.BoolVal(True)
Fa = z3.BoolVal(False)
BV = lambda v, w: z3.BitVecVal(v, w)
ite = lambda c, a, b: (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))      # (value, known) pairs
one = lambda v: v == 1

def cellof(ins, ints, outs, body, pre=""):
    """fl text of a cell; a signal list is declared as (name, (type, n))"""
    def d(kind, l):
        r = []
        for n, t in l:
            r.append("%s_%s %s." % (t, kind, n))
        return " ".join(r)
    return "(%slet top = %s %s %s CELL \"top\" [ %s ] in top)" % (pre, d("input", ins), d("output", outs), d("internal", ints), ", ".join(body))

def comp(name, ins, outs, body, spec, T=1, kind="bool", ints=(), pre="", extra=None, obs_from=0):
    return hfl_case(name, cellof(ins, ints, outs, body, pre), " ".join("'" + n for n, _ in list(ins) + list(outs)),
                    ins, outs, spec, T=T, kind=kind, extra_ants=extra, obs_from=obs_from)

def ff_hist(h, t, w, clk="clk", d="d", en=None, rst=None, rv=0, asyn=False, fall=False, din=None):
    """value of an edge triggered flip-flop in phase t: it stores, on the edge, the value its inputs had
    in the phase before; an asynchronous reset overrides (and replaces) the stored value while asserted"""
    D = din or (lambda i: (h[d][i], Tr))
    q = (BV(0, w), Fa)
    R = (BV(rv, w), Tr)
    for i in range(t + 1):
        if i:
            a, b = one(h[clk][i - 1]), one(h[clk][i])
            edge = z3.And(a, z3.Not(b)) if fall else z3.And(z3.Not(a), b)
            v = D(i - 1)
            if en: v = ite(one(h[en][i - 1]), v, q)
            if rst: v = ite(one(h[rst][i - 1]), R, v)
            q = ite(edge, v, q)
        if asyn: q = ite(one(h[rst][i]), R, q)
    return q

def ff_cases(kinds=("bool",), T=5):
    r = []
    L = [("re_ff", "", {}), ("fe_ff", "", dict(fall=True)), ("re_ff_en", "en", dict(en="en")), ("fe_ff_en", "en", dict(en="en", fall=True)),
         ("re_ff_reset", "rst", dict(rst="rst", asyn=True)), ("fe_ff_reset", "rst", dict(rst="rst", asyn=True, fall=True)),
         ("re_ff_sreset", "rst", dict(rst="rst")), ("re_ff_set", "rst", dict(rst="rst", asyn=True, rv=1)),
         ("re_ff_en_reset", "en rst", dict(en="en", rst="rst", asyn=True)), ("fe_ff_en_reset", "en rst", dict(en="en", rst="rst", asyn=True, fall=True)),
         ("re_ff_en_sreset", "en rst", dict(en="en", rst="rst")),
         ("re_ff_en_reset_with_value '2", "en rst", dict(en="en", rst="rst", asyn=True, rv=2)),
         ("re_ff_en_sreset_with_value '2", "en rst", dict(en="en", rst="rst", rv=2))]
    for k in kinds:
        for f, sig, kw in L:
            ty = "bit" if f == "re_ff_set" else "u2"
            sg = sig.split()
            ins = [("clk", "bit")] + [(x, "bit") for x in sg] + [("d", ty)]
            r.append(comp("ff_%s_%s" % (f.split()[0], k), ins, [("q", ty)], ["%s clk %s d q" % (f, sig)],
                          lambda h, t, kw=kw, ty=ty: {"q": ff_hist(h, t, W[ty], **kw)}, T=T, kind=k))
        for f, lo in (("ah_latch", False), ("al_latch", True)):
            def latch(h, t, lo=lo):
                q = (BV(0, 2), Fa)
                for i in range(t + 1):
                    e = one(h["en"][i])
                    q = ite(z3.Not(e) if lo else e, (h["d"][i], Tr), q)
                return {"q": q}
            r.append(comp("%s_%s" % (f, k), [("en", "bit"), ("d", "u2")], [("q", "u2")], ["%s en d q" % f], latch, T=T, kind=k))
        for f, rst, asyn in (("re_ff_en_mux", 0, 0), ("re_ff_en_reset_mux", 1, 1), ("re_ff_en_sreset_mux", 1, 0)):
            def byp(h, t, rst=rst, asyn=asyn):
                q = ff_hist(h, t, 2, en="en", rst="rst" if rst else None, asyn=bool(asyn))
                c = one(h["en"][t])
                if rst: c = z3.And(c, z3.Not(one(h["rst"][t])))
                return {"q": ite(c, (h["d"][t], Tr), q)}
            ins = [("clk", "bit"), ("en", "bit")] + ([("rst", "bit")] if rst else []) + [("d", "u2")]
            r.append(comp("%s_%s" % (f, k), ins, [("q", "u2")], ["%s clk en %s d q" % (f, "rst" if rst else "")], byp, T=T - 1, kind=k))
    return r

def delay_cases(kinds=("bool",)):
    r = []
    for k in kinds:
        for n in (0, 1, 2, 3):
            def dl(h, t, n=n, rst=False):
                f = lambda i: (h["d"][i], Tr)
                for _ in range(n):
                    f = (lambda i, f=f: ff_hist(h, i, 2, din=f, **(dict(rst="rst", asyn=True) if rst else {})))
                return {"q": f(t)}
            r.append(comp("delay%d_%s" % (n, k), [("clk", "bit"), ("d", "u2")], [("q", "u2")], ["delay %d clk d q" % n], dl, T=6, kind=k))
            if n < 3:
                r.append(comp("rst_delay%d_%s" % (n, k), [("clk", "bit"), ("rst", "bit"), ("d", "u2")], [("q", "u2")], ["rst_delay %d clk rst d q" % n],
                              lambda h, t, dl=dl: dl(h, t, rst=True), T=5, kind=k))
            r.append(comp("phase_delay%d_%s" % (n, k), [("d", "u3")], [("q", "u3")], ["phase_delay %d d q" % n],
                          lambda h, t, n=n: {"q": (h["d"][t - n], Tr) if t >= n else (BV(0, 3), Fa)}, T=5, kind=k))
            def rpd(h, t, n=n):
                f = lambda i: (h["d"][i], Tr)
                for _ in range(n):
                    f = (lambda i, f=f: ite(one(h["rst"][i - 1]), (BV(0, 2), Tr), f(i - 1)) if i > 0 else (BV(0, 2), Fa))
                return {"q": f(t)}
            r.append(comp("rst_phase_delay%d_%s" % (n, k), [("rst", "bit"), ("d", "u2")], [("q", "u2")], ["rst_phase_delay %d rst d q" % n], rpd, T=5, kind=k))
            r.append(comp("is_stable%d_%s" % (n, k), [("d", "u2")], [("ok", "bit")], ["is_stable %d d ok" % n],
                          lambda h, t, n=n: {"ok": b1(z3.And([h["d"][t - i] == h["d"][t - i - 1] for i in range(n)] or [Tr]))}, T=6, kind=k, obs_from=n))
    return r

def sel_cases(rng, k):
    r = []
    T_ = {1: "bit", 2: "u2", 3: "u3", 4: "u4", 6: "u6", 8: "u8"}
    def word(v, i, w): return z3.Extract((i + 1) * w - 1, i * w, v)
    for iw, aw, ow in ((4, 2, 1), (6, 2, 2), (8, 2, 2), (6, 3, 1), (8, 3, 1), (6, 1, 3), (4, 1, 2), (3, 2, 1)):
        n = iw // ow
        def sel(h, t, n=n, ow=ow, aw=aw):
            v = (BV(0, ow), Fa)
            for i in range(n):
                v = ite(h["a"][t] == BV(i, aw), (word(h["d"][t], i, ow), Tr), v)
            return {"q": v}
        r.append(comp("SELECT_%d_%d_%d_%s" % (iw, aw, ow, k), [("d", T_[iw]), ("a", T_[aw])], [("q", T_[ow])], ["SELECT d a q"], sel, kind=k))
        def ins(h, t, n=n, ow=ow, aw=aw):
            ws = [z3.If(h["a"][t] == BV(i, aw), h["x"][t], word(h["d"][t], i, ow)) for i in range(n)]
            return {"q": z3.Concat(*reversed(ws)) if n > 1 else ws[0]}
        r.append(comp("INSERT_%d_%d_%d_%s" % (iw, aw, ow, k), [("d", T_[iw]), ("x", T_[ow]), ("a", T_[aw])], [("q", T_[iw])], ["INSERT d x a q"], ins, kind=k))
    for n, aw in ((3, 2), (4, 2), (5, 3), (2, 1)):
        def sl(h, t, n=n, aw=aw):
            v = (BV(0, 2), Fa)
            for i in range(n):
                v = ite(h["a"][t] == BV(i, aw), (h["d%d" % (n - 1 - i)][t], Tr), v)
            return {"q": v}
        r.append(comp("SELECT_list_%d_%s" % (n, k), [("d%d" % i, "u2") for i in range(n)] + [("a", T_[aw])], [("q", "u2")],
                      ["SELECT_list [%s] a q" % ",".join("d%d" % i for i in range(n))], sl, kind=k))
    for w in (1, 2, 3):
        n = 1 << w
        dec = lambda h, t, n=n: z3.ZeroExt(n - h["a"][t].size(), BV(0, h["a"][t].size())) | (BV(1, n) << ext(h["a"][t], n, False))
        r.append(comp("DECODER%d_%s" % (w, k), [("a", T_[w])], [("q", T_[n])], ["DECODER a q"], lambda h, t, dec=dec: {"q": dec(h, t)}, kind=k))
        r.append(comp("EN_DECODER%d_%s" % (w, k), [("en", "bit"), ("a", T_[w])], [("q", T_[n])], ["EN_DECODER en a q"],
                      lambda h, t, dec=dec, n=n: {"q": z3.If(one(h["en"][t]), dec(h, t), BV(0, n))}, kind=k))
        os_ = [("q%d" % i, "bit") for i in range(n)]
        lst = ",".join("q%d" % i for i in reversed(range(n)))
        r.append(comp("DECODER_list%d_%s" % (w, k), [("a", T_[w])], os_, ["DECODER_list a [%s]" % lst],
                      lambda h, t, n=n: {"q%d" % i: b1(h["a"][t] == i) for i in range(n)}, kind=k))
        r.append(comp("EN_DECODER_list%d_%s" % (w, k), [("en", "bit"), ("a", T_[w])], os_, ["EN_DECODER_list en a [%s]" % lst],
                      lambda h, t, n=n: {"q%d" % i: b1(z3.And(one(h["en"][t]), h["a"][t] == i)) for i in range(n)}, kind=k))
    def enc(v, aw):
        n = v.size()
        a = BV(0, aw)
        for i in reversed(range(n)):
            a = z3.If(z3.Extract(i, i, v) == 1, BV(i, aw), a)
        return {"v": b1(v != 0), "a": (a, Tr, v != 0)}
    for n, aw in ((2, 1), (3, 2), (4, 2), (6, 3), (8, 3)):
        r.append(comp("ENCODER%d_%s" % (n, k), [("d", T_[n])], [("v", "bit"), ("a", T_[aw])], ["ENCODER d v a"], lambda h, t, aw=aw: enc(h["d"][t], aw), kind=k))
    for n, aw in ((2, 1), (3, 2), (5, 3), (7, 3)):
        r.append(comp("list_ENCODER%d_%s" % (n, k), [("d%d" % i, "bit") for i in range(n)], [("v", "bit"), ("a", T_[aw])],
                      ["list_ENCODER [%s] v a" % ",".join("d%d" % i for i in reversed(range(n)))],
                      lambda h, t, aw=aw, n=n: enc(z3.Concat(*[h["d%d" % i][t] for i in reversed(range(n))]), aw), kind=k))
    for n in (1, 2, 3, 5):
        nm_ = ["d%d" % i for i in range(n)]
        from functools import reduce
        r.append(comp("X_n_%d_%s" % (n, k), [(x, "u2") for x in nm_], [(x, "u2") for x in ("qo", "qa", "qx", "qt", "qs")],
                      ["qo <- OR_n [%s]" % ",".join(nm_), "qa <- AND_n [%s]" % ",".join(nm_), "qx <- XOR_n [%s]" % ",".join(nm_),
                       "reduce_tree (defix '+') [%s] qt" % ",".join(nm_), "reduce_tree (defix '-') [%s] qs" % ",".join(nm_)],
                      lambda h, t, nm_=nm_: {"qo": reduce(lambda a, b: a | b, [h[x][t] for x in nm_]), "qa": reduce(lambda a, b: a & b, [h[x][t] for x in nm_]),
                                             "qx": reduce(lambda a, b: a ^ b, [h[x][t] for x in nm_]), "qt": reduce(lambda a, b: a + b, [h[x][t] for x in nm_]),
                                             "qs": tree_sub([h[x][t] for x in nm_])}, kind=k))
    for w in (1, 2, 3, 6):
        cnt = lambda v: sum([ext(z3.Extract(i, i, v), 4, False) for i in range(v.size())], BV(0, 4))
        r.append(comp("mutex%d_%s" % (w, k), [("d", T_[w])], [("m", "bit"), ("s", "bit")], ["m <- is_mutex d", "s <- is_strong_mutex d"],
                      lambda h, t: {"m": b1(z3.ULE(cnt(h["d"][t]), 1)), "s": b1(cnt(h["d"][t]) == 1)}, kind=k))
    r.append(comp("MUX_%s" % k, [("c", "bit"), ("a", "s3"), ("b", "s3")], [("q", "s3")], ["MUX c a b q"],
                  lambda h, t: {"q": z3.If(one(h["c"][t]), h["a"][t], h["b"][t])}, kind=k))
    r.append(comp("MUTEX_CASE_%s" % k, [("c1", "bit"), ("c2", "bit"), ("a", "u3"), ("b", "u3"), ("s", "u2")], [("q", "u3")],
                  ["MUTEX_CASE q [(c1 '&' c2, a), (c1, (b '+' '1)), (s '=' '2, '5)]"],
                  lambda h, t: {"q": z3.If(one(h["c1"][t] & h["c2"][t]), h["a"][t], BV(0, 3)) | z3.If(one(h["c1"][t]), h["b"][t] + 1, BV(0, 3)) | z3.If(h["s"][t] == 2, BV(5, 3), BV(0, 3))}, kind=k))
    return r

def tree_sub(l):
    if len(l) == 1: return l[0]
    n = len(l) // 2
    return tree_sub(l[:n]) - tree_sub(l[n:])

def state_cases(k, T=4):
    r = []
    def st(h, t, en=False):
        q = (BV(0, 2), Fa)
        for i in range(1, t + 1):
            edge = z3.And(h["clk"][i - 1] == 0, h["clk"][i] == 1)
            if en: edge = z3.And(edge, one(h["en"][i - 1]))
            g = lambda x: h[x][i - 1]
            nx = ite(one(g("a")), (BV(1, 2), Tr), ite(z3.And(one(g("b")), g("d") != 3), (g("d") + 1, Tr), ite(one(g("b")), (g("d"), Tr), q)))
            q = ite(edge, nx, q)
        return {"q": q}
    ins = [("clk", "bit"), ("a", "bit"), ("b", "bit"), ("d", "u2")]
    crl = "[(a, '1), (b '&' (d '!=' '3), (d '+' '1)), (b, d)]"
    r.append(comp("STATE_%s" % k, ins, [("q", "u2")], ["STATE clk q %s" % crl], st, T=T, kind=k))
    r.append(comp("EN_STATE_%s" % k, ins + [("en", "bit")], [("q", "u2")], ["EN_STATE clk en q %s" % crl], lambda h, t: st(h, t, True), T=T, kind=k))
    def moore(h, t, enc, tr, s0):
        rs = lambda i: one(h["rst"][i])
        w = enc["w"]
        s = BV(s0, w)
        for i in range(1, t + 1):
            nx = s
            for f, c, g in reversed(tr):
                nx = z3.If(z3.And(s == f, c(h, i - 1)), BV(g, w), nx)
            nx = z3.If(rs(i - 1), BV(s0, w), nx)
            s = z3.If(z3.And(h["clk"][i - 1] == 0, h["clk"][i] == 1), nx, s)
            s = z3.If(rs(i), BV(s0, w), s)
        return {"q": (s, Tr, rs(0))}
    A, B = (lambda h, i: one(h["a"][i])), (lambda h, i: one(h["b"][i]))
    al = lambda h, i: Tr
    mi = [("clk", "bit"), ("rst", "bit"), ("a", "bit"), ("b", "bit")]
    r.append(comp("Moore_op2_%s" % k, mi, [("q", "op2")],
                  ['Moore_FSM "m" clk q (rst, opB) [opA --- a --- opB, opB --- b --- opC, opA --- b --- opC, opC --- default --- opA, opB --- (a \'&\' b) --- opA]'],
                  lambda h, t: moore(h, t, {"w": 2}, [(0, A, 1), (1, B, 2), (0, B, 2), (2, al, 0), (1, lambda h, i: z3.And(A(h, i), B(h, i)), 0)], 1), T=5, kind=k))
    r.append(comp("Moore_st4_%s" % k, mi, [("q", "st4")],
                  ['Moore_FSM "m" clk q (rst, stI) [stI --- a --- stF, stF --- (b \'&\' (\'~\' a)) --- stE, stF --- a --- stW, stE --- default --- stI, stW --- b --- stI]'],
                  lambda h, t: moore(h, t, {"w": 4}, [(1, A, 2), (2, lambda h, i: z3.And(B(h, i), z3.Not(A(h, i))), 4), (2, A, 8), (4, al, 1), (8, B, 1)], 1), T=5, kind=k))
    r.append(comp("ff_block_%s" % k, [("clk", "bit"), ("a", "u2"), ("b", "u2")], [("p", "u2"), ("q", "u2")], ["ff_block (re_ff clk) [p <== (a '+' q), q <== b]"],
                  lambda h, t: {"p": ff_hist(h, t, 2, din=lambda i: (h["a"][i] + ff_hist(h, i, 2, d="b")[0], ff_hist(h, i, 2, d="b")[1])), "q": ff_hist(h, t, 2, d="b")}, T=4, kind=k))
    return r

def mem_cases(k):
    r = []
    def ram(h, t, lines, ra, wa, din, we, w, aw):
        m = [(BV(0, w), Fa) for _ in range(lines)]
        for i in range(t):
            m = [ite(z3.And(one(h[we][i]), h[wa][i] == BV(j, aw)), (h[din][i], Tr), m[j]) for j in range(lines)]
        v = (BV(0, w), Fa)
        for j in range(lines):
            v = ite(h[ra][t] == BV(j, aw), m[j], v)
        return {"q": v}
    for lines, at, aw, dt in ((4, "u2", 2, "u2"), (3, "u2", 2, "bit"), (2, "bit", 1, "u3"), (5, "u3", 3, "bit")):
        r.append(comp("RAM_%d_%s_%s" % (lines, dt, k), [("ra", at), ("wa", at), ("di", dt), ("we", "bit")], [("q", dt)], ['RAM "mm" %d ra wa di we q' % lines],
                      lambda h, t, lines=lines, dt=dt, aw=aw: ram(h, t, lines, "ra", "wa", "di", "we", W[dt], aw), T=4 if W[dt] < 3 else 3, kind=k))
        def line(m, i, w): return z3.Extract((i + 1) * w - 1, i * w, m)
    def rd(m, a, n, w):
        v = BV(0, w)
        for i in range(n):
            v = z3.If(a == i, line(m, i, w), v)
        return v
    def wr(m, a, x, n, w): return z3.Concat(*[z3.If(a == i, x, line(m, i, w)) for i in reversed(range(n))])
    a3 = lambda h, t: h["a"][t]
    a22 = lambda h, t: z3.ZeroExt(2, h["a"][t]) * 3 + z3.ZeroExt(1, h["b"][t])
    ok3 = lambda h, t: z3.ULT(h["a"][t], 3)
    ok22 = lambda h, t: z3.ULT(h["b"][t], 3)
    for ty, ia, ad, args, n, w, dt, ok in (("m3", [("a", "u2")], a3, "a", 3, 3, "u3", ok3), ("m22", [("a", "bit"), ("b", "u2")], a22, "a b", 6, 2, "u2", ok22)):
        r.append(comp("read_%s_%s" % (ty, k), [("m", ty)] + ia, [("q", dt), ("p", dt)], ["q <- read_%s m %s" % (ty, args), "Read_%s m %s p" % (ty, args)],
                      lambda h, t, ad=ad, n=n, w=w, ok=ok: {x: (rd(h["m"][t], ad(h, t), n, w), Tr, ok(h, t)) for x in ("q", "p")}, kind=k))
        r.append(comp("write_%s_%s" % (ty, k), [("m", ty), ("d", dt)] + ia, [("o", ty)], ["o <- write_%s m %s d" % (ty, args)],
                      lambda h, t, ad=ad, n=n, w=w, ok=ok: {"o": (wr(h["m"][t], ad(h, t), h["d"][t], n, w), Tr, ok(h, t))}, kind=k))
        r.append(comp("wr_rd_%s_%s" % (ty, k), [("m", ty), ("d", dt)] + ia + [(x + "2", t) for x, t in ia], [("q", dt)],
                      ["q <- read_%s (write_%s m %s d) %s" % (ty, ty, args, " ".join(x + "2" for x in args.split()))],
                      lambda h, t, ad=ad, n=n, w=w, ok=ok: (lambda h2: {"q": (rd(wr(h["m"][t], ad(h, t), h["d"][t], n, w), ad(h2, t), n, w), Tr, z3.And(ok(h, t), ok(h2, t)))})(
                          dict(h, a=h["a2"], b=h.get("b2"))), kind=k))
    return r

def enum_cases(k):
    r = []
    E = [("opA", 0), ("opB", 1), ("opC", 2)]
    r.append(comp("enum_op2_%s" % k, [("a", "op2"), ("b", "op2"), ("c", "bit")], [("q", "op2"), ("e", "bit")] + [("i%s" % n, "bit") for n, _ in E],
                  ["q <- (IF c THEN a ELSE opC)", "e <- ((a '=' b) '|' (b '=' opB))"] + ["i%s <- is_%s a" % (n, n) for n, _ in E],
                  lambda h, t: dict([("q", z3.If(one(h["c"][t]), h["a"][t], BV(2, 2))), ("e", b1(z3.Or(h["a"][t] == h["b"][t], h["b"][t] == 1)))] +
                                    [("i%s" % n, b1(h["a"][t] == v)) for n, v in E]), kind=k))
    S = [("stI", 1), ("stF", 2), ("stE", 4), ("stW", 8)]
    r.append(comp("enum_st4_%s" % k, [("a", "st4"), ("c", "bit")], [("q", "st4")] + [("i%s" % n, "bit") for n, _ in S],
                  ["q <- (c '?' a ':' stE)"] + ["i%s <- is_%s a" % (n, n) for n, _ in S],
                  lambda h, t: dict([("q", z3.If(one(h["c"][t]), h["a"][t], BV(4, 4)))] + [("i%s" % n, b1(h["a"][t] == v)) for n, v in S]), kind=k))
    r.append(comp("enum_const_%s" % k, [("c", "bit")], [("x", "bit"), ("y", "bit"), ("z", "op2")], ["x <- (opA '=' opA)", "y <- ((opA '=' opC) '|' c)", "z <- (IF (opB '!=' opC) THEN opC ELSE opA)"],
                  lambda h, t: {"x": BV(1, 1), "y": h["c"][t], "z": BV(2, 2)}, kind=k))
    return r
