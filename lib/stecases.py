"""Circuits for the FSM/STE engine: built as pexlifs (leaf and hierarchical), run
with STE/bSTE on symbolic antecedents; the trace is exported as H/L pairs and z3
compares it with a reference semantics over z3 terms."""
import z3, random
from flsym import Case, flist, U, S, b2bv

# ------------------------------------------------------------ expressions
class E:
    def __init__(self, op, w, *a):
        self.op, self.w, self.a = op, w, a
    def subs(self):
        return [x for x in self.a if isinstance(x, E)]
def var(n, w): return E("VAR", w, n)
def const(w, v): return E("CONST", w, v)
def bop(op, a, b): return E(op, 1 if op in ("EQ", "GR") else a.w, a, b)
def not_(a): return E("NOT", a.w, a)
def ite(c, a, b): return E("ITE", a.w, c, a, b)
def sx(w, a): return E("SX", w, a)
def zx(w, a): return E("ZX", w, a)
def sl(idx, a): return E("SLICE", len(idx), idx, a)
def upd(a, idx, b): return E("UPD", a.w, a, idx, b)
def cat(*p): return E("CAT", sum(x.w for x in p), *p)
def mrd(sz, lines, d, mem, addr): return E("MRD", d, (sz, lines, d), mem, addr)
def mwr(sz, lines, d, mem, addr, data): return E("MWR", mem.w, (sz, lines, d), mem, addr, data)

def fl(e):
    o, a = e.op, e.a
    if o == "VAR": return '(W_VAR %d "%s")' % (e.w, a[0])
    if o == "XVAR": return '(W_EXPLICIT_VAR %d "%s")' % (e.w, a[0])
    if o == "CONST": return "(W_CONST %d (%d))" % (e.w, a[0])
    if o == "X": return "(W_X %d)" % e.w
    if o == "NOT": return "(W_NOT %s)" % fl(a[0])
    if o == "ITE": return "(W_ITE %s %s %s)" % tuple(map(fl, a))
    if o in ("SX", "ZX"): return "(W_%s %d %s)" % (o, e.w, fl(a[0]))
    if o == "SLICE": return "(W_SLICE %s %s)" % (flist([str(i) for i in a[0]]), fl(a[1]))
    if o == "UPD": return '(W_UPDATE_NAMED_SLICE %s "f" %s %s)' % (fl(a[0]), flist([str(i) for i in a[1]]), fl(a[2]))
    if o == "CAT": return "(W_CAT %s)" % flist([fl(x) for x in a])
    if o == "MRD": return "(W_MEM_READ (MEM %d %d %d) %s %s)" % (a[0] + (fl(a[1]), fl(a[2])))
    if o == "MWR": return "(W_MEM_WRITE (MEM %d %d %d) %s %s %s)" % (a[0] + (fl(a[1]), fl(a[2]), fl(a[3])))
    return "(W_%s %s %s)" % (o, fl(a[0]), fl(a[1]))

def uses(e):
    r = {}
    if e.op == "VAR":
        r[e.a[0]] = e.w
    for x in e.subs():
        r.update(uses(x))
    return r

def bits_of(t):
    w = t.size()
    return [z3.Extract(i, i, t) == 1 for i in range(w - 1, -1, -1)]
def ubits(bits):
    return b2bv(bits)

def sem(e, env):
    """two-valued meaning, MSB-first list of z3 Bools; env: name -> list"""
    o, a = e.op, e.a
    if o == "VAR": return env[a[0]]
    if o == "CONST": return [z3.BoolVal(bool(a[0] >> i & 1)) for i in range(e.w - 1, -1, -1)]
    v = [sem(x, env) for x in e.subs()]
    if o == "NOT": return [z3.Not(x) for x in v[0]]
    if o == "AND": return [z3.And(x, y) for x, y in zip(*v)]
    if o == "OR": return [z3.Or(x, y) for x, y in zip(*v)]
    if o == "EQ": return [z3.And(*[x == y for x, y in zip(*v)])]
    if o == "GR": return [z3.UGT(ubits(v[0]), ubits(v[1]))]
    if o == "ITE": return [z3.If(v[0][0], x, y) for x, y in zip(v[1], v[2])]
    if o == "SX": return [v[0][0]] * (e.w - len(v[0])) + v[0] if e.w >= len(v[0]) else v[0][len(v[0]) - e.w:]
    if o == "ZX": return [z3.BoolVal(False)] * (e.w - len(v[0])) + v[0] if e.w >= len(v[0]) else v[0][len(v[0]) - e.w:]
    # slice indices count from the LSB
    if o == "SLICE": return [v[0][len(v[0]) - 1 - i] for i in a[0]]
    if o == "UPD":
        r = list(v[0])
        for i, x in zip(a[1], v[1]):
            r[len(r) - 1 - i] = x
        return r
    if o == "CAT": return [x for l in v for x in l]
    if o in ("MRD", "MWR"):
        sz, lines, d = a[0]
        mem, addr = v[0], v[1]
        if o == "MRD":
            out = [z3.BoolVal(False)] * d
            for l in range(lines):
                base = (lines - 1 - l) * d
                s = ubits(addr) == l
                out = [z3.If(s, mem[base + i], out[i]) for i in range(d)]
            return out
        r = list(mem)
        for l in range(lines):
            base = (lines - 1 - l) * d
            s = ubits(addr) == l
            for i in range(d):
                r[base + i] = z3.If(s, v[2][i], r[base + i])
        return r
    x, y = ubits(v[0]), ubits(v[1])
    r = {"ADD": lambda: x + y, "SUB": lambda: x - y, "MUL": lambda: x * y,
         "DIV": lambda: z3.UDiv(x, y), "MOD": lambda: z3.URem(x, y),
         "SHL": lambda: x << y, "SHR": lambda: z3.LShR(x, y), "ASHR": lambda: x >> y}[o]()
    return bits_of(r)

def qsem(e, env):
    """reference four-valued meaning for the basic operators; env: name -> list of (H,L)"""
    o, a = e.op, e.a
    if o == "VAR": return env[a[0]]
    one, zero = z3.BoolVal(True), z3.BoolVal(False)
    if o == "X": return [(one, one)] * e.w
    if o == "CONST": return [((one, zero) if a[0] >> i & 1 else (zero, one)) for i in range(e.w - 1, -1, -1)]
    v = [qsem(x, env) for x in e.subs()]
    AND, OR = z3.And, z3.Or
    if o == "NOT": return [(l, h) for h, l in v[0]]
    if o == "AND": return [(AND(h, g), OR(l, k)) for (h, l), (g, k) in zip(*v)]
    if o == "OR": return [(OR(h, g), AND(l, k)) for (h, l), (g, k) in zip(*v)]
    if o == "ITE":
        ch, cl = v[0][0]
        return [(OR(AND(h, g), AND(ch, h), AND(cl, g)), AND(OR(l, k), OR(cl, l), OR(ch, k))) for (h, l), (g, k) in zip(v[1], v[2])]
    if o == "SX": return [v[0][0]] * (e.w - len(v[0])) + v[0] if e.w >= len(v[0]) else v[0][len(v[0]) - e.w:]
    if o == "ZX": return [(zero, one)] * (e.w - len(v[0])) + v[0] if e.w >= len(v[0]) else v[0][len(v[0]) - e.w:]
    if o == "SLICE": return [v[0][len(v[0]) - 1 - i] for i in a[0]]
    if o == "UPD":
        r = list(v[0])
        for i, x in zip(a[1], v[1]):
            r[len(r) - 1 - i] = x
        return r
    if o == "CAT": return [x for l in v for x in l]
    raise ValueError(o)

# ------------------------------------------------------------ pexlifs
def vname(n, w):
    return n if w == 1 else "%s[%d:0]" % (n, w - 1)
def bitname(n, w, i):
    """i counted from the MSB"""
    return n if w == 1 else "%s[%d]" % (n, w - 1 - i)
def q(s):
    return '"%s"' % s
def fa(pairs):
    return flist(["(%s,%s)" % (q(f), flist([q(x) for x in a])) for f, a in pairs])

class Node:
    """one assignment: name, width, expression over visible names, delayed?"""
    def __init__(self, name, w, e, delay=False):
        self.name, self.w, self.e, self.delay = name, w, e, delay

class Shape:
    """how a vector of w bits is declared and referred to: declarations, the name of the whole, names of the bits (MSB first),
    and names of sub-vectors (name, first bit, one past the last)"""
    def __init__(self, decls, full, bits, subs=()):
        self.decls, self.full, self.bits, self.subs = decls, full, bits, list(subs)

def std_shape(n, w):
    return Shape([vname(n, w)], vname(n, w), [bitname(n, w, i) for i in range(w)])

def rrange(rng, k, at=None):
    """a random index specification with k indices -> (text, indices)"""
    lo = rng.choice((0, 0, 1, 3)) if at is None else at
    ix = list(range(lo, lo + k))
    if rng.random() < .5:
        ix.reverse()
    if k == 1:
        return "%d" % ix[0], ix
    if k > 2 and rng.random() < .35:
        cut = rng.randint(1, k - 1)
        parts = [ix[cut:], ix[:cut]]
        if rng.random() < .5:
            parts[1].reverse()
        ix = parts[0] + parts[1]
        return ",".join("%d:%d" % (x[0], x[-1]) if len(x) > 1 else "%d" % x[0] for x in parts), ix
    return "%d:%d" % (ix[0], ix[-1]), ix

def rshape(rng, n, w, internal=False):
    """a random declaration of a w-bit vector: ascending, descending and multiple ranges, offsets, two dimensions, fields"""
    if w == 1:
        return rng.choice([Shape([n], n, [n]), Shape([n + "[5]"], n + "[5]", [n + "[5]"])])
    k = rng.randrange(4)
    divs = [d for d in range(2, w) if w % d == 0]
    if k == 0 and internal and w > 1:
        h = rng.randint(1, w - 1)
        ds = ["%s[%d:%d]" % (n, w - 1, h) if w - 1 > h else "%s[%d]" % (n, h), "%s[%d:0]" % (n, h - 1) if h > 1 else "%s[0]" % n]
        if rng.random() < .5: ds.reverse()
        return Shape(ds, vname(n, w), [bitname(n, w, i) for i in range(w)])
    if k <= 2 and (divs or rng.random() < .5):
        r = rng.choice(divs) if divs else w
        t1, i1 = rrange(rng, r)
        t2, i2 = rrange(rng, w // r)
        mid, suf = rng.choice((("", ""), (".x", ""), ("", ".y"), ("/s", "")))
        full = "%s[%s]%s[%s]%s" % (n, t1, mid, t2, suf)
        bits = ["%s[%d]%s[%d]%s" % (n, a, mid, b, suf) for a in i1 for b in i2]
        subs = [("%s[%d]%s[%s]%s" % (n, a, mid, t2, suf), i * len(i2), (i + 1) * len(i2)) for i, a in enumerate(i1)]
        return Shape([full], full, bits, subs)
    t, ix = rrange(rng, w)
    return Shape(["%s[%s]" % (n, t)], "%s[%s]" % (n, t), ["%s[%d]" % (n, i) for i in ix],
                 [("%s[%d:%d]" % (n, ix[i], ix[i + 1]), i, i + 2) for i in range(w - 1) if abs(ix[i] - ix[i + 1]) == 1])

def pieces(rng, sh):
    """the vector as a list of actuals"""
    out, i, w = [], 0, len(sh.bits)
    if rng.random() < .3:
        return [sh.full]
    while i < w:
        c = [x for x in sh.subs if x[1] == i]
        if c and rng.random() < .7:
            x = rng.choice(c)
            out.append(x[0]); i = x[2]
        else:
            out.append(sh.bits[i]); i += 1
    return out

class Ckt:
    def __init__(self, ins, nodes, outs):
        self.ins, self.nodes, self.outs = list(ins), list(nodes), list(outs)    # ins: (name,w); outs: names
        self.w = dict(self.ins)
        self.w.update({n.name: n.w for n in self.nodes})
        self.shape = {n: std_shape(n, w) for n, w in self.w.items()}
        self.rng = None
    def reshape(self, rng):
        """give every vector a random declaration (used by naming style 3)"""
        seen = {n for n, _ in self.ins} | set(self.outs)
        self.shape = {n: rshape(rng, n, w, n not in seen) for n, w in self.w.items()}
        self.rng = rng
        return self
    def bn(self, n):
        return self.shape[n].bits
    def leaf(self, n, i, style, loc=None):
        """one leaf instance computing node n; formal names differ from actuals in style 1"""
        loc = loc or self.shape
        us = sorted(uses(n.e).items())
        ren = {u: (u if style == 0 else "f%d" % k) for k, (u, _) in enumerate(us)}
        out = n.name if style == 0 else "fo"
        kind = "W_PHASE_DELAY" if n.delay else "W_UPDATE_FN"
        rng = self.rng
        fsh = {u: std_shape(ren[u], w) for u, w in us}
        osh = std_shape(out, n.w)
        if style == 3:
            fsh = {u: rshape(rng, ren[u], w) if rng.random() < .5 else fsh[u] for u, w in us}
            if rng.random() < .5:
                osh = rshape(rng, out, n.w)
        def rn(e):
            if e.op == "VAR":
                u = e.a[0]
                return E("VAR", e.w, ren[u]) if fsh[u].full == vname(ren[u], e.w) else E("XVAR", e.w, fsh[u].full)
            return E(e.op, e.w, *[rn(x) if isinstance(x, E) else x for x in e.a])
        def actual(u, w):
            if style == 3:
                return pieces(rng, loc[u])
            if w == 1 or style in (0, 1):
                return [loc[u].full]
            # style 2: split into bit ranges
            h = w // 2
            return ["%s[%d:%d]" % (u, w - 1, h) if w - 1 > h else "%s[%d]" % (u, h)] + (["%s[%d:0]" % (u, h - 1)] if h > 1 else ["%s[0]" % u])
        lhs, rhs = '(W_VAR %d "%s")' % (n.w, out), rn(n.e)
        if osh.full != vname(out, n.w):
            lhs = '(W_EXPLICIT_VAR %d "%s")' % (n.w, osh.full)
        if style == 3 and n.w > 1:
            k = rng.randrange(4)
            if k == 0:
                h = rng.randint(1, n.w - 1)
                lhs = "(W_CAT [W_SLICE %s %s, W_SLICE %s %s])" % (flist([str(x) for x in range(n.w - 1, h - 1, -1)]), lhs,
                                                                   flist([str(x) for x in range(h - 1, -1, -1)]), lhs)
            elif k == 1:
                perm = list(range(n.w)); rng.shuffle(perm)
                lhs, rhs = "(W_SLICE %s %s)" % (flist([str(x) for x in perm]), lhs), E("SLICE", n.w, perm, rhs)
        return '(PINST "g%d" [] T %s %s [] (P_LEAF [%s %s %s]))' % (
            i, fa([(fsh[u].full, actual(u, w)) for u, w in us]), fa([(osh.full, actual(n.name, n.w))]), kind, lhs, fl(rhs))
    def pexlif(self, style=0, groups=None):
        """style: naming of formals/actuals (3: random declarations, call reshape first); groups: split the nodes into sub-hierarchies"""
        if isinstance(groups, Tree):
            return tree_pexlif(self, self.rng, groups)
        sh = self.shape
        internals = [n.name for n in self.nodes if n.name not in self.outs]
        top_in = [(sh[n].full, [sh[n].full]) for n, w in self.ins]
        top_out = [(sh[o].full, [sh[o].full]) for o in self.outs]
        if groups:
            ch = []
            for gi, g in enumerate(groups):
                made = {self.nodes[i].name for i in g}
                used = set()
                for i in g:
                    used |= set(uses(self.nodes[i].e))
                inp = sorted(used - made)
                outside = set(self.outs)
                for i, n in enumerate(self.nodes):
                    if i not in g:
                        outside |= set(uses(n.e))
                out = sorted(made & outside)
                inner = sorted(made - outside)
                loc = dict(sh)
                act = lambda x: [sh[x].full]
                if style == 3:
                    rng = self.rng
                    loc.update({x: rshape(rng, "p%d_%s" % (gi, x), self.w[x]) for x in inp + out if rng.random() < .7})
                    act = lambda x: pieces(rng, sh[x])
                mem = [self.leaf(self.nodes[i], i, style, loc) for i in g]
                ch.append('(PINST "h%d" [] F %s %s %s (P_HIER %s))' % (
                    gi, fa([(loc[x].full, act(x)) for x in inp]), fa([(loc[x].full, act(x)) for x in out]),
                    flist([q(d) for x in inner for d in sh[x].decls]), flist(mem)))
                internals = [x for x in internals if x not in inner]
        else:
            ch = [self.leaf(n, i, style) for i, n in enumerate(self.nodes)]
        return '(PINST "top" [] F %s %s %s (P_HIER %s))' % (fa(top_in), fa(top_out), flist([q(d) for x in internals for d in sh[x].decls]), flist(ch))

    # ---------------------------------------------------------- reference
    def order(self):
        done, out = set(n for n, _ in self.ins) | {n.name for n in self.nodes if n.delay}, []
        rest = [n for n in self.nodes if not n.delay]
        while rest:
            for n in rest:
                if all(u in done for u in uses(n.e)):
                    out.append(n); done.add(n.name); rest.remove(n)
                    break
            else:
                raise ValueError("combinational loop")
        return out

def tuples(ant):
    return flist(["(%s,%s,%s,%d,%d)" % (w, q(n), v, f, t) for w, n, v, f, t in ant])

def ste_expr(ckt_fl, ant, cons=(), wl=(), trl=(), obs=(), opts="-e", verdicts=(), b=False, extra=""):
    """fl list: H,L for each (node,time) in obs and then the verdicts"""
    p = "b" if b else ""
    r = ["val (h,l) = %sget_trace_val s %s %d in [h,l]" % (p, q(n), t) for n, t in obs]
    vs = ["[%sget_ste_result s %s]" % (p, q(v)) for v in verdicts]
    return ("let c = pexlif2fsm %s in let s = %sSTE %s c %s %s %s %s in %s flat %s"
            % (ckt_fl, p, q(opts), flist(["(%s,%s,%d,%d)" % (w, q(n), f, t) for w, n, f, t in wl]), tuples(ant), tuples(cons),
               flist(["(%s,%d,%d)" % (q(n), f, t) for n, f, t in trl]), extra, flist(["(%s)" % x for x in r + vs])))

# ------------------------------------------------------------ arbitrary wiring
import re as _re
_IX = _re.compile(r"^(.*)\[(\d+)\](\D*)$")
def actuals(rng, bits):
    """a list of bit names as actuals, neighbouring indices of one vector sometimes written as a range"""
    out, i = [], 0
    while i < len(bits):
        m = _IX.match(bits[i])
        j, d = i, 0
        if m and rng.random() < .8:
            a = int(m.group(2))
            while j + 1 < len(bits):
                k = _IX.match(bits[j + 1])
                if not k or k.group(1) != m.group(1) or k.group(3) != m.group(3): break
                s = int(k.group(2)) - (a if j == i else b)
                if abs(s) != 1 or (d and s != d): break
                d, b, j = s, int(k.group(2)), j + 1
        if j > i:
            out.append("%s[%s:%d]%s" % (m.group(1), m.group(2), b, m.group(3)))
        else:
            out.append(bits[i])
        i = j + 1
    return out

def ports(rng, need, names, dup):
    """need: list of keys -> [(Shape, keys MSB first)], {key: local bit name}; a port collects arbitrary keys in arbitrary order"""
    need = list(need)
    if rng.random() < .7:
        rng.shuffle(need)
    out, loc, i = [], {}, 0
    while i < len(need):
        k = min(len(need) - i, rng.randint(1, 6))
        ks = need[i:i + k]
        i += k
        if dup and rng.random() < .35:
            for _ in range(rng.randint(1, 2)):
                ks.insert(rng.randrange(len(ks) + 1), rng.choice(need))
        sh = rshape(rng, names(), len(ks))
        out.append((sh, ks))
        for b, x in zip(sh.bits, ks):
            if x not in loc or rng.random() < .5:
                loc[x] = b
    return out, loc

class Tree:
    """a hierarchy of instances over the nodes of a circuit: kids are node indices or Trees"""
    def __init__(self, kids, name="h"):
        self.kids, self.name = kids, name
    def leaves(self):
        return [y for x in self.kids for y in (x.leaves() if isinstance(x, Tree) else [x])]

def rtree(rng, n, depth=3, wrap=0.0):
    def go(ix, d, top):
        ix = list(ix); rng.shuffle(ix)
        kids = []
        while ix:
            k = rng.randint(1, max(1, len(ix) if not top or len(ix) < 3 else len(ix) - 1))
            g, ix = ix[:k], ix[k:]
            if d > 0 and rng.random() < .75:
                kids.append(go(g, d - 1, False))
            else:
                kids += g
        return Tree(kids, "_WrApPeR_" if not top and rng.random() < wrap else "h%d" % rng.randrange(100))
    return go(range(n), depth, True)

POOL = ["t0", "t1", "x", "n0", "n1", "a", "b", "net", "i0/u", "q.r", "_$1_t0", "t"]
def tree_pexlif(ck, rng, tree):
    """ck as a hierarchy with arbitrary ports at every level and internal names that collide between levels"""
    sh = ck.shape
    allbits = lambda n: [(n, i) for i in range(ck.w[n])]
    cnt = [0]
    def used(ix):
        return {b for i in ix for u in uses(ck.nodes[i].e) for b in allbits(u)}
    def made(ix):
        return {b for i in ix for b in allbits(ck.nodes[i].name)}
    everything = set(range(len(ck.nodes)))
    topout = {b for o in ck.outs for b in allbits(o)}
    def namer(taken):
        def f():
            for _ in range(20):
                n = rng.choice(POOL)
                if n not in taken:
                    taken.add(n); return n
            cnt[0] += 1
            return "z%d_" % cnt[0]
        return f
    def inst(kid, loc):
        """text of an instance whose surrounding names are loc: key -> bit name"""
        ix = kid.leaves() if isinstance(kid, Tree) else [kid]
        M = made(ix)
        inp = sorted(used(ix) - M) if isinstance(kid, Tree) else sorted(used(ix))
        outside = topout | used(everything - set(ix))
        nm = namer(set())
        pi, li = ports(rng, inp, nm, True)
        fi = fa([(s.full, actuals(rng, [loc[k] for k in ks])) for s, ks in pi])
        if not isinstance(kid, Tree):
            n = ck.nodes[kid]
            po, lo = ports(rng, sorted(M), nm, False)
            fo = fa([(s.full, actuals(rng, [loc[k] for k in ks])) for s, ks in po])
            where = {}
            for s, ks in pi:
                for j, k in enumerate(ks):
                    if li.get(k) == s.bits[j]:
                        where[k] = (s, j)
            def ref(s):
                m = _re.fullmatch(r"(\w+)(?:\[(\d+):0\])?", s.full)
                if m and s.full == vname(m.group(1), len(s.bits)) and rng.random() < .5:
                    return E("VAR", len(s.bits), m.group(1))
                return E("XVAR", len(s.bits), s.full)
            def rn(e):
                if e.op == "VAR":
                    ks, parts, i = allbits(e.a[0]), [], 0
                    while i < len(ks):
                        s, j = where[ks[i]]
                        idx = [j]
                        while i + len(idx) < len(ks) and where[ks[i + len(idx)]][0] is s:
                            idx.append(where[ks[i + len(idx)]][1])
                        i += len(idx)
                        w = len(s.bits)
                        parts.append(ref(s) if idx == list(range(w)) else sl([w - 1 - x for x in idx], ref(s)))
                    return parts[0] if len(parts) == 1 else cat(*parts)
                return E(e.op, e.w, *[rn(x) if isinstance(x, E) else x for x in e.a])
            # left-hand sides: every output port is one function of a slice of the expression, or all ports at once
            kind = "W_PHASE_DELAY" if n.delay else "W_UPDATE_FN"
            ex = rn(n.e)
            def lhs(s):
                m = _re.fullmatch(r"(\w+)(?:\[(\d+):0\])?", s.full)
                if m and s.full == vname(m.group(1), len(s.bits)) and rng.random() < .5:
                    return '(W_VAR %d "%s")' % (len(s.bits), m.group(1))
                return '(W_EXPLICIT_VAR %d "%s")' % (len(s.bits), s.full)
            part = lambda ks: sl([n.w - 1 - k[1] for k in ks], ex) if [k[1] for k in ks] != list(range(n.w)) else ex
            if len(po) > 1 and rng.random() < .5:
                ks = [k for _, x in po for k in x]
                fns = ["%s (W_CAT %s) %s" % (kind, flist([lhs(s) for s, _ in po]), fl(part(ks)))]
            else:
                fns = ["%s %s %s" % (kind, lhs(s), fl(part(ks))) for s, ks in po]
            cnt[0] += 1
            return '(PINST "g%d" [] T %s %s [] (P_LEAF %s))' % (cnt[0], fi, fo, flist(fns))
        outb = sorted(M & outside)
        po, lo = ports(rng, outb, nm, False)
        fo = fa([(s.full, actuals(rng, [loc[k] for k in ks])) for s, ks in po])
        inner, ints = dict(li), []
        inner.update(lo)
        # nets between the children of this instance
        seen = set()
        for k2 in kid.kids:
            ix2 = k2.leaves() if isinstance(k2, Tree) else [k2]
            seen |= made(ix2) & ((topout | used(everything - set(ix2))) if isinstance(k2, Tree) else made(ix2))
        rest = sorted(seen - set(outb))
        by, k = {}, 0
        pp, lx = ports(rng, rest, nm, False)
        inner.update(lx)
        ints = [s.full for s, _ in pp]
        return '(PINST %s [] F %s %s %s (P_HIER %s))' % (q(kid.name), fi, fo, flist([q(x) for x in ints]), flist([inst(x, inner) for x in kid.kids]))
    loc = {(n, i): sh[n].bits[i] for n in ck.w for i in range(ck.w[n])}
    vis = {n for n, _ in ck.ins} | set(ck.outs)
    direct = set()
    for k2 in tree.kids:
        ix2 = k2.leaves() if isinstance(k2, Tree) else [k2]
        b = made(ix2) & ((topout | used(everything - set(ix2))) if isinstance(k2, Tree) else made(ix2))
        direct |= {n for n, _ in b}
    ints = [d for n in sorted(direct - vis) for d in sh[n].decls]
    kids = [inst(x, loc) for x in tree.kids]
    return '(PINST "top" [] F %s %s %s (P_HIER %s))' % (
        fa([(sh[n].full, [sh[n].full]) for n, w in ck.ins]), fa([(sh[o].full, [sh[o].full]) for o in ck.outs]), flist([q(d) for d in ints]), flist(kids))

def tree_visible(ck, tree):
    """nets that have their name at the top level (all bits of the net are seen there)"""
    return [n for n, _ in ck.ins] + list(ck.outs)

# ------------------------------------------------------------ reference trajectory
ONE, ZERO = z3.BoolVal(True), z3.BoolVal(False)
X = (ONE, ONE)

def bitnames(n, w):
    return [bitname(n, w, i) for i in range(w)]

def step(ck, prev, ins, ant=None, weak=None):
    """values of all node bits in one phase.  prev: name -> [(H,L)] of the previous
    phase (None: everything X); ins: excitation of the inputs"""
    cur = {}
    def fin(name, vals):
        w, out = ck.w[name], []
        for i, (h, l) in enumerate(vals):
            b = ck.bn(name)[i]
            if weak and b in weak:
                h, l = z3.Or(h, weak[b]), z3.Or(l, weak[b])
            for (g, v) in (ant or {}).get(b, []):
                h, l = z3.And(h, z3.Or(z3.Not(g), v)), z3.And(l, z3.Or(z3.Not(g), z3.Not(v)))
            out.append((h, l))
        cur[name] = out
    for n, w in ck.ins:
        fin(n, [X] * w)
    for n in ck.nodes:
        if n.delay:
            fin(n.name, [X] * n.w if prev is None else qsem(n.e, prev))
    for n in ck.order():
        fin(n.name, qsem(n.e, cur))
    return cur

def settle(ck):
    """constants propagate through the circuit before the first phase"""
    cur = step(ck, None, None)
    for _ in range(len(ck.nodes) + 1):
        cur = step(ck, cur, None)
    return {n: [(z3.simplify(h), z3.simplify(l)) for h, l in v] for n, v in cur.items()}

def trajectory(ck, ant, wl, t0, t1, env):
    """ant: (guard, bit, value, from, to) with z3 terms; wl: (guard, bit, from, to)
    -> list of phase valuations t0..t1"""
    prev, out = settle(ck), []
    for t in range(t0, t1 + 1):
        a, wk = {}, {}
        for g, b, v, f, u in ant:
            if f <= t < u:
                a.setdefault(b, []).append((g, v))
        for g, b, f, u in wl:
            if f <= t < u:
                wk[b] = z3.Or(wk[b], g) if b in wk else g
        prev = step(ck, prev, None, a, wk)
        out.append(prev)
    return out

def look(ck, val, bit):
    for n, w in ck.w.items():
        for i, b in enumerate(ck.bn(n)):
            if b == bit:
                return val[n][i]
    raise KeyError(bit)

def qeq(a, b):
    return z3.And(a[0] == b[0], a[1] == b[1])

# ------------------------------------------------------------ random material
BASIC = ("AND", "OR", "NOT", "ITE", "SX", "ZX", "SLICE", "UPD", "CAT", "CONST")
ARITH = ("ADD", "SUB", "MUL", "EQ", "GR", "SHL", "SHR", "ASHR")
def rexpr(rng, avail, w, d, ops):
    """random expression of width w over avail (name -> width)"""
    same = [n for n, k in avail.items() if k == w]
    if d <= 0 or rng.random() < .15:
        if same and rng.random() < .9:
            return var(rng.choice(same), w)
        n = rng.choice(sorted(avail))
        k = avail[n]
        if k == w:
            return var(n, w)
        if k > w:
            return sl(sorted(rng.sample(range(k), w), reverse=True), var(n, k))
        return (sx if rng.random() < .5 else zx)(w, var(n, k))
    sub = lambda ww: rexpr(rng, avail, ww, d - 1, ops)
    o = rng.choice(ops)
    if o == "NOT": return not_(sub(w))
    if o == "ITE": return ite(sub(1), sub(w), sub(w))
    if o in ("SX", "ZX"):
        k = rng.randint(1, w)
        return (sx if o == "SX" else zx)(w, sub(k))
    if o == "SLICE":
        k = w + rng.randint(0, 2)
        return sl([rng.randrange(k) for _ in range(w)], sub(k))
    if o == "UPD":
        k = rng.randint(1, w)
        return upd(sub(w), sorted(rng.sample(range(w), k), reverse=rng.random() < .5), sub(k))
    if o == "CAT":
        if w == 1: return sub(1)
        k = rng.randint(1, w - 1)
        return cat(sub(k), sub(w - k))
    if o == "CONST": return const(w, rng.randrange(1 << w))
    if o in ("EQ", "GR"):
        k = rng.randint(1, 3)
        e = bop(o, sub(k), sub(k))
        return e if w == 1 else (sx if rng.random() < .5 else zx)(w, e)
    return bop(o, sub(w), sub(w))

def rckt(rng, ins, nnodes, ops, delays=0, depth=2, maxw=3):
    """random circuit without combinational loops; the first `delays` nodes are registers"""
    w = dict(ins)
    names = ["n%d" % i for i in range(nnodes)]
    ws = {n: rng.randint(1, maxw) for n in names}
    nodes = []
    for i, n in enumerate(names):
        if i < delays:
            avail = dict(w, **ws)
            nodes.append(Node(n, ws[n], rexpr(rng, avail, ws[n], 1, ops), True))
        else:
            avail = dict(w, **{m: ws[m] for m in names[:i]})
            nodes.append(Node(n, ws[n], rexpr(rng, avail, ws[n], depth, ops), False))
    # nodes that nobody reads are outputs; plus the last one
    read = set()
    for n in nodes:
        read |= set(uses(n.e))
    outs = [n.name for n in nodes if n.name not in read] or [names[-1]]
    order = list(nodes)
    rng.shuffle(order)
    return Ckt(ins, order, outs)

def rgroups(rng, ck):
    idx = list(range(len(ck.nodes)))
    rng.shuffle(idx)
    k = rng.randint(1, max(1, len(idx) - 1))
    gs = [sorted(idx[:k]), sorted(idx[k:])]
    return [g for g in gs if g]

class Pick:
    """fresh symbolic inputs with a common prefix"""
    def __init__(self, p):
        self.p, self.vars = p, []
    def new(self, s):
        n = "%s_%s" % (self.p, s)
        if n not in self.vars:
            self.vars.append(n)
        return n

def drive(pk, ck, t0=0, t1=1, tag="", names=None):
    """every bit of every input driven in [t0,t1)"""
    out = []
    for n, w in ck.ins:
        if names and n not in names:
            continue
        for i, b in enumerate(ck.bn(n)):
            out.append(("T", b, pk.new("%s%s%d" % (n, tag, i)), t0, t1))
    return out

def tr(kind, tuples_):
    """fl guard/values for kind (bexpr constants differ)"""
    if kind == "bool":
        return tuples_
    m = {"T": "bT", "F": "bF"}
    return [tuple(m.get(x, x) if isinstance(x, str) else x for x in t) for t in tuples_]

def zt(env, s):
    return ONE if s in ("T", "bT") else ZERO if s in ("F", "bF") else env[s]

def zant(env, ant):
    return [(zt(env, g), b, zt(env, v), f, t) for g, b, v, f, t in ant]
def zwl(env, wl):
    return [(zt(env, g), b, f, t) for g, b, f, t in wl]

def comb_case(name, ck, kind="bool", style=0, groups=None, assume=None, vals=None, opts="-e"):
    """fully driven combinational circuit: every node bit is the two-valued function of the inputs"""
    pk = Pick("st" if kind == "bool" else "bst")
    ant = drive(pk, ck)
    obs = [(b, 0) for n in ck.nodes for b in ck.bn(n.name) if n.name in ck.outs or groups is None]
    expr = ste_expr(ck.pexlif(style, groups), tr(kind, ant), obs=obs, opts=opts, verdicts=("trajOK",), b=kind == "bexpr",
                    trl=[(b, 0, 1) for b, _ in obs] if "-e" not in opts else ())
    def inenv(env):
        return {n: [env[v] for v in [pk.new("%s%d" % (n, i)) for i in range(w)]] for n, w in ck.ins}
    def check(env, r):
        vals = inenv(env)
        for n in ck.order():
            vals[n.name] = sem(n.e, vals)
        want = [vals[n.name][i] for n in ck.nodes for i in range(n.w) if n.name in ck.outs or groups is None]
        return z3.And(*([z3.And(r[2 * i] == v, r[2 * i + 1] == z3.Not(v)) for i, v in enumerate(want)] + [r[-1]]))
    return Case(name, pk.vars, expr, check, kind=kind, load="ste.fl", assume=(lambda env: assume(inenv(env))) if assume else None)

def guarded(name, ck, kind="bool", exact=False, style=0):
    """inputs driven only when their guard holds: the observed value is sound for every
    completion, never contradictory, and gains information when more inputs are driven"""
    pk = Pick("sg" if kind == "bool" else "bsg")
    ant, gs, vs = [], [], []
    for n, w in ck.ins:
        for i, b in enumerate(ck.bn(n)):
            g, v = pk.new("w%s%d" % (n, i)), pk.new("%s%d" % (n, i))
            gs.append(g); vs.append(v)
            ant.append((g, b, v, 0, 1))
    obs = [(b, 0) for n in ck.nodes for b in ck.bn(n.name)]
    expr = ste_expr(ck.pexlif(style), ant, obs=obs, verdicts=("trajOK",), b=kind == "bexpr")
    def check(env, r):
        comp = {}
        for n, w in ck.ins:
            comp[n] = [z3.If(env["%s_w%s%d" % (pk.p, n, i)], env["%s_%s%d" % (pk.p, n, i)], z3.Bool("u_%s%d" % (n, i))) for i in range(w)]
        two = dict(comp)
        for n in ck.order():
            two[n.name] = sem(n.e, two)
        out = [r[-1]]
        k = 0
        # another valuation with more guards set
        more = [(z3.Bool(g), z3.Or(z3.Bool(g), z3.Bool("m_" + g))) for g in gs]
        sub = lambda t: z3.substitute(t, *more) if not z3.is_true(t) and not z3.is_false(t) else t
        for n in ck.nodes:
            for i in range(n.w):
                h, l = r[k], r[k + 1]
                k += 2
                v = two[n.name][i]
                out += [z3.Or(h, l), z3.Implies(v, h), z3.Implies(z3.Not(v), l)]
                out += [z3.Implies(sub(h), h), z3.Implies(sub(l), l)]
        if exact:
            four = {n: [(z3.Or(z3.Not(env["%s_w%s%d" % (pk.p, n, i)]), env["%s_%s%d" % (pk.p, n, i)]),
                         z3.Or(z3.Not(env["%s_w%s%d" % (pk.p, n, i)]), z3.Not(env["%s_%s%d" % (pk.p, n, i)]))) for i in range(w)] for n, w in ck.ins}
            for n in ck.order():
                four[n.name] = qsem(n.e, four)
            k = 0
            for n in ck.nodes:
                for i in range(n.w):
                    out.append(qeq((r[k], r[k + 1]), four[n.name][i]))
                    k += 2
        return z3.And(*out)
    return Case(name, pk.vars, expr, check, kind=kind, load="ste.fl")

def traj_case(name, ck, ant, cons, wl, pk, obs, kind="bool", verdicts=("antOK", "trajOK", "consOK", "checkOK", "implies", "strong", ""),
              style=0, opts="-e", t1=None, trl=(), groups=None, compare_obs=True):
    """trace values and verdicts against the reference trajectory"""
    ev = [t[-2] for t in list(ant) + list(cons) + list(wl) + list(trl)] + [t[-1] for t in list(ant) + list(cons) + list(wl) + list(trl)]
    t0, tmax = min(ev), max(ev) + 1
    expr = ste_expr(ck.pexlif(style, groups), tr(kind, ant), tr(kind, cons), tr(kind, wl), trl, obs, opts, verdicts, b=kind == "bexpr")
    def check(env, r):
        tj = trajectory(ck, zant(env, ant), zwl(env, wl), t0, tmax, env)
        out = []
        for i, (b, t) in enumerate(obs):
            out.append(qeq((r[2 * i], r[2 * i + 1]), look(ck, tj[t - t0], b)))
        trajok, checkok = [ONE], [ONE]
        for g, b, v, f, u in ant:
            for t in range(f, u):
                h, l = look(ck, tj[t - t0], b)
                trajok.append(z3.Or(h, l))
        for g, b, v, f, u in cons:
            for t in range(f, u):
                h, l = look(ck, tj[t - t0], b)
                G, V = zt(env, g), zt(env, v)
                # H -> (not g or v), L -> (not g or not v)
                checkok += [z3.Implies(z3.And(G, z3.Not(V)), z3.Not(h)), z3.Implies(z3.And(G, V), z3.Not(l))]
        T, C = z3.And(*trajok), z3.And(*checkok)
        want = {"antOK": ONE, "trajOK": T, "consOK": ONE, "checkOK": C, "implies": z3.Implies(T, C), "strong": z3.And(T, C), "": z3.And(T, C)}
        for v, x in zip(verdicts, r[2 * len(obs):]):
            out.append(x == want[v])
        return z3.And(*out)
    return Case(name, pk.vars, expr, check, kind=kind, load="ste.fl")

def rtraj(rng, name, ck, T, kind="bool", overlap=True, weak=True, internal=True, obs_all=True, guards=True, style=0, groups=None, opts="-e", nvars=10):
    """random antecedent/consequent/weakening tuples over a random circuit"""
    pk = Pick("tj" if kind == "bool" else "btj")
    seen = [n for n, _ in ck.ins] + list(ck.outs)
    bits = [(n, b) for n, w in ck.w.items() for b in ck.bn(n) if not groups or n in seen]
    inb = [b for n, w in ck.ins for b in ck.bn(n)]
    pool_ = lambda: pk.new("v%d" % rng.randrange(nvars))
    def guard():
        return "T" if not guards or rng.random() < .4 else pool_()
    def iv(used, b):
        for _ in range(20):
            f = rng.randrange(T); t = rng.randint(f + 1, T)
            if overlap or all(t <= x or f >= y for x, y in used.get(b, [])):
                used.setdefault(b, []).append((f, t))
                return f, t
        return None
    ant, cons, wl = [], [], []
    ua, uc, uw = {}, {}, {}
    for _ in range(rng.randint(3, 8)):
        b = rng.choice(inb) if not internal or rng.random() < .6 else rng.choice(bits)[1]
        v = iv(ua, b)
        if v: ant.append((guard(), b, pool_() if rng.random() < .8 else rng.choice("TF"), v[0], v[1]))
    for _ in range(rng.randint(2, 5)):
        b = rng.choice(bits)[1]
        v = iv(uc, b)
        if v: cons.append((guard(), b, pool_(), v[0], v[1]))
    if weak:
        for _ in range(rng.randint(0, 3)):
            b = rng.choice(bits)[1]
            v = iv(uw, b)
            if v: wl.append((guard(), b, v[0], v[1]))
    obs = [(b, t) for t in range(T) for _, b in bits]
    if len(obs) > 24:
        obs = rng.sample(obs, 24)
    t0 = min(t[-2] for t in ant + cons + wl)
    obs = [(b, t) for b, t in obs if t >= t0]
    trl = [(b, t0, T + 1) for b in sorted({b for b, _ in obs})] if "-e" not in opts else []
    return traj_case(name, ck, ant, cons, wl, pk, obs, kind=kind, style=style, opts=opts, trl=trl, groups=groups)
