"""Symbolic execution of the real fl interpreter + z3.

A Case is an fl expression over symbolic Boolean inputs.  The interpreter that
was just compiled from /repo evaluates it with every input bound to a fresh
BDD (or bexpr) variable, so one run covers all values of the inputs; the
resulting formulas are exported (bdd_save / bexpr_save), rebuilt as z3 terms,
and z3 decides whether the property can be false for any input.  A
counterexample is replayed on the interpreter (inputs bound to constants, and
a second fresh symbolic run) before it is reported."""
import os, re, subprocess, time, traceback, random, shutil, resource, multiprocessing, hashlib
import z3
import vrun

class Case:
    def __init__(self, name, vars, expr, check, pre="", kind="bool", order=None, functional=True, load="",
                 assume=None, tmo=120, concrete=True, expect_error=False, ztmo=None):
        """vars: names; expr: fl text of type `kind list`; check(env,res)->z3 Bool that must be valid
        assume(env)->z3 Bool restricts the inputs (stated in bounds)"""
        self.name, self.vars, self.expr, self.check, self.pre = name, list(vars), expr, check, pre
        self.kind, self.order, self.functional, self.load = kind, order or list(vars), functional, load
        self.assume, self.tmo, self.concrete, self.ztmo = assume, tmo, concrete, ztmo

def vec(name, n):
    """MSB first names"""
    return ["%s_%d" % (name, i) for i in range(n - 1, -1, -1)]
def flist(xs):
    return "[" + ",".join(xs) + "]"
def interleave(*vs):
    out = []
    for i in range(max((len(v) for v in vs), default=0)):
        for v in vs:
            if i < len(v):
                out.append(v[len(v) - 1 - i])
    return out[::-1]

# ---- spec helpers over z3 -------------------------------------------------
def b2bv(bits):
    """MSB-first list of z3 Bool -> unsigned z3 bit-vector"""
    bs = [z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in bits]
    return bs[0] if len(bs) == 1 else z3.Concat(*bs)
def U(bits, w):
    if not bits:
        return z3.BitVecVal(0, w)
    v = b2bv(bits)
    if len(bits) > w:
        raise ValueError("width %d > %d" % (len(bits), w))
    return z3.ZeroExt(w - len(bits), v)
def S(bits, w):
    if not bits:
        return z3.BitVecVal(0, w)
    v = b2bv(bits)
    if len(bits) > w:
        raise ValueError("width %d > %d" % (len(bits), w))
    return z3.SignExt(w - len(bits), v)

PRELUDE = r'''
let vv__doit nm {f:: void -> bool list} =
  ((let l = f () in (length l = (-1)) => () | (bdd_save nm l) fseq (fprintf stderr "VVOK %s\n" nm))
     gen_catch (\m. fprintf stderr "VVFAIL %s %s VVEND\n" nm m)) fseq ();
let vv__bdoit nm {f:: void -> bexpr list} =
  ((let l = f () in (length l = (-1)) => () | (bexpr_save nm l) fseq (fprintf stderr "VVOK %s\n" nm))
     gen_catch (\m. fprintf stderr "VVFAIL %s %s VVEND\n" nm m)) fseq ();
'''

def _limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f

ENV = {}

def run_fl(exe, text, cwd, tmo=120, mem=3 << 30, stdin_text=None, env_extra=None):
    """-> (rc or 'timeout', output)"""
    f = os.path.join(cwd, "in.fl")
    with open(f, "w") as fh:
        fh.write(text)
    T = os.path.join(cwd, "T")
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(cwd, ".vossrc"), "w") as fh:
        fh.write("RECURSION-CALL-LIMIT = 1000000\n")
    env = dict(os.environ, USER="verif", HOME=cwd, **(env_extra or ENV))
    with open(os.path.join(cwd, ".vossrc"), "a") as fh:
        for l in env.pop("VV_RC", "").split(";"):
            fh.write(l.strip() + "\n" if l.strip() else "")
    out = open(os.path.join(cwd, "out.txt"), "wb")
    args = env.pop("VV_FLARGS", "").split()
    p = subprocess.Popen([exe, "-noX", "-T", T] + args + ["-F", f], cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, preexec_fn=_limits(mem))
    try:
        rc = p.wait(timeout=tmo)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        rc = "timeout"
    out.close()
    return rc, open(os.path.join(cwd, "out.txt"), errors="replace").read()[-200000:]

def parse_saved(path):
    """-> (kind, names, nodes, roots); nodes: list of ('bdd',var,l,r) or ('and',i,j)"""
    names, nodes, roots = [], [], []
    kind = None
    with open(path) as fh:
        for line in fh:
            t = line.split()
            if not t:
                continue
            if t[0].startswith("SAVED_"):
                kind = t[0]
            elif t[0] == "v":
                names.append(t[1])
                if kind == "SAVED_BEXPRS":
                    nodes.append((t[1],))
            elif t[0] == "n":
                nodes.append((int(t[1]), t[2], t[3]))
            elif t[0] == "a":
                nodes.append((t[1], t[2]))
            elif t[0] == "r":
                roots.append(t[1])
    return kind, names, nodes, roots

def to_z3(saved):
    """saved formulas as z3 Bools over Bool(varname)"""
    kind, names, nodes, roots = saved
    vs = [z3.Bool(n) for n in names]
    if kind == "SAVED_BDDS":
        tab = [z3.BoolVal(False)]
        def ref(s):
            neg = s.startswith("-")
            e = tab[abs(int(s))]
            return z3.Not(e) if neg else e
        for v, l, r in nodes:
            tab.append(z3.If(vs[v], ref(l), ref(r)))
        return [ref(r) for r in roots]
    if kind == "SAVED_BEXPRS":
        tab = [z3.BoolVal(False), z3.BoolVal(True)]
        def ref(s):
            neg = s.startswith("-")
            e = tab[abs(int(s))]
            return z3.Not(e) if neg else e
        for n in nodes:
            tab.append(z3.Bool(n[0]) if len(n) == 1 else z3.And(ref(n[0]), ref(n[1])))
        return [ref(r) for r in roots]
    raise ValueError("unknown format")

def eval_saved(saved, asg):
    """independent evaluation of the exported formulas under a total assignment"""
    kind, names, nodes, roots = saved
    if kind == "SAVED_BDDS":
        tab = [False]
        ref = lambda s: (not tab[-int(s)]) if s.startswith("-") else tab[int(s)]
        for v, l, r in nodes:
            tab.append(ref(l) if asg.get(names[v], False) else ref(r))
    else:
        tab = [False, True]
        ref = lambda s: (not tab[-int(s)]) if s.startswith("-") else tab[int(s)]
        for n in nodes:
            tab.append(bool(asg.get(n[0], False)) if len(n) == 1 else (ref(n[0]) and ref(n[1])))
    return [ref(r) for r in roots]

def canon_problem(saved):
    """why the nodes of an exported BDD file are not one reduced, ordered, shared diagram ("" if they are): with any such
    node two equal functions compare as different (or an operation meets an ill-ordered argument)"""
    kind, names, nodes, roots = saved
    if kind != "SAVED_BDDS":
        return ""
    seen, edges = {}, {}
    neg = lambda r: ("+" if r[0] == "-" else "-") + r[1:]
    for i, (v, l, r) in enumerate(nodes):
        if l == r:
            return "node on %s with equal sons" % names[v]
        if (v, l, r) in seen or (v, neg(l), neg(r)) in seen:
            return "two different nodes on %s for the same function" % names[v]
        seen[(v, l, r)] = i
        for x in (l, r):
            k = abs(int(x))
            if k:
                w = nodes[k - 1][0]
                if w == v:
                    return "node on %s with a son on the same variable" % names[v]
                edges.setdefault(v, set()).add(w)
    indeg = {}
    for v in edges:
        for w in edges[v]:
            indeg[w] = indeg.get(w, 0) + 1
    todo = [v for v in edges if not indeg.get(v)]
    left = set(edges)
    while todo:
        v = todo.pop()
        left.discard(v)
        for w in edges.get(v, ()):
            indeg[w] -= 1
            if indeg[w] == 0:
                todo.append(w)
    if left:
        return "no variable order is consistent with the nodes on %s" % ",".join(sorted(names[v] for v in left)[:6])
    return ""

def case_text(case, outfile, asg=None, declared=None):
    out = []
    var, T, F = ("variable", "T", "F") if case.kind == "bool" else ("bvariable", "bT", "bF")
    for v in case.order:
        if declared is not None:
            if (case.kind, v) in declared:
                continue
            declared.add((case.kind, v))
        if asg is None:
            out.append('let %s = %s "%s";' % (v, var, v))
        else:
            out.append("let %s = %s;" % (v, T if asg.get(v) else F))
    if case.order:      # top-level bindings are lazy: create the variables in this order now
        out.append("let vv__ord = length (%s %s);\n(vv__ord > 0 => 1 | 0) gen_catch (\\m. 0);" % ("depends" if case.kind == "bool" else "bdepends", flist(case.order)))
    if case.pre:
        out.append(case.pre)
    out.append('%s "%s" (\\vv__u. %s);' % ("vv__doit" if case.kind == "bool" else "vv__bdoit", outfile, case.expr))
    return "\n".join(out) + "\n"

def remark(t):
    return "".join("// %s\n" % l for l in str(t).splitlines())

def script(cases, dirn, asgs=None):
    loads, body = [], []
    declared = set()
    for i, c in enumerate(cases):
        for l in c.load.split():
            s = 'load "%s";' % l
            if s not in loads:
                loads.append(s)
    for i, c in enumerate(cases):
        # a fresh declaration whenever the kind of a name could differ or assignments are used
        body.append(case_text(c, os.path.join(dirn, "r%d" % i), None if asgs is None else asgs, None))
    return "\n".join(loads) + PRELUDE + "".join(body) + "\nquit;\n"

def fetch(cases, dirn, rc, out):
    res = []
    for i, c in enumerate(cases):
        p = os.path.join(dirn, "r%d" % i)
        if ("VVOK " + p + "\n") in out and os.path.exists(p):
            try:
                res.append(("ok", parse_saved(p)))
            except Exception as e:
                res.append(("inc", "cannot parse exported formula: %r" % e))
        else:
            m = re.search(r"VVFAIL " + re.escape(p) + r" (.*?)VVEND", out, re.S)
            if m:
                res.append(("fail", "fl reports: " + m.group(1)[:500]))
            elif rc == "timeout":
                res.append(("timeout", "no answer in time"))
            elif isinstance(rc, int) and rc < 0:
                res.append(("crash", "fl killed by signal %d" % -rc))
            else:
                res.append(("fail", "no result; fl said: " + out[-600:]))
    return res

def check_term(case, res):
    """-> z3 Bool or raises AssertionError(text) for a violated structural condition"""
    env = {v: z3.Bool(v) for v in case.vars}
    return env, case.check(env, res)

def conc_ok(case, asg, bits):
    """does the concrete result satisfy the property under asg?"""
    env = {v: z3.BoolVal(bool(asg.get(v, False))) for v in case.vars}
    try:
        t = case.check(env, [z3.BoolVal(b) for b in bits])
    except AssertionError as e:
        return False, "shape: %s" % e
    s = z3.Solver()
    s.add(z3.Not(t) if not isinstance(t, bool) else z3.BoolVal(not t))
    r = s.check()
    if r == z3.unsat:
        return True, ""
    if r == z3.sat:
        return False, "result bits (first to last) %s" % "".join("T" if b else "F" for b in bits)
    return True, "undecided"

def concrete_run(exe, case, asg, root, tag, tmo=60):
    d = os.path.join(root, "c_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text = script([case], d, asgs=asg)
    rc, out = run_fl(exe, text, d, tmo=tmo)
    return fetch([case], d, rc, out)[0], text

def symbolic_run(exe, cases, root, tag, tmo=None):
    d = os.path.join(root, "s_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text = script(cases, d)
    rc, out = run_fl(exe, text, d, tmo=tmo or max(60, max(c.tmo for c in cases)))
    r = fetch(cases, d, rc, out)
    shutil.rmtree(d, ignore_errors=True)
    return r, text

def show_asg(case, asg):
    return " ".join("%s=%d" % (v, 1 if asg.get(v) else 0) for v in case.vars)

def decide(exe, case, sym, root, tag, ztmo, rng):
    """-> dict(status, detail, t, replaytext, traces)"""
    st, val = sym
    out = dict(name=case.name, status="inconclusive", detail="", t=0.0, replay=None, traces=0, nodes=0)
    if st == "inc":
        out["detail"] = val
        return out
    if st in ("fail", "crash", "timeout"):
        # re-run alone, twice; then look for a concrete input that shows it
        rs = [symbolic_run(exe, [case], root, tag + "_re%d" % k, tmo=case.tmo * (2 if st == "timeout" else 1))[0][0] for k in range(2)]
        good = [r for r in rs if r[0] == "ok"]
        if good:
            if st in ("crash", "fail") and False:
                pass
            sym = good[0]
            st, val = sym
        else:
            asgs = [dict.fromkeys(case.vars, False), dict.fromkeys(case.vars, True)]
            asgs += [{v: rng.random() < .5 for v in case.vars} for _ in range(4)]
            # inputs allowed by the assumption, chosen by z3
            if case.assume is not None:
                asgs = [a for a in asgs if z3.is_true(z3.simplify(case.assume({v: z3.BoolVal(a[v]) for v in case.vars})))]
            text = None
            if case.concrete:
                for k, a in enumerate(asgs):
                    (cst, cval), text = concrete_run(exe, case, a, root, tag + "_cc%d" % k)
                    bad = None
                    if cst in ("crash", "fail"):
                        bad = cval
                    elif cst == "ok":
                        ok, why = conc_ok(case, a, eval_saved(cval, a))
                        if not ok:
                            bad = why
                    if bad:
                        out.update(status="violated", detail="input %s: %s (symbolic run: %s)" % (show_asg(case, a), bad, rs[0][1]),
                                   replay=remark("run with: fl -noX -F <this file>\n" + bad) + text)
                        return out
            if st == "timeout":
                out["detail"] = "symbolic run did not finish: " + rs[0][1]
                return out
            _, text = symbolic_run(exe, [case], root, tag + "_rt")
            out.update(status="violated", detail="symbolic evaluation fails reproducibly: " + rs[0][1], replay=remark(rs[0][1]) + text)
            return out
    out["nodes"] = len(val[2])
    t0 = time.time()
    prob = canon_problem(val)
    if prob:
        # the same in a second fresh run of this case alone, or in none
        r2, text = symbolic_run(exe, [case], root, tag + "_cn", tmo=case.tmo)
        p2 = canon_problem(r2[0][1]) if r2[0][0] == "ok" else ""
        if p2:
            out.update(status="violated", detail="not canonical, equal functions compare as different: " + p2,
                       replay=remark("the results of this program are not one reduced ordered diagram: %s" % p2) + text)
            return out
    try:
        res = to_z3(val)
    except Exception as e:
        out["detail"] = "cannot rebuild formula: %r" % e
        return out
    viol, asg, why = False, {v: False for v in case.vars}, ""
    try:
        env, t = check_term(case, res)
    except AssertionError as e:
        viol, why = True, "shape of the result: %s" % e
        t = None
    if not viol:
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        s = z3.Solver()
        s.set("timeout", int((case.ztmo or ztmo) * 1000))
        if case.assume is not None:
            s.add(case.assume(env))
        s.add(z3.Not(t))
        r = s.check()
        out["t"] = time.time() - t0
        if r == z3.unsat:
            out["status"] = "discharged"
            return out
        if r == z3.unknown:
            out["detail"] = "z3: " + s.reason_unknown()
            return out
        m = s.model()
        asg = {v: z3.is_true(m.eval(z3.Bool(v), model_completion=True)) for v in case.vars}
    # replay
    text, creason = "", ""
    if case.concrete:
        (cst, cval), text = concrete_run(exe, case, asg, root, tag + "_cx")
        if cst == "ok":
            ok, w = conc_ok(case, asg, eval_saved(cval, asg))
            if not ok:
                creason = w
        elif cst in ("crash", "fail"):
            creason = cval
    if creason:
        out.update(status="violated", detail="input %s: %s %s" % (show_asg(case, asg), why, creason),
                   replay=remark("run with: fl -noX -F <this file>\n%s" % creason) + text)
        return out
    # the formula the interpreter computes is wrong at this input: second, fresh run
    (sst, sval), text = symbolic_run(exe, [case], root, tag + "_sx")[0][0], symbolic_run(exe, [case], root, tag + "_sy")[1]
    if sst == "ok":
        ok, w = conc_ok(case, asg, eval_saved(sval, asg))
        if not ok:
            out.update(status="violated",
                       detail="formula computed by fl is wrong at %s: %s %s" % (show_asg(case, asg), why, w),
                       replay=remark("formula computed by fl evaluates wrongly at %s" % show_asg(case, asg)) + text)
            return out
    elif sst in ("crash", "fail"):
        out.update(status="violated", detail="symbolic evaluation fails: " + sval, replay=text)
        return out
    out["detail"] = "counterexample did not reproduce at %s" % show_asg(case, asg)
    return out

_G = {}
MAXVIOL = 24        # after so many (replayed) violations the rest is not run
_KNOWN = set()
_NV = multiprocessing.Value("i", 0)
def _work(args):
    bi, idxs = args
    exe, cases, root, ztmo, seed, deadline = _G["a"]
    cs = [cases[i] for i in idxs]
    rng = random.Random(hash((seed, bi)) & 0xffffffff)
    outs = []
    left = deadline - time.time()
    enough = _NV.value >= MAXVIOL
    if left < 5 or enough:
        return [(i, dict(name=cases[i].name, status="inconclusive", detail="not run: %d violations found" % _NV.value if enough else "time budget used up", t=0, replay=None, traces=0, nodes=0)) for i in idxs]
    sym, _ = symbolic_run(exe, cs, root, "b%d" % bi, tmo=min(max(60, max(c.tmo for c in cs)), max(10, left)))
    # the batch stopped early: the ones without an answer are run one by one
    missing = [k for k, s in enumerate(sym) if s[0] != "ok"]
    crashed = any(s[0] == "crash" for s in sym)
    batch_crash = None
    if missing and len(cs) > 1:
        for k in missing:
            if deadline - time.time() > 5:
                sym[k] = symbolic_run(exe, [cs[k]], root, "b%d_%d" % (bi, k), tmo=min(cs[k].tmo, max(10, deadline - time.time())))[0][0]
        # a crash that needs the history of the whole batch: reproduce it once more
        if crashed and all(sym[k][0] == "ok" for k in missing) and deadline - time.time() > 20:
            again, text = symbolic_run(exe, cs, root, "b%d_again" % bi, tmo=min(max(60, max(c.tmo for c in cs)), max(10, deadline - time.time())))
            if any(a[0] == "crash" for a in again):
                k = missing[0]
                batch_crash = (k, text)
    # encoding vs real concrete execution on one input per case
    conc = [None] * len(cs)
    asg = {}
    for c in cs:
        for v in c.vars:
            asg.setdefault(v, rng.random() < .5)
    todo = [k for k, c in enumerate(cs) if c.functional and c.concrete and sym[k][0] == "ok" and
            (c.assume is None or z3.is_true(z3.simplify(c.assume({v: z3.BoolVal(asg[v]) for v in c.vars}))))]
    if todo and deadline - time.time() > 20:
        d = os.path.join(root, "cb%d" % bi)
        os.makedirs(d, exist_ok=True)
        rc, out = run_fl(exe, script([cs[k] for k in todo], d, asgs=asg), d, tmo=60)
        for k, r in zip(todo, fetch([cs[k] for k in todo], d, rc, out)):
            conc[k] = r
        shutil.rmtree(d, ignore_errors=True)
    for k, (i, c) in enumerate(zip(idxs, cs)):
        if deadline - time.time() < 3 or _NV.value >= MAXVIOL:
            o = dict(name=c.name, status="inconclusive", detail="time budget used up or enough violations found", t=0, replay=None, traces=0, nodes=0)
        else:
            try:
                o = decide(exe, c, sym[k], root, "d%d_%d" % (bi, k), min(ztmo, max(5, deadline - time.time())), rng)
            except Exception:
                o = dict(name=c.name, status="inconclusive", detail="machinery: " + traceback.format_exc()[-600:], t=0, replay=None, traces=0, nodes=0)
            if conc[k] and conc[k][0] == "ok" and sym[k][0] == "ok":
                o["traces"] = 1
                if o["status"] == "discharged":
                    cv = eval_saved(conc[k][1], asg)
                    if cv != eval_saved(sym[k][1], asg):
                        ok, why = conc_ok(c, asg, cv)
                        if not ok:
                            o.update(status="violated", detail="concrete input %s: %s" % (show_asg(c, asg), why),
                                     replay=script([c], "/tmp", asgs=asg))
                        else:
                            o["traces"] = 0
        if batch_crash and batch_crash[0] == k and o["status"] == "discharged":
            o.update(status="violated", detail="fl is killed by a signal, reproducibly, when the preceding cases ran before this one", replay=batch_crash[1])
        if o["status"] == "violated" and c.name not in _KNOWN:
            with _NV.get_lock():
                _NV.value += 1
        outs.append((i, o))
    return outs

def pmap(fn, jobs):
    """parallel map over forked workers that survives the death of a worker"""
    import concurrent.futures as cf
    ctx = multiprocessing.get_context("fork")
    outs, todo = [], list(jobs)
    for attempt in range(3):
        if not todo:
            break
        n = min(vrun.NCPU if attempt == 0 else 2, len(todo))
        ex = cf.ProcessPoolExecutor(n, mp_context=ctx)
        fs = {ex.submit(fn, j): j for j in todo}
        left = []
        for f in cf.as_completed(fs):
            try:
                outs.append(f.result())
            except cf.process.BrokenProcessPool:
                left.append(fs[f])
        ex.shutdown(wait=False, cancel_futures=True)
        todo = left
    return outs

def run_cases(check, exe, cases, batch=8, ztmo=60, budget=None, label="fl+z3", batches=None, env=None, suffix=""):
    """decide all cases; adds the obligations to check"""
    root = vrun.scratch()
    _KNOWN.update(check.known)
    ENV.clear()
    ENV.update(env or {})
    deadline = time.time() + min(check.left(), budget or 1e9)
    names = set()
    cases = list({c.name: c for c in cases}.values())
    for c in cases:
        assert c.name not in names, c.name
        names.add(c.name)
    _G["a"] = (exe, cases, root, ztmo, vrun.SEED, deadline)
    if batches is None:
        n = max(1, min(batch, (len(cases) + vrun.NCPU - 1) // vrun.NCPU))
        batches = [list(range(i, min(i + n, len(cases)))) for i in range(0, len(cases), n)]
    results = {}
    for outs in pmap(_work, list(enumerate(batches))):
        for i, o in outs:
            results[i] = o
    for i, c in enumerate(cases):
        results.setdefault(i, dict(name=c.name, status="inconclusive", detail="worker process was killed", t=0, replay=None, traces=0, nodes=0))
    for i, c in enumerate(cases):
        o = results[i]
        o["name"] += suffix
        if o["replay"] and env:
            o["replay"] = remark("environment: %s" % env) + o["replay"]
        rp = check.write_replay(o["name"], o["replay"], "fl") if o["status"] == "violated" and o["replay"] else None
        check.add(o["name"], o["status"], o["detail"], o["t"], rp, label,
                  sample=dict(case=c.name, fl=c.expr[:300], inputs=len(c.vars), formula_nodes=o["nodes"]) if i % max(1, len(cases) // 8) == 0 else None)
        check.traces += o["traces"]
    shutil.rmtree(root, ignore_errors=True)
    return results
