"""CBMC engine: a harness (C text that includes the real source file of the
current tree) is translated by goto-cc, bit-blasted by CBMC and decided by a SAT
solver.  A failed assertion is replayed natively (gcc, same harness, the
counterexample's values) before it is reported."""
import json, os, re, subprocess, time, shutil
from concurrent.futures import ThreadPoolExecutor
import buildfl
from vrun import scratch, NCPU, VERIF, THOROUGH

def prepare(dest):
    """copy of the sources with generated headers"""
    d = buildfl.copy_tree(dest)
    buildfl.gen_headers(d)
    return d

def _tk():
    try:
        return subprocess.run(["pkg-config", "--cflags", "tk"], stdout=subprocess.PIPE).stdout.decode().split()
    except OSError:
        return []

class H:
    """one harness = one obligation"""
    def __init__(self, name, src, defs=(), unwind=8, unwindset=(), loops=None, replace=(), flags=(), solver=None, tmo=120,
                 files=(), native=(), nin=16, reach=True, memsafe=False, san=False, info="", count=None):
        self.name, self.src, self.defs, self.unwind = name, src, list(defs), unwind
        self.unwindset, self.loops = list(unwindset), loops
        self.replace, self.flags, self.solver, self.tmo = list(replace), list(flags), solver, tmo
        self.files, self.native, self.nin, self.reach = list(files), list(native), nin, reach
        self.memsafe, self.san, self.info = memsafe, san, info
        self.count = count       # regex: descriptions of generated checks that count (e.g. division overflow)

def _run(cmd, cwd, tmo):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=tmo)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), time.time() - t
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-P", str(os.getpid()), "-f", "vv_nothing"], stderr=subprocess.DEVNULL)
        return None, "", "timeout", time.time() - t

def cflags(srcdir):
    fl = os.path.join(srcdir, "bin/fl")
    return ["-DDEBUG", '-DVERSION_DATE="x"', '-DDEFAULT_PLUGIN_DIR="y"', '-DROOT_DIR="/repo"', "-DFL_BINARY=1",
            "-I" + fl, "-I" + os.path.join(srcdir, "include"), "-I" + os.path.join(srcdir, "lib"), "-I" + os.path.join(VERIF, "harness")] + _tk()

def solve(srcdir, work, h):
    """-> dict(status, detail, vals, t, props)"""
    tag = re.sub(r"\W", "_", h.name)
    wd = os.path.join(work, tag)
    os.makedirs(wd, exist_ok=True)
    c = os.path.join(wd, "h.c")
    open(c, "w").write(h.src)
    gb = os.path.join(wd, "h.gb")
    fl = [os.path.join(srcdir, f) for f in h.files]
    rc, o, e, _ = _run(["goto-cc"] + cflags(srcdir) + ["-D" + d for d in h.defs] + [c] + fl + ["-o", gb], wd, 120)
    if rc != 0 or not os.path.exists(gb):
        return dict(status="inconclusive", detail="goto-cc: " + (o + e)[-600:], t=0)
    if h.replace:
        gb2 = os.path.join(wd, "h2.gb")
        cmd = ["goto-instrument"]
        for r in h.replace:
            cmd += ["--replace-calls", r]
        rc, o, e, _ = _run(cmd + [gb, gb2], wd, 120)
        if rc != 0:
            return dict(status="inconclusive", detail="goto-instrument: " + (o + e)[-600:], t=0)
        gb = gb2
    us = list(h.unwindset)
    if h.loops:
        # h.loops: list of (regex on the loop's source line, bound)
        rc, o, e, _ = _run(["goto-instrument", "--show-loops", gb], wd, 60)
        for m in re.finditer(r"Loop (\S+):\s*\n\s*file (\S+) line (\d+)", o):
            try:
                line = open(os.path.join(wd, m.group(2)), errors="replace").read().split("\n")[int(m.group(3)) - 1]
            except OSError:
                continue
            for rx, n in h.loops:
                if re.search(rx, line):
                    us.append("%s:%d" % (m.group(1), n))
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--no-malloc-may-fail", "--drop-unused-functions", "--slice-formula",
           "--unwind", str(h.unwind), "--unwinding-assertions"]
    if h.count:
        cmd += ["--no-standard-checks", "--signed-overflow-check", "--div-by-zero-check"]
    elif not h.memsafe:
        cmd += ["--no-standard-checks"]
    else:
        cmd += ["--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check"]
    if us:
        cmd += ["--unwindset", ",".join(us)]
    if h.solver:
        cmd += ["--external-sat-solver", h.solver] if h.solver == "kissat" else ["--sat-solver", h.solver]
    cmd += h.flags
    rc, o, e, t = _run(["timeout", "-k", "5", str(int(h.tmo))] + cmd, wd, h.tmo + 20)
    if rc is None or rc in (124, 137):
        return dict(status="inconclusive", detail="solver time limit %d s" % h.tmo, t=t)
    try:
        js = json.loads(o)
    except ValueError:
        return dict(status="inconclusive", detail="cbmc rc=%s %s" % (rc, (o + e)[-500:]), t=t)
    res = None
    for x in js:
        if "result" in x:
            res = x["result"]
    if res is None:
        msg = [x.get("messageText", "") for x in js if x.get("messageType") in ("ERROR", "WARNING")]
        return dict(status="inconclusive", detail="cbmc: no result " + "; ".join(msg)[-500:], t=t)
    reach, bad, unw, other = None, None, [], []
    n = 0
    for r in res:
        d = r.get("description", "")
        if d.startswith("VVREACH"):
            reach = reach or r["status"] == "FAILURE"
        elif r["status"] == "FAILURE":
            if "unwinding assertion" in d or "recursion unwinding" in d:
                unw.append(r)
            elif h.count and not d.startswith("VV ") and not re.search(h.count, d):
                continue
            elif d.startswith("VV ") or h.memsafe or h.count:
                n += 1
                bad = bad or r
            else:
                other.append(d)
        else:
            n += 1
    if bad is not None:
        # again without slicing, for the values of all inputs
        c2 = [a for a in cmd if a != "--slice-formula"] + ["--property", bad["property"]]
        rc, o, e, t2 = _run(["timeout", "-k", "5", str(int(h.tmo))] + c2, wd, h.tmo + 20)
        t += t2
        try:
            for x in json.loads(o):
                for r in x.get("result", []) if isinstance(x, dict) else []:
                    if r["property"] == bad["property"] and r["status"] == "FAILURE":
                        bad = r
        except ValueError:
            pass
        vals = [0] * h.nin
        for s in bad.get("trace", []):
            if s.get("stepType") == "assignment":
                m = re.match(r"vv_in\[(\d+)l?L?\]", s.get("lhs", ""))
                if m and int(m.group(1)) < h.nin:
                    try:
                        b = s["value"].get("binary")
                        v = int(b, 2)
                        if v >= 1 << 63:
                            v -= 1 << 64
                        vals[int(m.group(1))] = v
                    except (KeyError, TypeError, ValueError):
                        pass
        return dict(status="cex", detail=bad["description"], vals=vals, t=t, wd=wd, c=c)
    if unw:
        return dict(status="inconclusive", detail="unwinding bound not sufficient: " + unw[0]["property"], t=t)
    if other:
        return dict(status="inconclusive", detail="; ".join(other)[:300], t=t)
    if h.reach and not reach:
        return dict(status="inconclusive", detail="end of harness not reachable", t=t)
    return dict(status="discharged", detail="%d assertions" % n, t=t)

def replay(srcdir, h, r):
    """native run with the counterexample's values -> (confirmed, text)"""
    wd = r["wd"]
    exe = os.path.join(wd, "replay")
    cmd = ["gcc", "-std=gnu99", "-O0", "-g", "-w", "-DREPLAY", "-DVV_VALUES=" + ",".join("%dL" % v if v != -(1 << 63) else "(-9223372036854775807L-1)" for v in r["vals"])]
    if h.san:
        cmd += ["-fsanitize=address"]
    cmd += cflags(srcdir) + ["-D" + d for d in h.defs] + [r["c"]] + [os.path.join(srcdir, f) for f in h.files + h.native]
    cmd += ["-Wl,--gc-sections", "-ffunction-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, "-lm", "-lz"]
    rc, o, e, _ = _run(cmd, wd, 120)
    if rc != 0:
        return False, "replay did not build: " + (o + e)[-800:]
    rc, o, e, _ = _run([exe], wd, 20)
    txt = "values %s\nexit %s\n%s%s" % (r["vals"], rc, o[-1500:], e[-1500:])
    if rc == 42:
        return True, txt
    if rc is None:
        return True, txt + "(does not terminate within 20 s)"
    if rc == -8 or (rc < 0 and h.memsafe) or (h.san and "AddressSanitizer" in e):
        return True, txt + "(killed by signal / sanitizer)"
    return False, txt

def run(check, hs, srcdir=None, par=None):
    work = scratch("vossc_")
    if srcdir is None:
        srcdir = prepare(os.path.join(work, "t"))
    def one(h):
        if check.left() < 30:
            return h, dict(status="inconclusive", detail="time budget", t=0), None
        h.tmo = min(h.tmo, max(20, check.left() - 15))
        try:
            r = solve(srcdir, work, h)
        except Exception as ex:
            r = dict(status="inconclusive", detail="machinery: %r" % ex, t=0)
        rep = None
        if r["status"] == "cex":
            try:
                rep = replay(srcdir, h, r)
            except Exception as ex:
                rep = (False, "machinery: %r" % ex)
        return h, r, rep
    with ThreadPoolExecutor(par or NCPU) as ex:
        for h, r, rep in ex.map(one, hs):
            if r["status"] == "cex":
                ok, txt = rep
                check.traces += 1
                if ok:
                    p = check.write_replay(h.name, "harness %s\ndefines %s\nassertion %s\n%s\n\n%s" % (h.name, h.defs, r["detail"], txt, h.src), "c")
                    check.add(h.name, "violated", "%s: %s %s" % (r["detail"], txt.replace("\n", " ")[:400], h.info), r["t"], replay=p, engine="cbmc")
                else:
                    check.add(h.name, "inconclusive", "counterexample to %s not reproduced natively: %s" % (r["detail"], txt[-500:]), r["t"], engine="cbmc")
            else:
                if r["status"] == "discharged":
                    check.witness += 1 if h.reach else 0
                check.add(h.name, r["status"], r["detail"], r["t"], engine="cbmc",
                          sample="%s: %s, %.1f s" % (h.name, r["detail"], r["t"]))
