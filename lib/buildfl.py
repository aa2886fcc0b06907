#!/usr/bin/env python3
"""Compile the real fl interpreter from /repo's *current* sources into a
scratch directory (nothing is taken from earlier builds and /repo is only
read).   build(dest) -> path of the fl executable, or raises BuildError."""
import os, shutil, subprocess, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")

class BuildError(Exception):
    pass

GENERATED = {"prefs.h", "prefs_ext.h", "abi_version.h", "language.tab.c",
             "language.tab.h", "lex.yy.c"}

def sh(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode:
        raise BuildError("%s failed: %s\n%s" % (what, cmd, p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout

def copy_tree(dest):
    """sources only: fl, lib, include, minisat, vosslib"""
    src = os.path.join(REPO, "src")
    d = os.path.join(dest, "src")
    for sub in ("lib", "include", "bin/fl", "bin/fl/scripts", "bin/functor"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        for f in os.listdir(os.path.join(src, sub)):
            p = os.path.join(src, sub, f)
            if os.path.isfile(p) and not f.endswith((".o", ".a", ".so")) \
               and f not in GENERATED and os.access(p, os.R_OK):
                if os.path.getsize(p) < 5_000_000 and f not in ("fl",):
                    shutil.copy(p, os.path.join(d, sub, f))
    for sub in ("include", "minisat"):
        p = os.path.join(src, "external/minisat", sub)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(d, "external/minisat", sub), dirs_exist_ok=True,
                            symlinks=False, ignore=shutil.ignore_patterns("*.o", "*.or", "*.a"))
    return d

def gen_headers(d):
    """generated headers/sources in the copied bin/fl"""
    fl = os.path.join(d, "bin/fl")
    sh(["tclsh", "make_prefs.tcl"], fl, "make_prefs")
    hs = ["float.h", "graph.h", "plugin.h", "voss_strings.h", "typecheck.h", "../../include/types.h"]
    data = b"".join(open(os.path.join(fl, h), "rb").read() for h in hs)
    with open(os.path.join(fl, "abi_version.h"), "w") as fh:
        fh.write('#ifndef FL_ABI_VERSION\n#define FL_ABI_VERSION "%s"\n#endif\n'
                 % hashlib.sha256(data).hexdigest())
    sh(["bison", "-d", "language.y"], fl, "bison")
    sh(["flex", "-l", "lexer"], fl, "flex")
    sh(["make", "-C", "scripts"], fl, "scripts") if os.path.exists(os.path.join(fl, "scripts/Makefile")) else None

STRESS_C = r"""
#include <stdlib.h>
typedef unsigned int formula;
extern int Do_gc_asap;
extern int RCdynamic_ordering_threshold, RCminsize_for_dyn_ordering;
static long vv_cnt = 0, vv_k = -2, vv_ro = 0;
static void tick(void)
{
    if( vv_k == -2 ) {
	char *e = getenv("VV_GC_EVERY");
	vv_k = e? atol(e) : -1;
	e = getenv("VV_REORDER");
	vv_ro = e? atol(e) : 0;
    }
    if( vv_k <= 0 ) return;
    vv_cnt++;
    if( vv_cnt % vv_k == 0 ) {
	Do_gc_asap = 1;
	if( vv_ro ) { RCdynamic_ordering_threshold = 0; RCminsize_for_dyn_ordering = 0; }
    }
}
#define W2(n) formula __real_##n(formula a, formula b); formula __wrap_##n(formula a, formula b) { formula r = __real_##n(a,b); tick(); return r; }
W2(B_And) W2(B_Or) W2(B_Xor) W2(B_Xnor)
formula __real_B_Ite(formula a, formula b, formula c);
formula __wrap_B_Ite(formula a, formula b, formula c) { formula r = __real_B_Ite(a,b,c); tick(); return r; }
void *__real_Make_BOOL_leaf(formula a);
void *__wrap_Make_BOOL_leaf(formula a) { void *r = __real_Make_BOOL_leaf(a); tick(); return r; }
void *__real_Make_CONS_ND(void *a, void *b);
void *__wrap_Make_CONS_ND(void *a, void *b) { tick(); return __real_Make_CONS_ND(a,b); }
void *__real_Make_BEXPR_leaf(void *a);
void *__wrap_Make_BEXPR_leaf(void *a) { void *r = __real_Make_BEXPR_leaf(a); tick(); return r; }
void *__real_BE_And(void *a, void *b);
void *__wrap_BE_And(void *a, void *b) { void *r = __real_BE_And(a,b); tick(); return r; }
"""
STRESS_WRAPS = ["B_And", "B_Or", "B_Xor", "B_Xnor", "B_Ite", "Make_BOOL_leaf", "Make_CONS_ND", "Make_BEXPR_leaf", "BE_And"]

def link_stress(dest):
    """a second executable from the same objects in which a collection of the
    node tables is requested every VV_GC_EVERY operations (environment), and a
    reordering with each of them when VV_REORDER=1"""
    fl = os.path.join(dest, "src/bin/fl")
    with open(os.path.join(dest, "stress.c"), "w") as fh:
        fh.write(STRESS_C)
    sh(["gcc", "-O1", "-w", "-fPIC", "-c", os.path.join(dest, "stress.c"), "-o", os.path.join(dest, "stress.o")], dest, "stress")
    exe = os.path.join(dest, "bin/fl_stress")
    objs = open(os.path.join(dest, "objs.txt")).read().split()
    sh(["g++", "-o", exe] + objs + [os.path.join(dest, "stress.o")] + ["-Wl,--wrap=" + w for w in STRESS_WRAPS]
       + ["-rdynamic", "-lm", "-lz", "-lpthread", "-lncurses", "-ldl", "-ledit", "-lX11"], fl, "link")
    return exe

def build(dest, opt=("-O1",), extra=(), want_fl=True):
    os.makedirs(dest, exist_ok=True)
    d = copy_tree(dest)
    gen_headers(d)
    fl = os.path.join(d, "bin/fl")
    try:
        tk = subprocess.run(["pkg-config", "--cflags", "tk"], stdout=subprocess.PIPE).stdout.decode().split()
    except OSError:
        tk = []
    base = ["-fPIC", "-DDEBUG", "-w", "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS",
            '-DVERSION_DATE="x"', '-DDEFAULT_PLUGIN_DIR="%s/vosslib"' % REPO, "-DFL_BINARY=1",
            '-DROOT_DIR="%s"' % REPO] + tk + ["-I../../include", "-I../../external/minisat/include", "-I../../external/minisat"]
    import re
    mk = open(os.path.join(fl, "Makefile")).read()
    objs = re.findall(r"(?<![\w.])([A-Za-z0-9_.]+)\.o\b", mk[mk.index("LOBJ ="):mk.index("fl: libfl.so")])
    libmk = open(os.path.join(d, "lib/Makefile")).read()
    libobjs = re.findall(r"(?<![\w.])([A-Za-z0-9_.]+)\.o\b", libmk[libmk.index("OBJ ="):libmk.index("fl_lib.a:")])
    jobs = []
    for o in dict.fromkeys(objs):
        c = o + ".cc" if os.path.exists(os.path.join(fl, o + ".cc")) else o + ".c"
        cc = ["g++", "-fpermissive"] if c.endswith(".cc") else ["gcc", "-std=gnu99"]
        op = list(opt) if o != "arb_prec" else ["-O0"]
        jobs.append((cc + op + list(extra) + base + ["-c", c, "-o", o + ".o"], fl, c))
    for o in dict.fromkeys(libobjs):
        jobs.append((["gcc", "-std=gnu99"] + list(opt) + list(extra) + ["-fPIC", "-w", "-DDEBUG", "-I../include", "-c", o + ".c", "-o", o + ".o"],
                     os.path.join(d, "lib"), o))
    ms = os.path.join(d, "external/minisat")
    mobjs = []
    for c in sorted(glob.glob(ms + "/minisat/*/*.cc")):
        if os.path.basename(c) == "Main.cc":
            continue
        o = c[:-3] + ".o"
        mobjs.append(o)
        jobs.append((["g++", "-O2", "-DNDEBUG", "-fPIC", "-w", "-I" + ms, "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS", "-c", c, "-o", o], ms, c))
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(os.path.join(j[1], [a for a in j[0] if a.endswith((".c", ".cc"))][-1]))
              if True else 0)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda j: sh(*j), jobs))
    if not want_fl:
        return fl
    bindir = os.path.join(dest, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, "fl")
    with open(os.path.join(dest, "objs.txt"), "w") as fh:
        fh.write(" ".join([os.path.join(fl, o + ".o") for o in dict.fromkeys(objs)]
                 + [os.path.join(d, "lib", o + ".o") for o in dict.fromkeys(libobjs)] + mobjs))
    sh(["g++", "-o", exe] + [os.path.join(fl, o + ".o") for o in dict.fromkeys(objs)]
       + [os.path.join(d, "lib", o + ".o") for o in dict.fromkeys(libobjs)] + mobjs
       + ["-rdynamic", "-lm", "-lz", "-lpthread", "-lncurses", "-ldl", "-ledit", "-lX11"], fl, "link")
    for f in ("preamble.fl", "builtins.fl", "prefs.tcl", "utils.tcl", "front_end.tcl"):
        p = os.path.join(REPO, "src/bin/fl", f)
        if os.path.exists(p):
            shutil.copy(p, os.path.join(bindir, f))
    os.makedirs(os.path.join(dest, "vosslib"), exist_ok=True)
    for p in glob.glob(os.path.join(REPO, "src/vosslib/*")):
        if os.path.isfile(p):
            shutil.copy(p, os.path.join(dest, "vosslib"))
    fu = os.path.join(d, "bin/functor")
    sh(["flex", "lexer"], fu, "flex functor")
    sh(["gcc", "-O1", "-w", "-o", os.path.join(bindir, "functor"), "lex.yy.c"], fu, "functor")
    idv = os.path.join(REPO, "IDVII")
    if os.path.isdir(idv):
        shutil.copytree(idv, os.path.join(dest, "IDVII"), dirs_exist_ok=True, symlinks=True, ignore=shutil.ignore_patterns("*.png", "*.gif"))
    return exe

def generics(dest, exe):
    """the generic pexlifs of the Verilog import, made by the freshly built interpreter from the current library"""
    d = os.path.join(dest, "IDVII/src/fl/design")
    shutil.rmtree(os.path.join(d, "generics"), ignore_errors=True)
    t = os.path.join(dest, "gtmp"); os.makedirs(t, exist_ok=True)
    p = subprocess.run([exe, "-noX", "-T", t, "-f", "make_generic_pexlifs.fl"], cwd=d, env=dict(os.environ, USER="x"), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if len(glob.glob(d + "/generics/*.pexlif")) < 11:
        raise BuildError("generic pexlifs: " + p.stdout.decode(errors="replace")[-1500:])

if __name__ == "__main__":
    print(build(sys.argv[1]))
