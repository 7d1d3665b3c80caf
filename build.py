#!/usr/bin/env python3
"""Builds what a check needs from /repo's current working tree, under /verif/.build.

The sources are mirrored (content compare) so that a changed file is rebuilt and nothing is ever
written in /repo.  Which files belong to which library is read from the repository's Makefile.am."""
import os, re, subprocess, sys, filecmp, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
SRC = os.path.join(B, "src")
EXT = (".cpp", ".h", ".proto", ".yy", ".ll", ".f", ".c", ".cc", ".hh", ".hpp", ".inc")
SKIPDIR = {"tests", "matlab", "bin"}

def mirror():
    root = os.path.join(REPO, "src")
    seen = set()
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if not (d == root and x in SKIPDIR)]
        rel = os.path.relpath(d, root)
        os.makedirs(os.path.join(SRC, rel), exist_ok=True)
        for f in fs:
            if not (f.endswith(EXT) or f == "Makefile.am"): continue
            s, t = os.path.join(d, f), os.path.normpath(os.path.join(SRC, rel, f))
            seen.add(t)
            if not os.path.exists(t) or not filecmp.cmp(s, t, shallow=False):
                shutil.copyfile(s, t)
    for d, ds, fs in os.walk(SRC):
        for f in fs:
            p = os.path.join(d, f)
            if p not in seen: os.unlink(p)

def am_sources(rel, var):
    p = os.path.join(SRC, rel, "Makefile.am")
    txt = open(p).read().replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^%s\s*\+?=\s*(.*)$" % re.escape(var), txt, re.M):
        out += m.group(1).split()
    return [x for x in out if not x.startswith("$")]

LIBS = {  # component -> (dir, automake variable, generated protobuf)
    "tools": ("tools", "libtools_la_SOURCES", ["FileSingleHeader"]),
    "math": ("math", "libmath_la_SOURCES", []),
    "linalg": ("linalg", "liblinalg_la_SOURCES", []),
    "fft": ("fft", "libfft_la_SOURCES", []),
    "qdlib": ("qdlib", "libqd_la_SOURCES", ["GridSystem"]),
    "modules": ("modules", "libModuleLoader_la_SOURCES", []),
    "slatec": ("slatec", "libslatecmin_la_SOURCES", []),
    "lib": ("lib", "libqdng_la_SOURCES", []),
    "simplexml": ("simpleXml", "libsimplexml_la_SOURCES", []),
    "app": (".", "qdng_SOURCES", ["IACmds"]),      # without qdng.cpp
}
ORDER = ["app", "simplexml", "lib", "modules", "qdlib", "fft", "linalg", "math", "slatec", "tools"]
ALLQD = ["lib", "modules", "qdlib", "fft", "linalg", "math", "slatec", "tools"]
SYS = "-llapack -lblas -lfftw3 -lfftw3_threads -lxml2 -lprotobuf -lbz2 -lz -ldl -lgfortran -fopenmp -lpthread"
MODES = {
    "base": dict(cxx="g++", c="-O1 -g1 -fopenmp", l="-fopenmp"),
    "o2": dict(cxx="g++", c="-O2 -g1 -fopenmp", l="-fopenmp"),
    "asan": dict(cxx="g++", c="-O1 -g1 -fopenmp -fsanitize=address -fno-omit-frame-pointer", l="-fopenmp -fsanitize=address"),
    # thread interleaving exploration: compiler instrumentation of memory accesses, own runtime (harness/sched)
    "sched": dict(cxx="g++", c="-O1 -g1 -fopenmp -fsanitize=thread", l=""),
}
DEFS = ("-DHAVE_CONFIG_H -DQD_SYS_MOD_PATH='\"/nonexistent/qdng\"' -DQDNG_BUILD_DATE='\"verif\"' "
        "-DQDNG_BUILD_HOST='\"verif\"' -DQDNG_BUILD_MACH='\"verif\"' -DQDNG_REV='\"verif\"'")

def incs(gen):
    return " ".join("-I" + x for x in [os.path.join(V, "harness/config"), os.path.join(V, "harness"), SRC,
            gen, os.path.join(gen, "tools"), os.path.join(gen, "qdlib"), os.path.join(gen, "simpleXml"),
            os.path.join(SRC, "simpleXml"), os.path.join(SRC, "tools"), "/usr/include/libxml2"])

class Ninja:
    def __init__(self):
        self.t = ["ninja_required_version = 1.5", "builddir = " + B]
        self.t.append("rule cmd\n  command = $cmd\n  restat = 1")
        self.t.append("rule cc\n  command = $cxx $flags -w -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
        self.t.append("rule f77\n  command = gfortran -O1 -fPIC -w -c $in -o $out")
        self.t.append("rule ar\n  command = rm -f $out && ar crs $out $in")
        self.t.append("rule link\n  command = $cxx -o $out $in $libs")
        self.done = set()
    def add(self, outs, rule, ins, implicit=(), order=(), **v):
        if outs in self.done: return
        self.done.add(outs)
        s = "build %s: %s %s" % (outs, rule, " ".join(ins))
        if implicit: s += " | " + " ".join(implicit)
        if order: s += " || " + " ".join(order)
        self.t.append(s)
        for k, x in v.items(): self.t.append("  %s = %s" % (k, x.replace("$ ", "$$ ")))

def plan(n, mode, comps, gen):
    """adds rules for the static libraries of `comps`; returns archive list"""
    M = MODES[mode]
    gens = []
    for f, d in (("FileSingleHeader", "tools"), ("GridSystem", "qdlib"), ("IACmds", ".")):
        src = os.path.normpath(os.path.join(SRC, d, f + ".proto")); o = os.path.normpath(os.path.join(gen, d))
        os.makedirs(o, exist_ok=True)
        cc, h = os.path.join(o, f + ".pb.cc"), os.path.join(o, f + ".pb.h")
        n.add(cc + " " + h, "cmd", [src], cmd="protoc --proto_path=%s --cpp_out=%s %s" % (os.path.dirname(src), o, src))
        gens.append(h)
    sx = os.path.join(gen, "simpleXml"); os.makedirs(sx, exist_ok=True)
    if "simplexml" in comps:
        yy, ll = os.path.join(SRC, "simpleXml/grammar.yy"), os.path.join(SRC, "simpleXml/simpleXml.ll")
        n.add("%s/grammar.cc %s/grammar.h" % (sx, sx), "cmd", [yy], cmd="bison -d -o %s/grammar.cc %s && ([ -f %s/grammar.h ] || cp %s/grammar.hh %s/grammar.h)" % (sx, yy, sx, sx, sx))
        n.add("%s/simpleXml.cc" % sx, "cmd", [ll], cmd="flex -o %s/simpleXml.cc %s" % (sx, ll))
        gens.append(sx + "/grammar.h")
    ars = []
    flags = M["c"] + " " + DEFS + " " + incs(gen)
    for c in [x for x in ORDER if x in comps]:
        d, var, pbs = LIBS[c]
        objs = []
        for s in am_sources(d, var):
            if s == "qdng.cpp": continue
            if s.endswith(".h"): continue
            o = os.path.normpath(os.path.join(B, "obj", mode, d, s + ".o"))
            if s.endswith(".yy"): p = sx + "/grammar.cc"
            elif s.endswith(".ll"): p = sx + "/simpleXml.cc"
            else: p = os.path.normpath(os.path.join(SRC, d, s))
            if s.endswith(".f"): n.add(o, "f77", [p])
            else: n.add(o, "cc", [p], order=gens, cxx=M["cxx"], flags=flags)
            objs.append(o)
        for pb in pbs:
            p = os.path.normpath(os.path.join(gen, d, pb + ".pb.cc"))
            o = os.path.normpath(os.path.join(B, "obj", "pb", d, pb + ".pb.o"))
            n.add(o, "cc", [p], cxx="g++", flags="-O1 " + incs(gen))
            objs.append(o)
        a = os.path.join(B, "lib", mode, c + ".a")
        n.add(a, "ar", objs)
        ars.append(a)
    return ars, gens, flags

def build(targets, jobs=None):
    """targets: list of dicts
         kind=harness: name, mode, comps, src (list under /verif/harness), [cflags], [ldflags]
         kind=prog:    name in (qdng, qdz, qds2qdi), mode
       returns list of paths of the executables"""
    os.makedirs(B, exist_ok=True)
    mirror()
    gen = os.path.join(B, "gen")
    n = Ninja(); outs = []
    for t in targets:
        mode = t.get("mode", "base"); M = MODES[mode]
        if t["kind"] == "prog":
            src = {"qdng": "qdng.cpp", "qdz": "qdz.cpp", "qds2qdi": "simpleXml/qds2qdi.cpp", "qdinfo": "qdng_info.cpp"}[t["name"]]
            comps = {"qdng": ["app", "simplexml"] + ALLQD, "qdz": ALLQD, "qds2qdi": ["simplexml"] + ALLQD, "qdinfo": ["tools"]}[t["name"]]
            ars, gens, flags = plan(n, mode, comps, gen)
            o = os.path.join(B, "obj", mode, src + ".o")
            n.add(o, "cc", [os.path.join(SRC, src)], order=gens, cxx=M["cxx"], flags=flags)
            exe = os.path.join(B, "bin", mode, t["name"])
            n.add(exe, "link", [o], implicit=ars, cxx=M["cxx"], libs="-Wl,--start-group %s -Wl,--end-group -Wl,-export-dynamic %s %s" % (" ".join(ars), M["l"], SYS))
        else:
            ars, gens, flags = plan(n, mode, t["comps"], gen)
            objs = []
            for s in t["src"]:
                o = os.path.join(B, "obj", mode, "harness", t["name"], s + ".o")
                hm = t.get("hmode")
                hf = (MODES[hm]["c"] + " " + DEFS + " " + incs(gen)) if hm else flags
                n.add(o, "cc", [os.path.join(V, "harness", s)], order=gens, cxx=M["cxx"], flags=hf + " " + t.get("cflags", ""))
                objs.append(o)
            for s in t.get("nosan", []):      # compiled without instrumentation
                o = os.path.join(B, "obj", mode, "harness", t["name"], s + ".ns.o")
                n.add(o, "cc", [os.path.join(V, "harness", s)], order=gens, cxx=M["cxx"], flags="-O2 -g1 " + incs(gen))
                objs.append(o)
            exe = os.path.join(B, "bin", mode, t["name"])
            n.add(exe, "link", objs, implicit=ars, cxx=M["cxx"], libs="-Wl,--start-group %s -Wl,--end-group %s %s %s" % (" ".join(ars), t.get("ldflags", ""), M["l"], SYS if not t.get("nosys") else ""))
        outs.append(exe)
    nf = os.path.join(B, "build.ninja." + str(os.getpid()))
    with open(nf, "w") as f: f.write("\n".join(n.t) + "\n")
    env = dict(os.environ); env.pop("MAKEFLAGS", None)
    r = subprocess.run(["ninja", "-f", nf, "-j", str(jobs or os.cpu_count() or 8)] + outs, cwd=B, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.unlink(nf)
    if r.returncode:
        sys.stdout.write("\n".join(r.stdout.splitlines()[-60:]) + "\n")
        raise SystemExit(3)
    return outs
