#!/usr/bin/env python3
"""Author and try planted bugs (development only, nothing of this is used by a check).

  plant.py make ID PROPERTY EDITFILE   EDITFILE: python source with  edits = [(file, old, new), ...], needs, breaks
  plant.py try ID [--notests] [--nocheck]
       in a private mount namespace with a scratch copy bound over /repo: demo on the clean tree, patch, build,
       demo (must fail), stable tests, and the check of its property."""
import sys, os, subprocess, shutil, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = r'''#!/bin/bash
# builds demo.cpp against the libraries of the build in /repo/_build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
R=/repo; B=$R/_build/src; L=""
for l in app simpleXml lib modules qdlib fft linalg math slatec tools; do for a in $B/$l/.libs/*.a; do [ -f "$a" ] && L="$L $a"; done; done
g++ -O1 -w -fopenmp -DHAVE_CONFIG_H -I$B -I$R/src -I$B/tools -I$B/qdlib -I$R/src/tools -I$R/src/qdlib -I$R/src/simpleXml -I$B/simpleXml -I/usr/include/libxml2 "$D/demo.cpp" -o "$T/demo" \
  -Wl,--start-group $L -Wl,--end-group -llapack -lblas -lfftw3 -lfftw3_threads -lfftw3_omp -lxml2 -lprotobuf -lbz2 -lz -ldl -lgfortran -lpthread >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
cd "$T" && OMP_NUM_THREADS=${DEMO_THREADS:-1} OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(pid, prop, ef):
    g = {"CXX": CXX}; exec(open(ef).read(), g)
    d = os.path.join(V, "seeded", pid); os.makedirs(d, exist_ok=True)
    out = ""; files = {}
    for f, old, new in g["edits"]:
        t = files.setdefault(f, open(os.path.join("/repo", f), encoding="latin-1").read())
        if t.count(old) != 1: sys.exit("%s: %d matches of %r" % (f, t.count(old), old))
        files[f] = t.replace(old, new)
    for f, t in files.items():
        o = open(os.path.join("/repo", f), encoding="latin-1").read()
        out += "diff --git a/%s b/%s\n" % (f, f)
        for l in difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f): out += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w", encoding="latin-1").write(out)
    json.dump({"property": prop, "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "demo" in g: open(os.path.join(d, "demo.sh"), "w").write(g["demo"]); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n in g.get("files", {}): open(os.path.join(d, n), "w").write(g["files"][n])
    print(sh("cd /repo && git apply --check %s/patch.diff && echo applies" % d).stdout)
def attempt(pid, a):
    d = os.path.join(V, "seeded", pid); m = json.load(open(d + "/meta.json"))
    w = "/tmp/plant-" + pid; shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    dd = "/tmp/plantdemo-" + pid; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    for x in os.listdir(dd):
        if x.endswith((".diff", ".patch")) or x == "meta.json": os.unlink(os.path.join(dd, x))
    s = ["set -u", "mount --bind %s /repo" % w, "cd /repo", "git checkout -q -- . ",
         "bash /opt/vp/build.sh >/tmp/plant-%s.b0 2>&1 || echo BUILD0 FAIL" % pid,
         "timeout 300 bash %s/demo.sh >/tmp/plant-%s.d0 2>&1; echo demo-clean $?" % (dd, pid),
         "git apply %s/patch.diff || echo APPLY FAIL" % d,
         "bash /opt/vp/build.sh >/tmp/plant-%s.b1 2>&1 || echo BUILD1 FAIL" % pid,
         "timeout 300 bash %s/demo.sh >/tmp/plant-%s.d1 2>&1; echo demo-patched $?" % (dd, pid)]
    if "--notests" not in a: s.append("bash /opt/vp/test.sh /tmp/plant-%s.json | tail -1" % pid)
    if "--nocheck" not in a:
        props = [x for x in a if x[0] != "-"] or [m["property"]]
        for p in props: s.append("cd %s && VERIF_REPO=/repo VERIF_BUILD=/tmp/plantb-%s VERIF_EVID=/tmp/plantb-%s/ev timeout 900 python3 -B check.py %s | cut -c1-400; echo check %s ${PIPESTATUS[0]}" % (V, pid, pid, p, p))
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "\n".join(s)])
    for x in (w, dd): shutil.rmtree(x, ignore_errors=True)
    if "--keep" not in a: shutil.rmtree("/tmp/plantb-" + pid, ignore_errors=True)
if sys.argv[1] == "make": make(*sys.argv[2:5])
else: attempt(sys.argv[2], sys.argv[3:])
