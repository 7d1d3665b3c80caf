#!/usr/bin/env python3
"""mutate.py FILE-REGEX N SEED [OUT]   development tool: small random changes of /repo's sources in a scratch clone, each run
against the checks responsible for the file; survivors are listed for review (they are equivalent or a gap).  No check uses it."""
import os, re, sys, random, subprocess, json, time
MU = "/tmp/mu"; V = os.environ.get("MUT_VERIF", "/verif")
MAP = [  # file regex -> checks, most relevant first
 (r"qdlib/(Laser|OLaser|OGridDipole|OMatDipole|OGridRaman|OGridKick)", "O05 O02 O04 O01 R01"),
 (r"qdlib/(OCheby|OGSPO|OSPO|OSIL|OArnoldi|ORK4|OPropagator|Butcher)", "U01 U03 U02 O01"),
 (r"qdlib/(OGobbler|OGridPML|PML)", "O04 U01 O01 O03"),
 (r"qdlib/(FileWF|FileOGrid|FileMatrix|FileSingle|File)", "F01 F02 F03 F04 F05"),
 (r"qdlib/WFBuffer", "M02"),
 (r"qdlib/(WF|GridSystem|WaveFunction)", "R07 G01 O03 F01 O01"),
 (r"qdlib/(Transform|Kspace|HOFD|Diff)", "G03 G01 O02 O04 R01 R03 U02"),
 (r"qdlib/O", "O02 O04 O06 O03 O01 U01 M05"),
 (r"fft/", "G03"), (r"linalg/", "R06 U01"), (r"math/", "G02 M04 O03 G01"),
 (r"tools/Memory", "M01"), (r"tools/(QDClock|QDGlobalClock)", "C01 U03 R01 M05"), (r"tools/(ParamContainer)", "F06 R07"), (r"tools/Getopt", "X03"),
 (r"tools/(PeakFinder)", "R06"), (r"tools/(Collector)", "M05"), (r"tools/(TmpFile)", "M03"), (r"tools/(File)", "F01 F03 F02 R01"), (r"tools/", "R01 R03 R05 F06"),
 (r"Prog(Eigen|Autocorr)|Autokorr", "R06 R01"), (r"ProgPropa|Reporter", "R01 R02"), (r"ProgFilter|FiltersList", "R03"), (r"ProgOCT|ProgCfun|CmdHandler", ""),
 (r"GlobalOpList|GlobalWFList|ChainLoader", "M05 R07 R03 R04"), (r"qdz", "R05"), (r"simpleXml", "X01 X02"), (r"modules/", "M05 R07 R04"), (r"qdng", "R04 R01"),
]
OPS = [(r"(?<![<>=!-])<(?![<=])(?=[^;]*[;)])", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])(?=[^;]*[;)])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w\])]) \+ (?=[\w(])", " - "), (r"(?<=[\w\])]) - (?=[\w(])", " + "), (r"(?<=[\w\])])\+(?=[\w(])(?!\+)", "-"), (r"(?<=[\w\])])-(?=[\w(])(?![->])", "+"), (r" \* (?=[\w(])(?<![a-z] \* )", " / "), (r"(?<=[\w)\]])\*(?=[\w(])", "+"), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.\"])0(?![\w.\"])", "1"), (r"(?<![\w.\"])1(?![\w.\"])", "2"), (r"(?<![\w.\"])2(?![\w.\"])", "3"), (r"\+\+", "--"), (r"\bif \((?!.*\bif)", "if (!"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"(?<=return )(\w[^;]*);", None), ("DEL", None), ("DELIF", None)]
def mutants(path, rnd, n):
    L = open(path, errors="surrogateescape").read().split("\n"); out = []; com = False; cand = []
    for i, l in enumerate(L):
        s = l.strip()
        if com: com = "*/" not in s; continue
        if s.startswith("/*"): com = "*/" not in s; continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "case", "template", "typedef", "class", "enum", "friend", "virtual", "throw", "log", "extern", "public", "private", "}", "{")) or "cout" in s or "cerr" in s or "#include" in s or "throw" in s: continue
        if not l.startswith((" ", "\t")): continue
        for k, (r, t) in enumerate(OPS):
            if r == "DEL":
                if re.match(r"^[\w\[\]().>*&-]+(\s*[-+*/]?=[^=].*|\(.*\)|\+\+|--);$", s) and not s.startswith(("return", "delete", "else")): cand.append((i, k, 0))
            elif r == "DELIF":
                if re.match(r"^if ?\(.*\)\s*\{?$", s): cand.append((i, k, 0))
            elif t is None: continue
            else:
                code = re.sub(r'"[^"]*"', lambda m: '"' + "~" * (len(m[0]) - 2) + '"', l.split("//")[0])
                for m in re.finditer(r, code): cand.append((i, k, m.start()))
    rnd.shuffle(cand); used = {}
    for i, k, p in cand:
        if len(out) >= n: break
        if used.get(i, 0) >= 1: continue
        r, t = OPS[k]; M = list(L)
        if r == "DEL": M[i] = re.match(r"\s*", L[i])[0] + ";"
        elif r == "DELIF": M[i] = re.sub(r"if ?\((.*)\)(\s*\{?)$", r"if (false && (\1))\2", L[i])
        else:
            code = re.sub(r'"[^"]*"', lambda m: '"' + "~" * (len(m[0]) - 2) + '"', L[i].split("//")[0]); m = re.compile(r).search(code, p)
            if not m: continue
            if r.startswith(r"\bif"):
                x = re.match(r"^(\s*(?:else )?if ?)\((.*)\)(\s*\{?)$", L[i])
                if not x: continue
                M[i] = x[1] + "(!(" + x[2] + "))" + x[3]
            else: M[i] = L[i][:m.start()] + t + L[i][m.end():]
        if M[i] == L[i]: continue
        used[i] = 1; out.append((i + 1, L[i].strip(), M[i].strip(), "\n".join(M)))
    return out
def main():
    rx, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); outp = sys.argv[4] if len(sys.argv) > 4 else "/tmp/mut.txt"
    rnd = random.Random(seed)
    if not os.path.isdir(MU): subprocess.check_call(["git", "clone", "-q", "/repo", MU])
    subprocess.check_call(["git", "-C", MU, "checkout", "-q", "--", "."]); subprocess.check_call(["git", "-C", MU, "pull", "-q", "--ff-only"])
    fs = [f for f in subprocess.check_output(["git", "-C", MU, "ls-files", "src"], text=True).split() if re.search(rx, f) and f.endswith((".cpp", ".h", ".yy", ".ll")) and "/tests/" not in f and "/matlab/" not in f]
    todo = []
    for f in fs: todo += [(f,) + m for m in mutants(os.path.join(MU, f), rnd, n)]
    rnd.shuffle(todo)
    env = dict(os.environ, VERIF_REPO=MU, VERIF_BUILD="/tmp/mub", VERIF_EVID="/tmp/mue", VERIF_TIER="quick")
    os.makedirs("/tmp/mue", exist_ok=True)
    def ck(c):
        e = dict(env)
        if c not in ("O02", "O04", "U01"): e["MC_FIRST"] = "1"
        try: r = subprocess.run(["nice", "-n", "15", "python3", V + "/check.py", c], env=e, capture_output=True, text=True, timeout=600, start_new_session=True)
        except subprocess.TimeoutExpired: subprocess.run(["pkill", "-9", "-f", "/tmp/mub/bin"]); return 9, "timeout"
        return r.returncode, r.stdout + r.stderr
    for f, line, old, new, text in todo:
        checks = next((c for r, c in MAP if re.search(r, f[4:] if f.startswith("src/") else f)), "")
        if not checks: continue
        p = os.path.join(MU, f); orig = open(p, errors="surrogateescape").read(); open(p, "w", errors="surrogateescape").write(text); t0 = time.time(); res = "SURVIVED"
        for c in checks.split():
            r, o = ck(c)
            if r == 1 and "VIOLATION" in o: res = "killed " + c; break
            if "error:" in o or "undefined reference" in o: res = "nocompile " + "".join(re.findall(r".*(?:error:|undefined reference).*", o)[:1])[:200]; break
            if r: res = "rc%d %s %s" % (r, c, o[-200:].replace("\n", " ")); break
        open(p, "w", errors="surrogateescape").write(orig)
        with open(outp, "a") as h: h.write("%-10s %s:%d  %s  =>  %s   (%.0fs)\n" % (res, f, line, old[:110], new[:110], time.time() - t0))
main()
