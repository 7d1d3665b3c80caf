// R04: the program on damaged inputs, every run in a process of its own
#include "run.h"
#include "iofault.h"
#include <memory>
#include <unistd.h>
#define main qdng_main
#include "qdng.cpp"
#undef main
using namespace run;
extern "C" const char* __asan_default_options() { return "exitcode=77:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096"; }
// marks behind a name: r has to be there, n a number, k a keyword, f a file, b an operator/wave function class
struct Attr { std::string name, val, mark; };
struct Node { std::string name, mark; std::vector<Attr> a; std::vector<std::shared_ptr<Node>> ch; std::string text; };
typedef std::shared_ptr<Node> NP;
static NP parse(const char*& p) { // at '<'
   NP n(new Node); p++; auto name = [&](std::string& s, std::string& m) { while (*p && !strchr(" \n\t~=/>", *p)) s += *p++; if (*p == '~') { p++; while (isalpha(*p)) m += *p++; } }; name(n->name, n->mark);
   for (;;) { while (isspace(*p)) p++; if (*p == '/') { p += 2; return n; } if (*p == '>') { p++; break; } Attr a; name(a.name, a.mark); p += 2; while (*p != '"') a.val += *p++; p++; n->a.push_back(a); }
   for (;;) { while (isspace(*p)) p++; if (p[1] == '/') { while (*p++ != '>'); return n; } n->ch.push_back(parse(p)); } }
static NP copy(const NP& n) { NP m(new Node(*n)); for (auto& x : m->ch) x = copy(x); return m; }
static std::string text(const NP& n, const char* sep = "", char q = '"') { if (n->name == "#") return n->text; std::string s = "<" + n->name; for (auto& a : n->a) { s += *sep ? sep : " "; s += a.name + "=" + q + a.val + q; } if (n->ch.empty()) return s + "/>" + sep; s += ">" + std::string(sep); for (auto& x : n->ch) s += text(x, sep, q); return s + "</" + n->name + ">" + sep; }
static void nodes(const NP& n, std::vector<std::pair<NP, int>>& v) { for (size_t i = 0; i < n->ch.size(); i++) { v.push_back({ n, (int)i }); nodes(n->ch[i], v); } }
struct Base { const char* name; std::string xml; std::vector<std::string> need, out; }; // files read, files written by the correct run
static std::vector<Base>& bases() {
   static std::vector<Base> v; if (!v.empty()) return v;
   v.push_back({ "levels", R"(<qdng><propa~r dt~rn="0.5" steps~rn="4" wcycle~n="2" dir="o" fname="WF" nfile="norm" spectrum="spec" proj0="true"><propagator~r name~rb="Cheby" prec~n="1e-10"><hamiltonian~r name~rb="Sum"><A name~rb="HermitianMatrix" file~rf="ham3"/><B name~rb="MatDipole" file~rf="mdi" laser~rf="las1"/></hamiltonian></propagator><wf~r name~b="Level" file~rf="wl3" normalize="true"/><filterpost><expeconly name~rb="HermitianMatrix" file~rf="mdi" value~k="complex" header="x"/><expeconly name~rb="Projection" files~f="wser" start="0"/><normalize/></filterpost></propa></qdng>)",
      { "ham3.op", "mdi.op", "las1.op", "wl3.wf", "wser_0.wf" }, { "o/WF_0.wf", "o/WF_1.wf", "o/WF_2.wf", "o/norm", "o/expec_post.dat", "o/Propagation.meta", "o/spec" } });
   v.push_back({ "grid", R"(<qdng><propa~r dt~rn="0.5" steps~rn="2" wcycle~n="1" dir="o"><propagator~r name~rb="GSPO"><A~r name~rb="GridNablaSq" mass~n="8" key="kin"/><B~r name~rb="GridPotential" file~rf="pot1"/><C name~rb="GridDipole" file~rf="mu" laser~rf="las1"/></propagator><wf~r name~b="GridCartesian" file~rf="wg"/><filterinit><apply name~rb="GridPosition"/></filterinit><filterpre><expec ref~rk="kin"/></filterpre></propa></qdng>)",
      { "pot1.op", "mu.op", "las1.op", "wg.wf" }, { "o/WF_0.wf", "o/WF_1.wf", "o/WF_2.wf", "o/Propagation.meta" } });
   v.push_back({ "states", R"(<qdng><opdefs><opdef name~rb="GridNablaSq" mass~n="8" key~r="kin"/></opdefs><propa dt~rn="0.5" steps~rn="2" wcycle~n="1" dir="o"><propagator~r name~rb="SIL" order~n="4"><hamiltonian~r name~rb="Multistate"><m0.0 name~rb="GridSum"><A name~rb="GridPotential" file~rf="pot1"/><B name~rb="GridPotential" file~rf="pot2"/></m0.0><m1.1 name~rb="Sum"><A ref~rk="kin"/><B name~rb="Sum"><C name~rb="GridPotential" file~rf="pot2"/></B></m1.1><m1.0 name~rb="GridDipole" file~rf="mu" laser~rf="las2"/></hamiltonian></propagator><wf~r name~rb="Multistate" states~n="2" normalize="true"><wf0 name~b="LC" normalize="true"><w file~rf="wg" coeff~n="2"/><w file~rf="wg2" coeff2~n="0.5" phase~n="0.5"/></wf0><wf1 name~b="GridCartesian" file~rf="wg"/></wf><filterpost><rho ms~rn="0,1" value~k="abs"/><expeconly name~rb="Multistate"><m0.1~r name~rb="GridPotential" file~rf="coup"/></expeconly></filterpost></propa></qdng>)",
      { "pot1.op", "pot2.op", "mu.op", "las2.op", "wg.wf", "wg2.wf", "coup.op" }, { "o/WF_2.wf", "o/Propagation.meta", "o/expec_post.dat" } });
   v.push_back({ "eigen", R"(<eigen~r method~k="imag" dir="o" Nef~rn="2" steps~n="400" dt~rn="0.5" conv~n="1e-6" fname="ef" ename="energy" diag="true"><propagator~r name~rb="Cheby"><hamiltonian~r name~rb="HermitianMatrix" file~rf="ham3"/></propagator><wf~r file~rf="wl3"/></eigen>)", { "ham3.op", "wl3.wf" }, { "o/ef_0.wf", "o/ef_1.wf", "o/energy" } });
   v.push_back({ "spectrum", R"(<eigen~r method~k="ac" dir="o" Nef="2" steps~n="32" dt~rn="0.5" tol~n="1"><propagator~r name~rb="RK4"><hamiltonian~r name~rb="HermitianMatrix" file~rf="ham2"/></propagator><wf~r file~rf="wl2"/></eigen>)", { "ham2.op", "wl2.wf" }, {} });
   v.push_back({ "lanczos", R"(<eigen~r method~rk="lanczos" dir="o" dt~rn="0.5"><propagator~r name~rb="Arnoldi" order~n="3"><hamiltonian~r name~rb="HermitianMatrix" file~rf="ham3"/></propagator><wf~r file~rf="wl3"/></eigen>)", { "ham3.op", "wl3.wf" }, {} });
   v.push_back({ "filter", R"(<filter~r path~r="ser" dir="o" fname="tab"><filterdef><expeconly name~rb="HermitianMatrix" file~rf="mdi"/><apply name~rb="HermitianMatrix" file~rf="mdi"/><expec name~rb="MatDipole" file~rf="mdi" laser~rf="las1" header="y" int="true"/></filterdef></filter>)", { "mdi.op", "las1.op", "ser/WF_0.wf", "ser/Propagation.meta" }, { "o/tab" } });
   v.push_back({ "cfunc", R"(<cfunc~r dt~rn="0.5" steps~rn="4" wcycle~n="2" dir="o" write="o/series"><propagator~r name~rb="RK4"><hamiltonian~r name~rb="HermitianMatrix" file~rf="ham3"/></propagator><wf~r file~rf="wl3"/><bra><A name~rb="HermitianMatrix" file~rf="mdi"/><U/></bra><ket~r><A name~rb="HermitianMatrix" file~rf="mdi"/><U~r/><B name~rb="HermitianMatrix" file~rf="mdi"/></ket></cfunc>)", { "ham3.op", "mdi.op", "wl3.wf" }, { "o/Cfun_1.cf", "o/Cfun_1.meta", "o/series/WF_0.wf", "o/series/WF_1.wf", "o/series/Propagation.meta" } });
   v.push_back({ "oct", R"(<oct~r alpha~n="20" dt~rn="0.5" steps~rn="15" shape~rf="las2" method~k="krotov" iterations~n="2" conv~n="1e-9" dir="o" ttype~k="overlap" coup~k="dipole" ntargets~n="1" writeyield="true" yfile="yield" writel="true"><propagator~r name~rb="Cheby"><hamiltonian~r name~rb="Sum"><A name~rb="HermitianMatrix" file~rf="ham3"/><B name~rb="MatDipole" file~rf="mdi" laser~rf="las1"/></hamiltonian></propagator><wfi0~r file~rf="wl3"/><wft0~r file~rf="wser_0"/></oct>)", { "ham3.op", "mdi.op", "las1.op", "las2.op", "wl3.wf", "wser_0.wf" }, { "o/laser.op", "o/yield", "o/laser_0.op", "o/laser_1.op" } });
   v.push_back({ "octop", R"(<oct~r dt~rn="0.5" steps~rn="15" shape~rf="las2" method~k="freq" freql~n="0.1" freqh~n="2" iterations~n="1" dir="o" mv="true" ttype~rk="operator"><propagator~r name~rb="Arnoldi" order~n="4"><hamiltonian~r name~rb="Sum"><A name~rb="HermitianMatrix" file~rf="ham3"/><B name~rb="MatDipole" file~rf="mdi" laser~rf="las1"/></hamiltonian></propagator><wfi0~r file~rf="wl3"/><target0~r name~rb="HermitianMatrix" file~rf="ham3"/></oct>)", { "ham3.op", "mdi.op", "las1.op", "las2.op", "wl3.wf" }, { "o/laser.op" } });
   return v; }
static void prepare() { char cwd_[4096]; if (getcwd(cwd_, sizeof cwd_)) mc::rmtree(std::string(cwd_) + "/o"); wipe("."); dataFiles(); auto st = [](Sp f, int k, const char* n) { wfFile(f, vec(f.size(), k), n); }; st(level(3), 3, "wl3"); st(level(2), 3, "wl2"); st(grid({ 4 }), 3, "wg"); st(grid({ 4 }), 4, "wg2"); for (int i = 0; i < 3; i++) st(level(3), 4 + i, ("wser_" + std::to_string(i)).c_str());
   mkdir("ser", 0700); for (int i = 0; i < 3; i++) st(level(3), 7 + i, ("ser/WF_" + std::to_string(i)).c_str()); spit("ser/Propagation.meta", "CLASS = Propagation\nNt = 4\ndt = 0.25\nWcycle = 2\nWFBaseName = WF\n"); }
struct Outcome { int rc; bool hang = false; std::string out; };
static int theLimit = 20; static iof::State* theFault = NULL;
static Outcome call(std::vector<std::string> a, const std::string& in = "") { a.insert(a.begin(), "qdng"); Outcome r; pid_t p = fork();
   if (p == 0) { setpgid(0, 0); int f = open("run.log", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(f, 2); int z = open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY); dup2(z, 0); unsetenv("QD_DIR"); if (theFault) iof::s() = *theFault; std::vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(NULL); optind = 0; qdng_main(a.size(), v.data()); _exit(99); }
   int st; for (double t0 = mc::now();;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (mc::now() - t0 > theLimit) { kill(p, SIGKILL); waitpid(p, &st, 0); r.hang = true; break; } usleep(300); }
   slurp("run.log", r.out); if (getenv("R04_KEEP")) spit(getenv("R04_KEEP"), r.out); unlink("run.log"); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); return r; }
static std::string tail(const std::string& s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }
static std::string message(const std::string& o) { size_t p = o.find("occured:"); if (p == std::string::npos) return ""; auto l = lines(o.substr(p)); return l.size() > 1 ? l[1] : ""; }
static std::string K_(const char* k, const std::string& what) { return getenv("R04_ALL") ? k + (" " + what) : k; }
static bool judge(mc::Ctx& c, const Outcome& r, const std::string& what) { // true: success
   c.step(); if (r.hang) c.fail(K_("hang", what), "%s: still running after %d s: %s", what.c_str(), theLimit, tail(r.out).c_str());
   if (r.rc < 0 || r.rc == 77 || r.rc == 99) { std::string w; for (auto& l : lines(r.out)) if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("terminate") != std::string::npos || l.find("    #") != std::string::npos) { size_t p = l.find(" in "); w += p == std::string::npos ? l : l.substr(p); if (w.size() > 900) break; } c.fail(K_("crash", what), "%s: status %d: %s", what.c_str(), r.rc, w.c_str()); }
   if (r.rc != 0) { bool m = false; for (char ch : message(r.out)) m |= !isspace(ch); if (!m) c.fail(K_("no message", what), "%s: status %d: %s", what.c_str(), r.rc, tail(r.out).c_str()); if (r.out.find("Normal termination") != std::string::npos) c.fail("contradiction", "%s: reports normal termination with status %d", what.c_str(), r.rc); return false; }
   if (r.out.find("Normal termination") == std::string::npos || message(r.out).size()) c.fail(K_("failure with status 0", what), "%s: %s", what.c_str(), tail(r.out).c_str()); return true; }
static void complete(mc::Ctx& c, const Base& b, const std::string& what) { for (auto& f : b.out) { struct stat st; if (stat(f.c_str(), &st) || st.st_size == 0) c.fail("incomplete", "%s: success without %s", what.c_str(), f.c_str()); } }
// one element or attribute of one program
static bool mutate(mc::Ctx& c, const NP& root, bool& must, std::string& what) {
   std::vector<std::pair<NP, int>> v; nodes(root, v); int n = c.pick(v.size() + 1, "element"); NP par = n ? v[n - 1].first : NP(), e = n ? par->ch[v[n - 1].second] : root; auto at = par ? par->ch.begin() + v[n - 1].second : root->ch.begin();
   static const char* M[] = { "renamed", "only a comment inside", "text inside", "text before", "twice", "removed", "without content" }; static const char* V[] = { "", "x", "-1", "0", "1e999", "nan", "&lt;&amp;", "2", "300", "99999999999", "true", "1,2", "../x/y" }; int nv = sizeof V / sizeof *V, na = e->a.size();
   int k = c.pick(7 + na * (nv + 1) + 1, "change"); auto raw = [](const char* t) { NP x(new Node); x->name = "#"; x->text = t; return x; }; bool req = e->mark.find('r') != std::string::npos; what = "<" + e->name + "> ";
   if (k < 7) { what += M[k]; switch (k) {
      case 0: e->name = "bogus"; must = req && par != NULL; if (!par) must = true; break;
      case 1: if (e->ch.empty()) e->ch.push_back(raw("<!-- -->")); else { bool r = false; for (auto& x : e->ch) r |= x->mark.find('r') != std::string::npos; must = r; e->ch.clear(); e->ch.push_back(raw("<!-- -->")); } break;
      case 2: e->ch.insert(e->ch.begin(), raw("junk")); break;
      case 3: if (!par) return false; par->ch.insert(at, raw("junk")); break;
      case 4: if (!par) return false; par->ch.insert(at, copy(e)); break;
      case 5: if (!par) return false; par->ch.erase(at); must = req; break;
      case 6: if (e->ch.empty()) return false; for (auto& x : e->ch) must |= x->mark.find('r') != std::string::npos; e->ch.clear(); break; } return true; }
   k -= 7; if (k == na * (nv + 1)) { e->a.push_back({ "bogus", "1", "" }); what += "with an unknown attribute"; return true; }
   Attr& a = e->a[k / (nv + 1)]; what += a.name; k %= nv + 1; auto has = [&](char m) { return a.mark.find(m) != std::string::npos; };
   if (k == nv) { what += " removed"; must = has('r'); Attr t = a; for (size_t i = 0; i < e->a.size(); i++) if (e->a[i].name == t.name) e->a.erase(e->a.begin() + i); return true; }
   if (a.val == V[k]) return false; what += "=\"" + std::string(V[k]) + "\""; a.val = V[k]; std::string s = V[k];
   if (s == "") must = has('r') || has('n'); else if (has('n')) must = s == "x" || s == "&lt;&amp;" || s == "true" || s == "../x/y"; else if (has('k') || has('f') || has('b')) must = true; else must = false; return true; }
static void elements(mc::Ctx& c) {
   auto& bs = bases(); const Base& b = bs[c.pick(bs.size(), "program")]; const char* p = b.xml.c_str(); NP root = parse(p); bool must = false; std::string what; if (!mutate(c, root, must, what)) c.prune();
   if (c.thorough() && c.flag("two changes")) { bool m2 = false; std::string w2; if (!mutate(c, root, m2, w2)) c.prune(); what += ", " + w2; must = false; }
   c.doing("%s: %s", b.name, what.c_str()); prepare(); spit("in.qdi", text(root)); Outcome r = call({ "in.qdi" }); c.nontrivial(); what = std::string(b.name) + ": " + what; bool ok = judge(c, r, what); if (ok && must) c.fail(K_("accepted", what), "%s: success", what.c_str()); c.outcome(mc::Hash().i(ok).i(must).h); }
// size and formatting of correct inputs
static void formats(mc::Ctx& c) {
   auto& bs = bases(); int bi = c.pick(bs.size(), "program"); const Base& b = bs[bi]; const char* p = b.xml.c_str(); NP root = parse(p); std::string x = text(root), what; int k = c.pick(9, "format"); std::vector<std::string> args; std::string in = "in.qdi";
   switch (k) {
      case 0: what = "as it is"; break;
      case 1: what = "one attribute per line"; x = text(root, "\n   "); break;
      case 2: what = "single quotes"; x = text(root, "", '\''); break;
      case 3: what = "declaration"; x = "<?xml version=\"1.0\"?>\n<!-- a comment -->\n" + x + "\n"; break;
      case 4: what = "comments everywhere"; { std::string y; for (size_t i = 0; i < x.size(); i++) { y += x[i]; if (x[i] == '>') y += "\n<!-- <c> -->\n"; } x = y; break; }
      case 5: what = "leading blanks"; x = "\n \t" + x; break;
      case 6: { static const int S[] = { 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 1 << 20 }; int s = S[c.pick(12, "size")]; int w = c.pick(3, "where"); what = "of size " + std::to_string(s); if ((int)x.size() + 9 > s) c.prune(); if (w == 0) x = x + "\n" + std::string(s - x.size() - 1, ' '); else if (w == 1) x = x + "<!-- " + std::string(s - x.size() - 9, 'x') + " -->"; else { size_t q = x.find('>') + 1; x = x.substr(0, q) + "<!--" + std::string(s - x.size() - 7, ' ') + "-->" + x.substr(q); } break; }
      case 7: what = "in another directory"; mkdir("d", 0700); in = "d/an input file.xml"; break;
      case 8: what = "output directory on the command line"; args = { "-d", "o" }; break; }
   c.doing("%s: %s", b.name, what.c_str()); prepare(); mkdir("d", 0700); spit(in, x); args.push_back(in); Outcome r = call(args); c.nontrivial(); what = std::string(b.name) + ": " + what; if (!judge(c, r, what)) c.fail("rejected", "%s: %s", what.c_str(), message(r.out).c_str()); complete(c, b, what); c.outcome(mc::Hash().i(k).h); }
// truncated inputs, unreadable inputs, missing or unusable files, command lines
static void unusable(mc::Ctx& c) {
   auto& bs = bases(); int k = c.pick(5, "part"); std::string what; prepare();
   if (k == 0) { const Base& b = bs[c.pick(bs.size(), "program")]; const char* p = b.xml.c_str(); NP root = parse(p); std::string x = text(root); int hi = c.pick((x.size() + 31) / 32, "length/32"), lo = c.pick(std::min<int>(32, x.size() - 32 * hi), "length%32"); int n = 32 * hi + lo; what = std::string(b.name) + " input cut to " + std::to_string(n) + " bytes"; c.doing("%s", what.c_str()); spit("in.qdi", x.substr(0, n)); if (judge(c, call({ "in.qdi" }), what)) c.fail(K_("accepted", what), "%s: success", what.c_str()); }
   else if (k == 1) { const Base& b = bs[c.pick(bs.size(), "program")]; const char* p = b.xml.c_str(); NP root = parse(p); std::string f = b.need[c.pick(b.need.size(), "file")]; int m = c.pick(3, "state"); what = std::string(b.name) + ": " + f + (m == 0 ? " missing" : m == 1 ? " empty" : " a directory"); c.doing("%s", what.c_str()); unlink(f.c_str()); if (m == 1) spit(f, ""); if (m == 2) mkdir(f.c_str(), 0700); spit("in.qdi", text(root)); bool ok = judge(c, call({ "in.qdi" }), what); if (m == 2) rmdir(f.c_str()); if (ok) c.fail(K_("accepted", what), "%s: success", what.c_str()); }
   else if (k == 2) { const Base& b = bs[c.pick(bs.size(), "program")]; const char* p = b.xml.c_str(); NP root = parse(p); int m = c.pick(2 + (int)b.out.size(), "output"); spit("in.qdi", text(root)); rmdir("o"); std::string d; if (m == 0) { what = "output directory is a file"; spit("o", "x"); } else if (m == 1) { what = "no parent directory"; } else { mkdir("o", 0700); d = b.out[m - 2]; if (d.find("series") != std::string::npos) mkdir("o/series", 0700); mkdir(d.c_str(), 0700); what = d + " is a directory"; } what = std::string(b.name) + ": " + what; c.doing("%s", what.c_str()); std::vector<std::string> a = { "in.qdi" }; if (m == 1) a = { "-d", "none/o", "in.qdi" }; bool ok = judge(c, call(a), what); if (d.size()) rmdir(d.c_str()); if (ok && m != 1) c.fail(K_("accepted", what), "%s: success", what.c_str()); if (ok && m == 1) for (auto& f : b.out) { struct stat st; if (f.find("series") == std::string::npos && stat(("none/" + f).c_str(), &st)) c.fail("incomplete", "%s: success without %s", what.c_str(), f.c_str()); } mc::rmtree(c.dir() + "/none"); }
   else if (k == 3) { static const char* X[] = { "", " ", "\n\n", "garbage", "<", "<a", "<a/>", "<qdng/>", "<qdng></qdng>", "<qdng>text</qdng>", "<qdng><!-- --></qdng>", "<multi><opdefs/></multi>", "<qdng><opdefs><!-- --></opdefs></qdng>", "<qdng><wfdefs/></qdng>", "<qdng><opdefs/><wfdefs/></qdng>", "<propa/>", "<propa dt=\"1\" steps=\"1\"/>", "<propa dt=\"1\" steps=\"1\"><!-- --></propa>", "<eigen/>", "<eigen Nef=\"1\" steps=\"1\" dt=\"1\"/>", "<filter/>", "<filter path=\"ser\"/>", "<filter path=\"ser\"><!-- --></filter>", "<filter path=\"ser\"><filterdef/></filter>", "<filter path=\"ser\"><filterdef><!-- --></filterdef></filter>", "<cfunc/>", "<cfunc dt=\"1\" steps=\"1\"/>", "<oct/>", "<oct dt=\"0.25\" steps=\"15\" shape=\"las2\"/>", "<densmat/>", "<qdng dir=\"\"><propa dt=\"1\" steps=\"1\"/></qdng>", "<qdng><opdefs><opdef/></opdefs></qdng>", "<qdng><opdefs><bogus/></opdefs></qdng>", "<qdng><opdefs><opdef name=\"Multistate\" key=\"a\"/></opdefs></qdng>", "<qdng><opdefs><opdef name=\"GridSum\" key=\"a\"/></opdefs></qdng>", "<qdng><opdefs><opdef name=\"Sum\" key=\"a\"/></opdefs></qdng>", "<qdng><opdefs><udef name=\"Cheby\" key=\"a\"/></opdefs></qdng>", "<qdng><wfdefs><wfdef key=\"a\" name=\"LC\"/></wfdefs></qdng>", "<qdng><wfdefs><wfdef key=\"a\" name=\"Multistate\"/></wfdefs></qdng>", "<qdng><wfdefs><wfdef key=\"a\" name=\"Multimap\"/></wfdefs></qdng>", "<qdng><wfdefs><wfdef key=\"a\" name=\"LC\"><!-- --></wfdef></wfdefs></qdng>", "<qdng><wfdefs><wfdef/></wfdefs></qdng>", "\xff\xfe<\0a", "<qdng debug=\"x\"/>" };
      int n = sizeof X / sizeof *X, i = c.pick(n, "document"); static const char* H[] = { "", "<?xml version=\"1.0\"?>\n" }; int h = c.pick(2, "declared"); what = std::string("document '") + H[h] + X[i] + "'"; c.doing("%s", what.c_str()); spit("in.qdi", std::string(H[h]) + X[i]); bool ok = judge(c, call({ "in.qdi" }), what); static const std::set<std::string> fine = { "<filter path=\"ser\"/>", "<filter path=\"ser\"><!-- --></filter>", "<qdng><opdefs><opdef name=\"GridSum\" key=\"a\"/></opdefs></qdng>", "<qdng><opdefs><opdef name=\"Multistate\" key=\"a\"/></opdefs></qdng>", "<multi><opdefs/></multi>", "<qdng><opdefs><!-- --></opdefs></qdng>", "<qdng><wfdefs/></qdng>", "<qdng><opdefs/><wfdefs/></qdng>", "<filter path=\"ser\"><filterdef/></filter>", "<filter path=\"ser\"><filterdef><!-- --></filterdef></filter>", "<qdng><opdefs><opdef name=\"Sum\" key=\"a\"/></opdefs></qdng>", "<qdng><opdefs><udef name=\"Cheby\" key=\"a\"/></opdefs></qdng>", "<qdng debug=\"x\"/>", "<qdng/>", "<qdng></qdng>" }; if (ok && !fine.count(X[i])) c.fail(K_("accepted", what), "%s: success", what.c_str()); }
   else { static const std::vector<std::vector<std::string>> A = { {}, { "none.qdi" }, { "d" }, { "-x", "in.qdi" }, { "in.qdi", "novalue" }, { "-d" }, { "-p" }, { "-d", "o" }, { "-h" }, { "-v" }, { "in.qdi", "a=1" }, { "-g", "in.qdi" }, { "-p", "2", "in.qdi" }, { "-p", "x", "in.qdi" }, { "-p", "-1", "in.qdi" }, { "-p", "0", "in.qdi" }, { "-c" }, { "-c", "none/fifo" }, { "-d", "", "in.qdi" }, { "-d", "in.qdi", "in.qdi" } }; int i = c.pick(A.size(), "arguments"); mkdir("d", 0700); const Base& b = bs[0]; const char* p = b.xml.c_str(); NP root = parse(p); spit("in.qdi", text(root)); what = "qdng"; for (auto& s : A[i]) what += " " + s; c.doing("%s", what.c_str());
      Outcome r = call(A[i]); bool good = i >= 8 && i <= 12; c.step(); if (r.hang) c.fail(K_("hang", what), "%s", what.c_str()); if (r.rc < 0 || r.rc == 77 || r.rc == 99) c.fail(K_("crash", what), "%s: status %d %s", what.c_str(), r.rc, tail(r.out).c_str()); if (i != 13 && i != 14 && i != 15 && i != 18) { if (good && r.rc) c.fail("rejected", "%s: %s", what.c_str(), tail(r.out).c_str()); if (!good && !r.rc) c.fail(K_("accepted", what), "%s: status 0: %s", what.c_str(), tail(r.out).c_str()); } if (r.out.empty()) c.fail(K_("no message", what), "%s", what.c_str()); }
   c.nontrivial(); c.outcome(mc::Hash().i(k).h); }
// every I/O operation on the output files fails
static std::map<std::string, std::string> outputs(const char* d = "o") { std::map<std::string, std::string> m; std::vector<std::string> l; list_(d, "", l); for (auto& f : l) { std::string x; slurp(std::string(d) + "/" + f, x); m[f] = x; } return m; }
static void faults(mc::Ctx& c) {
   auto& bs = bases(); const Base& b = bs[c.pick(bs.size(), "program")]; const char* p = b.xml.c_str(); NP root = parse(p); std::string what = b.name; static int* seen = (int*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   struct Ref { int n; std::map<std::string, std::string> out; }; static std::map<std::string, Ref> refs; iof::State f; f.dir = "o/"; f.on = true; f.seen = seen; theFault = &f;
   if (!refs.count(b.name)) { prepare(); seen[0] = seen[1] = 0; spit("in.qdi", text(root)); Outcome r = call({ "in.qdi" }); if (!judge(c, r, what)) c.fail("rejected", "%s: %s", what.c_str(), message(r.out).c_str()); refs[b.name] = { seen[0], outputs() }; }
   Ref& ref = refs[b.name]; if (ref.n < 2) c.fail("no I/O", "%s: %d operations", what.c_str(), ref.n); int at = c.big(ref.n, "operation"); f.at = at; f.kind = c.pick(2, "kind"); f.forever = c.flag("for good"); f.err = c.pick(2, "error") ? EIO : ENOSPC; what += ", I/O operation " + std::to_string(at) + " of " + std::to_string(ref.n) + (f.kind ? " cut in half" : " failed") + (f.forever ? " for good" : ""); c.doing("%s", what.c_str());
   prepare(); spit("in.qdi", text(root)); seen[0] = seen[1] = 0; Outcome r = call({ "in.qdi" }); theFault = NULL; if (seen[1]) c.nontrivial(); bool ok = judge(c, r, what); c.outcome(mc::Hash().i(ok).s(b.name).h); if (!ok) return;
   auto o = outputs(); for (auto& x : ref.out) { if (!o.count(x.first)) c.fail(K_("lost", what), "%s: success without %s", what.c_str(), x.first.c_str()); if (o[x.first] != x.second) c.fail(K_("damaged", what), "%s: success, but %s has %zu bytes instead of %zu", what.c_str(), x.first.c_str(), o[x.first].size(), x.second.size()); } }
int main(int argc, char** argv) { mc::Options o; o.name = "R04"; std::string m = argv[1]; return mc::Main(argc - 1, argv + 1, m == "elements" ? elements : m == "formats" ? formats : m == "faults" ? faults : unusable, o); }
