// R03: filters of a propagation and the filter program
#include "run.h"
using namespace run;
struct Op { std::string xml; std::function<Mat(int)> at; bool ref = false; };
static std::vector<Op>& ops_(const std::string& sys) {
   static std::map<std::string, std::vector<Op>> m; auto& v = m[sys]; if (!v.empty()) return v; Sp g = grid({ 4 }); auto fix = [](Mat x) { return [x](int) { return x; }; };
   if (sys == "levels in a field") { v.push_back({ "name=\"HermitianMatrix\" file=\"mdi\"", fix(matrixRef(3, 3)) }); v.push_back({ "name=\"MatDipole\" file=\"mdi\" laser=\"las1\"", [](int t) { return -F(1, t) * matrixRef(3, 3); } }); v.push_back({ "name=\"Sum\"><A name=\"Scalar\" value=\"-1.5\"/>", fix(Mat(3, -1.5)) }); }
   if (sys == "grid") { v.push_back({ "name=\"GridPosition\"", fix(local(g, [g](int p) { return xsum(g, -1, p); })) }); v.push_back({ "name=\"GridMomentum\"", fix(cd(0, -1) * d1(g, 0)) }); v.push_back({ "ref=\"kinetic\"", fix(0.125 * kinRef(g)), true }); v.push_back({ "name=\"GridDipole\" file=\"mu\" laser=\"las2\"", [g](int t) { return -F(2, t) * local(g, [](int p) { return pv(4, p); }); } }); }
   if (sys == "two states") { Mat T = 0.125 * kinRef(g); v.push_back({ "name=\"Multistate\" unity=\"false\"><m0.0 name=\"Scalar\" value=\"0.75\"/><m1.1 name=\"Scalar\" value=\"0.75\"/>", fix(Mat(8, 0.75)) }); v.push_back({ "name=\"Multistate\" unity=\"false\"><m0.0 name=\"GridPosition\"/><m1.1 ref=\"T\"/><m0.1 name=\"GridPotential\" file=\"coup\"/>", fix(block(2, 4, { { 0, 0, local(g, [g](int p) { return xsum(g, -1, p); }) }, { 1, 1, T }, { 0, 1, potRef(g, 3) }, { 1, 0, potRef(g, 3) } })), true }); }
   return v; }
enum { EXPEC, EXPECONLY, APPLY, NORM, RHO };
struct Filter { int kind; const Op* op = 0; int value = 0; bool integ = false; int i = 0, j = 0; std::string header; cd sum = 0; };
struct List { std::vector<Filter> f; int renorm = 0; bool deflt = false; // renorm: 0 default, 1 true, 2 false
   bool writes() const { for (auto& x : f) if (x.kind == EXPEC || x.kind == EXPECONLY || x.kind == RHO) return true; return false; }
   std::string text(const std::string& tag, const std::string& extra = "") const { static const char *K[] = { "expec", "expeconly", "apply", "normalize", "rho" }, *V[] = { "", "real", "imag", "complex", "abs" }; std::string s = "<" + tag + extra + (renorm ? renorm == 1 ? " renorm=\"true\"" : " renorm=\"false\"" : "") + ">";
      for (auto& x : f) { std::string n = K[x.kind]; s += "<" + n; if (x.value) s += std::string(" value=\"") + V[x.value] + "\""; if (x.integ) s += " int=\"true\""; if (x.header.size()) s += " header=\"" + x.header + "\""; if (x.kind == RHO) s += " ms=\"" + std::to_string(x.i) + "," + std::to_string(x.j) + "\""; if (x.op) { s += " " + x.op->xml; s += x.op->xml.find('<') != std::string::npos ? "</" + n + ">" : "/>"; } else s += "/>"; }
      return s + "</" + tag + ">"; }
   // one application: the row that is written
   std::vector<double> apply(const Sys& s, CV& v, int t, double dt, double time) { std::vector<double> r = { time }; bool re = renorm == 1 || (renorm == 0 && deflt);
      for (auto& x : f) { switch (x.kind) {
         case EXPEC: case EXPECONLY: { CV h = x.op->at(t) * v; cd e = ip(s, v, h); if (re) e /= ip(s, v, v); if (x.integ) x.sum += e * dt; else x.sum = e; if (x.kind == EXPEC) v = h; break; }
         case APPLY: v = x.op->at(t) * v; break;
         case NORM: { double n = std::sqrt(ip(s, v, v).real()); for (auto& y : v) y /= n; break; }
         case RHO: { int n = s.wf.s[0].size(); CV a(v.begin() + x.i * n, v.begin() + (x.i + 1) * n), b(v.begin() + x.j * n, v.begin() + (x.j + 1) * n); cd e = ip(s, a, b); if (x.integ) x.sum += e * dt; else x.sum = e; break; } }
         if (x.kind == EXPEC || x.kind == EXPECONLY || x.kind == RHO) switch (x.value) { case 2: r.push_back(x.sum.imag()); break; case 3: r.push_back(x.sum.real()); r.push_back(x.sum.imag()); break; case 4: r.push_back(std::abs(x.sum)); break; default: r.push_back(x.sum.real()); } }
      return r; } };
static const int SYS[] = { 1, 2, 3 };
static Filter item(mc::Ctx& c, const Sys& s, bool noRef, int n) {
   auto& o = ops_(s.name); int rho = s.wf.multi ? 3 : 0; int k = c.pick(o.size() * 3 + 1 + rho, "filter"); Filter f;
   if (k == 0) { f.kind = NORM; return f; } k--; if (k < (int)o.size() * 3) { f.kind = k % 3; f.op = &o[k / 3]; if (noRef && f.op->ref) c.prune(); } else { k -= o.size() * 3; f.kind = RHO; f.i = k == 2; f.j = k > 0; }
   if (f.kind != APPLY) { int q = c.pick(c.thorough() || n == 0 ? 7 : 2, "value"); static const int V[] = { 0, 3, 2, 1, 4, 0, 3 }; f.value = V[q]; f.integ = q == 5 || q == 6 || q == 2 || (q == 1 && n > 0); if (q > 3 || q == 1) f.header = "column" + std::to_string(n); }
   return f; }
static bool rows(mc::Ctx& c, const std::string& file, const List& l, const std::vector<std::vector<double>>& want, const std::string& what) {
   std::string t; if (!l.writes()) { if (slurp(file, t)) c.fail("table without observables", "%s: %s exists", what.c_str(), file.c_str()); return false; }
   if (!slurp(file, t)) c.fail("table missing", "%s: no %s", what.c_str(), file.c_str()); auto ls = lines(t); if (ls.size() != want.size() + 1) c.fail("number of rows", "%s: %s has %zu rows instead of %zu", what.c_str(), file.c_str(), ls.size() - 1, want.size());
   size_t at = 0; for (auto& x : l.f) if (x.header.size() && (x.kind == EXPEC || x.kind == EXPECONLY || x.kind == RHO)) { size_t p = ls[0].find(x.header, at); if (p == std::string::npos) c.fail("header", "%s: no column %s in '%s'", what.c_str(), x.header.c_str(), ls[0].c_str()); at = p; }
   for (size_t i = 0; i < want.size(); i++) { auto v = numbers(ls[i + 1]); c.step(); if (v.size() != want[i].size()) c.fail("number of columns", "%s: %s row '%s' has %zu values instead of %zu", what.c_str(), file.c_str(), ls[i + 1].c_str(), v.size(), want[i].size()); double big = 1e-3; for (double x : want[i]) big = std::max(big, std::fabs(x));
      for (size_t k = 0; k < v.size(); k++) if (!(std::fabs(v[k] - want[i][k]) <= 2e-9 * big + 1e-9)) c.fail(k ? "value in table" : "time in table", "%s: %s row %zu column %zu is %.10g instead of %.10g", what.c_str(), file.c_str(), i, k, v[k], want[i][k]); }
   return true; }
static void propa(mc::Ctx& c) {
   static bool done = false; if (!done) { dataFiles(); done = true; } auto& ss = run::systems(); const Sys& s = ss[SYS[c.pick(3, "system")]]; wfFile(s.wf, start(s), "init"); double dt = DT; int steps = 3;
   List L[3]; static const char *TAG[] = { "filterinit", "filterpre", "filterpost" }, *FILE_[] = { "expec_init.dat", "expec_pre.dat", "expec_post.dat" }; int n = c.pick(c.bound(2, 3), "filters") + 1, sec = 0; std::string opt; bool named = false;
   for (int i = 0; i < n; i++) { sec += c.pick(3 - sec, "section"); L[sec].f.push_back(item(c, s, sec == 0 && false, i)); }
   for (int i = 0; i < 3; i++) { L[i].deflt = i > 0; if (L[i].f.size()) L[i].renorm = c.pick(n == 1 || c.thorough() ? 3 : 2, "renorm"); } named = n == 1 && c.flag("own name");
   std::string xml = "<propa dt=\"" + num(dt) + "\" steps=\"3\" wcycle=\"1\" dir=\"out\"><propagator name=\"RK4\">" + s.ham + "</propagator><wf file=\"init\"/>", what = s.name; std::string names[3];
   for (int i = 0; i < 3; i++) if (L[i].f.size()) { std::string t = L[i].text(TAG[i], named ? " fname=\"mytable\"" : ""); xml += t; what += " " + t; } for (int i = 0; i < 3; i++) names[i] = named && L[i].f.size() ? "mytable" : std::string("out/") + FILE_[i];
   xml += "</propa>"; c.doing("%s", what.c_str()); c.nontrivial(); mc::rmtree(c.dir() + "/out"); unlink("mytable");
   Result r = input(xml); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str());
   CV v = start(s); std::vector<std::vector<double>> rw[3]; std::vector<CV> snap; bool finite = true; if (L[0].f.size()) rw[0].push_back(L[0].apply(s, v, 0, dt, 0)); snap.push_back(v);
   for (int t = 0; t < steps; t++) { if (L[1].f.size()) rw[1].push_back(L[1].apply(s, v, t, dt, t * dt)); v = step(s, t, dt) * v; if (L[2].f.size()) rw[2].push_back(L[2].apply(s, v, t + 1, dt, (t + 1) * dt)); snap.push_back(v); }
   for (int k = 0; k <= steps; k++) { CV w; std::string e; if (!readWf(s.wf, "out/WF_" + std::to_string(k), w, e)) c.fail("snapshot missing", "%s: %s", what.c_str(), e.c_str()); double m = std::max(1e-3, mx(snap[k])); if (!(dist(w, snap[k]) <= 1e-10 * m)) c.fail("snapshot", "%s: the wave function after %d steps differs by %g", what.c_str(), k, dist(w, snap[k])); }
   for (int i = 0; i < 3; i++) { if (L[i].f.size()) rows(c, names[i], L[i], rw[i], what); else { std::string t; if (slurp(names[i], t) && !named) c.fail("table without filters", "%s: %s exists", what.c_str(), names[i].c_str()); } }
   c.outcome(mc::Hash().i(n).i(L[0].f.size()).i(L[1].f.size()).i(s.td).i(finite).h); }
static void program(mc::Ctx& c) {
   static bool done = false; if (!done) { dataFiles(); done = true; } auto& ss = run::systems(); const Sys& s = ss[SYS[c.pick(3, "system")]]; wfFile(s.wf, start(s), "init"); double dt = s.td ? DT : c.of<double>({ 0.5, -0.25 }, "dt"); int w = c.pick(3, "cycle") + 1, steps = c.of<int>({ 3, 4 }, "steps");
   List l; int n = c.pick(c.bound(2, 3), "filters") + 1; for (int i = 0; i < n; i++) l.f.push_back(item(c, s, true, i)); l.renorm = c.pick(2, "renorm") ? 1 : 0; for (auto& f : l.f) if (f.op && f.op->xml.find("laser") != std::string::npos && w > 1) c.prune(); // the field belongs to another time step
   for (auto& f : l.f) if (f.op && f.op->xml.find("laser") != std::string::npos && dt != DT) c.prune();
   std::string what = s.name + " cycle " + std::to_string(w) + " steps " + std::to_string(steps) + " " + l.text("filterdef"); c.doing("%s", what.c_str()); c.nontrivial(); mc::rmtree(c.dir() + "/out"); mc::rmtree(c.dir() + "/ana");
   Result r = input("<propa dt=\"" + num(dt) + "\" steps=\"" + std::to_string(steps) + "\" wcycle=\"" + std::to_string(w) + "\" dir=\"out\"><propagator name=\"RK4\">" + s.ham + "</propagator><wf file=\"init\"/></propa>"); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str());
   std::map<std::string, std::string> before; for (auto& f : tree("out")) slurp("out/" + f, before[f]); int var = c.pick(2, "name"); r = input("<filter path=\"out\" dir=\"ana\"" + std::string(var ? " fname=\"tab\"" : "") + ">" + l.text("filterdef") + "</filter>"); if (!r.ok) c.fail("filter failed", "%s: %s", what.c_str(), r.error.c_str());
   auto after = tree("out"); if (after.size() != before.size()) c.fail("stored files", "%s: %zu files instead of %zu", what.c_str(), after.size(), before.size()); for (auto& f : after) { std::string t; slurp("out/" + f, t); if (!before.count(f) || before[f] != t) c.fail("stored files", "%s: %s was changed", what.c_str(), f.c_str()); }
   std::vector<std::vector<double>> rw; CV v = start(s); for (int t = 0; t <= steps; t++) { if (t % w == 0) { CV x = v; rw.push_back(l.apply(s, x, t / w, dt * w, t * dt)); } v = step(s, t, dt) * v; }
   rows(c, var ? "ana/tab" : "ana/expec.dat", l, rw, what); c.outcome(mc::Hash().i(n).i(w).i(steps).h); }
int main(int argc, char** argv) { mc::Options o; o.name = "filters"; bool p = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--program")) { p = true; for (int k = i; k + 1 < argc; k++) argv[k] = argv[k + 1]; argc--; } return mc::Main(argc, argv, p ? program : propa, o); }
