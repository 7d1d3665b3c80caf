// R01: what a propagation leaves behind; R02: continuing it
#include "run.h"
#include "iofault.h"
using namespace run;
static const char* INIT = "init";
static void prepare(const Sys& s) { static bool done = false; if (!done) { dataFiles(); done = true; } wfFile(s.wf, start(s), INIT); }
struct Job { const Sys* s; int steps = 1, w = 1; double dt = 0.5; int from = 0; std::string dir, fname, attr, wf = INIT, sections; bool cyc = true, spo = false;
   std::string text(bool brief = false) const { std::string x = "<propa dt=\"" + num(dt) + "\" steps=\"" + std::to_string(steps) + "\"" + (cyc ? " wcycle=\"" + std::to_string(w) + "\"" : "") + (from ? " start=\"" + std::to_string(from) + "\"" : "") + (dir.size() ? " dir=\"" + dir + "\"" : "") + (fname.size() ? " fname=\"" + fname + "\"" : "") + attr + ">";
      if (brief) return s->name + " " + x + sections; x += "<propagator name=\"RK4\">" + s->ham + "</propagator><wf file=\"" + wf + "\"/>" + sections + "</propa>"; return x; } };
static std::string slash(std::string d) { if (d.size() && d[d.size() - 1] != '/') d += '/'; return d; }
static double quantum(const std::string& w) { size_t e = w.find('e'), p = w.find('.'); double q = 1; if (p != std::string::npos) q = std::pow(10, -(double)((e == std::string::npos ? w.size() : e) - p - 1)); if (e != std::string::npos) q *= std::pow(10, atof(w.c_str() + e + 1)); return q; }
static void cells(mc::Ctx& c, const std::string& key, const std::string& line, const std::vector<double>& want, const std::string& what) {
   std::string t = line; for (char& x : t) if (x == '(' || x == ')' || x == ',' || x == 'i') x = ' '; auto w = words(t);
   if (w.size() != want.size()) c.fail(key + " columns", "%s: %zu values instead of %zu in '%s'", what.c_str(), w.size(), want.size(), line.c_str());
   for (size_t i = 0; i < w.size(); i++) if (!(std::fabs(atof(w[i].c_str()) - want[i]) <= 0.51 * quantum(w[i]) + 1e-9 * std::max(1., std::fabs(want[i])))) c.fail(key + " value", "%s: value %zu is %s instead of %.10g in '%s'", what.c_str(), i, w[i].c_str(), want[i], line.c_str()); }
struct Rep { bool norm = true, energy = true, proj = false, sq = false; };
static void table(mc::Ctx& c, const std::string& text, const Sys& s, const Rep& r, const std::vector<CV>& states, int t0, double dt, const std::string& what) {
   auto ls = lines(text); size_t i = 0; while (i < ls.size() && ls[i].compare(0, 5, "Step\t")) i++; if (i == ls.size()) c.fail("table missing", "%s: no table of observables", what.c_str());
   for (size_t k = 0; k < states.size(); k++) { i++; if (i >= ls.size() || words(ls[i]).empty()) c.fail("table length", "%s: %zu rows instead of %zu", what.c_str(), k, states.size()); const CV& v = states[k]; int t = t0 + k;
      std::vector<double> w = { (double)t, t * dt }; if (r.norm) { w.push_back(ip(s, v, v).real()); if (s.wf.multi) { int n = s.wf.s[0].size(); for (size_t j = 0; j < s.wf.s.size(); j++) { double q = 0; for (int x = 0; x < n; x++) q += std::norm(v[j * n + x]); w.push_back(q * s.dv); } } }
      if (r.energy) w.push_back(ip(s, v, s.at(t) * v).real());
      if (r.proj) { cd p = ip(s, v, states[0]); if (r.sq) w.push_back(std::norm(p)); else { w.push_back(p.real()); w.push_back(p.imag()); } }
      cells(c, "table", ls[i], w, what + " row " + std::to_string(k)); }
   i++; if (i < ls.size() && words(ls[i]).size() > 2 && isdigit(ls[i][0]) && words(ls[i])[1] != "step") c.fail("table length", "%s: more than %zu rows: '%s'", what.c_str(), states.size(), ls[i].c_str()); }
static void meta(mc::Ctx& c, const Job& j, int nt, const std::string& what) {
   ParamContainer p; if (!p.ReadFromFile(slash(j.dir) + "Propagation.meta")) c.fail("meta", "%s: no readable Propagation.meta", what.c_str());
   std::string cl, b; int n = -1, w = -1; double d = 0; p.GetValue("CLASS", cl); p.GetValue("WFBaseName", b); p.GetValue("Nt", n); p.GetValue("Wcycle", w); p.GetValue("dt", d);
   if (cl != "Propagation" || b != (j.fname.empty() ? "WF" : j.fname) || n != nt || w != j.w || std::fabs(d - j.dt) > 1e-6) c.fail("meta content", "%s: CLASS=%s WFBaseName=%s Nt=%d Wcycle=%d dt=%g instead of Nt=%d Wcycle=%d dt=%g", what.c_str(), cl.c_str(), b.c_str(), n, w, d, nt, j.w, j.dt); }
// states after 0, 1, ... steps
static std::vector<CV> reference(const Sys& s, int steps, double dt) { std::vector<CV> v = { start(s) }; for (int t = 0; t < steps; t++) v.push_back(step(s, t, dt) * v[t]); return v; }
static void snapshots(mc::Ctx& c, const Job& j, const std::vector<CV>& ref, int first, std::vector<std::string> extra, const std::string& what, double tol = 1e-11) {
   std::string d = slash(j.dir), b = j.fname.empty() ? "WF" : j.fname; std::vector<std::string> want = extra; want.push_back("Propagation.meta");
   for (int k = first; k * j.w <= j.steps; k++) { std::string f = b + "_" + std::to_string(k); want.push_back(f + ".wf");
      CV v; std::string e; if (!readWf(j.s->wf, d + f, v, e)) c.fail("snapshot missing", "%s: snapshot %d of step %d: %s", what.c_str(), k, k * j.w, e.c_str());
      double x = dist(v, ref[k * j.w]); if (!(x <= tol)) { int at = -1; for (size_t t = 0; t < ref.size(); t++) if (dist(v, ref[t]) <= tol) at = t; c.fail(j.from ? "snapshot after start" : "snapshot", "%s: snapshot %d is not the state after %d steps (differs by %g%s%s)", what.c_str(), k, k * j.w, x, at >= 0 ? ", it is the state after step " : "", at >= 0 ? std::to_string(at).c_str() : ""); } c.step(); }
   std::sort(want.begin(), want.end()); auto have = tree(d.empty() ? "." : d);
   if (d.empty()) { std::vector<std::string> h; for (auto& f : have) if (!f.compare(0, b.size() + 1, b + "_") || std::find(want.begin(), want.end(), f) != want.end()) h.push_back(f); have = h; }
   for (auto& f : have) if (std::find(want.begin(), want.end(), f) == want.end()) c.fail("extra file", "%s: unexpected file %s", what.c_str(), f.c_str());
   for (auto& f : want) if (std::find(have.begin(), have.end(), f) == have.end()) c.fail("missing file", "%s: no file %s", what.c_str(), f.c_str()); }
static void filesOf(mc::Ctx& c) {
   auto& ss = systems(); const Sys& s = ss[c.pick(ss.size(), "system")]; prepare(s); Job j; j.s = &s; static const int W[] = { 10, 1, 2, 3, 4 }; int wi = c.pick(5, "cycle"); j.cyc = wi; j.w = W[wi]; j.dt = s.td ? DT : c.of<double>({ 0.5, -0.5, 0.125 }, "dt");
   j.steps = wi ? c.pick(c.bound(6, 9), "steps") + 1 : c.of<int>({ 1, 9, 10, 11 }, "steps"); int last = j.steps / j.w; j.from = c.pick(std::min(last + 2, 4), "start");
   static const char* DIRS[] = { "", "out", "out/", "out/sub/dir" }; int di = c.pick(4, "dir"); j.dir = DIRS[di]; if (c.flag("name")) j.fname = "psi"; bool nfile = c.flag("nfile"); bool global = di && c.flag("global"); bool existing = c.flag("existing");
   Job k = j; if (nfile) k.attr = " nfile=\"table\""; std::string what = k.text(true); if (global) { k.dir = "ignored"; what = "global dir " + j.dir + ": " + k.text(true); } std::string d = slash(j.dir);
   mc::rmtree(c.dir() + "/out"); unlink("Propagation.meta"); unlink("table"); for (auto& f : tree(".")) if (!f.compare(0, 3, "WF_") || !f.compare(0, 4, "psi_")) unlink(f.c_str());
   if (existing) { if (di) { ::mkdir("out", 0700); ::mkdir("out/sub", 0700); ::mkdir("out/sub/dir", 0700); } spit(d + (j.fname.empty() ? "WF" : "psi") + "_1.wf", "something else"); spit(d + "table", "old\n"); spit(d + "Propagation.meta", "CLASS=Propagation\nNt=77\n"); if (j.from > 1 || last < 1) c.prune(); }
   c.doing("%s", what.c_str()); c.nontrivial();
   Result r = input(global ? "<qdng dir=\"" + j.dir + "\">" + k.text() + "</qdng>" : k.text()); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str());
   int t0 = j.from ? (j.from - 1) * j.w : 0, first = j.from ? j.from : 0; std::vector<CV> ref(t0 + 1, start(s)); for (int t = t0; t < j.steps; t++) ref.push_back(step(s, t, j.dt) * ref[t]);
   std::vector<std::string> extra; if (nfile) extra.push_back("table"); if (existing && !nfile) extra.push_back("table");
   snapshots(c, j, ref, first, extra, what); meta(c, j, j.steps, what);
   std::string t; if (nfile) { if (!slurp(d + "table", t)) c.fail("table missing", "%s: no table file", what.c_str()); if (t.find("old") == 0) c.fail("table missing", "%s: the old table is still there", what.c_str()); } else t = r.out;
   std::vector<CV> st(ref.begin() + t0, ref.end()); if (st.size()) st.pop_back(); if (st.size() || nfile == 0) { if (st.size()) table(c, t, s, Rep(), st, t0, j.dt, what); }
   c.outcome(mc::Hash().i(last).i(first).i(j.w).i(j.steps).h); }
static void reports(mc::Ctx& c) {
   auto& ss = systems(); const Sys& s = ss[c.pick(ss.size(), "system")]; prepare(s); Job j; j.s = &s; j.w = 2; j.dt = s.td ? DT : c.of<double>({ 0.5, -0.25 }, "dt"); j.steps = c.of<int>({ 1, 2, 5, 8 }, "steps"); j.dir = "rep"; Rep r;
   auto yn = [&](const char* n, bool def) { int k = c.pick(3, n); if (k == 0) return def; j.attr += std::string(" ") + n + "=\"" + (k == 1 ? "true" : "false") + "\""; return k == 1; };
   r.norm = yn("norm", true); r.energy = yn("energy", true); r.proj = yn("proj0", false); r.sq = yn("proj0Abs", false); if (r.sq) r.proj = true; bool spec = c.flag("spectrum"), win = true; if (spec) { r.proj = true; j.attr += " spectrum=\"spec\""; win = yn("win", true); } bool sci = c.flag("scinorm"); if (sci) j.attr += " scinorm=\"true\""; bool nfile = c.flag("nfile"); if (nfile) j.attr += " nfile=\"tab\"";
   std::string what = j.text(true); c.doing("%s", what.c_str()); c.nontrivial(); mc::rmtree(c.dir() + "/rep"); Result q = input(j.text()); if (!q.ok) c.fail("run failed", "%s: %s", what.c_str(), q.error.c_str());
   auto ref = reference(s, j.steps, j.dt); std::vector<std::string> extra; if (nfile) extra.push_back("tab"); if (spec) extra.push_back("spec"); snapshots(c, j, ref, 0, extra, what);
   std::string t = q.out; if (nfile && !slurp("rep/tab", t)) c.fail("table missing", "%s: no table file", what.c_str()); ref.pop_back(); table(c, t, s, r, ref, 0, j.dt, what);
   if (spec) { int N = j.steps; if (!slurp("rep/spec", t)) c.fail("spectrum missing", "%s: no spectrum", what.c_str()); auto ls = lines(t); if ((int)ls.size() != N) c.fail("spectrum", "%s: %zu lines instead of %d", what.c_str(), ls.size(), N); if (N < 2) return;
      CV a; for (int k = 0; k < N; k++) { cd p = ip(s, ref[k], ref[0]); if (r.sq) p = std::norm(p); a.push_back(p * (win ? 0.5 * (1 - cos(2 * M_PI * k / (N - 1))) : 1)); }
      for (int k = 0; k < N; k++) { cd f = 0; for (int m = 0; m < N; m++) f += a[m] * std::polar(1., -2 * M_PI * k * m / N); f /= (double)(N / 2); auto v = numbers(ls[k]); if (v.size() != 4) c.fail("spectrum", "%s: '%s'", what.c_str(), ls[k].c_str());
         double dw = 2 * M_PI / (j.dt * N), x = (v[0] - k * dw) / (N * dw); double tol = 2e-5 * (std::abs(f) + 1e-3); if (std::fabs(x - std::round(x)) > 1e-5) c.fail("spectrum axis", "%s: frequency %d is %g instead of %g", what.c_str(), k, v[0], k * dw);
         if (std::fabs(v[1] - std::abs(f)) > tol || std::fabs(v[2] - f.real()) > tol || std::fabs(v[3] - f.imag()) > tol) c.fail("spectrum value", "%s: line %d '%s' instead of (%g, %g)", what.c_str(), k, ls[k].c_str(), f.real(), f.imag()); } }
   c.outcome(mc::Hash().i(r.norm).i(r.energy).i(r.proj).i(r.sq).i(spec).i(j.steps).h); }
// R02 ----------------------------------------------------------------------------------------------------------------------
static const char* SECTIONS[] = { "", "<filterpost><normalize/></filterpost>", "<filterpre><apply name=\"Sum\"><A name=\"Scalar\" value=\"0.5\"/></apply></filterpre>", "<filterpost><expeconly name=\"Sum\"><A name=\"Scalar\" value=\"1\"/></expeconly></filterpost>" };
static void resumes(mc::Ctx& c) {
   auto& ss = systems(); const Sys& s = ss[c.pick(ss.size(), "system")]; prepare(s); Job j; j.s = &s; j.w = c.pick(4, "cycle") + 1; j.dt = s.td ? DT : c.of<double>({ 0.5, -0.25 }, "dt"); j.steps = c.pick(c.bound(7, 10), "steps") + 1; j.sections = SECTIONS[c.pick(4, "filters")];
   int last = j.steps / j.w; std::string what = j.text(true); mc::rmtree(c.dir() + "/full"); mc::rmtree(c.dir() + "/part"); j.dir = "full"; Result r = input(j.text()); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str());
   std::vector<CV> full; for (int k = 0; k <= last; k++) { CV v; std::string e; if (!readWf(s.wf, "full/WF_" + std::to_string(k), v, e)) c.fail("snapshot missing", "%s: snapshot %d: %s", what.c_str(), k, e.c_str()); full.push_back(v); }
   int legs = c.bound(2, 3), at = 0; bool same = c.flag("same directory"); std::string from = "full", d = same ? "full" : "part"; c.nontrivial();
   auto expecs = [](const std::string& f) { std::string t; slurp(f, t); return lines(t); }; auto e0 = expecs("full/expec_post.dat");
   for (int l = 0; l < legs; l++) { int k = at + c.pick(last - at + 1, "from snapshot"); if (l && k == at) break; at = k; Job q = j; q.dir = d; q.from = k + 1; q.wf = from + "/WF_" + std::to_string(k); what += "; continued from snapshot " + std::to_string(k); c.doing("%s", what.c_str());
      if (same) for (int m = k + 1; m <= last; m++) unlink(("full/WF_" + std::to_string(m) + ".wf").c_str());
      Result z = input(q.text()); if (!z.ok) c.fail("run failed", "%s: %s", what.c_str(), z.error.c_str());
      for (int m = k + 1; m <= last; m++) { CV v; std::string e; if (!readWf(s.wf, d + "/WF_" + std::to_string(m), v, e)) c.fail("continued snapshot missing", "%s: snapshot %d: %s", what.c_str(), m, e.c_str()); double x = dist(v, full[m]); c.step(); if (!(x <= 1e-11)) c.fail("continued snapshot", "%s: snapshot %d (step %d) differs by %g", what.c_str(), m, m * j.w, x); }
      for (auto& f : tree(d)) { int n = -1; if (sscanf(f.c_str(), "WF_%d", &n) == 1 && (n > last || (!same && l == 0 && n <= k))) c.fail("continued extra snapshot", "%s: unexpected %s", what.c_str(), f.c_str()); }
      meta(c, q, j.steps, what);
      if (e0.size()) { auto e1 = expecs(d + "/expec_post.dat"); std::vector<std::string> w(e0.begin() + 1 + k * j.w, e0.end()); e1.erase(e1.begin(), e1.begin() + std::min<size_t>(1, e1.size())); if (e1.size() != w.size()) c.fail("continued table", "%s: %zu rows in the table of expectation values instead of %zu", what.c_str(), e1.size(), w.size()); for (size_t i = 0; i < w.size(); i++) { auto a = numbers(w[i]), b = numbers(e1[i]); for (size_t y = 0; y < a.size(); y++) if (y >= b.size() || std::fabs(a[y] - b[y]) > 1e-8) c.fail("continued table", "%s: row '%s' instead of '%s'", what.c_str(), e1[i].c_str(), w[i].c_str()); } }
      from = d; if (!same) for (int m = 0; m <= k; m++) {} }
   c.outcome(mc::Hash().i(at).i(last).i(j.w).h); }
// the run dies at any of its I/O operations and is continued from the last snapshot that is readable
static void crashes(mc::Ctx& c) {
   auto& ss = systems(); const Sys& s = ss[c.pick(ss.size(), "system")]; prepare(s); Job j; j.s = &s; j.w = c.pick(2, "cycle") + 1; j.dt = DT; j.steps = c.of<int>({ 3, 4, 6 }, "steps"); j.dir = "run"; bool nfile = c.flag("table"); if (nfile) j.attr = " nfile=\"tab\""; int last = j.steps / j.w;
   auto ref = reference(s, j.steps, j.dt); std::string what = j.text(true); auto& f = iof::s(); std::string dir = c.dir() + "/run"; mc::rmtree(dir); ::mkdir("run", 0700);
   f = iof::State(); f.dir = "run"; f.on = true; Result r = input(j.text()); f.on = false; int n = f.n; if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str()); if (n < 4) c.fail("no I/O", "%s: only %d I/O operations seen", what.c_str(), n);
   int at = c.big(n, "fault"); int kind = c.pick(2, "kind"); mc::rmtree(dir); ::mkdir("run", 0700); f = iof::State(); f.dir = "run"; f.at = at; f.kind = kind; f.forever = c.flag("for good"); f.on = true; r = input(j.text()); f.on = false; if (f.injected) c.nontrivial(); what += "; I/O operation " + std::to_string(at) + (kind ? " cut in half" : " failed") + (f.forever ? " for good" : ""); c.doing("%s", what.c_str());
   // what is left must be a prefix of the series
   int k = -1; for (int m = 0; m <= last; m++) { CV v; std::string e; if (!readWf(s.wf, "run/WF_" + std::to_string(m), v, e)) break; if (!(dist(v, ref[m * j.w]) <= 1e-11)) c.fail("snapshot after a crash", "%s: snapshot %d is wrong", what.c_str(), m); k = m; }
   if (r.ok && k < last) c.fail("failure not reported", "%s: the run succeeded but only %d of %d snapshots are there", what.c_str(), k + 1, last + 1);
   if (r.ok) { snapshots(c, j, ref, 0, nfile ? std::vector<std::string>{ "tab" } : std::vector<std::string>(), what + " (reported success)"); meta(c, j, j.steps, what + " (reported success)"); }
   if (k < 0) { c.outcome(1); return; } ParamContainer p; if (!r.ok && p.ReadFromFile("run/Propagation.meta")) { int nt = 0, w = 1; p.GetValue("Nt", nt); p.GetValue("Wcycle", w); if (p.isPresent("Nt") && w > 0 && nt / w > k) c.fail("meta after a crash", "%s: Propagation.meta promises %d steps but there are only %d snapshots", what.c_str(), nt, k + 1); }
   Job q = j; q.from = k + 1; q.wf = "run/WF_" + std::to_string(k); what += "; continued from snapshot " + std::to_string(k); c.doing("%s", what.c_str()); Result z = input(q.text()); if (!z.ok) c.fail("continued run failed", "%s: %s", what.c_str(), z.error.c_str());
   snapshots(c, j, ref, 0, nfile ? std::vector<std::string>{ "tab" } : std::vector<std::string>(), what); meta(c, j, j.steps, what); c.outcome(mc::Hash().i(k).i(last).i(j.w).h); }
int main(int argc, char** argv) {
   mc::Options o; o.name = "propagation"; for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "files" || a == "report" || a == "resume" || a == "crash") { mc::RunFn f = a == "files" ? filesOf : a == "report" ? reports : a == "resume" ? resumes : crashes; for (int k = i; k + 1 < argc; k++) argv[k] = argv[k + 1]; return mc::Main(argc - 1, argv, f, o); } }
   return 2; }
