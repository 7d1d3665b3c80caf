// R09: optimal control of the real program: written fields and yields belong together, and the fields are those of the chosen algorithm
#include "run.h"
using namespace run;
enum Method { KROTOV, RABITZ, FEEDBACK, FREQ_OPEN, FREQ };
static const char* MN[] = { "krotov", "rabitz", "rabitzfb", "freq", "freq" };
struct Ctl { std::string name; Wf wf; std::string ham; Mat h0; std::vector<Mat> mu; std::vector<int> las; std::vector<bool> opt; std::vector<double> scale; double dv; // H = h0 - sum_l scale_l E_l mu_l
   Mat at(const std::vector<std::vector<double>>& E, int t) const { Mat h = h0; for (size_t l = 0; l < mu.size(); l++) h = h + cd(-scale[l] * E[l][t]) * mu[l]; return h; }
   Mat coupling() const { Mat m(h0.n); for (size_t l = 0; l < mu.size(); l++) if (opt[l]) m = m + mu[l]; return m; } };
static const std::vector<Ctl>& controls() {
   static std::vector<Ctl> v; if (!v.empty()) return v; Sp g = grid({ 4 }); Mat T = 0.125 * kinRef(g), V = potRef(g, 1), mu = local(g, [](int p) { return pv(4, p); }), mu2 = local(g, [](int p) { return pv(3, p); }), h3 = matrixRef(3, 5), md = matrixRef(3, 3), me = matrixRef(3, 2);
   auto sum = [](std::string s) { return "<hamiltonian name=\"Sum\">" + s + "</hamiltonian>"; }; auto dip = [](const char* tag, const char* f, int l, std::string x = "") { return std::string("<") + tag + " name=\"" + (f[1] == 'd' ? "MatDipole" : "GridDipole") + "\" file=\"" + f + "\" laser=\"las" + std::to_string(l) + "\" " + x + "/>"; };
   std::string h = "<A name=\"HermitianMatrix\" file=\"ham3\"/>", opt = "label=\"OptLaser\"", TV = "<m0.0 name=\"GridNablaSq\" mass=\"8\" key=\"T\"/><m1.1 name=\"Sum\"><A ref=\"T\"/><B name=\"GridPotential\" file=\"pot1\"/></m1.1>";
   Mat b0 = block(2, 4, { { 0, 0, T }, { 1, 1, T + V } }), bc = block(2, 4, { { 0, 1, mu }, { 1, 0, mu } });
   v.push_back({ "levels", level(3), sum(h + dip("B", "mdi", 2)), h3, { md }, { 2 }, { true }, { 1 }, 1 });
   v.push_back({ "grid", g, sum("<A name=\"GridNablaSq\" mass=\"8\"/><B name=\"GridPotential\" file=\"pot1\"/>" + dip("C", "mu", 1)), T + V, { mu }, { 1 }, { true }, { 1 }, g.dx(0) });
   v.push_back({ "two states", Wf(g, 2), "<hamiltonian name=\"Multistate\">" + TV + dip("m1.0", "mu", 1) + "</hamiltonian>", b0, { bc }, { 1 }, { true }, { 1 }, g.dx(0) });
   v.push_back({ "two states, coupling above", Wf(g, 2), "<hamiltonian name=\"Multistate\">" + TV + dip("m0.1", "mu", 1) + "</hamiltonian>", b0, { bc }, { 1 }, { true }, { 1 }, g.dx(0) });
   v.push_back({ "levels, two fields", level(3), sum(h + dip("B", "mdi", 2) + dip("C", "mde", 2)), h3, { md, me }, { 2, 2 }, { true, true }, { 1, 1 }, 1 });
   v.push_back({ "levels, first field fixed", level(3), sum(h + dip("B", "mdi", 1) + dip("C", "mde", 2, opt)), h3, { md, me }, { 1, 2 }, { false, true }, { 1, 1 }, 1 });
   v.push_back({ "levels, last field fixed", level(3), sum(h + dip("B", "mdi", 1, opt) + dip("C", "mde", 2)), h3, { md, me }, { 1, 2 }, { true, false }, { 1, 1 }, 1 });
   v.push_back({ "levels, scaled field", level(3), sum(h + dip("B", "mdi", 2, "scale=\"2\"")), h3, { md }, { 2 }, { true }, { 2 }, 1 });
   v.push_back({ "grid, scaled dipole", g, sum("<A name=\"GridNablaSq\" mass=\"8\"/><B name=\"GridPotential\" file=\"pot1\"/>" + dip("C", "mu", 1, "scale=\"-0.5\"")), T + V, { -0.5 * mu }, { 1 }, { true }, { 1 }, g.dx(0) });
   v.push_back({ "two states, permanent dipole", Wf(g, 2), "<hamiltonian name=\"Multistate\"><m0.0 name=\"Sum\"><A name=\"GridNablaSq\" mass=\"8\" key=\"T\"/>" + dip("B", "mu2", 1) + "</m0.0><m1.1 name=\"Sum\"><A ref=\"T\"/><B name=\"GridPotential\" file=\"pot1\"/></m1.1>" + dip("m1.0", "mu", 1) + "</hamiltonian>", b0, { block(2, 4, { { 0, 0, mu2 } }), bc }, { 1, 1 }, { true, true }, { 1, 1 }, g.dx(0) });
   v.push_back({ "two states, dipoles of the states", Wf(g, 2), "<hamiltonian name=\"Sum\"><A name=\"Multistate\" unity=\"false\">" + TV + "<m1.0 name=\"GridPotential\" file=\"mu2\"/></A><B name=\"Multistate\" unity=\"false\">" + dip("m0.0", "mu", 1) + dip("m1.1", "mu2", 1) + "</B></hamiltonian>", b0 + block(2, 4, { { 0, 1, mu2 }, { 1, 0, mu2 } }), { block(2, 4, { { 0, 0, mu } }), block(2, 4, { { 1, 1, mu2 } }) }, { 1, 1 }, { true, true }, { 1, 1 }, g.dx(0) });
   return v;
}
struct Op { std::string text; Mat m; };
static std::vector<Op> opsOf(const Ctl& s) { Sp g = grid({ 4 }); Mat x = local(g, [&](int p) { return g.x(0, p); });
   if (s.wf.multi) return { { "name=\"Multistate\" unity=\"true\"><m0.0 name=\"GridPosition\" dim=\"0\"/><m1.1 name=\"GridPotential\" file=\"pot2\"/></", block(2, 4, { { 0, 0, x }, { 1, 1, potRef(g, 2) } }) }, { "name=\"Multistate\" unity=\"false\"><m0.1 name=\"GridPotential\" file=\"pot2\"/><m1.0 name=\"GridPotential\" file=\"pot2\"/></", block(2, 4, { { 0, 1, potRef(g, 2) }, { 1, 0, potRef(g, 2) } }) } };
   if (s.h0.n == 3) return { { "name=\"HermitianMatrix\" file=\"opa\"", matrixRef(3, 4) }, { "name=\"HermitianMatrix\" file=\"opb\"", matrixRef(3, 6) } };
   return { { "name=\"GridPosition\" dim=\"0\"", x }, { "name=\"GridPotential\" file=\"pot2\"", potRef(g, 2) } }; }
static std::string node(const std::string& tag, const Op& o) { size_t p = o.text.find("</"); return "<" + tag + " " + (p == std::string::npos ? o.text + "/>" : o.text.substr(0, p) + "</" + tag + ">"); }
static std::string idx(int i) { return std::to_string(i); }
static cd sp(const Ctl& s, const CV& a, const CV& b) { return s.dv * dot(a, b); }
static CV unit(const Ctl& s, CV v) { double n = std::sqrt(sp(s, v, v).real()); for (auto& x : v) x /= n; return v; }
static CV state(const Ctl& s, int seed) { return unit(s, vec(s.wf.size(), seed)); }
typedef std::vector<double> Field; typedef std::vector<std::vector<CV>> Traj; // [target][time]
static bool readField(const std::string& f, Field& v) { std::string t; if (!slurp(f + BINARY_O_SUFFIX, t)) return false; try { FileSingle<Laser> o; o.Name(f); o.Suffix(BINARY_O_SUFFIX); Laser l; o >> &l; v.assign(l.begin(0), l.begin(0) + l.size()); } catch (Exception& e) { return false; } return true; }
static void files() { dataFiles(); Sp g = grid({ 4 }); potFile(g, 3, "mu2"); matFile(3, 2, "mde"); matFile(3, 4, "opa"); matFile(3, 6, "opb"); }
static void fieldFile(int n, int seed, const std::string& name, bool ones = false) { Laser l; ParamContainer p; p.SetValue("dt", DT); p.SetValue("Nt", n); l.Init(p); for (int i = 0; i < n; i++) l.begin(0)[i] = ones ? 1 : field(seed, i); FileSingle<Laser> f; f.Name(name); f.Suffix(BINARY_O_SUFFIX); f << &l; }
static void runs(mc::Ctx& c) {
   auto& cs = controls(); files(); mc::rmtree(c.dir() + "/o"); bool th = c.thorough();
   int si = c.pick(cs.size(), "system"); const Ctl& s = cs[si]; auto ops = opsOf(s);
   int method = c.pick(5, "method"), target = c.pick(3, "target"); bool isop = target == 1, mv = target == 2; if (mv && method == FEEDBACK) c.prune();
   bool phase = c.pick(2, "phase"); int nt = 1 + c.pick(2, "targets"); static const int ST[] = { 1, 2, 3, 6, 16 }; int steps = ST[c.pick(th ? 5 : 4, "steps")], n = method >= FREQ_OPEN ? steps : NT_; if (method >= FREQ_OPEN && steps < 2) c.prune();
   int iter = 1 + c.pick(th ? 4 : 3, "iterations"); double alpha = c.pick(2, "alpha") ? 40 : 2; static const char* CV_[] = { "1e-9", "0.01", "0.3" }; const char* conv = CV_[c.pick(3, "convergence")]; if (conv != CV_[0] && (iter < 3 || si > 2) && !th) c.prune(); if (!th && si > 2 && (steps == 1 || steps == 3)) c.prune();
   bool writel = c.pick(2, "every field"); int extra = c.pick(4, "extras"); if (extra && (alpha == 2 || steps == 1) && !th) c.prune(); bool yfile = extra == 1, gob = extra == 2; if (extra == 3 && !writel) c.prune(); bool arn = extra == 3;
   for (int l = 1; l < 3; l++) fieldFile(n, l, "las" + idx(l)); fieldFile(n, 3, "shape"); fieldFile(steps / 2 + 1, 0, "mask", true); Field shape(n); for (int i = 0; i < n; i++) shape[i] = field(3, i);
   std::string xml = "<oct dir=\"o\" dt=\"" + num(DT) + "\" steps=\"" + idx(steps) + "\" alpha=\"" + num(alpha) + "\" shape=\"shape\" method=\"" + MN[method] + "\" iterations=\"" + idx(iter) + "\" conv=\"" + conv + "\" ttype=\"" + (isop ? "operator" : "overlap") + "\" ntargets=\"" + idx(nt) + "\"" + (phase ? " phase=\"true\"" : "") + (mv ? " mv=\"true\"" : "") + (writel ? " writel=\"true\"" : "") + (yfile ? " yfile=\"yield\"" : "") + (arn ? " fname=\"pulse\"" : "") + (method == FREQ_OPEN ? " freq=\"mask\"" : method == FREQ ? " freql=\"0.5\" freqh=\"4\"" : "") + ">"
      + "<propagator name=\"" + (arn ? "Arnoldi" : "SIL") + "\" order=\"8\">" + s.ham + "</propagator>";
   std::vector<CV> I, T; Traj M(nt);
   for (int t = 0; t < nt; t++) { I.push_back(state(s, 5 + 4 * t)); wfFile(s.wf, I[t], "init" + idx(t)); xml += "<wfi" + idx(t) + " file=\"init" + idx(t) + "\"/>";
      if (isop) xml += node("target" + idx(t), ops[t]);
      else if (mv) { for (int k = 0; k <= steps; k++) { M[t].push_back(state(s, 20 + 30 * t + k)); wfFile(s.wf, M[t][k], "series" + idx(t) + "_" + idx(k)); } T.push_back(M[t][steps]); xml += "<wft" + idx(t) + " file=\"series" + idx(t) + "\"/>"; }
      else { T.push_back(state(s, 7 + 6 * t)); wfFile(s.wf, T[t], "goal" + idx(t)); xml += "<wft" + idx(t) + " file=\"goal" + idx(t) + "\"/>"; } }
   Mat G = ops[1].m; if (gob) xml += node("gobbler", ops[1]); xml += "</oct>";
   std::string what = s.name + " " + xml; c.doing("%s", what.c_str()); c.log("%s", what.c_str()); Result r = input(xml); c.nontrivial(); c.step(); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str());
   // what was reported
   std::vector<std::vector<std::string>> rows; bool table = false; std::string text = r.out, y; if (yfile) { if (!slurp("o/yield", y)) c.fail("yield file", "%s: missing", what.c_str()); for (auto& l : lines(r.out)) { auto w = words(l); if (w.size() > 1 && w[0] == "iteration") table = true; else if (table && w.size() > 3 && w[0] == "1") c.fail("yield file", "%s: row in the log", what.c_str()); } table = false; text += "\n" + y; }
   for (auto& l : lines(text)) { auto w = words(l); if (w.empty()) continue; if (w[0] == "iteration") { table = true; continue; } if (table && w[0] == idx(rows.size())) rows.push_back(w); }
   int K = (int)rows.size() - 1; if (K < 0) c.fail("table", "%s: no rows", what.c_str()); size_t cols = 1 + nt * (isop ? 2 : phase ? 4 : 3) + 3;
   // the reference
   Mat mu = s.coupling(), one(s.h0.n); for (int i = 0; i < one.n; i++) one(i, i) = 1; size_t nl = s.mu.size(); int first = std::find(s.opt.begin(), s.opt.end(), true) - s.opt.begin(); double fs = s.scale[first];
   typedef std::vector<Field> Fields; Fields E(nl, Field(n)); for (size_t l = 0; l < nl; l++) for (int i = 0; i < n; i++) E[l][i] = field(s.las[l], i);
   auto prop = [&](const Fields& f, int t, bool fwd) { return expm(cd(0, fwd ? -DT : DT) * s.at(f, t)); };
   auto mv1 = [&](const Mat& u, const CV& v) { CV w = u * v; if (gob) w = unit(s, G * w); return w; };
   auto forward = [&](const Fields& f) { Traj p(nt); std::vector<Mat> u; for (int k = 0; k < steps; k++) u.push_back(prop(f, k, true)); for (int t = 0; t < nt; t++) { p[t].push_back(I[t]); for (int k = 0; k < steps; k++) p[t].push_back(mv1(u[k], p[t][k])); } return p; };
   auto set = [&](Fields& f, int k, double raw) { for (size_t l = 0; l < nl; l++) if (s.opt[l]) f[l][k] = raw; };
   auto im = [&](const std::vector<CV>& a, const std::vector<CV>& b) { double x = 0; for (int t = 0; t < nt; t++) { cd z = sp(s, b[t], mu * a[t]); if (!phase) z *= sp(s, a[t], b[t]); x += z.imag(); } return x; };
   auto slice = [&](const Traj& p, int k) { std::vector<CV> v; for (auto& x : p) v.push_back(x[k]); return v; };
   auto ends = [&](const Traj& psi) { std::vector<CV> x(nt); for (int t = 0; t < nt; t++) x[t] = isop ? ops[t].m * psi[t][steps] : T[t]; return x; };
   auto back = [&](const Fields& f, std::vector<CV> x) { Traj p(nt, std::vector<CV>(steps + 1)); for (int t = 0; t < nt; t++) p[t][steps] = x[t]; for (int k = steps - 1; k >= 0; k--) { Mat u = prop(f, k, false); for (int t = 0; t < nt; t++) p[t][k] = mv1(u, p[t][k + 1]); } return p; };
   auto sweep = [&](Fields& f, const Fields& old, const Traj& chi, bool add) { // forward with the new field
      Traj p(nt); for (int t = 0; t < nt; t++) p[t].push_back(I[t]); for (int k = 0; k < steps; k++) { double e = -shape[k] / (alpha * nt) * im(slice(p, k), slice(chi, k)); if (add) e += fs * old[first][k]; set(f, k, e / fs); Mat u = prop(f, k, true); for (int t = 0; t < nt; t++) p[t].push_back(mv1(u, p[t][k])); } return p; };
   double val[3] = { 1, 1, 1 }, limit = atof(conv); bool ended = false; uint64_t h = 0;
   auto row = [&](int i, const Traj& p) { // one line of the table, returns the value convergence looks at
      auto& w = rows[i]; if (w.size() != cols) c.fail("table", "%s: row %d has %zu columns instead of %zu", what.c_str(), i, w.size(), cols); size_t q = 1; cd sum = 0;
      auto cmp = [&](const char* n, double ref) { double v = atof(w[q++].c_str()); if (!(std::fabs(v - ref) <= 2e-6 * std::max(1., std::fabs(ref)))) c.fail("yield", "%s: row %d of the table has the %s %.8f, the field of this row gives %.8f", what.c_str(), i, n, v, ref); h = mc::Hash().i(h).i(llround(ref * 1e4)).h; };
      for (int t = 0; t < nt; t++) { CV a = p[t][steps]; cmp("norm", std::sqrt(sp(s, a, a).real()));
         if (isop) { double v = sp(s, a, ops[t].m * a).real(); cmp("expectation value", v); sum += std::fabs(v); }
         else { cd o = sp(s, a, T[t]); cmp("norm of the target", std::sqrt(sp(s, T[t], T[t]).real())); cmp("yield", std::norm(o)); if (phase) { double v = atof(w[q++].c_str()), d = v - std::arg(o) / M_PI; d -= 2 * std::round(d / 2); if (std::abs(o) > 1e-3 && std::fabs(d) > 1e-5) c.fail("phase", "%s: row %d has the phase %.8f instead of %.8f", what.c_str(), i, v, std::arg(o) / M_PI); sum += o; } else sum += std::norm(o); } }
      if (writel || i == 0 || i == K) { double e = 0; for (double x : E[first]) e += x * x * fs * fs; q = cols - 1; double ref = 137.0359996 / (4 * M_PI) * e * DT, v = atof(w[q].c_str()); if (!(std::fabs(v - ref) <= 2e-6 * std::max(1., ref))) c.fail("pulse energy", "%s: row %d has %.8f instead of %.8f", what.c_str(), i, v, ref); }
      return std::abs(sum); };
   Traj psi = forward(E); std::string base = std::string("o/") + (arn ? "pulse" : "laser"); row(0, psi); Field got;
   if (writel && (!readField(base + "_0", got) || got != E[first])) c.fail("field", "%s: %s_0 is not the guess", what.c_str(), base.c_str());
   for (int i = 1; i <= K; i++) {
      Fields old = E, now = E; Traj chi, p;
      if (method == KROTOV || method == RABITZ || method == FREQ_OPEN) { if (mv) chi = M; else chi = back(old, ends(psi)); p = sweep(now, old, chi, method != RABITZ); }
      else if (method == FEEDBACK) { Fields b = old; std::vector<CV> x = ends(psi); chi = Traj(nt, std::vector<CV>(steps + 1)); for (int t = 0; t < nt; t++) chi[t][steps] = x[t];
         for (int k = steps - 1; k >= 0; k--) { set(b, k, -shape[k] / (alpha * nt) * im(slice(psi, k + 1), slice(chi, k + 1)) / fs); Mat u = prop(b, k, false); for (int t = 0; t < nt; t++) chi[t][k] = mv1(u, chi[t][k + 1]); } p = sweep(now, old, chi, false); }
      bool file = writel || i == K; std::string f = base + (writel ? "_" + idx(i) : ""); Fields wr = E;
      if (file) { if (!readField(f, got)) c.fail("field", "%s: %s missing", what.c_str(), f.c_str()); if ((int)got.size() != n) c.fail("field", "%s: %s has %zu points", what.c_str(), f.c_str(), got.size()); for (size_t l = 0; l < nl; l++) if (s.opt[l]) wr[l] = got; }
      if (method == FREQ && !file) { val[0] = val[1]; val[1] = val[2]; val[2] = -1; continue; }
      if (file && writel && i == K) { Field last; if (!readField(base, last) || last != got) c.fail("field", "%s: %s is not the last field", what.c_str(), base.c_str()); }
      if (file) { // the yield of this row belongs to the field written for it
         E = wr; Traj q = forward(wr); val[0] = val[1]; val[1] = val[2]; val[2] = row(i, q);
         if (method != FREQ) { double sc = 1; for (double x : now[first]) sc = std::max(sc, std::fabs(x)); for (int k = 0; k < n; k++) if (!(std::fabs(now[first][k] - got[k]) <= 1e-6 * sc)) c.fail("algorithm", "%s: the field of iteration %d at step %d is %.8f instead of %.8f", what.c_str(), i, k, got[k], now[first][k]); }
         psi = q; }
      else { E = now; psi = p; val[0] = val[1]; val[1] = val[2]; val[2] = row(i, p); }
      bool known = method != FREQ || writel; double d = std::fabs(val[0] - val[1]) + std::fabs(val[1] - val[2]); if (known && std::fabs(d - limit) > 1e-5) { ended = d <= limit; if (ended && i < K) c.fail("convergence", "%s: goes on after iteration %d, the change was %g", what.c_str(), i, d); if (!ended && i == K && K < iter) c.fail("convergence", "%s: ends after %d iterations with a change of %g", what.c_str(), K, d); }
   }
   if (K > iter || (K < 1)) c.fail("iterations", "%s: %d iterations", what.c_str(), K);
   if (writel) { Field x; if (readField(base + "_" + idx(K + 1), x)) c.fail("field", "%s: more fields than iterations", what.c_str()); }
   c.outcome(h);
}
static void definitions(mc::Ctx& c) {
   files(); const Ctl& s = controls()[0]; mc::rmtree(c.dir() + "/o"); struct A { const char* name; std::vector<const char*> ok, bad; };
   static const std::vector<A> at = { { "dt", { "0.5" }, { "", "0", "0.25" } }, { "steps", { "6", "16" }, { "", "0", "-1", "17" } }, { "alpha", { "2", "-3" }, { "0" } }, { "shape", { "shape" }, { "", "absent" } }, { "method", { "krotov", "rabitz", "rabitzfb" }, { "newton", "freq" } }, { "iterations", { "1", "3" }, { "0", "-2" } }, { "conv", { "0", "1e-3" }, { "-1" } }, { "ttype", { "overlap" }, { "state", "operator" } }, { "coup", { "dipole" }, { "raman" } }, { "ntargets", { "1" }, { "0", "2", "17", "-1" } } };
   static const char* PARTS[] = { "propagator", "wfi0", "wft0" }; int bad = c.pick(at.size() + 1 + 3 + 2, "what is wrong") - 1, which = 0; bool ok = bad < 0; std::string xml = "<oct dir=\"o\"";
   for (size_t i = 0; i < at.size(); i++) { const char* v; if ((int)i == bad) v = at[i].bad[which = c.pick(at[i].bad.size(), "value")]; else if (bad < 0 || i > 6) v = at[i].ok[c.pick(at[i].ok.size(), at[i].name)]; else v = at[i].ok[0]; if (*v) xml += std::string(" ") + at[i].name + "=\"" + v + "\""; }
   xml += ">"; int miss = bad - (int)at.size(), nolas = bad - (int)at.size() - 3; fieldFile(NT_, 2, "las2"); fieldFile(NT_, 1, "las1"); fieldFile(NT_, 3, "shape"); wfFile(s.wf, state(s, 5), "init"); wfFile(s.wf, state(s, 7), "goal"); std::string ham = nolas == 0 ? "<hamiltonian name=\"HermitianMatrix\" file=\"ham3\"/>" : nolas == 1 ? "<hamiltonian name=\"Sum\"><A name=\"HermitianMatrix\" file=\"ham3\"/></hamiltonian>" : s.ham;
   if (miss != 0) xml += "<propagator name=\"SIL\" order=\"6\">" + ham + "</propagator>"; if (miss != 1) xml += "<wfi0 file=\"init\"/>"; if (miss != 2) xml += "<wft0 file=\"goal\"/>"; xml += "</oct>"; (void)PARTS;
   c.doing("%s", xml.c_str()); c.log("%s", xml.c_str()); Result r = input(xml); c.nontrivial(); c.step(); Field f; bool wrote = readField("o/laser", f);
   if (r.ok != ok) c.fail(ok ? "valid input refused" : "invalid input accepted", "%s: %s", xml.c_str(), r.error.c_str()); if (wrote != ok) c.fail("field", "%s: %s", xml.c_str(), ok ? "no field" : "a field was written"); c.outcome(mc::Hash().i(ok).i(bad).i(which).h);
}
int main(int argc, char** argv) { mc::Options o; static std::string m; m = argc > 1 ? argv[1] : ""; for (int i = 1; i + 1 < argc; i++) argv[i] = argv[i + 1]; argc--; o.name = "optimal control"; return mc::Main(argc, argv, [](mc::Ctx& c) { m == "definitions" ? definitions(c) : runs(c); }, o); }
