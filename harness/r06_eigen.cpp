// R06: eigenstate calculations
#include "run.h"
using namespace run;
struct Eig : Sys { std::vector<double> ev; };
static std::vector<double> eigenvalues(Mat a) { // Jacobi rotations
   int n = a.n; for (int sweep = 0; sweep < 60; sweep++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { double m = std::abs(a(p, q)); if (m < 1e-15) continue; cd ph = a(p, q) / m; double th = 0.5 * std::atan2(2 * m, (a(q, q) - a(p, p)).real()), cs = cos(th), sn = sin(th);
      for (int k = 0; k < n; k++) { cd x = a(k, p), y = a(k, q); a(k, p) = cs * x - sn * std::conj(ph) * y; a(k, q) = sn * ph * x + cs * y; } for (int k = 0; k < n; k++) { cd x = a(p, k), y = a(q, k); a(p, k) = cs * x - sn * ph * y; a(q, k) = sn * std::conj(ph) * x + cs * y; } }
   std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(a(i, i).real()); std::sort(v.begin(), v.end()); return v; }
static void writeMatrix(const Mat& m, const std::string& name) { std::vector<double> v; for (auto& x : m.a) v.push_back(x.real()); OHermitianMatrix* o = mat(m.n, v); FileSingle<OHermitianMatrix> f; f.Name(name); f.Suffix(BINARY_O_SUFFIX); f << o; DELETE_OP(o); }
static std::vector<Eig>& all() {
   static std::vector<Eig> v; if (!v.empty()) return v; dataFiles(); Sp g = grid({ 4 }), g5 = grid({ 5 });
   auto add = [&](const char* n, Wf f, std::string h, Mat m, double dv) { Eig e; e.name = n; e.wf = f; e.ham = "<hamiltonian " + h; e.at = [m](int) { return m; }; e.td = false; e.dv = dv; e.ev = eigenvalues(m); v.push_back(e); };
   add("levels", level(3), "name=\"HermitianMatrix\" file=\"ham3\"/>", matrixRef(3, 5), 1);
   Mat b(4); { double x[] = { 1, 0.5, 0, 0, 0.5, 1, 0, 0, 0, 0, -2, 1, 0, 0, 1, -2 }; for (int i = 0; i < 16; i++) b.a[i] = x[i]; } writeMatrix(b, "blocks"); add("levels below zero", level(4), "name=\"HermitianMatrix\" file=\"blocks\"/>", b, 1);
   Mat d(4); { double x[] = { 1.5, 0.5, 0, 0, 0.5, 1.5, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1 }; for (int i = 0; i < 16; i++) d.a[i] = x[i]; } writeMatrix(d, "pairs"); add("degenerate levels", level(4), "name=\"HermitianMatrix\" file=\"pairs\"/>", d, 1);
   Mat T = 0.125 * kinRef(g); add("grid", g5, "name=\"Sum\"><A name=\"GridNablaSq\" mass=\"2\"/><B name=\"GridPotential\" file=\"pot5\"/></hamiltonian>", 0.5 * kinRef(g5) + potRef(g5, 3), g5.dx(0)); potFile(g5, 3, "pot5");
   add("two states", Wf(g, 2), "name=\"Multistate\"><m0.0 name=\"GridNablaSq\" mass=\"8\" key=\"T\"/><m1.1 name=\"Sum\"><A ref=\"T\"/><B name=\"GridPotential\" file=\"pot1\"/></m1.1><m1.0 name=\"GridPotential\" file=\"coup\"/></hamiltonian>", block(2, 4, { { 0, 0, T }, { 1, 1, T + potRef(g, 1) }, { 0, 1, potRef(g, 3) }, { 1, 0, potRef(g, 3) } }), g.dx(0));
   add("complex", g, "name=\"Sum\"><A name=\"GridNablaSq\" mass=\"8\"/><B name=\"GridPotential\" file=\"pot1\"/><C name=\"GridMomentum\"/></hamiltonian>", T + potRef(g, 1) + cd(0, -1) * d1(g, 0), g.dx(0));
   return v; }
static CV guess(const Eig& s, bool real) { CV v = start(s); if (real) { double n = 0; for (auto& x : v) { x = x.real() + 0.3; n += std::norm(x); } for (auto& x : v) x /= std::sqrt(n * s.dv); } return v; }
static bool exists(const std::string& f) { struct stat st; return !stat(f.c_str(), &st); }
struct Out { std::vector<CV> st; std::vector<double> en; };
// read states and table, check everything that must hold for any result
static Out read(mc::Ctx& c, const Eig& s, const std::string& dir, const std::string& f, const std::string& en, int n, double res, bool complete, const std::string& what) {
   Out o; Mat H = s.at(0); std::string t; if (!slurp(dir + en, t)) c.fail("energy table missing", "%s", what.c_str()); auto ls = lines(t); if (n >= 0 && (int)ls.size() != n) c.fail("number of energies", "%s: %zu instead of %d", what.c_str(), ls.size(), n); if (n < 0) n = ls.size();
   for (int i = 0; i < n; i++) { CV v; std::string e; c.step(); if (!readWf(s.wf, dir + f + "_" + std::to_string(i), v, e)) c.fail("state missing", "%s: state %d %s", what.c_str(), i, e.c_str()); o.st.push_back(v); auto w = numbers(ls[i]); if ((int)w.size() != (i ? 5 : 4) || w[0] != i) c.fail("energy table", "%s: row '%s'", what.c_str(), ls[i].c_str()); o.en.push_back(w[1]); const double CM = 219475; double u = 0.011 + CM * 1.1e-8; if (std::fabs(w[2] - w[1] * CM) > u || std::fabs(w[3] - (w[1] - o.en[0]) * CM) > 2 * u || (i && std::fabs(w[4] - (w[1] - o.en[i - 1]) * CM) > 2 * u)) c.fail("energy table", "%s: row '%s'", what.c_str(), ls[i].c_str()); }
   if (exists(dir + f + "_" + std::to_string(n) + BINARY_WF_SUFFIX)) c.fail("too many states", "%s: more than %d states written", what.c_str(), n);
   for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { cd p = ip(s, o.st[i], o.st[j]); if (!(std::abs(p - cd(i == j)) <= 1e-8)) c.fail(i == j ? "normalization" : "orthogonality", "%s: <%d|%d> = (%g,%g)", what.c_str(), i, j, p.real(), p.imag()); }
   for (int i = 0; i < n; i++) { CV h = H * o.st[i]; double e = ip(s, o.st[i], h).real(); if (!(std::fabs(e - o.en[i]) <= 2e-8 * (1 + std::fabs(e)))) c.fail("energy", "%s: energy %d is %.9g, the written state has %.9g", what.c_str(), i, o.en[i], e); double bound = (i + 2) * res + 1e-7; if (i && o.en[i] < o.en[i - 1] - bound) c.fail("order", "%s: energy %d below %d", what.c_str(), i, i - 1);
      if (complete) { double r = 0; for (size_t k = 0; k < h.size(); k++) r += std::norm(h[k] - e * o.st[i][k]); r = std::sqrt(r * s.dv); if (!(r <= bound)) c.fail("eigenvalue equation", "%s: state %d has the residual %g, more than %g", what.c_str(), i, r, bound); } }
   return o; }
static std::string prop(const Eig& s, int k) { static const char *P[] = { "name=\"Cheby\"", "name=\"SIL\" order=\"8\"", "name=\"Arnoldi\" order=\"8\"", "name=\"RK4\"" }; return std::string("<propagator ") + P[k] + ">" + s.ham + "</propagator>"; }
static void relax(mc::Ctx& c) {
   auto& ss = all(); const Eig& s = ss[c.pick(ss.size(), "system")]; bool real = c.flag("real guess") && s.name != "complex"; int pr = c.pick(4, "propagator"); double dt = pr == 3 ? 0.125 : s.name == "complex" ? 0.25 : c.of<double>({ 0.5, 0.25 }, "dt"), conv = c.of<double>({ 1e-10, 1e-8, 1e-3 }, "conv"); int diag = c.pick(3, "diag"); int dim = s.wf.size(), n = c.pick(dim + (s.name != "degenerate levels"), "number") + 1; bool toomany = n > dim; bool names = c.flag("names");
   if (s.name == "degenerate levels") n = std::min(n, 2); wfFile(s.wf, guess(s, real), "init"); int first = c.pick(n + 1, "first"), over = first ? c.pick(2, "overlap") : 0, fdiag = first ? c.pick(3, "first diag") : 0; if (names && !c.thorough() && (conv != 1e-10 || real || pr % 2)) c.prune(); if (toomany && (first > 1 || conv == 1e-3)) c.prune(); if (!c.thorough() && first && (dt == 0.25 && s.name != "complex" || names || conv == 1e-8 || (conv == 1e-3 && n != dim) || real || fdiag == 2 || diag == 2)) c.prune();
   static const char* D[] = { "", " diag=\"false\"", " diag=\"true\"" }; std::string f = names ? "state" : "ef", en = names ? "levels.txt" : "energy.dat", common = std::string(" method=\"imag\" dir=\"eig\" steps=\"") + (toomany ? "400" : "40000") + "\" dt=\"" + num(dt) + "\" conv=\"" + num(conv) + "\"" + (names ? " fname=\"state\" ename=\"levels.txt\"" : ""), body = prop(s, pr) + "<wf file=\"init\"/></eigen>";
   auto xml = [&](int nef, int st, int dg) { return "<eigen Nef=\"" + std::to_string(nef) + "\"" + (st ? " start=\"" + std::to_string(st) + "\"" : "") + D[dg] + common + ">" + body; };
   mc::rmtree(c.dir() + "/eig"); double res = 3 * std::sqrt(2 * conv) / dt; std::string what = s.name + (real ? " real" : "") + " first " + std::to_string(first) + " " + xml(n, first ? first - over : 0, diag); c.doing("%s", what.c_str()); c.nontrivial();
   if (first) { Result r = input(xml(first, 0, fdiag)); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str()); read(c, s, "eig/", f, en, first, res, true, what + " (first part)"); }
   if (first && c.flag("other guess")) { CV v = vec(s.wf.size(), 9); wfFile(s.wf, v, "init"); what += " other guess"; }
   Result r = input(xml(n, first ? first - over : 0, diag)); if (!r.ok && toomany) { c.outcome(7); return; } if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str());
   if (toomany) c.fail("too many states", "%s: %d states reported for %d dimensions", what.c_str(), n, dim);
   Out o = read(c, s, "eig/", f, en, n, res, true, what);
   if (diag != 1) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { cd h = ip(s, o.st[i], s.at(0) * o.st[j]); if (!(std::abs(h) <= 1e-7)) c.fail("diagonalization", "%s: <%d|H|%d> = (%g,%g)", what.c_str(), i, j, h.real(), h.imag()); }
 auto exact = s.ev; if (conv > 1e-4) exact.clear(); if (s.name == "degenerate levels" && what.find("other guess") != std::string::npos) exact.clear(); if (s.name == "degenerate levels") exact.erase(std::unique(exact.begin(), exact.end(), [](double a, double b) { return std::fabs(a - b) < 1e-9; }), exact.end());
   for (int i = 0; i < n && i < (int)exact.size(); i++) if (std::fabs(o.en[i] - exact[i]) > (i + 2) * res + 1e-7) c.fail("spectrum", "%s: energy %d is %.9g instead of %.9g", what.c_str(), i, o.en[i], exact[i]);
   c.outcome(mc::Hash().i(pr).i(n).i(first).i(diag).h); }
// energies on the frequency grid of the autocorrelation
static const std::vector<std::vector<int>> LINES = { { 2, 7, 12 }, { 6 }, { 1, 9 }, { -6, 3, 9 }, { -9, -4 }, { 0, 8 }, { -1, 5, 10 }, { -12, 12 }, { -5, 0, 6 } };
static void autocorr(mc::Ctx& c) {
   all(); auto& l = LINES[c.pick(LINES.size(), "lines")]; int n = l.size(), N = c.of<int>({ 32, 33, 48 }, "steps"), w = 1, readMode = c.pick(4, "read"); double dt = c.of<double>({ 0.5, 1 }, "dt"), norm = 1; if (readMode) w = c.of<int>({ 1, 2 }, "cycle"); double dw = 2 * M_PI / (dt * w * N); int cplx = c.flag("complex"), diag = c.pick(3, "diag"), pr = c.pick(2, "propagator"); if (readMode) norm = c.of<double>({ 1, 0.7 }, "norm");
   double Q[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; int rot[3][2] = { { 0, 1 }, { 1, 2 }, { 0, 2 } }; for (auto& r : rot) if (r[1] < n) { double cs = 0.8, sn = 0.6; for (int k = 0; k < 3; k++) { double x = Q[k][r[0]], y = Q[k][r[1]]; Q[k][r[0]] = cs * x + sn * y; Q[k][r[1]] = -sn * x + cs * y; } }
   Mat m(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) m(i, j) += Q[i][k] * Q[j][k] * l[k] * dw; CV v(n); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) v[i] += Q[i][k] * std::polar(1 / std::sqrt(n), cplx ? 0.7 * k + 0.3 : 0.); for (auto& x : v) x *= norm; writeMatrix(m, "lines");
   Eig s; s.name = "lines"; s.wf = level(n); s.ham = "<hamiltonian name=\"HermitianMatrix\" file=\"lines\"/>"; s.at = [m](int) { return m; }; s.td = false; s.dv = 1; wfFile(s.wf, v, "init"); mc::rmtree(c.dir() + "/eig"); mc::rmtree(c.dir() + "/run");
   static const char *D[] = { "", " diag=\"false\"", " diag=\"true\"" }, *P[] = { "name=\"Cheby\"", "name=\"SIL\" order=\"8\"" }, *R[] = { "", "run/WF", "run/", "run" }; std::string pp = std::string("<propagator ") + P[pr] + ">" + s.ham + "</propagator><wf file=\"init\"/>";
   double given = readMode > 1 ? 0.3 : dt * w; std::string xml = "<eigen method=\"ac\" dir=\"eig\" dt=\"" + num(given) + "\"" + (readMode ? std::string(" read=\"") + R[readMode] + "\"" : "") + (readMode > 1 ? " steps=\"20\"" : " steps=\"" + std::to_string(N) + "\"") + D[diag] + ">" + pp + "</eigen>", what = std::to_string(N) + " steps of " + num(dt * w) + ", " + std::to_string(n) + " lines from " + std::to_string(l[0]) + (cplx ? " complex " : " ") + xml; c.doing("%s", what.c_str()); c.nontrivial();
   if (readMode) { Result r = input("<propa dt=\"" + num(dt) + "\" steps=\"" + std::to_string((N - 1) * w) + "\" wcycle=\"" + std::to_string(w) + "\" dir=\"run\">" + pp + "</propa>"); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str()); }
   Result r = input(xml); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str()); Out o = read(c, s, "eig/", "ef", "energy.dat", n, 1e-8, true, what);
   for (int i = 0; i < n; i++) if (std::fabs(o.en[i] - l[i] * dw) > 1e-7) c.fail("spectrum", "%s: energy %d is %.9g instead of %.9g", what.c_str(), i, o.en[i], l[i] * dw); std::string t; if (!slurp("eig/spectrum.dat", t)) c.fail("spectrum missing", "%s", what.c_str()); auto ls = lines(t); if ((int)ls.size() != N) c.fail("spectrum", "%s: %zu lines", what.c_str(), ls.size());
   for (int k = 0; k < N; k++) { auto x = numbers(ls[k]); double f = k < N / 2 ? k * dw : -(N - k) * dw; if (x.size() != 4 || std::fabs(x[0] - f) > 1e-5 * (1 + std::fabs(f))) c.fail("spectrum axis", "%s: line %d '%s' instead of the frequency %g", what.c_str(), k, ls[k].c_str(), f); }
   c.outcome(mc::Hash().i(n).i(readMode).i(diag).h); }
static void lanczos(mc::Ctx& c) {
   auto& ss = all(); const Eig& s = ss[c.pick(ss.size(), "system")]; bool real = c.flag("real guess") && s.name != "complex"; int diag = c.pick(3, "diag"), dim = s.wf.size(), order = c.pick(dim + 2, "order") + 3; double dt = c.of<double>({ 1e-3, 1, 10 }, "dt"); bool names = c.flag("names"); wfFile(s.wf, guess(s, real), "init"); int distinct = s.name == "degenerate levels" ? 2 : dim, n = std::min(order, distinct); mc::rmtree(c.dir() + "/eig");
   static const char* D[] = { "", " diag=\"false\"", " diag=\"true\"" }; std::string f = names ? "state" : "ef", en = names ? "levels.txt" : "energy.dat", xml = "<eigen method=\"lanczos\" dir=\"eig\" dt=\"" + num(dt) + "\"" + (names ? " fname=\"state\" ename=\"levels.txt\"" : "") + D[diag] + "><propagator name=\"Arnoldi\" order=\"" + std::to_string(order) + "\">" + s.ham + "</propagator><wf file=\"init\"/></eigen>", what = s.name + (real ? " real " : " ") + xml; c.doing("%s", what.c_str()); c.nontrivial();
   Result r = input(xml); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str()); Out o = read(c, s, "eig/", f, en, -1, 1e-7, order >= distinct && dt > 1e-2, what); if (dt > 1e-2 && (int)o.st.size() != n) c.fail("number of states", "%s: %zu instead of %d", what.c_str(), o.st.size(), n);
   if (order >= distinct && dt > 1e-2 && n == dim) for (int i = 0; i < n; i++) if (std::fabs(o.en[i] - s.ev[i]) > 1e-6) c.fail("spectrum", "%s: energy %d is %.9g instead of %.9g", what.c_str(), i, o.en[i], s.ev[i]);
   c.outcome(mc::Hash().i(n).i(order).i(diag).h); }
int main(int argc, char** argv) { mc::Options o; std::string m = argc > 1 ? argv[1] : ""; for (int i = 1; i + 1 < argc; i++) argv[i] = argv[i + 1]; argc--; o.name = "eigenstates"; return mc::Main(argc, argv, m == "ac" ? autocorr : m == "lanczos" ? lanczos : relax, o); }
