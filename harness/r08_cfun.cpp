// R08: correlation functions of the real program against their definition, evaluated with matrices
#include "run.h"
using namespace run;
struct Op { std::string text; Mat m; };
static std::vector<Op> opsOf(int si) { // Hermitian, not commuting with the Hamiltonian or each other; the third one is not Hermitian
   Sp g = grid({ 4 }); std::vector<Op> v; Mat x = local(g, [&](int p) { return g.x(0, p); }), mu = local(g, [](int p) { return pv(4, p); }), z(4);
   if (si == 0) { Mat a = matrixRef(2, 4); v.push_back({ "name=\"HermitianMatrix\" file=\"opa\"", a }); v.push_back({ "name=\"HermitianMatrix\" file=\"opb\"", matrixRef(2, 6) }); }
   if (si == 1) { v.push_back({ "name=\"HermitianMatrix\" file=\"opc\"", matrixRef(3, 4) }); v.push_back({ "name=\"HermitianMatrix\" file=\"opd\"", matrixRef(3, 6) }); }
   if (si == 2) { v.push_back({ "name=\"GridPosition\" dim=\"0\"", x }); v.push_back({ "name=\"GridPotential\" file=\"mu\"", mu }); }
   if (si == 3) { v.push_back({ "name=\"Multistate\" unity=\"false\"><m0.1 name=\"GridPotential\" file=\"mu\"/><m1.0 name=\"GridPotential\" file=\"mu\"/></", block(2, 4, { { 0, 1, mu }, { 1, 0, mu } }) });
      v.push_back({ "name=\"Multistate\" unity=\"true\"><m0.0 name=\"GridPosition\" dim=\"0\"/><m1.1 name=\"GridPotential\" file=\"pot2\"/></", block(2, 4, { { 0, 0, x }, { 1, 1, potRef(g, 2) } }) });
      v.push_back({ "name=\"Multistate\" unity=\"false\" nonhermitian=\"true\"><m0.1 name=\"GridPotential\" file=\"mu\"/></", block(2, 4, { { 0, 1, mu } }) }); }
   return v;
}
static Mat exact(const Sys& s, int t, double dt) { return expm(cd(0, -dt) * s.at(t)); }
typedef std::vector<int> Seq; // operators, -1 is a propagator
static std::string side(const char* tag, const Seq& l, const std::vector<Op>& o) { std::string s = std::string("<") + tag + ">"; for (int k : l) { if (k < 0) s += "<U/>"; else { size_t p = o[k].text.find("</"); s += "<op " + (p == std::string::npos ? o[k].text + "/>" : o[k].text.substr(0, p) + "</op>"); } } return s + "</" + tag + ">"; }
static Seq join(std::initializer_list<Seq> p) { Seq r; for (auto& l : p) r.insert(r.end(), l.begin(), l.end()); return r; }
static CV apply(const Seq& l, const std::vector<Op>& o, CV v) { for (int k : l) v = o[k].m * v; return v; }
static bool readCf(const std::string& f, std::vector<cd>& v) { std::string t; if (!slurp(f + ".cf", t) || t.size() % 16) return false; v.resize(t.size() / 16); memcpy((void*)v.data(), t.data(), t.size()); return true; }
static const char* PR[] = { "name=\"Cheby\"", "name=\"SIL\" order=\"8\"", "name=\"Arnoldi\" order=\"8\"" };
static void body(mc::Ctx& c, bool invalid) {
   auto& ss = systems(); dataFiles(); matFile(2, 4, "opa"); matFile(2, 6, "opb"); matFile(3, 4, "opc"); matFile(3, 6, "opd");
   int si = c.pick(ss.size(), "system"); const Sys& s = ss[si]; auto o = opsOf(si); double dt = DT; wfFile(s.wf, start(s), "init"); mc::rmtree(c.dir() + "/cf"); mc::rmtree(c.dir() + "/base");
   if (invalid) { // numbers and positions of propagators which are no correlation function
      int n = c.pick(5, "ket length"), nb = c.pick(5, "bra length"); Seq ket, bra; for (int i = 0; i < n; i++) ket.push_back(c.pick(2, "element") ? -1 : 0); for (int i = 1; i < nb; i++) bra.push_back(c.pick(2, "element") ? -1 : 0);
      int uk = std::count(ket.begin(), ket.end(), -1), ub = std::count(bra.begin(), bra.end(), -1); bool ok = n && ket.back() == 0 && (nb == 0 ? uk == 1 || uk == 2 : nb > 1 && bra.back() == -1 && ((uk == 1 && ub == 1) || (uk == 2 && ub == 1) || (uk == 1 && ub == 2))); c.nontrivial();
      std::string xml = std::string("<cfunc dir=\"cf\" dt=\"" + num(dt) + "\" steps=\"2\" wcycle=\"1\"><propagator ") + PR[0] + ">" + s.ham + "</propagator><wf file=\"init\"/>" + (n ? side("ket", ket, o) : "") + (nb ? nb == 1 ? "" : side("bra", bra, o) : "") + "</cfunc>"; if (nb == 1) c.prune();
      Result r = input(xml); if (r.ok != ok) c.fail(ok ? "valid definition refused" : "invalid definition accepted", "%s: %s", xml.c_str(), r.error.c_str()); c.outcome(mc::Hash().i(ok).i(uk).i(ub).h); return;
   }
   static const std::vector<Seq> OK = { {}, { 0 }, { 0, 1 } }, O1 = { {}, { 0 }, { 1 }, { 0, 1 } }, OS = { { 0 }, { 1 }, { 1, 0 } }, OB = { {}, { 1 } }, O2 = { {}, { 0 }, { 1, 0 } };
   static const char* KIND[] = { "one point", "two points on the ket", "two points, one on the bra" }; int kind = c.pick(3, "kind"), source = c.pick(3, "source"), bra = kind == 2 ? 1 : c.pick(2, "bra"); bool th = c.thorough();
   int steps = 1 + c.pick(th ? 7 : 5, "steps"), w = 1 + c.pick(3, "cycle"), pr = c.pick(th ? 3 : 2, "propagator"); if (!th && steps * w > 6 && (steps % w)) c.prune(); if (pr && (steps != 4 && !th)) c.prune();
   Seq ok = source == 2 ? Seq() : OK[c.pick(3, "ket before")], o1 = kind == 1 ? O1[c.pick(4, "ket between")] : Seq(), os = OS[c.pick(3, "signal")], ob = bra && source != 2 ? OB[c.pick(2, "bra before")] : Seq(), o2 = kind == 2 ? O2[c.pick(3, "bra between")] : Seq();
   if (si == 3 && c.pick(2, "not Hermitian")) { for (Seq* l : { &o1, &os }) for (int& k : *l) if (k == 0) k = 2; }
   int names = c.pick(2, "names"); if (names && !(steps == 4 && w == 2 && !th)) c.prune(); int maxint = kind ? c.pick(3, "stepsint") : 0; if (maxint && steps < 4) c.prune();
   Seq ket = kind == 1 ? join({ ok, { -1 }, o1, { -1 }, os }) : join({ ok, { -1 }, os }), br = kind == 2 ? join({ ob, { -1 }, o2, { -1 } }) : join({ ob, { -1 } });
   int Nt = steps / w; std::string pp = std::string("<propagator ") + PR[pr] + ">" + s.ham + "</propagator><wf file=\"init\"/>", def = side("ket", ket, o) + (bra ? side("bra", br, o) : "");
   auto xml = [&](const std::string& a) { return "<cfunc dir=\"cf\" dt=\"" + num(dt) + "\" steps=\"" + std::to_string(steps) + "\" wcycle=\"" + std::to_string(w) + "\"" + (names ? " fname=\"signal\"" : "") + (maxint ? " stepsint=\"" + std::to_string(maxint) + "\"" : "") + a + ">" + pp + def + "</cfunc>"; };
   std::string what = s.name + " " + KIND[kind] + " source " + std::to_string(source) + " " + xml(""); c.doing("%s", what.c_str()); c.log("%s", what.c_str()); c.nontrivial();
   if (Nt < 1) { Result r = input(xml("")); if (r.ok) { std::vector<cd> v; if (!readCf(std::string("cf/") + (names ? "signal" : "Cfun") + (kind ? "_2" : "_1"), v) || !v.empty()) c.fail("no points", "%s: %zu points for less than one write cycle", what.c_str(), v.size()); } c.outcome(1); return; }
   // reference
   CV psi = apply(ok, o, start(s)), b = bra ? apply(ob, o, start(s)) : psi; std::vector<CV> K{ psi }, B{ b }; for (int t = 0; t < steps; t++) { K.push_back(exact(s, t, dt) * K.back()); B.push_back(exact(s, t, dt) * B.back()); }
   std::vector<cd> ref(kind ? Nt * Nt : Nt);
   if (kind == 0) for (int t = 0; t < Nt; t++) ref[t] = ip(s, B[t * w], apply(os, o, K[t * w]));
   else for (int t1 = 0; t1 < Nt; t1++) { CV x = apply(kind == 1 ? o1 : o2, o, kind == 1 ? K[t1 * w] : B[t1 * w]); for (int t = t1 * w; t < Nt * w; t++) { if (t % w == 0) { if (kind == 1) ref[t1 * Nt + t / w] = ip(s, B[t], apply(os, o, x)); else ref[t / w * Nt + t1] = ip(s, x, apply(os, o, K[t])); } x = exact(s, t, dt) * x; } }
   auto check = [&](const Result& r, const std::string& how) { c.step(); if (!r.ok) c.fail("run failed", "%s%s: %s", what.c_str(), how.c_str(), r.error.c_str()); std::string f = std::string("cf/") + (names ? "signal" : "Cfun") + (kind ? "_2" : "_1"); std::vector<cd> v;
      if (!readCf(f, v)) c.fail("function missing", "%s%s: %s", what.c_str(), how.c_str(), f.c_str()); if (v.size() != ref.size()) c.fail("number of points", "%s%s: %zu instead of %zu", what.c_str(), how.c_str(), v.size(), ref.size());
      ParamContainer p; int n = 0, d = 0; double x = 0; if (!p.ReadFromFile(f + METAFILE_SUFFIX)) c.fail("meta missing", "%s%s", what.c_str(), how.c_str()); try { p.GetValue("Nt", n); p.GetValue("dim", d); p.GetValue("dt", x); } catch (Exception& e) { c.fail("meta", "%s%s: %s", what.c_str(), how.c_str(), e.GetMessage().c_str()); }
      if (n != Nt || d != (kind ? 2 : 1) || std::fabs(x - dt * w) > 1e-12) c.fail("meta", "%s%s: Nt %d dim %d dt %g", what.c_str(), how.c_str(), n, d, x); double sc = 1; for (auto& z : ref) sc = std::max(sc, std::abs(z));
      for (size_t i = 0; i < v.size(); i++) { int row = i / Nt, col = i % Nt, between = kind == 1 ? col - row : row - col; bool may = kind && maxint && between * w > maxint; if (std::abs(v[i] - ref[i]) <= 1e-7 * sc) continue; if (may && v[i] == cd(0)) continue;
         c.fail("correlation", "%s%s: point %zu of %zu is (%g,%g) instead of (%g,%g)", what.c_str(), how.c_str(), i, v.size(), v[i].real(), v[i].imag(), ref[i].real(), ref[i].imag()); }
      uint64_t h = 0; for (auto& z : ref) h = mc::Hash().i(h).i(llround(z.real() * 1e4)).h; c.outcome(h); mc::rmtree(c.dir() + "/cf"); };
   if (source == 0) check(input(xml("")), "");
   else if (source == 1) { check(input(xml(" write=\"base\"")), " (written)");
      ParamContainer p; if (!p.ReadFromFile(std::string("base/Propagation") + METAFILE_SUFFIX)) c.fail("baseline", "%s: no meta file", what.c_str()); for (int t = 0; t * w < steps; t++) { CV v; std::string e; if (!readWf(s.wf, "base/WF_" + std::to_string(t), v, e)) c.fail("baseline", "%s: WF_%d %s", what.c_str(), t, e.c_str()); if (dist(v, K[t * w]) > 1e-7) c.fail("baseline", "%s: WF_%d differs from the propagated state", what.c_str(), t); }
      if (ok.empty() && ob.empty()) check(input(xml(" read=\"base\"")), " (read back)"); }
   else { Result r = input("<propa dt=\"" + num(dt) + "\" steps=\"" + std::to_string(steps) + "\" wcycle=\"" + std::to_string(w) + "\" dir=\"base\"" + (names ? " fname=\"state\"" : "") + ">" + pp + "</propa>"); if (!r.ok) c.fail("run failed", "%s: %s", what.c_str(), r.error.c_str()); check(input(xml(" read=\"base\"")), " (from a propagation)"); }
}
int main(int argc, char** argv) { mc::Options o; std::string m = argc > 1 ? argv[1] : ""; for (int i = 1; i + 1 < argc; i++) argv[i] = argv[i + 1]; argc--; static bool inv; inv = m == "definitions"; o.name = "correlations"; return mc::Main(argc, argv, [](mc::Ctx& c) { body(c, inv); }, o); }
