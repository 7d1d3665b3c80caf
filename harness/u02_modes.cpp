// U02: settings of a propagator in any order; U03: histories of steps
#include "u.h"
using namespace u;
static const char* KIND[] = { "Cheby", "SIL", "Arnoldi", "RK4", "GSPO" };
struct Sys { const char* name; Wf wf; std::function<OPropagator*(int kind)> build; std::function<std::vector<Mat>(int)> at; bool td, herm; };
static OPropagator* prop(int k) { switch (k) { case 0: return new OCheby(); case 1: return new OSIL(); case 2: return new OArnoldi(); case 3: return new ORK4(); } return new OGSPO(); }
static OPropagator* fill(int k, std::vector<Operator*> f, bool sum = true) {
   OPropagator* U = prop(k); PC p; if (k == 0) p.set("prec", 1e-30); ((Operator*)U)->Init((ParamContainer&)p);
   if (k == 4) for (size_t i = 0; i < f.size(); i++) U->Add(std::string(1, 'A' + i), f[i]); else U->Add("hamiltonian", f.size() == 1 ? f[0] : sumOf(f));
   return U; }
static std::vector<Sys>& systems() {
   static std::vector<Sys> v; if (!v.empty()) return v; Sp g = grid({ 4 });
   std::vector<double> a = { 1, 0.25, 0, 0.25, -1, 0.5, 0, 0.5, 0.5 };
   v.push_back({ "three levels", level(3), [=](int k) { return fill(k, { mat(3, a) }); }, [=](int) { return std::vector<Mat>{ mref(3, a) }; }, false, true });
   v.push_back({ "levels in a field", level(3), [=](int k) { return fill(k, { mat(3, a), matdip(2) }); }, [=](int t) { return std::vector<Mat>{ mref(3, a), -E(2, t) * matrixRef(3, 3) }; }, true, true });
   v.push_back({ "T+V", g, [=](int k) { return fill(k, { kin(g), pot(g, 1) }); }, [=](int) { return std::vector<Mat>{ kinRef(g), potRef(g, 1) }; }, false, true });
   v.push_back({ "T+V+dipole", g, [=](int k) { return fill(k, { kin(g), pot(g, 1), dipole(g, 1) }); }, [=](int t) { return std::vector<Mat>{ kinRef(g), potRef(g, 1), -E(1, t) * local(g, [](int p) { return pv(4, p); }) }; }, true, true });
   v.push_back({ "T+nip", g, [=](int k) { return fill(k, { kin(g), init(new OGobbler(), PC().set("rp0", g.lo[0] + 1.5 * g.dx(0)).set("order", 2).set("nip", true).set("gain", 0.75)) }); }, [=](int) { return std::vector<Mat>{ kinRef(g), cd(0, -0.75) * gobbler(g, 0, true, g.lo[0] + 1.5 * g.dx(0), 2) }; }, false, false });
   return v;
}
struct Ref { bool fwd = true, im = false; };
static Mat stepRef(const Sys& s, int kind, Ref r, double dt, int t) {
   auto f = s.at(t); if (!r.fwd) for (auto& m : f) m = adj(m); cd ex = exponent(r.fwd, r.im, dt); Mat h(f[0].n); for (auto& m : f) h = h + m;
   return kind == 4 ? strang(f, ex) : kind == 3 ? rk4(h, ex) : expm(ex * h); }
static void near_(mc::Ctx& c, const std::string& key, CV got, CV want, bool norm, double tol, const std::string& what) {
   if (norm) for (CV* v : { &got, &want }) { double s = 0; for (auto& x : *v) s += std::norm(x); if (s > 0) for (auto& x : *v) x /= std::sqrt(s); }
   for (size_t i = 0; i < got.size(); i++) if (!(std::abs(got[i] - want[i]) <= tol * (norm ? 1 : mx(want)))) c.fail(key, "%s: element %zu is (%.10g,%.10g) instead of (%.10g,%.10g)", what.c_str(), i, got[i].real(), got[i].imag(), want[i].real(), want[i].imag()); }
// U02
static void modes(mc::Ctx& c) {
   auto& ss = systems(); const Sys& s = ss[c.pick(ss.size(), "system")]; int kind = c.pick(5, "propagator"); if (!s.herm && (kind == 1 || kind == 4)) c.prune(); // the split operator needs real diagonals
   QDClock k1, k2; k1.Dt(DT); k1.Steps(L); k2.Dt(s.td ? DT : 0.8); k2.Steps(L); k2.TimeStep(3); k1.TimeStep(1); QDClock* k = &k1; Ref r; std::string log = std::string(KIND[kind]) + ", " + s.name;
   OPropagator* U = s.build(kind); WaveFunction *a = make(s.wf, vec(s.wf.size(), 1)), *b = make(s.wf, vec(s.wf.size(), 2)); c.nontrivial();
   std::string key = std::string(KIND[kind]) + ":" + s.name; bool ready = false, clocked = false; int seed = 3;
   auto check = [&](const std::string& what) {
      c.step(); CV x = vec(s.wf.size(), seed++); put(a, s.wf, x); U->Apply(b, a); near_(c, key + (r.im ? " imaginary" : "") + (r.fwd ? "" : " backward"), get(b, s.wf), stepRef(s, kind, r, k->Dt(), k->TimeStep()) * x, r.im, r.im ? 5e-7 : 2e-8, what); };
   int depth = c.bound(4, 5);
   for (int i = 0; i < depth; i++) {
      int op = c.pick(11, "setting");
      switch (op) {
      case 0: U->Forward(); r.fwd = true; log += ", forward"; break;
      case 1: U->Backward(); r.fwd = false; log += ", backward"; break;
      case 2: if (!s.herm) c.prune(); U->ImaginaryTime(); r.im = true; log += ", imaginary time"; break;
      case 3: U->RealTime(); r.im = false; log += ", real time"; break;
      case 4: ((Operator*)U)->Conj(r.fwd); r.fwd = !r.fwd; log += r.fwd ? ", Conj(false)" : ", Conj(true)"; break;
      case 5: k = clocked ? (k == &k1 ? &k2 : &k1) : &k1; U->Clock(k); clocked = true; log += k == &k1 ? ", first clock" : ", second clock"; break;
      case 6: if (s.td) c.prune(); k->Dt(-k->Dt()); log += ", reversed time step"; break;
      case 7: if (s.td) c.prune(); k->Dt(k->Dt() > 0.5 ? 0.3 : 0.9); log += ", other time step"; break;
      case 8: ++*k; log += ", next step"; break;
      case 9: if (ready) c.prune(); if (!clocked) { U->Clock(k); clocked = true; } U->Init(a); ready = true; log += ", Init"; break;
      case 10: if (!ready) c.prune(); log += ", Apply"; c.doing("%s", log.c_str()); check(log); break;
      }
      c.doing("%s", log.c_str());
      if (clocked) { cd want = exponent(r.fwd, r.im, k->Dt()); dcomplex e = U->Exponent(); if (std::abs(cd(e._real, e._imag) - want) > 1e-15) c.fail("exponent:" + std::string(KIND[kind]), "%s: the exponent is (%g,%g) instead of (%g,%g)", log.c_str(), e._real, e._imag, want.real(), want.imag()); }
   }
   if (!clocked) U->Clock(k); if (!ready) U->Init(a); c.doing("%s, final", log.c_str());
   check(log); check(log + ", again"); c.outcome(mc::Hash().i(r.fwd).i(r.im).i(k == &k1).i(k->TimeStep()).i(ready).h);
   DELETE_WF(a); DELETE_WF(b); CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
// U03
static void histories(mc::Ctx& c) {
   auto& ss = systems(); const Sys& s = ss[c.pick(4, "system")]; int kind = c.pick(5, "propagator"); std::string log = std::string(KIND[kind]) + ", " + s.name; std::string key = std::string(KIND[kind]) + ":" + s.name;
   QDClock k; k.Dt(DT); k.Steps(L); OPropagator *U = s.build(kind), *W = s.build(kind); int n = s.wf.size(); CV xa = vec(n, 1), xb = unit(n, 1); WaveFunction *a = make(s.wf, xa), *b = make(s.wf, xb), *t = make(s.wf, xa); WaveFunction* w[2] = { a, b }; CV x[2] = { xa, xb };
   U->Clock(&k); U->Init(a); W->Clock(&k); W->Init(b); Ref r; c.nontrivial(); double tol = 5e-9, drift = 1e-8; std::vector<std::pair<int, bool>> past[2]; int depth = c.bound(4, 5);
   for (int i = 0; i < depth; i++) {
      int op = c.pick(8, "action"); int which = op == 1 || op == 3;
      switch (op) {
      case 0: case 1: U->Apply(w[which]); x[which] = stepRef(s, kind, r, DT, k.TimeStep()) * x[which]; past[which].push_back({ k.TimeStep(), r.fwd }); log += which ? ", step of b" : ", step of a"; break;
      case 2: U->Apply(t, w[0]); *w[0] = t; x[0] = stepRef(s, kind, r, DT, k.TimeStep()) * x[0]; past[0].push_back({ k.TimeStep(), r.fwd }); log += ", step of a out of place"; break;
      case 3: W->Apply(w[1]); x[1] = stepRef(s, kind, Ref(), DT, k.TimeStep()) * x[1]; past[1].push_back({ k.TimeStep(), true }); log += ", step of b by the second propagator"; break;
      case 4: if (r.fwd) U->Backward(); else U->Forward(); r.fwd = !r.fwd; log += r.fwd ? ", forward" : ", backward"; break;
      case 5: if (k.TimeStep() >= L - 1) c.prune(); ++k; log += ", ++clock"; break;
      case 6: if (k.TimeStep() <= 0) c.prune(); --k; log += ", --clock"; break;
      case 7: k.Begin(); log += ", begin"; if (!i) c.prune(); break;
      }
      c.doing("%s", log.c_str()); if (op < 4) { c.step(); for (int j = 0; j < 2; j++) { CV g = get(w[j], s.wf); near_(c, key, g, x[j], false, tol, log); double na = 0, nb = 0; for (auto& v : g) na += std::norm(v); for (auto& v : j ? xb : xa) nb += std::norm(v); if (kind != 3 && std::abs(na - nb) > 2 * drift * past[j].size() * nb) c.fail("norm:" + key, "%s: the norm went from %.12g to %.12g", log.c_str(), nb, na); } }
   }
   // undo everything
   if (kind != 3) for (int j = 0; j < 2; j++) {
      for (; !past[j].empty(); past[j].pop_back()) { auto p = past[j].back(); k.TimeStep(p.first); if (p.second) U->Backward(); else U->Forward(); U->Apply(w[j]); }
      near_(c, "undo:" + key, get(w[j], s.wf), j ? xb : xa, false, tol * 10, log + ", all steps undone"); }
   c.outcome(mc::Hash().i(kind).i(r.fwd).i(k.TimeStep()).h); for (auto z : { a, b, t }) { WaveFunction* y = z; DELETE_WF(y); } CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); std::string m = argv[1]; mc::Options o; o.name = m == "modes" ? "U02" : "U03"; return mc::Main(argc - 1, argv + 1, m == "modes" ? modes : histories, o); }
