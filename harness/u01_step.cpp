// U01: one step of every propagator against the exponential
#include "u.h"
using namespace u;
static const double DTS[] = { 0.04, 0.5, 1.7, -0.3, 6 };
static void cmp(mc::Ctx& c, const std::string& key, CV got, CV want, bool norm, double tol, const char* what) {
   if (norm) for (CV* v : { &got, &want }) { double s = 0; for (auto& x : *v) s += std::norm(x); if (s > 0) for (auto& x : *v) x /= std::sqrt(s); }
   double t = tol * (norm ? 1 : std::max(mx(want), 1e-280)); for (size_t i = 0; i < got.size(); i++) if (!(std::abs(got[i] - want[i]) <= t)) c.fail(key, "%s: element %zu is (%.12g,%.12g) instead of (%.12g,%.12g), off by %.3g, allowed %.3g", what, i, got[i].real(), got[i].imag(), want[i].real(), want[i].imag(), std::abs(got[i] - want[i]), t);
}
static void steps(mc::Ctx& c, OPropagator* U, const Wf& f, const Mat& ref, bool norm, double tol, const std::string& key, const std::string& what) {
   int n = f.size(); WaveFunction *a = make(f, vec(n, 1)), *b = make(f, vec(n, 2)); std::vector<CV> st; double e = 1 / std::sqrt(vol(f));
   for (int i = 0; i < n; i++) st.push_back(unit(n, i)); st.push_back(CV(n, 1)); st.push_back(vec(n, 5)); CV h(n); for (int i = 0; i < n / 2 + 1; i++) h[i] = cd(i, 1 - i); st.push_back(h); (void)e;
   for (size_t s = 0; s < st.size(); s++) for (double scale : { 1., 1e-4, 300. }) {
      if (scale != 1 && s < (size_t)n && s) continue; if (n > 12 && s < (size_t)n && s % 7) continue;
      CV x = st[s]; for (auto& v : x) v *= scale; CV w = ref * x; std::string t = what + ", state " + std::to_string(s) + " scaled by " + std::to_string(scale); c.step();
      put(a, f, x); put(b, f, vec(n, 9)); U->Apply(b, a); cmp(c, key, get(b, f), w, norm, tol, (t + ", out of place").c_str()); cmp(c, key + " source", get(a, f), x, false, 1e-14, (t + ", source").c_str());
      U->Apply(a); cmp(c, key, get(a, f), w, norm, tol, (t + ", in place").c_str());
   }
   put(a, f, CV(n)); U->Apply(a); cmp(c, key + " zero", get(a, f), CV(n), false, 1e-14, (what + ", zero").c_str());
   DELETE_WF(a); DELETE_WF(b);
}
static void setup(OPropagator* U, QDClock& k, WaveFunction* w, int mode, bool late) {
   U->Clock(&k); auto set = [&] { if (mode & 2) U->ImaginaryTime(); if (mode & 1) U->Backward(); };
   if (!late) set(); U->Init(w); if (late) set();
}
static void series(mc::Ctx& c) {
   static auto hs = [] { auto a = hams(); for (auto& w : wide()) a.push_back(w); return a; }(); auto& ps = props(); const Ham& h = hs[c.pick(hs.size(), "Hamiltonian")]; const Prop& p = ps[c.pick(ps.size(), "propagator")]; int di = c.pick(c.bound(4, 5), "dt"), mode = c.pick(4, "direction and mode"); bool late = mode == 1 && c.flag("set after initialisation"); double dt = DTS[di];
   std::string what = p.name + ", " + h.name + ", dt " + std::to_string(dt) + (mode & 1 ? ", backward" : "") + (mode & 2 ? ", imaginary" : "") + (late ? ", late" : ""); c.doing("%s", what.c_str());
   if (!h.herm && (p.kind == Prop::SIL || mode & 2)) c.prune();
   QDClock k; k.Dt(dt); k.Steps(L); if (h.td && dt != 0.5) c.prune(); k.TimeStep(2); 
   Mat H = h.at(2); double rho = norm1(H) * std::abs(dt); cd ex = exponent(!(mode & 1), mode & 2, dt); if (mode & 1) H = adj(H);
   double tol = 2e-9; if (p.kind == Prop::CHEBY && p.name == "Cheby") tol = 3e-5;
   if (p.order && h.wf.size() > p.order) { double b = 1; for (int i = 1; i <= p.order; i++) b *= rho / i; if (b > 1e-2) c.prune(); tol += 10 * b; }      // expansions that are too short are announced, not exact
   if (rho > 14 && p.kind != Prop::RK4 && p.kind != Prop::CHEBY && h.wf.size() > 8) c.prune();
   if (rho > 8 && p.kind != Prop::RK4 && p.kind != Prop::CHEBY && h.wf.size() > 24) c.prune(); // longer than the default order
   if (mode & 2) { if (rho > 8) c.prune(); tol *= 10; }
   OPropagator* U = p.make(); PC pc = p.p; ((Operator*)U)->Init((ParamContainer&)pc); Operator* op = h.build(); U->Add("hamiltonian", op); WaveFunction* w = make(h.wf, vec(h.wf.size(), 1)); c.nontrivial();
   setup(U, k, w, mode, late); DELETE_WF(w); if (std::abs(cd(U->Exponent()._real, U->Exponent()._imag) - ex) > 1e-15) c.fail("exponent", "%s", what.c_str());
   steps(c, U, h.wf, p.kind == Prop::RK4 ? rk4(H, ex) : expm(ex * H), mode & 2, tol, p.name + ":" + h.name + (mode & 1 ? " backward" : "") + (mode & 2 ? " imaginary" : ""), what);
   c.outcome(mc::Hash().i(mode).i(di).s(h.name).h); CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
static void gspo(mc::Ctx& c) {
   auto& v = splits(); const Factors& s = v[c.pick(v.size(), "factors")]; int di = c.pick(5, "dt"), mode = c.pick(4, "direction and mode"); bool late = mode == 1 && c.flag("set after initialisation"); double dt = DTS[di]; if (s.td && dt != 0.5) c.prune();
   std::string what = "GSPO, " + s.name + ", dt " + std::to_string(dt) + (mode & 1 ? ", backward" : "") + (mode & 2 ? ", imaginary" : "") + (late ? ", late" : ""); c.doing("%s", what.c_str()); c.nontrivial();
   if (mode & 2) { double rho = 0; for (auto& m : s.at(2)) rho += norm1(m) * std::abs(dt); if (rho > 8) c.prune(); }  // the exponential overflows the precision of the reference
   QDClock k; k.Dt(dt); k.Steps(L); k.TimeStep(2); OGSPO* U = new OGSPO(); PC p; ((Operator*)U)->Init((ParamContainer&)p); auto ops = s.build(); for (size_t i = 0; i < ops.size(); i++) U->Add(std::string(1, 'A' + i), ops[i]); WaveFunction* w = make(s.wf, vec(s.wf.size(), 1));
   setup(U, k, w, mode, late); if (!U->Valid(w)) c.fail("valid", "%s: the wave function is not accepted", what.c_str()); DELETE_WF(w);
   auto f = s.at(2); steps(c, U, s.wf, strang(f, exponent(!(mode & 1), mode & 2, dt)), mode & 2, 1e-10, std::string("GSPO:") + s.name, what);
   Mat H(f[0].n); for (auto& m : f) H = H + m; double d = diff(measure(U->Hamiltonian(), s.wf), H); if (!(d < 1e-10 * (1 + mx(H.a)))) c.fail("Hamiltonian", "%s: off by %g", what.c_str(), d);
   c.outcome(mc::Hash().i(mode).i(di).s(s.name).h); CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); std::string m = argv[1]; mc::Options o; o.name = "U01"; return mc::Main(argc - 1, argv + 1, m == "gspo" ? gspo : series, o); }
