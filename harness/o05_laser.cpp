// O05: laser couplings over histories of clock movements
#include "ops.h"
using namespace ops;
enum { L = 5 };                                              // pulse length; the clock also visits the steps around it
static double E(int seed, int t) { return t < 0 || t >= L ? 0 : field(seed, t); }
static double gauss(int t, bool two) {                       // generated pulses, as documented
   auto g = [&](double A, double t0, double s, double w, double p, double b) { double x = t * DT - t0; return A * exp(-x * x / 2 / s / s) * cos(w * x + b * x * x + p); };
   if (t < 0 || t >= L) return 0; double r = g(1.5, 0.75, 0.9, 1.1, 0.3, 0.2); if (two) r += g(-0.5, 1.25, 0.4, 2.2, -0.7, 0.1); return r;
}
struct Sys { std::string name; Wf wf; std::function<Operator*()> build; std::function<Mat(int)> at; bool parent = false; Mat par; };
static PC gen(const char* type) { PC p; p.set("gen", type).set("Emax", 1.5).set("t0", 0.75).set("sigma", 0.9).set("w0", 1.1).set("phi", 0.3).set("b", 0.2).set("Emax2", -0.5).set("t02", 1.25).set("sigma2", 0.4).set("w02", 2.2).set("phi2", -0.7).set("b2", 0.1); return p; }
static bool written = false;
static std::vector<Sys>& systems() {
   static std::vector<Sys> v; if (!v.empty()) return v;
   static Sp g = grid({ 3 }); Wf w(g), w2(g, 2), lv = level(3);
   auto files = [] { if (written) return; written = true; potFile(g, 4, "dip"); potFile(g, 1, "pot"); for (int i = 1; i < 4; i++) laserFile(L, DT, i, "las" + std::to_string(i)); matFile(3, 3, "mdi"); laserFile(L + 3, DT, 1, "long"); };
   auto loc = [](std::function<double(int)> f) { return local(g, [f](int p) { return f(p); }); };
   auto dip = [files](PC p, const char* las = "las1") { files(); p.set("file", "dip"); if (!p.isPresent("gen")) p.set("laser", las); return init(new OGridDipole(), p); };
   auto mu = [loc](double s) { return loc([s](int p) { return s * pv(4, p); }); };
   auto D = [mu](int t) { return -E(1, t) * mu(1); }; auto V = [loc](double f = 1) { return loc([f](int p) { return f * pv(1, p); }); };
   auto T = [] { Sp s = g; return -0.5 * embed(s, 0, d2(s, 0)); }; auto tk = [] { return init(new OGridNablaSq(), PC().set("mass", 1.)); };
   auto add = [&](const char* n, Wf f, std::function<Operator*()> b, std::function<Mat(int)> a, bool par = false, Mat pm = Mat()) { v.push_back({ n, f, b, a, par, pm }); };
   add("dipole", w, [=] { return dip(PC()); }, D, true, mu(1));
   add("scaled dipole", w, [=] { return dip(PC().set("scale", -0.5)); }, [=](int t) { return -0.5 * D(t); }, true, mu(-0.5));
   add("long pulse", w, [=] { return dip(PC(), "long"); }, [=](int t) { return -(t < 0 || t >= L + 3 ? 0 : field(1, t)) * mu(1); });
   add("gauss", w, [=] { return dip(gen("gauss")); }, [=](int t) { return -gauss(t, false) * mu(1); });
   add("gauss2", w, [=] { return dip(gen("gauss2")); }, [=](int t) { return -gauss(t, true) * mu(1); });
   add("raman", w, [=] { files(); return init(new OGridRaman(), PC().set("file", "dip").set("laser0", "las1").set("laser1", "las2")); }, [=](int t) { return -0.5 * E(1, t) * E(2, t) * mu(1); }, true, mu(1));
   add("raman one field", w, [=] { files(); return init(new OGridRaman(), PC().set("file", "dip").set("laser", "las3")); }, [=](int t) { return -0.5 * E(3, t) * E(3, t) * mu(1); });
   add("raman mixed", w, [=] { files(); return init(new OGridRaman(), PC().set("file", "dip").set("laser1", "las2").set("laser", "las3").set("scale", 2.)); }, [=](int t) { return -1. * E(3, t) * E(2, t) * mu(1); });
   add("matrix dipole", lv, [=] { files(); return init(new OMatDipole(), PC().set("file", "mdi").set("laser", "las2")); }, [](int t) { return -E(2, t) * matrixRef(3, 3); });
   add("scaled matrix dipole", lv, [=] { files(); return init(new OMatDipole(), PC().set("file", "mdi").set("laser", "las2").set("scale", -1.5)); }, [](int t) { return 1.5 * E(2, t) * matrixRef(3, 3); });
   add("sum", w, [=] { OSum* o = new OSum(); o->Add(tk()); o->Add(dip(PC())); return o; }, [=](int t) { return T() + D(t); });
   add("sum of two pulses", w, [=] { OSum* o = new OSum(); o->Add(dip(PC())); o->Add(dip(PC(), "las2")); return o; }, [=](int t) { return -(E(1, t) + E(2, t)) * mu(1); });
   add("sum with raman", w, [=] { OSum* o = new OSum(); o->Add(pot(g, 1)); files(); o->Add(init(new OGridRaman(), PC().set("file", "dip").set("laser0", "las1").set("laser1", "las2"))); return o; }, [=](int t) { return V() + (-0.5 * E(1, t) * E(2, t)) * mu(1); });
   add("nested sums", w, [=] { OSum *o = new OSum(), *i = new OSum(); i->Add(pot(g, 1)); i->Add(dip(PC())); o->Add(tk()); o->Add(i); return o; }, [=](int t) { return T() + V() + D(t); });
   add("product", w, [=] { OProduct* o = new OProduct(); o->Add(dip(PC())); o->Add(tk()); return o; }, [=](int t) { return D(t) * T(); });
   add("grid sum", w, [=] { OGridSum* o = new OGridSum(); o->Add(pot(g, 1)); o->Add(dip(PC())); return o; }, [=](int t) { return V() + D(t); });
   add("grid sum in sum", w, [=] { OGridSum* o = new OGridSum(); o->Add(dip(PC(), "las2")); o->Add(pot(g, 1)); OSum* s = new OSum(); s->Add(tk()); s->Add(o); return s; }, [=](int t) { return T() + V() - E(2, t) * mu(1); });
   add("multistate", w2, [=] { OMultistate* o = new OMultistate(); PC p; o->Init(p); o->Add(tk(), 0, 0); o->Add(pot(g, 1), 1, 1); o->Add(dip(PC()), 0, 1); return o; }, [=](int t) { return block(2, 3, { { 0, 0, T() }, { 1, 1, V() }, { 0, 1, D(t) }, { 1, 0, D(t) } }); });
   add("multistate lower", w2, [=] { OMultistate* o = new OMultistate(); PC p; p.set("unity", false); o->Init(p); o->Add(dip(PC(), "las2"), 0, 0); o->Add(dip(PC()), 1, 0); return o; }, [=](int t) { return block(2, 3, { { 0, 0, -E(2, t) * mu(1) }, { 0, 1, D(t) }, { 1, 0, D(t) } }); });
   add("multistate of sums", w2, [=] { OMultistate* o = new OMultistate(); PC p; p.set("unity", false); o->Init(p); OSum* s = new OSum(); s->Add(tk()); s->Add(dip(PC())); o->Add(s, 1, 1); OSum* u = new OSum(); u->Add(dip(PC(), "las3")); u->Add(pot(g, 1)); o->Add(u, 0, 1); return o; }, [=](int t) { Mat c = V() - E(3, t) * mu(1); return block(2, 3, { { 1, 1, T() + D(t) }, { 0, 1, c }, { 1, 0, c } }); });
   return v;
}
enum Mv { STAY, FWD, BACK, BEGIN, END, OUTSIDE, MID, OTHER, NMV };
enum Form { APPLY, INPLACE, ADD, ELEM, EXPEC, PARENT, INIT, UPDATE, NFORM };
static const char* MN[] = { "", "++", "--", "Begin", "End", "past the end", "step 2", "other clock" };
static const char* FN[] = { "Apply", "Apply in place", "ApplyAdd", "MatrixElement", "Expec", "ApplyParent", "Init", "UpdateTime" };
struct Rig {
   mc::Ctx& c; const Sys& s; Operator* o; WaveFunction *a, *b; QDClock k[2]; int cur = 0, t = 0, n; std::string hist;
   Rig(mc::Ctx& c, const Sys& s) : c(c), s(s) { n = s.wf.size(); o = s.build(); if (!o->isTimeDep()) c.fail("flag:" + s.name, "%s is not time dependent", s.name.c_str()); for (auto& q : k) { q.Dt(DT); q.Steps(L); } k[1].TimeStep(3); o->Clock(&k[0]); a = make(s.wf, vec(n, 1)); b = make(s.wf, vec(n, 2)); o->Init(a); }
   ~Rig() { DELETE_WF(a); DELETE_WF(b); }
   void bad(const char* what, double got, double want) { c.fail(s.name + " " + what, "%s, step %d, after%s: %s %.12g instead of %.12g", s.name.c_str(), k[cur].TimeStep(), hist.c_str(), what, got, want); }
   void eq(WaveFunction* w, const CV& want, const char* what) { CV g = get(w, s.wf); double tol = 1e-11 * (10 + mx(want)); for (int i = 0; i < n; i++) { if (!(std::abs(g[i].real() - want[i].real()) <= tol)) bad(what, g[i].real(), want[i].real()); if (!(std::abs(g[i].imag() - want[i].imag()) <= tol)) bad(what, g[i].imag(), want[i].imag()); } }
   void move(int m) {
      QDClock& q = k[cur]; if (m != OTHER && hist.size() > 600) hist = " ..." + hist.substr(300);
      switch (m) { case FWD: ++q; break; case BACK: --q; break; case BEGIN: q.Begin(); break; case END: q.End(); break; case OUTSIDE: q.TimeStep(L); break; case MID: q.TimeStep(2); break; case OTHER: cur = !cur; o->Clock(&k[cur]); break; }
      if (k[cur].TimeStep() > L + 3) k[cur].TimeStep(0); if (k[cur].TimeStep() < -2) k[cur].TimeStep(L - 1);
      if (m) hist += std::string(" ") + MN[m];
   }
   void use(int f) {
      Mat m = s.at(k[cur].TimeStep()); CV x = vec(n, 3 + t % 5), y = vec(n, 9 + t % 4), r = m * x; t++; put(a, s.wf, x); put(b, s.wf, y); hist += std::string(" ") + FN[f]; c.step();
      switch (f) {
         case APPLY: o->Apply(b, a); eq(b, r, "result"); eq(a, x, "source"); break;
         case INPLACE: o->Apply(a); eq(a, r, "result in place"); break;
         case ADD: o->ApplyAdd(b, a); for (int i = 0; i < n; i++) r[i] += y[i]; eq(b, r, "sum"); break;
         case ELEM: { dcomplex e = o->MatrixElement(b, a); cd w = vol(s.wf) * dot(y, r); if (!(std::abs(cd(e._real, e._imag) - w) < 1e-10)) bad("matrix element", e._real, w.real()); break; }
         case EXPEC: { double e = o->Expec(a), w = vol(s.wf) * dot(x, r).real(); if (!(std::abs(e - w) < 1e-10)) bad("expectation value", e, w); break; }
         case PARENT: if (s.parent) { o->ApplyParent(b, a); eq(b, s.par * x, "field free result"); } break;
         case INIT: o->Init(b); break;
         case UPDATE: o->UpdateTime(); break;
      }
   }
};
static std::vector<int> debruijn(int k, int n) { std::vector<int> a(k * n), s; std::function<void(int, int)> db = [&](int t, int p) { if (t > n) { if (n % p == 0) for (int i = 1; i <= p; i++) s.push_back(a[i]); } else { a[t] = a[t - p]; db(t + 1, p); for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; db(t + 1, t); } } }; db(1, 1); for (int i = 0; i < n - 1; i++) s.push_back(s[i]); return s; }
static void run(mc::Ctx& c) {
   written = false;
   auto& v = systems(); int i = c.pick(v.size(), "system"); const Sys& s = v[i]; c.doing("%s", s.name.c_str()); c.nontrivial();
   int what = c.big(1 + NMV * NFORM, "first"); c.outcome(mc::Hash().i(i).i(what).h);
   if (what == 0) { Rig r(c, s); for (int l : debruijn(NMV * NFORM, c.bound(2, 3))) { r.move(l / NFORM); r.use(l % NFORM); } }      // all windows of (movement, use)
   else { // all short histories of a new operator: the first use, then movements and uses
      for (int l = 0; l < NMV * NFORM; l++) { Rig r(c, s); r.move((what - 1) / NFORM); r.use((what - 1) % NFORM); r.move(l / NFORM); r.use(l % NFORM); for (int m = 0; m < c.bound(1, NMV); m++) { r.move(c.thorough() ? m : FWD); r.use(APPLY); } }
   }
   CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
// fields that do not fit the clock are refused
static void fit(mc::Ctx& c) {
   int kind = c.pick(3, "operator"), steps = c.pick(8, "steps"), dt = c.pick(3, "dt"); static const double DTS[] = { DT, DT / 2, 2 * DT }; Sp g = grid({ 3 }); potFile(g, 4, "dip"); laserFile(L, DT, 1, "las"); matFile(3, 3, "mdi"); c.nontrivial(); c.step();
   Operator* o = kind == 2 ? (Operator*)init(new OMatDipole(), PC().set("file", "mdi").set("laser", "las")) : kind ? (Operator*)init(new OGridRaman(), PC().set("file", "dip").set("laser", "las")) : (Operator*)init(new OGridDipole(), PC().set("file", "dip").set("laser", "las"));
   QDClock k; k.Dt(DTS[dt]); k.Steps(steps); bool ok = dt == 0 && steps <= L, did = true; try { o->Clock(&k); } catch (Exception& e) { did = false; } if (ok != did) c.fail("fit", "a field of %d steps of %g %s for a clock of %d steps of %g", (int)L, DT, did ? "accepted" : "refused", steps, DTS[dt]); c.outcome(did); DELETE_OP(o);
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "O05"; bool f = argc > 1 && !strcmp(argv[1], "--fit"); if (f) argc--, argv++; return mc::Main(argc, argv, f ? fit : run, o); }
