// small Hamiltonians and propagators, shared by U01-U03
#pragma once
#include "ops.h"
#include <list>
#include "qdlib/OCheby.h"
#include "qdlib/OGSPO.h"
#include "qdlib/OSIL.h"
#include "qdlib/OArnoldi.h"
#include "qdlib/ORK4.h"
#include "qdlib/ODMultistate.h"
namespace u {
using namespace ops;
enum { L = 5 };
inline double E(int seed, int t) { return t < 0 || t >= L ? 0 : field(seed, t); }
struct Ham { std::string name; Wf wf; std::function<Operator*()> build; std::function<Mat(int)> at; bool td = false, herm = true; double dv = 1; };
inline OHermitianMatrix* mat(int n, std::vector<double> v) { OHermitianMatrix* o = new OHermitianMatrix(); ParamContainer p; p.SetValue("size", n); o->Init(p); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*(dMat*)o)(i, j) = v[i * n + j]; return o; }
inline Mat mref(int n, std::vector<double> v) { Mat m(n); for (int i = 0; i < n * n; i++) m.a[i] = v[i]; return m; }
inline OSum* sumOf(std::vector<Operator*> v) { OSum* o = new OSum(); for (auto x : v) o->Add(x); return o; }
inline void files(const Sp& g) { potFile(g, 4, "dip"); potFile(g, 1, "pot"); potFile(g, 2, "pot2"); for (int i = 1; i < 4; i++) laserFile(L, DT, i, "las" + std::to_string(i)); matFile(3, 3, "mdi"); }
inline Operator* dipole(const Sp& g, int las, double scale = 1) { files(g); return init(new OGridDipole(), PC().set("file", "dip").set("laser", "las" + std::to_string(las)).set("scale", scale)); }
inline Operator* raman(const Sp& g) { files(g); return init(new OGridRaman(), PC().set("file", "dip").set("laser0", "las1").set("laser1", "las2")); }
inline Operator* matdip(int las) { matFile(3, 3, "mdi"); laserFile(L, DT, las, "las" + std::to_string(las)); return init(new OMatDipole(), PC().set("file", "mdi").set("laser", "las" + std::to_string(las))); }
inline Operator* kin(const Sp& s) { std::vector<double> m; for (size_t i = 0; i < s.n.size(); i++) m.push_back(1 + 0.5 * i); return init(new OGridNablaSq(), PC().set("mass", ops::list(m))); }
inline Mat kinRef(const Sp& s) { Mat m(s.size()); for (size_t i = 0; i < s.n.size(); i++) m = m + (-0.5 / (1 + 0.5 * i)) * embed(s, i, d2(s, i)); return m; }
inline Mat potRef(const Sp& s, int seed, double shift = 0) { return local(s, [=](int p) { return pv(seed, p) + shift; }); }
inline std::vector<Ham>& hams() {
   static std::vector<Ham> v; if (!v.empty()) return v;
   auto add = [&](const char* n, Wf f, std::function<Operator*()> b, std::function<Mat(int)> a, bool td = false, bool herm = true) { v.push_back({ n, f, b, a, td, herm, vol(f) }); };
   auto fix = [](Mat m) { return [m](int) { return m; }; };
   auto M = [&](const char* n, int k, std::vector<double> a) { add(n, level(k), [=] { return mat(k, a); }, fix(mref(k, a))); };
   M("one level", 1, { 1.25 }); M("two levels", 2, { 0.5, 0.75, 0.75, -1 }); M("two level coupling", 2, { 0, 0.5, 0.5, 0 }); M("zero", 2, { 0, 0, 0, 0 }); M("degenerate", 3, { -1.5, 0, 0, 0, -1.5, 0, 0, 0, -1.5 }); M("diagonal", 3, { 1, 0, 0, 0, 3, 0, 0, 0, -2 });
   M("blocks", 4, { 1, 0.5, 0, 0, 0.5, 1, 0, 0, 0, 0, -2, 1, 0, 0, 1, -2 }); M("deep levels", 3, { -9, 0.25, 0, 0.25, -8, 0.5, 0, 0.5, -8.5 }); M("four levels", 4, { 1, 0.5, -0.25, 2, 0.5, -1, 1, 0, -0.25, 1, 0, 0.75, 2, 0, 0.75, 3 });
   for (Sp s : { grid({ 4 }), grid({ 5 }), grid({ 4, 3 }) }) {
      auto nm = [&s](const char* a) { static std::list<std::string> k; k.push_back(std::string(a) + " on " + s.text()); return k.back().c_str(); };
      Mat T = kinRef(s), V = potRef(s, 1), mu = local(s, [](int p) { return pv(4, p); });
      add(nm("T"), s, [s] { return kin(s); }, fix(T)); add(nm("V"), s, [s]() -> Operator* { return pot(s, 1); }, fix(V)); add(nm("T+V"), s, [s]() -> Operator* { return sumOf({ kin(s), pot(s, 1) }); }, fix(T + V));
      add(nm("T+V below zero"), s, [s]() -> Operator* { return sumOf({ kin(s), pot(s, 1, -12) }); }, fix(T + potRef(s, 1, -12)));
      add(nm("P"), s, [] { return init(new OGridNabla(true), PC()); }, [s](int) { Mat m(s.size()); for (size_t i = 0; i < s.n.size(); i++) m = m + cd(0, -1) * embed(s, i, d1(s, i)); return m; });
      add(nm("T+X"), s, [s]() -> Operator* { return sumOf({ kin(s), init(new OGridPosition(), PC()) }); }, fix(T + local(s, [s](int p) { return xsum(s, -1, p); })));
      add(nm("T-X"), s, [s]() -> Operator* { return sumOf({ kin(s), init(new OGridPosition(), PC().set("scale", -2.).set("dim", 0)) }); }, fix(T + local(s, [s](int p) { return -2 * xsum(s, 0, p); })));
      add(nm("T+V+dipole"), s, [s]() -> Operator* { return sumOf({ kin(s), pot(s, 1), dipole(s, 1) }); }, [=](int t) { return T + V - E(1, t) * mu; }, true);
      add(nm("dipole"), s, [s] { return dipole(s, 2, 1.5); }, [=](int t) { return -1.5 * E(2, t) * mu; }, true);
      add(nm("T+raman"), s, [s]() -> Operator* { return sumOf({ kin(s), raman(s) }); }, [=](int t) { return T - 0.5 * E(1, t) * E(2, t) * mu; }, true);
      add(nm("T+grid sum"), s, [s]() -> Operator* { OGridSum* g = new OGridSum(); g->Add(pot(s, 1)); g->Add(pot(s, 2)); return sumOf({ kin(s), g }); }, fix(T + V + potRef(s, 2)));
      add(nm("T+nip"), s, [s]() -> Operator* { return sumOf({ kin(s), pot(s, 1), init(new OGobbler(), PC().set("rp0", s.lo[0] + 1.5 * s.dx(0)).set("order", 2).set("nip", true).set("gain", 0.75)) }); }, fix(T + V + cd(0, -0.75) * gobbler(s, 0, true, s.lo[0] + 1.5 * s.dx(0), 2)), false, false);
   }
   Sp g = grid({ 4 }), gd = grid({ 4, 3 }); Wf g2(g, 2), g3(g, 3), l2(level(2), 2); Mat T = kinRef(g), V = potRef(g, 1), W = potRef(g, 2, -8), mu = local(g, [](int p) { return pv(4, p); });
   auto ms = [](std::vector<std::tuple<int, int, Operator*>> e, bool herm = true) { OMultistate* o = new OMultistate(); PC p; p.set("unity", false); if (!herm) p.set("nonhermitian", true); o->Init(p); for (auto& x : e) o->Add(std::get<2>(x), std::get<0>(x), std::get<1>(x)); return (Operator*)o; };
   add("two states", g2, [=] { return ms({ { 0, 0, sumOf({ kin(g), pot(g, 1) }) }, { 1, 1, sumOf({ kin(g), pot(g, 2, -8) }) }, { 0, 1, pot(g, 3) } }); }, fix(block(2, 4, { { 0, 0, T + V }, { 1, 1, T + W }, { 0, 1, potRef(g, 3) }, { 1, 0, potRef(g, 3) } })));
   add("two deep states", g2, [=] { return ms({ { 0, 0, pot(g, 1, -9) }, { 1, 1, pot(g, 2, -8) }, { 1, 0, pot(g, 3, -2) } }); }, fix(block(2, 4, { { 0, 0, potRef(g, 1, -9) }, { 1, 1, W }, { 0, 1, potRef(g, 3, -2) }, { 1, 0, potRef(g, 3, -2) } })));
   add("two states coupled by a field", g2, [=] { return ms({ { 0, 0, kin(g) }, { 1, 1, sumOf({ kin(g), pot(g, 1) }) }, { 0, 1, dipole(g, 1) } }); }, [=](int t) { return block(2, 4, { { 0, 0, T }, { 1, 1, T + V }, { 0, 1, -E(1, t) * mu }, { 1, 0, -E(1, t) * mu } }); }, true);
   add("sum of multistates", g2, [=]() -> Operator* { return sumOf({ ms({ { 0, 0, kin(g) }, { 1, 1, kin(g) } }), ms({ { 0, 0, pot(g, 1) }, { 0, 1, pot(g, 3) } }) }); }, fix(block(2, 4, { { 0, 0, T + V }, { 1, 1, T }, { 0, 1, potRef(g, 3) }, { 1, 0, potRef(g, 3) } })));
   add("three states", g3, [=] { return ms({ { 0, 0, kin(g) }, { 1, 1, pot(g, 1) }, { 2, 2, pot(g, 2) }, { 0, 1, pot(g, 3) }, { 2, 1, pot(g, 4, -3) } }); }, fix(block(3, 4, { { 0, 0, T }, { 1, 1, V }, { 2, 2, potRef(g, 2) }, { 0, 1, potRef(g, 3) }, { 1, 0, potRef(g, 3) }, { 2, 1, potRef(g, 4, -3) }, { 1, 2, potRef(g, 4, -3) } })));
   add("states without diagonal", l2, [=] { return ms({ { 0, 1, mat(2, { 1, 0.5, 0.5, -2 }) } }); }, fix(block(2, 2, { { 0, 1, mref(2, { 1, 0.5, 0.5, -2 }) }, { 1, 0, mref(2, { 1, 0.5, 0.5, -2 }) } })));
   for (int b = 0; b < 2; b++) { // non-adiabatic couplings
      Mat n(4); { Mat gg = local(g, [](int p) { return pv(5, p); }), d = embed(g, 0, d1(g, 0)); n = 0.5 * (gg * d + d * gg); }
      add(b ? "NAC" : "NAC below", g2, [=] { potFile(g, 5, "nac"); potFile(g, 5, "nac0"); auto N = [](double s) { return init(new OGridNAC(), PC().set("file", "nac").set("sign", s)); }; Operator* o = ms({ { 0, 0, sumOf({ kin(g), pot(g, 1) }) }, { 1, 1, kin(g) }, { 0, 1, N(b ? 1 : -1) }, { 1, 0, N(b ? -1 : 1) } }); return o; },
          fix(block(2, 4, { { 0, 0, T + V }, { 1, 1, T }, { 0, 1, (b ? 1. : -1.) * n }, { 1, 0, (b ? -1. : 1.) * n } }))); }
   { auto gm = [](double c) { return [c] { return init(new OGridGMat(), PC().set("dims", 2).set("G", ops::list({ 1.5, c, 2.5 }))); }; }; auto ref = [=](double c) { Mat m(gd.size()); Mat a = embed(gd, 0, d1(gd, 0)), b = embed(gd, 1, d1(gd, 1)); return cd(-0.5) * (cd(1.5) * (a * a) + cd(2.5) * (b * b) + cd(c) * (a * b) + cd(c) * (b * a)); };
     add("G-matrix", gd, gm(1.75), fix(ref(1.75))); add("G-matrix negative", gd, gm(-1.75), fix(ref(-1.75)));
     auto gg = [=](int q) { return local(gd, [=](int p) { return q == 1 ? 0.25 * pv(q, p) : 2.5 + 0.5 * pv(q, p); }); };
     add("G-matrix on the grid", gd, [=] { for (int i = 0; i < 2; i++) for (int j = 0; j <= i; j++) { OGridPotential* o = pot(gd, 0); int q = i + j; dVec* x = o; for (int p = 0; p < gd.size(); p++) x->begin(0)[p] = gg(q)(p, p).real(); FileSingle<OGridPotential> f; f.Name("gma_" + std::to_string(i) + std::to_string(j)); f.Suffix(BINARY_O_SUFFIX); f << o; DELETE_OP(o); } return init(new OGridGMat(), PC().set("dims", 2).set("gmat", "gma")); },
         [=](int) { Mat m(gd.size()); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m = m + (-0.5) * (embed(gd, j, d1(gd, j)) * (gg(i + j) * embed(gd, i, d1(gd, i)))); return m; }); }
   add("HOFD", g, [] { return init(new OGridNablaSq(), PC().set("mass", 1.).set("method", "HOFD").set("order", 4).set("pbc", true)); }, [=](int) { return -0.5 * fd(g, 0, 2, 4, 1); });
   add("levels in a field", level(3), []() -> Operator* { return sumOf({ mat(3, { 1, 0.25, 0, 0.25, -1, 0.5, 0, 0.5, 0 }), matdip(2) }); }, [](int t) { return mref(3, { 1, 0.25, 0, 0.25, -1, 0.5, 0, 0.5, 0 }) - E(2, t) * matrixRef(3, 3); }, true);
   add("matrix dipole", level(3), [] { return matdip(1); }, [](int t) { return -E(1, t) * matrixRef(3, 3); }, true);
   return v;
}
// more states than any expansion needs: the order of the expansion follows from its error estimate
inline std::vector<Ham>& wide() {
   static std::vector<Ham> v; if (!v.empty()) return v;
   auto chain = [](int n, double c) { std::vector<double> a(n * n); for (int i = 0; i < n; i++) { a[i * n + i] = 0.5 * pv(3, i); if (i) a[i * n + i - 1] = a[(i - 1) * n + i] = c + 0.1 * (i % 3); } return a; };
   for (double c : { 0.25, 1.0, 2.5 }) { auto a = chain(28, c); static std::list<std::string> k; k.push_back("28 levels coupled by " + std::to_string(c)); v.push_back({ k.back().c_str(), level(28), [=] { return mat(28, a); }, [=](int) { return mref(28, a); }, false, true, vol(level(28)) }); }
   for (Sp s : { grid({ 24 }), grid({ 6, 5 }) }) { Mat H = kinRef(s) + potRef(s, 1); static std::list<std::string> k; k.push_back("T+V on " + s.text()); v.push_back({ k.back().c_str(), s, [s]() -> Operator* { return sumOf({ kin(s), pot(s, 1) }); }, [=](int) { return H; }, false, true, vol(s) }); }
   return v;
}
// split operators: factors, inner one first
struct Factors { std::string name; Wf wf; std::function<std::vector<Operator*>()> build; std::function<std::vector<Mat>(int)> at; bool td = false; };
inline std::vector<Factors>& splits() {
   static std::vector<Factors> v; if (!v.empty()) return v;
   auto add = [&](std::string n, Wf f, std::function<std::vector<Operator*>()> b, std::function<std::vector<Mat>(int)> a, bool td = false) { v.push_back({ n, f, b, a, td }); };
   typedef std::vector<Operator*> O; typedef std::vector<Mat> R;
   for (Sp s : { grid({ 4 }), grid({ 5 }), grid({ 4, 3 }) }) {
      std::string w = " on " + s.text(); Mat T = kinRef(s), V = potRef(s, 1), mu = local(s, [](int p) { return pv(4, p); });
      add("T" + w, s, [s] { return O{ kin(s) }; }, [=](int) { return R{ T }; }); add("T|V" + w, s, [s] { return O{ kin(s), pot(s, 1) }; }, [=](int) { return R{ T, V }; }); add("V|T" + w, s, [s] { return O{ pot(s, 1), kin(s) }; }, [=](int) { return R{ V, T }; });
      add("T|V|V" + w, s, [s] { return O{ kin(s), pot(s, 1), pot(s, 2) }; }, [=](int) { return R{ T, V, potRef(s, 2) }; });
      add("T|V|dipole" + w, s, [s] { return O{ kin(s), pot(s, 1), dipole(s, 1, -2) }; }, [=](int t) { return R{ T, V, 2 * E(1, t) * mu }; }, true);
      add("dipole|T" + w, s, [s] { return O{ dipole(s, 2), kin(s) }; }, [=](int t) { return R{ -E(2, t) * mu, T }; }, true);
      add("T|raman" + w, s, [s] { return O{ kin(s), raman(s) }; }, [=](int t) { return R{ T, -0.5 * E(1, t) * E(2, t) * mu }; }, true);
      add("T|grid sum" + w, s, [s] { OGridSum* g = new OGridSum(); g->Add(pot(s, 1)); g->Add(dynamic_cast<OGridSystem*>(dipole(s, 1))); return O{ kin(s), g }; }, [=](int t) { return R{ T, V - E(1, t) * mu }; }, true);
      add("T|X" + w, s, [s] { return O{ kin(s), init(new OGridPosition(), PC().set("scale", 1.5)) }; }, [=](int) { return R{ T, local(s, [s](int p) { return 1.5 * xsum(s, -1, p); }) }; });
   }
   { // matrices of operators, diagonalized for every point
      typedef std::vector<std::tuple<int, int, Operator*>> El; typedef std::vector<std::tuple<int, int, Mat>> Er;
      auto dm = [](El e, bool unity = true, int states = 0) { ODMultistate* o = new ODMultistate(); PC p; if (!unity) p.set("unity", false); if (states) p.set("states", states); ((Operator*)(OMultistate*)o)->Init((ParamContainer&)p); for (auto& x : e) o->Add(std::get<2>(x), std::get<0>(x), std::get<1>(x)); return (Operator*)(OMultistate*)o; };
      for (Sp s : { grid({ 4 }), grid({ 4, 3 }) }) {
         std::string w = " on " + s.text(); Mat T = kinRef(s), V = potRef(s, 1), W = potRef(s, 2, -8), C = potRef(s, 3), mu = local(s, [](int p) { return pv(4, p); }); int n = s.size();
         auto kins = [=](int k) { El e; for (int i = 0; i < k; i++) e.push_back({ i, i, kin(s) }); return dm(e); }; auto kr = [=](int k) { Er e; for (int i = 0; i < k; i++) e.push_back({ i, i, T }); return block(k, n, e); };
         add("T|V of two states" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 0, 0, pot(s, 1) }, { 1, 1, pot(s, 2, -8) } }) }; }, [=](int) { return R{ kr(2), block(2, n, { { 0, 0, V }, { 1, 1, W } }) }; });
         add("T|coupled states" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 0, 0, pot(s, 1) }, { 1, 1, pot(s, 2, -8) }, { 1, 0, pot(s, 3) } }) }; }, [=](int) { return R{ kr(2), block(2, n, { { 0, 0, V }, { 1, 1, W }, { 0, 1, C }, { 1, 0, C } }) }; });
         add("T|coupling" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 0, 1, pot(s, 3) } }, false) }; }, [=](int) { return R{ kr(2), block(2, n, { { 0, 1, C }, { 1, 0, C } }) }; });
         add("T|V|field between the states" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 0, 0, pot(s, 1) }, { 1, 1, pot(s, 2, -8) } }), dm({ { 1, 0, dipole(s, 1) } }, false) }; }, [=](int t) { return R{ kr(2), block(2, n, { { 0, 0, V }, { 1, 1, W } }), block(2, n, { { 0, 1, -E(1, t) * mu }, { 1, 0, -E(1, t) * mu } }) }; }, true);
         add("T|V and field of two states" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 0, 0, pot(s, 1) }, { 1, 1, pot(s, 2, -8) }, { 1, 0, dipole(s, 2) } }) }; }, [=](int t) { return R{ kr(2), block(2, n, { { 0, 0, V }, { 1, 1, W }, { 0, 1, -E(2, t) * mu }, { 1, 0, -E(2, t) * mu } }) }; }, true);
         add("T|three coupled states" + w, Wf(s, 3), [=] { return O{ kins(3), dm({ { 0, 0, pot(s, 1) }, { 1, 1, pot(s, 2, -8) }, { 2, 2, pot(s, 4) }, { 1, 0, pot(s, 3) }, { 1, 2, pot(s, 2) } }) }; }, [=](int) { return R{ kr(3), block(3, n, { { 0, 0, V }, { 1, 1, W }, { 2, 2, potRef(s, 4) }, { 0, 1, C }, { 1, 0, C }, { 1, 2, potRef(s, 2) }, { 2, 1, potRef(s, 2) } }) }; });
         add("T|V of one state" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 1, 1, pot(s, 1) } }, false) }; }, [=](int) { return R{ kr(2), block(2, n, { { 1, 1, V } }) }; });
         add("T|V of one state and unity" + w, Wf(s, 2), [=] { return O{ kins(2), dm({ { 1, 1, pot(s, 1) } }) }; }, [=](int) { return R{ kr(2), block(2, n, { { 0, 0, local(s, [](int) { return 1.; }) }, { 1, 1, V } }) }; });
         add("T of one state|coupled states" + w, Wf(s, 2), [=] { return O{ dm({ { 0, 0, kin(s) } }, false, 2), dm({ { 0, 0, pot(s, 1) }, { 1, 1, pot(s, 2, -8) }, { 1, 0, pot(s, 3) } }) }; }, [=](int) { return R{ block(2, n, { { 0, 0, T } }), block(2, n, { { 0, 0, V }, { 1, 1, W }, { 0, 1, C }, { 1, 0, C } }) }; });
         add("T and V of different states|coupling" + w, Wf(s, 2), [=] { return O{ dm({ { 0, 0, kin(s) }, { 1, 1, pot(s, 1) } }), dm({ { 1, 0, pot(s, 3) } }, false) }; }, [=](int) { return R{ block(2, n, { { 0, 0, T }, { 1, 1, V } }), block(2, n, { { 0, 1, C }, { 1, 0, C } }) }; });
      }
   }
   std::vector<double> a = { 1, 0.25, 0, 0.25, -1, 0.5, 0, 0.5, 0 }, d = { 2, 0, 0, 0, 1, 0, 0, 0, -1 };
   add("levels", level(3), [=] { return O{ mat(3, a) }; }, [=](int) { return R{ mref(3, a) }; }); add("levels|levels", level(3), [=] { return O{ mat(3, a), mat(3, d) }; }, [=](int) { return R{ mref(3, a), mref(3, d) }; });
   add("levels|dipole", level(3), [=] { return O{ mat(3, a), matdip(2) }; }, [=](int t) { return R{ mref(3, a), -E(2, t) * matrixRef(3, 3) }; }, true);
   add("dipole|levels|dipole", level(3), [=] { return O{ matdip(1), mat(3, a), matdip(2) }; }, [=](int t) { return R{ -E(1, t) * matrixRef(3, 3), mref(3, a), -E(2, t) * matrixRef(3, 3) }; }, true);
   return v;
}
inline Mat strang(const std::vector<Mat>& f, cd c) { Mat u = expm(c * f[0]); for (size_t i = 1; i < f.size(); i++) { Mat e = expm(0.5 * c * f[i]); u = e * u * e; } return u; }
inline Mat rk4(const Mat& h, cd c) { Mat r(h.n, 1), t(h.n, 1); for (int k = 1; k < 5; k++) { t = (1. / k) * c * (t * h); r = r + t; } return r; }
// propagators
struct Prop { std::string name; std::function<OPropagator*()> make; PC p; enum { CHEBY, SIL, ARNOLDI, RK4 } kind; int order = 0; };
inline std::vector<Prop>& props() {
   static std::vector<Prop> v; if (!v.empty()) return v;
   v.push_back({ "Cheby", [] { return new OCheby(); }, PC(), Prop::CHEBY }); v.push_back({ "Cheby prec", [] { return new OCheby(); }, PC().set("prec", 1e-30), Prop::CHEBY }); v.push_back({ "Cheby order", [] { return new OCheby(); }, PC().set("prec", 1e-30).set("order", 150), Prop::CHEBY });
   v.push_back({ "SIL", [] { return new OSIL(); }, PC(), Prop::SIL }); v.push_back({ "SIL order", [] { return new OSIL(); }, PC().set("order", 6), Prop::SIL, 6 });
   v.push_back({ "Arnoldi", [] { return new OArnoldi(); }, PC(), Prop::ARNOLDI }); v.push_back({ "Arnoldi order", [] { return new OArnoldi(); }, PC().set("order", 6), Prop::ARNOLDI, 6 });
   v.push_back({ "RK4", [] { return new ORK4(); }, PC(), Prop::RK4 });
   return v;
}
inline cd exponent(bool fwd, bool im, double dt) { return im ? cd(fwd ? dt : -dt, 0) : cd(0, fwd ? -dt : dt); }
}
