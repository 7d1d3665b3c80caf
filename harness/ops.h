// operator zoo: small instances of every operator together with the matrix that defines each of them
#pragma once
#include "objs.h"
#include "qdlib/OScalar.h"
#include "qdlib/OProjection.h"
#include "qdlib/OGridPosition.h"
#include "qdlib/OGridNabla.h"
#include "qdlib/OGridNablaSq.h"
#include "qdlib/OGridHOFD.h"
#include "qdlib/OGridGMat.h"
#include "qdlib/OGridKick.h"
#include "qdlib/OGobbler.h"
#include "qdlib/OGridNAC.h"
#include "qdlib/OGridPML.h"
#include "qdlib/OGridDipole.h"
#include "qdlib/OGridRaman.h"
#include "qdlib/OGridSum.h"
#include "qdlib/OMatDipole.h"
#include "qdlib/OMultistate.h"
#include "qdlib/OSum.h"
#include "qdlib/OProduct.h"
#include "qdlib/OFlux.h"
#include "qdlib/ONormalize.h"
#include "tools/QDClock.h"
#include <complex>
#include <memory>
namespace ops {
using namespace QDLIB;
typedef std::complex<double> cd;
typedef std::vector<cd> CV;
// dense matrices -------------------------------------------------------------------------------------------------------
struct Mat {
   int n = 0; std::vector<cd> a;
   Mat() {} explicit Mat(int n, cd diag = 0) : n(n), a((size_t)n * n) { if (diag != 0.) for (int i = 0; i < n; i++) (*this)(i, i) = diag; }
   cd& operator()(int i, int j) { return a[(size_t)i * n + j]; }
   const cd& operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
inline Mat operator*(const Mat& x, const Mat& y) { Mat r(x.n); for (int i = 0; i < x.n; i++) for (int k = 0; k < x.n; k++) if (x(i, k) != 0.) for (int j = 0; j < x.n; j++) r(i, j) += x(i, k) * y(k, j); return r; }
inline Mat operator+(Mat x, const Mat& y) { for (size_t i = 0; i < x.a.size(); i++) x.a[i] += y.a[i]; return x; }
inline Mat operator-(Mat x, const Mat& y) { for (size_t i = 0; i < x.a.size(); i++) x.a[i] -= y.a[i]; return x; }
inline Mat operator*(cd s, Mat x) { for (cd& v : x.a) v *= s; return x; }
inline CV operator*(const Mat& x, const CV& v) { CV r(x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) r[i] += x(i, j) * v[j]; return r; }
inline Mat adj(const Mat& x) { Mat r(x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) r(i, j) = std::conj(x(j, i)); return r; }
inline double mx(const std::vector<cd>& v) { double m = 0; for (const cd& x : v) m = std::max(m, std::isnan(std::abs(x)) ? 1e300 : std::abs(x)); return m; }
inline double norm1(const Mat& x) { double m = 0; for (int j = 0; j < x.n; j++) { double s = 0; for (int i = 0; i < x.n; i++) s += std::abs(x(i, j)); m = std::max(m, s); } return m; }
inline Mat expm(Mat x) { int s = 0; double nn = norm1(x); while (nn > 0.25) { nn /= 2; s++; } x = std::pow(0.5, s) * x; Mat r(x.n, 1), t(x.n, 1); for (int k = 1; k < 24; k++) { t = (1.0 / k) * (t * x); r = r + t; } while (s--) r = r * r; return r; }
inline double diff(const Mat& x, const Mat& y) { if (x.n != y.n) return 1e300; return mx((x - y).a); }
inline Mat diag(const CV& v) { Mat r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i, i) = v[i]; return r; }
inline cd dot(const CV& a, const CV& b) { cd s = 0; for (size_t i = 0; i < a.size(); i++) s += std::conj(a[i]) * b[i]; return s; }
// spaces ---------------------------------------------------------------------------------------------------------------
struct Sp {           // one state: a level system or a grid
   int level = 0; std::vector<int> n; std::vector<double> lo, hi;
   int size() const { if (level) return level; int t = 1; for (int x : n) t *= x; return t; }
   double dx(int d) const { return (hi[d] - lo[d]) / (n[d] - 1); }
   double x(int d, int i) const { return lo[d] + i * dx(d); }
   int coord(int p, int d) const { for (int i = 0; i < d; i++) p /= n[i]; return p % n[d]; }
   std::string text() const { if (level) return "level" + std::to_string(level); std::string s = "grid"; for (int x : n) s += (s == "grid" ? "" : "x") + std::to_string(x); return s; }
};
struct Wf { std::vector<Sp> s; bool multi = false; Wf() {} Wf(const Sp& x) : s{ x } {} Wf(const Sp& x, int states) : s(states, x), multi(true) {} int size() const { int t = 0; for (auto& x : s) t += x.size(); return t; } std::string text() const { return multi ? std::to_string(s.size()) + "*" + s[0].text() : s[0].text(); } };
inline double vol(const Wf& f) { double v = 1; if (!f.s[0].level) for (size_t d = 0; d < f.s[0].n.size(); d++) v *= f.s[0].dx(d); return v; }
inline Sp level(int n) { Sp s; s.level = n; return s; }
inline Sp grid(std::vector<int> n) { static const double LO[] = { -1.5, 0.25, -2, 1 }, DX[] = { 0.5, 0.75, 1.25, 0.625 }; Sp s; s.n = n; for (size_t i = 0; i < n.size(); i++) { s.lo.push_back(LO[i]); s.hi.push_back(LO[i] + DX[i] * (n[i] - 1)); } return s; }
inline ParamContainer gp(const Sp& s) { ParamContainer p; p.SetValue("dims", (int)s.n.size()); for (size_t i = 0; i < s.n.size(); i++) { auto t = std::to_string(i); p.SetValue("N" + t, s.n[i]); p.SetValue("xmin" + t, s.lo[i]); p.SetValue("xmax" + t, s.hi[i]); } return p; }
inline WaveFunction* blank(const Sp& s) {
   if (s.level) { WFLevel* w = new WFLevel(); ParamContainer p; p.SetValue("size", s.level); w->Init(p); return w; }
   WFGridCartesian* w = new WFGridCartesian(); ParamContainer p = gp(s); w->Init(p); return w;
}
inline void put(WaveFunction* w, const Wf& f, const CV& v) {
   size_t k = 0;
   for (size_t s = 0; s < f.s.size(); s++) { WaveFunction* t = f.multi ? ((WFMultistate*)w)->State(s) : w; dcomplex* b = t->begin(0); for (int i = 0; i < f.s[s].size(); i++, k++) { b[i]._real = v[k].real(); b[i]._imag = v[k].imag(); } }
}
inline CV get(WaveFunction* w, const Wf& f) {
   CV v; for (size_t s = 0; s < f.s.size(); s++) { WaveFunction* t = f.multi ? ((WFMultistate*)w)->State(s) : w; dcomplex* b = t->begin(0); for (int i = 0; i < f.s[s].size(); i++) v.push_back(cd(b[i]._real, b[i]._imag)); } return v;
}
inline WaveFunction* make(const Wf& f, const CV& v) {
   WaveFunction* w;
   if (f.multi) { WFMultistate* m = new WFMultistate(); for (size_t i = 0; i < f.s.size(); i++) { WaveFunction* x = blank(f.s[i]); *x = dcomplex(0, 0); m->Add(x, i); } m->Init((int)f.s.size()); w = m; } else w = blank(f.s[0]);
   put(w, f, v); return w;
}
inline bool kspace(WaveFunction* w) { return w->IsKspace(); }
inline CV vec(int n, int seed) { CV v(n); for (int i = 0; i < n; i++) v[i] = cd(objs::value(4, seed * 37 + 3 * i) / 8 + 0.1, objs::value(4, seed * 53 + 5 * i + 2) / 8); return v; }
inline CV unit(int n, int k) { CV v(n); v[k] = 1; return v; }
// one dimensional building blocks and their embedding --------------------------------------------------------------------
inline double kval(const Sp& s, int d, int i) { int N = s.n[d]; double dk = 2 * M_PI / (s.dx(d) * N); int m = N % 2 ? (i <= N / 2 ? i : i - N) : (i < N / 2 ? i : i - N); return m * dk; }
template <class F> inline Mat fourier(const Sp& s, int d, F f) { int N = s.n[d]; Mat m(N); for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) for (int k = 0; k < N; k++) m(x, y) += f(kval(s, d, k)) * std::polar(1.0 / N, 2 * M_PI * k * (x - y) / N); return m; }
inline Mat d1(const Sp& s, int d) { return fourier(s, d, [](double k) { return cd(0, k); }); }
inline Mat d2(const Sp& s, int d) { return fourier(s, d, [](double k) { return cd(-k * k, 0); }); }
inline double fdc(int deriv, int order, int j) { // exact central difference coefficients
   int m = order / 2; if (deriv == 2 && j == 0) { double t = 0; for (int i = m; i; i--) t += 1.0 / i / i; return -2 * t; } if (j == 0) return 0;
   long double r = 1; for (int i = 1; i <= m; i++) { r *= i; if (i <= m - j) r /= i; } for (int i = 1; i <= m; i++) r *= i; for (int i = 1; i <= m + j; i++) r /= i; // m!^2/((m-j)!(m+j)!)
   r *= (j % 2 ? 1 : -1); return deriv == 1 ? r / j : 2 * r / j / j;
}
inline Mat fd(const Sp& s, int d, int deriv, int order, int pbc) { // pbc: 0 none, 1 periodic, 2 periodic at the lower edge only (a known finding)
   int N = s.n[d]; Mat m(N); double h = std::pow(s.dx(d), deriv);
   for (int i = 0; i < N; i++) for (int j = -order / 2; j <= order / 2; j++) { int k = i + j; if (k < 0 || k >= N) { if (!pbc || (pbc == 2 && k >= N)) continue; k = (k + N) % N; } m(i, k) += fdc(deriv, order, std::abs(j)) * (deriv == 1 && j < 0 ? -1 : 1) / h; }
   return m;
}
inline Mat embed(const Sp& s, int d, const Mat& m) {
   int N = s.size(); Mat r(N); int low = 1; for (int i = 0; i < d; i++) low *= s.n[i];
   for (int p = 0; p < N; p++) { int c = s.coord(p, d); for (int x = 0; x < s.n[d]; x++) r(p, p + (x - c) * low) = m(c, x); }
   return r;
}
template <class F> inline Mat local(const Sp& s, F f) { CV v(s.size()); for (int p = 0; p < s.size(); p++) v[p] = f(p); return diag(v); }
inline double xsum(const Sp& s, int dim, int p) { double t = 0; for (int d = 0; d < (int)s.n.size(); d++) if (dim < 0 || d == dim) t += s.x(d, s.coord(p, d)); return t; }
// files used by operators ------------------------------------------------------------------------------------------------
inline double pv(int seed, int k) { return ((k * 7 + seed * 5 + k * k) % 13) / 4.0 - 1; }
inline OGridPotential* pot(const Sp& s, int seed, double shift = 0) { OGridPotential* o = new OGridPotential(); ParamContainer p = gp(s); o->Init(p); dVec* v = o; for (int i = 0; i < s.size(); i++) v->begin(0)[i] = pv(seed, i) + shift; return o; }
inline void potFile(const Sp& s, int seed, const std::string& name, double shift = 0) { OGridPotential* o = pot(s, seed, shift); FileSingle<OGridPotential> f; f.Name(name); f.Suffix(BINARY_O_SUFFIX); f << o; DELETE_OP(o); }
inline double mv(int seed, int i, int j) { if (i > j) std::swap(i, j); return pv(seed, i * 5 + j * 3 + 1); }
inline OHermitianMatrix* matrix(int n, int seed) { OHermitianMatrix* o = new OHermitianMatrix(); ParamContainer p; p.SetValue("size", n); o->Init(p); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*(dMat*)o)(i, j) = mv(seed, i, j); return o; }
inline Mat matrixRef(int n, int seed) { Mat m(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = mv(seed, i, j); return m; }
inline void matFile(int n, int seed, const std::string& name) { OHermitianMatrix* o = matrix(n, seed); FileSingle<OHermitianMatrix> f; f.Name(name); f.Suffix(BINARY_O_SUFFIX); f << o; DELETE_OP(o); }
inline double field(int seed, int t) { return (((t + 1) * 5 + seed * 3) % 7) / 4.0 - 0.6; }
inline void laserFile(int nt, double dt, int seed, const std::string& name) { Laser l; ParamContainer p; p.SetValue("dt", dt); p.SetValue("Nt", nt); l.Init(p); for (int i = 0; i < nt; i++) l.begin(0)[i] = field(seed, i); FileSingle<Laser> f; f.Name(name); f.Suffix(BINARY_O_SUFFIX); f << &l; }
inline void wfFiles(const Wf& f, int num, const std::string& name) { FileWF o; o.Name(name); o.Suffix(BINARY_WF_SUFFIX); o.ActivateSequence(); for (int i = 0; i < num; i++) { WaveFunction* w = make(f, vec(f.size(), 40 + i)); o << w; DELETE_WF(w); } }
struct PC : ParamContainer { template <class T> PC& set(const char* k, T v) { SetValue(k, v); return *this; } };
template <class T> inline T* init(T* o, PC p) { o->Init(p); return o; }
template <class T> inline T* init(T* o, ParamContainer p) { o->Init(p); return o; }
// cases ------------------------------------------------------------------------------------------------------------------
enum { LASER = 1, NOTEXACT = 2 };
struct Case { std::string name; Wf wf; std::function<Operator*()> build; std::function<Mat()> def; int attr = 0; std::function<Mat()> alt; /* what a known finding makes of it */ };
enum { NT = 4 }; const double DT = 0.5;
inline QDClock* clockOf(Operator* = 0) { static QDClock* k = 0; if (!k) { k = new QDClock(); k->Dt(DT); k->Steps(NT); } return k; }
// an operator that is ready for use on wave functions of the case
inline Operator* ready(const Case& k) { Operator* o = k.build(); clockOf()->TimeStep(2); o->Clock(clockOf()); WaveFunction* w = make(k.wf, vec(k.wf.size(), 1)); o->Init(w); DELETE_WF(w); return o; }
inline Mat measure(Operator* o, const Wf& f) {
   int n = f.size(); Mat m(n); WaveFunction *s = make(f, CV(n)), *d = make(f, CV(n));
   for (int k = 0; k < n; k++) { put(s, f, unit(n, k)); put(d, f, vec(n, 7)); o->Apply(d, s); CV r = get(d, f); for (int i = 0; i < n; i++) m(i, k) = r[i]; }
   DELETE_WF(s); DELETE_WF(d); return m;
}
inline Mat block(int states, int n, const std::vector<std::tuple<int, int, Mat>>& b) { Mat m(states * n); for (auto& t : b) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(std::get<0>(t) * n + i, std::get<1>(t) * n + j) += std::get<2>(t)(i, j); return m; }
inline Mat gobbler(const Sp& s, int d, bool right, double x0, int order) { double c = (x0 - s.lo[d]) / s.dx(d); return local(s, [=](int p) { double i = s.coord(p, d); if (i == c) return 0.5; return right ? 1 / (1 + std::pow(c / i, 2. * order)) : 1 / (1 + std::pow(i / c, 2. * order)); }); }
inline std::string list(std::vector<double> v) { std::string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%s%.17g", s.empty() ? "" : ",", x); s += b; } return s; }
inline std::vector<Sp>& shapes() { static std::vector<Sp> v = { grid({ 4 }), grid({ 5 }), grid({ 3, 2 }), grid({ 2, 3, 2 }), grid({ 4, 3 }) }; return v; }
inline const std::vector<Case>& simple() {
   static std::vector<Case> v; if (!v.empty()) return v;
   auto add = [&](std::string n, Wf w, std::function<Operator*()> b, std::function<Mat()> d, int attr = 0, std::function<Mat()> alt = nullptr) { v.push_back({ n + " on " + w.text(), w, b, d, attr, alt }); };
   // scalars
   for (Wf w : { Wf(level(3)), Wf(grid({ 3, 2 })), Wf(level(2), 2) }) {
      int n = w.size();
      add("Scalar", w, [] { return init(new OScalar(), PC()); }, [n] { return Mat(n, 1); });
      add("Scalar value", w, [] { return init(new OScalar(), PC().set("value", -2.5)); }, [n] { return Mat(n, -2.5); });
      add("Scalar complex", w, [] { return init(new OScalar(), PC().set("value", 0.5).set("im", -1.25)); }, [n] { return Mat(n, cd(0.5, -1.25)); });
      add("Scalar imaginary", w, [] { return init(new OScalar(), PC().set("value", 0.).set("im", 2.)); }, [n] { return Mat(n, cd(0, 2)); });
   }
   // projectors
   for (Wf w : { Wf(level(3)), Wf(grid({ 4 })), Wf(level(2), 2) }) {
      int n = w.size();
      double vo = vol(w); auto P = [n, vo](std::vector<int> idx) { Mat m(n); for (int k : idx) { CV a = vec(n, 40 + k); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) += vo * a[i] * std::conj(a[j]); } return m; };
      add("Projection", w, [w] { wfFiles(w, 1, "prj"); return init(new OProjection(), PC().set("files", "prj")); }, [=] { return P({ 0 }); });
      add("Projection 2", w, [w] { wfFiles(w, 2, "prj"); return init(new OProjection(), PC().set("files", "prj").set("num", 2)); }, [=] { return P({ 0, 1 }); });
      add("Projection start/step", w, [w] { wfFiles(w, 5, "prj"); return init(new OProjection(), PC().set("files", "prj").set("num", 2).set("start", 1).set("step", 3)); }, [=] { return P({ 1, 4 }); });
      add("Projection negative", w, [w] { wfFiles(w, 2, "prj"); return init(new OProjection(), PC().set("files", "prj").set("num", 2).set("positive", false)); }, [=] { return -1. * P({ 0, 1 }); });
      add("Projection inverse", w, [w] { wfFiles(w, 2, "prj"); return init(new OProjection(), PC().set("files", "prj").set("num", 2).set("inv", true)); }, [=] { return Mat(n, 1) - P({ 0, 1 }); });
      add("Projection added", w, [w] { OProjection* o = init(new OProjection(), PC()); for (int i = 0; i < 2; i++) { WaveFunction* x = make(w, vec(w.size(), 40 + i)); o->Add(x); DELETE_WF(x); } return o; }, [=] { return P({ 0, 1 }); });
   }
   for (const Sp& s : shapes()) {
      int D = s.n.size();
      // potentials
      add("GridPotential", s, [s] { potFile(s, 1, "pot"); return init(new OGridPotential(), PC().set("file", "pot")); }, [s] { return local(s, [](int p) { return pv(1, p); }); });
      add("GridPotential offset scale", s, [s] { potFile(s, 1, "pot"); return init(new OGridPotential(), PC().set("file", "pot").set("offset", 1.5).set("scale", -2.)); }, [s] { return local(s, [](int p) { return (pv(1, p) + 1.5) * -2; }); });
      add("GridPotential setzero", s, [s] { potFile(s, 1, "pot"); return init(new OGridPotential(), PC().set("file", "pot").set("setzero", true).set("offset", 0.25)); }, [s] { double m = 1e9; for (int i = 0; i < s.size(); i++) m = std::min(m, pv(1, i)); return local(s, [m](int p) { return pv(1, p) - m + 0.25; }); });
      // position, derivatives
      for (int d = -1; d < D; d++) {
         std::string t = d < 0 ? "" : " dim" + std::to_string(d);
         auto pc = [d] { PC p; if (d >= 0) p.set("dim", d); return p; };
         add("GridPosition" + t, s, [pc] { return init(new OGridPosition(), pc()); }, [s, d] { return local(s, [=](int p) { return xsum(s, d, p); }); });
         add("GridPosition scale" + t, s, [pc] { return init(new OGridPosition(), pc().set("scale", -0.75)); }, [s, d] { return local(s, [=](int p) { return -0.75 * xsum(s, d, p); }); });
         auto nab = [s, d, D] { Mat m(s.size()); for (int i = 0; i < D; i++) if (d < 0 || i == d) m = m + embed(s, i, d1(s, i)); return m; };
         add("GridNabla" + t, s, [pc] { return init(new OGridNabla(), pc()); }, nab);
         add("GridNabla factor" + t, s, [pc] { return init(new OGridNabla(), pc().set("factor", -1.5)); }, [nab] { return -1.5 * nab(); });
         add("GridMomentum" + t, s, [pc] { return init(new OGridNabla(true), pc()); }, [nab] { return cd(0, -1) * nab(); });
         add("GridMomentum factor" + t, s, [pc] { return init(new OGridNabla(true), pc().set("factor", 2.)); }, [nab] { return cd(0, -2) * nab(); });
         for (int deriv = 1; deriv <= 2; deriv++) for (int pbc = 0; pbc < 2; pbc++)
            add("GridHOFD deriv" + std::to_string(deriv) + (pbc ? " pbc" : "") + t, s, [=] { return init(new OGridHOFD(), pc().set("deriv", deriv).set("order", 2).set("pbc", (bool)pbc)); },
                [=] { Mat m(s.size()); for (int i = 0; i < D; i++) if (d < 0 || i == d) m = m + embed(s, i, fd(s, i, deriv, 2, pbc)); return m; }, 0,
                pbc || d >= 0 ? std::function<Mat()>() : [=] { Mat m(s.size()); for (int i = 0; i < D; i++) m = m + embed(s, i, fd(s, i, deriv, 2, 2)); return m; });
      }
      // kinetic energies
      std::vector<double> mass; for (int i = 0; i < D; i++) mass.push_back(0.5 + 0.75 * i);
      auto ml = list(mass);
      add("GridNablaSq", s, [ml] { return init(new OGridNablaSq(), PC().set("mass", ml)); }, [=] { Mat m(s.size()); for (int i = 0; i < D; i++) m = m + (-0.5 / mass[i]) * embed(s, i, d2(s, i)); return m; });
      auto fdm = [=](int pbc) { Mat m(s.size()); for (int i = 0; i < D; i++) m = m + (-0.5 / mass[i]) * embed(s, i, fd(s, i, 2, 2, pbc)); return m; };
      add("GridHOFD mass", s, [ml] { return init(new OGridHOFD(), PC().set("deriv", 2).set("order", 2).set("mass", ml)); }, [=] { return fdm(0); }, 0, [=] { return fdm(2); });
      for (int pbc = 0; pbc < 2; pbc++)
         add(std::string("GridNablaSq HOFD") + (pbc ? " pbc" : ""), s, [ml, pbc] { return init(new OGridNablaSq(), PC().set("mass", ml).set("method", "HOFD").set("order", 2).set("pbc", (bool)pbc)); }, [=] { return fdm(pbc); }, 0, pbc ? std::function<Mat()>() : [=] { return fdm(2); });
      // G matrix
      std::vector<double> G; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) G.push_back(i == j ? 1.5 + i : 0.25 * (i + 2 * j + 1));
      auto gl = list(G); auto gi = [](int i, int j) { if (j > i) std::swap(i, j); return i * (i + 1) / 2 + j; };
      auto gm = [=](bool coup, std::function<Mat(int, int)> g, std::function<Mat(int)> dd) { Mat m(s.size()); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (i == j || coup) m = m + (-0.5) * (embed(s, j, dd(j)) * (g(i, j) * embed(s, i, dd(i)))); return m; };
      auto gc = [=](int i, int j) { return Mat(s.size(), G[gi(i, j)]); };
      auto gg = [=](int i, int j) { if (j > i) std::swap(i, j); return local(s, [=](int p) { return pv(3 * i + j, p) + (i == j ? 2.5 : 0); }); };
      auto gf = [=] { for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) potFile(s, 3 * i + j, "gma_" + std::to_string(i) + std::to_string(j), i == j ? 2.5 : 0); };
      auto four = [s](int i) { return d1(s, i); };
      add("GridGMat const", s, [=] { return init(new OGridGMat(), PC().set("dims", D).set("G", gl)); }, [=] { return gm(true, gc, four); });
      add("GridGMat const nocoup", s, [=] { return init(new OGridGMat(), PC().set("dims", D).set("G", gl).set("coup", false)); }, [=] { return gm(false, gc, four); });
      add("GridGMat grid", s, [=] { gf(); return init(new OGridGMat(), PC().set("dims", D).set("gmat", "gma")); }, [=] { return gm(true, gg, four); });
      add("GridGMat grid nocoup", s, [=] { gf(); return init(new OGridGMat(), PC().set("dims", D).set("gmat", "gma").set("coup", false)); }, [=] { return gm(false, gg, four); });
      add("GridGMat grid HOFD", s, [=] { gf(); return init(new OGridGMat(), PC().set("dims", D).set("gmat", "gma").set("method", "HOFD").set("order", 2)); }, [=] { return gm(true, gg, [s](int i) { return fd(s, i, 1, 2, false); }); });
      if (D > 1) {
         std::string def; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) def += std::string(def.empty() ? "" : ",") + (i == j ? "g" : (i + j) % 2 ? "c" : "x");
         add("GridGMat mixed", s, [=] { gf(); return init(new OGridGMat(), PC().set("dims", D).set("gmat", "gma").set("G", gl).set("Gdef", def)); }, [=] { return gm(true, [=](int i, int j) { return i == j ? gg(i, j) : (i + j) % 2 ? gc(i, j) : Mat(s.size()); }, four); });
      }
      if (s.n[0] >= 4 && D == 1) // chain rule: derivatives of the elements by finite differences
         add("GridGMat chainrule", s, [=] { gf(); return init(new OGridGMat(), PC().set("dims", D).set("gmat", "gma").set("chainrule", true).set("order", 2)); },
             [=] { Mat m(s.size()); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { Mat g = gg(i, j); CV gv(s.size()); for (int p = 0; p < s.size(); p++) gv[p] = g(p, p); CV dg = embed(s, j, fd(s, j, 1, 2, false)) * gv; m = m + (-0.5) * (diag(dg) * embed(s, i, d1(s, i)) + g * (embed(s, j, d1(s, j)) * embed(s, i, d1(s, i)))); } return m; }, NOTEXACT);
      // momentum kick
      std::vector<double> k; for (int i = 0; i < D; i++) k.push_back(i == 1 ? 0 : 0.7 - 0.4 * i);
      add("GridKick", s, [=] { return init(new OGridKick(), PC().set("k", list(k))); }, [=] { return local(s, [=](int p) { double a = 0; for (int i = 0; i < D; i++) a += k[i] * s.x(i, s.coord(p, i)); return std::polar(1., a); }); });
      add("GridKick scale", s, [=] { return init(new OGridKick(), PC().set("k", list({ 1.25 })).set("scale", -3.)); }, [=] { return local(s, [=](int p) { return std::polar(1., -3.75 * s.x(0, s.coord(p, 0))); }); });
      // absorbers
      int L = D - 1; double xr = s.lo[0] + 0.9 * s.dx(0), xl = s.lo[L] + 1.3 * s.dx(L); auto nm = [](const char* a, int d) { return std::string(a) + std::to_string(d); };
      if (s.n[L] > 2) {
         add("Gobbler right", s, [=] { return init(new OGobbler(), PC().set("rp0", xr).set("order", 3)); }, [=] { return gobbler(s, 0, true, xr, 3); });
         add("Gobbler left", s, [=] { return init(new OGobbler(), PC().set(nm("lp", L).c_str(), xl).set("order", 2)); }, [=] { return gobbler(s, L, false, xl, 2); });
         add("Gobbler edge", s, [=] { return init(new OGobbler(), PC().set("rp0", s.lo[0]).set(nm("lp", L).c_str(), s.hi[L]).set("order", 2)); }, [=] { return gobbler(s, 0, true, s.lo[0], 2) * gobbler(s, L, false, s.hi[L], 2); });
         add("Gobbler both", s, [=] { return init(new OGobbler(), PC().set("rp0", xr).set(nm("lp", L).c_str(), xl).set("order", 2)); }, [=] { return gobbler(s, 0, true, xr, 2) * gobbler(s, L, false, xl, 2); });
         add("Gobbler default order", s, [=] { return init(new OGobbler(), PC().set("rp0", xr)); }, [=] { return gobbler(s, 0, true, xr, 20); });
         add("Gobbler nip right", s, [=] { return init(new OGobbler(), PC().set("rp0", xr).set("order", 2).set("nip", true).set("gain", 2.5)); }, [=] { return cd(0, -2.5) * gobbler(s, 0, true, xr, 2); });
         add("Gobbler nip both", s, [=] { return init(new OGobbler(), PC().set("rp0", xr).set(nm("lp", L).c_str(), xl).set("order", 2).set("nip", true).set("gain", 2.5)); }, [=] { return cd(0, -2.5) * (gobbler(s, 0, true, xr, 2) + gobbler(s, L, false, xl, 2)); });
      }
      // non-adiabatic couplings
      auto nf = [=] { for (int i = 0; i < D; i++) potFile(s, 5 + i, "nac" + std::to_string(i)); potFile(s, 5, "nac"); };
      auto nacr = [=](double f) { Mat m(s.size()); for (int i = 0; i < D; i++) { Mat g = local(s, [i](int p) { return pv(5 + i, p); }), d = embed(s, i, d1(s, i)); m = m + 0.5 * f * (g * d + d * g); } return m; };
      add("GridNAC", s, [=] { nf(); return init(new OGridNAC(), PC().set("dims", D).set("file", "nac")); }, [=] { return nacr(1); });
      add("GridNAC sign", s, [=] { nf(); return init(new OGridNAC(), PC().set("dims", D).set("file", "nac").set("sign", -1.)); }, [=] { return nacr(-1); });
      if (D == 1) add("GridNAC mass", s, [=] { nf(); return init(new OGridNAC(), PC().set("file", "nac").set("mass", 2.5).set("sign", -1.)); }, [=] { return nacr(-1 / 2.5); });
      // sums on the grid and laser couplings
      add("GridSum", s, [=] { OGridSum* o = new OGridSum(); o->Add(pot(s, 1)); o->Add(pot(s, 2)); return o; }, [=] { return local(s, [](int p) { return pv(1, p) + pv(2, p); }); });
      add("GridSum 3", s, [=] { OGridSum* o = new OGridSum(); o->Add(pot(s, 1)); o->Add(pot(s, 2)); o->Add(pot(s, 3)); return o; }, [=] { return local(s, [](int p) { return pv(1, p) + pv(2, p) + pv(3, p); }); });
      add("GridSum 1", s, [=] { OGridSum* o = new OGridSum(); o->Add(pot(s, 1)); return o; }, [=] { return local(s, [](int p) { return pv(1, p); }); });
      add("GridSum laser", s, [=] { potFile(s, 4, "dip"); laserFile(NT, DT, 1, "las"); OGridSum* o = new OGridSum(); o->Add(pot(s, 1)); o->Add(init(new OGridDipole(), PC().set("file", "dip").set("laser", "las"))); return o; }, [=] { return local(s, [](int p) { return pv(1, p) - field(1, 2) * pv(4, p); }); }, LASER);
      add("GridDipole", s, [=] { potFile(s, 4, "dip"); laserFile(NT, DT, 1, "las"); return init(new OGridDipole(), PC().set("file", "dip").set("laser", "las")); }, [=] { return local(s, [](int p) { return -field(1, 2) * pv(4, p); }); }, LASER);
      add("GridDipole scale", s, [=] { potFile(s, 4, "dip"); laserFile(NT, DT, 1, "las"); return init(new OGridDipole(), PC().set("file", "dip").set("laser", "las").set("scale", 0.5)); }, nullptr, LASER);
      add("GridRaman", s, [=] { potFile(s, 4, "dip"); laserFile(NT, DT, 1, "las"); laserFile(NT, DT, 2, "lbs"); return init(new OGridRaman(), PC().set("file", "dip").set("laser0", "las").set("laser1", "lbs")); }, [=] { return local(s, [](int p) { return -0.5 * field(1, 2) * field(2, 2) * pv(4, p); }); }, LASER);
   }
   Sp thick = grid({ 6 }); Sp thick2 = grid({ 6, 5 });
   for (const Sp& s : { thick, thick2 }) {
      PC p; p.set("mass", s.n.size() > 1 ? "0.5,1.25" : "0.5").set("thick", "2").set("gamma", "0.25").set("p", "2").set("smax", 1.5);
      auto layer = [s](int d, int side) { CV f(s.n[d], 1); for (int i = 0; i < 2; i++) { cd v = 1. / (1. + std::polar(1., 0.25 * M_PI) * 1.5 * std::pow(0.5, 2) * std::pow(i - 3., 2)); if (side & 1) f[i] *= v; if (side & 2) f[s.n[d] - 1 - i] *= v; } return embed(s, d, diag(f)); };
      static const double M[] = { 0.5, 1.25 }; int D = s.n.size();
      for (int side : { 3, 1, 2 }) { PC q = p; if (side != 3) q.set("lmap", std::to_string(side)); add(std::string("GridPML") + (side == 1 ? " begin" : side == 2 ? " end" : ""), s, [q] { return init(new OGridPML(), q); }, [=] { Mat m(s.size()); for (int d = 0; d < D; d++) { Mat x = layer(d, side) * embed(s, d, d1(s, d)); m = m + (-0.5 / M[d]) * (x * x); } return m; }); }
      if (D > 1) { PC q = p; q.set("lmap", "1,2"); add("GridPML sides", s, [q] { return init(new OGridPML(), q); }, [=] { Mat m(s.size()); for (int d = 0; d < D; d++) { Mat x = layer(d, 1 + d) * embed(s, d, d1(s, d)); m = m + (-0.5 / M[d]) * (x * x); } return m; }); }
      PC g; g.set("dims", D).set("pml", true).set("thick", "2").set("gamma", "0.25").set("p", "2").set("smax", 1.5); static const double G[] = { 1.5, 0.75, 2.5 }; auto gl = list(D > 1 ? std::vector<double>{ G[0], G[1], G[2] } : std::vector<double>{ G[0] });
      auto gg = [=](int i, int j) { if (j > i) std::swap(i, j); return local(s, [=](int q) { return pv(3 * i + j, q) + (i == j ? 2.5 : 0); }); };
      auto gf = [=] { for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) potFile(s, 3 * i + j, "gma_" + std::to_string(i) + std::to_string(j), i == j ? 2.5 : 0); };
      for (int coup = 1; coup >= 2 - D; coup--) {
         std::string t = coup ? "" : " nocoup"; PC q = g; if (!coup) q.set("coup", false);
         add("GridGMat PML const" + t, s, [=] { PC r = q; return init(new OGridGMat(), r.set("G", gl)); }, [=] { Mat m(s.size()); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (i == j || coup) m = m + (-0.5 * G[i + j]) * (layer(j, 3) * (layer(i, 3) * (embed(s, j, d1(s, j)) * embed(s, i, d1(s, i))))); return m; });
         add("GridGMat PML grid" + t, s, [=] { gf(); PC r = q; return init(new OGridGMat(), r.set("gmat", "gma")); }, [=] { Mat m(s.size()); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (i == j || coup) m = m + (-0.5) * (layer(j, 3) * (embed(s, j, d1(s, j)) * (gg(i, j) * embed(s, i, d1(s, i))))); return m; });
      }
   }
   for (int o : { 4, 6 }) for (int deriv = 1; deriv <= 2; deriv++) for (int pbc = 0; pbc < 2; pbc++) { Sp s = grid({ 7, 2 }); add("GridHOFD order" + std::to_string(o) + " deriv" + std::to_string(deriv) + (pbc ? " pbc" : ""), s, [=] { return init(new OGridHOFD(), PC().set("deriv", deriv).set("order", o).set("pbc", (bool)pbc).set("dim", 0)); }, [=] { return embed(s, 0, fd(s, 0, deriv, o, pbc)); }); }
   for (int n : { 1, 2, 4 }) {
      add("HermitianMatrix", level(n), [n] { matFile(n, 2, "mat"); return init(new OHermitianMatrix(), PC().set("file", "mat")); }, [n] { return matrixRef(n, 2); });
      add("MatDipole", level(n), [n] { matFile(n, 3, "mdi"); laserFile(NT, DT, 2, "las"); return init(new OMatDipole(), PC().set("file", "mdi").set("laser", "las")); }, [n] { return -field(2, 2) * matrixRef(n, 3); }, LASER);
   }
   return v;
}
inline const Case& byName(const std::string& prefix) { for (const Case& k : simple()) if (k.name.compare(0, prefix.size(), prefix) == 0) return k; fprintf(stderr, "no case %s\n", prefix.c_str()); abort(); }
// composites of simple operators that are declared by the user in usual inputs
inline std::vector<Case>& every() {
   static std::vector<Case> v; if (!v.empty()) return v; v = simple();
   Wf g = grid({ 4 }), g2(grid({ 4 }), 2), h = grid({ 4, 3 });
   auto L = [](const char* n, const char* sh) { return byName(std::string(n) + " on " + sh); };
   auto add = [&](const char* n, Wf w, std::function<Operator*()> b) { v.push_back({ std::string(n) + " on " + w.text(), w, b, nullptr, 0 }); };
   for (auto sh : { "grid4", "grid4x3", "grid5" }) {
      Wf w = byName(std::string("GridPotential on ") + sh).wf; auto P = [=](bool prod, std::vector<const char*> n) { return [=]() -> Operator* { OList* o = prod ? (OList*)new OProduct() : (OList*)new OSum(); for (auto x : n) o->Add(L(x, sh).build()); return o; }; };
      add("Sum T+V", w, P(false, { "GridNablaSq", "GridPotential" })); add("Sum T+nip", w, P(false, { "GridNablaSq", "Gobbler nip right" })); add("Sum V+N", w, P(false, { "GridPotential", "GridNabla" })); add("Product VV", w, P(true, { "GridPotential", "GridPosition" })); add("Product XP", w, P(true, { "GridPosition", "GridMomentum" })); add("Product TP", w, P(true, { "GridNablaSq", "GridMomentum" })); add("Product VG", w, P(true, { "GridPotential", "Gobbler right" })); add("Product GD", w, P(true, { "Gobbler right", "GridDipole" })); add("Product KV", w, P(true, { "GridKick", "GridPotential" })); add("Product VTV", w, P(true, { "GridPotential", "GridNablaSq", "GridPosition" }));
      add("Product TGT same", w, [=]() -> Operator* { OProduct* o = new OProduct(); Operator* t = L("GridNablaSq", sh).build(); o->Add(t); o->Add(L("GridPotential", sh).build()); o->Add(t); return o; });
   }
   for (int k = 0; k < 12; k++) add(("Multistate " + std::to_string(k)).c_str(), g2, [=]() -> Operator* {
      OMultistate* o = new OMultistate(); PC p; p.set("unity", (bool)(k % 2)); if (k >= 8) p.set("nonhermitian", true); o->Init(p); static const char* C[] = { "GridPotential", "GridKick", "GridNabla", "GridDipole" };
      o->Add(L("GridNablaSq", "grid4").build(), 0, 0); if (k % 3) o->Add(L("GridPosition", "grid4").build(), 1, 1); if (k % 4 < 2) o->Add(L(C[k % 4], "grid4").build(), 0, 1); else o->Add(L(C[k % 4], "grid4").build(), 1, 0); return o; });
   return v;
}
}
