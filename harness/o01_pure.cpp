// O01: histories of applications of every operator against its matrix
#include "ops.h"
#include <list>
using namespace ops;
enum Op { APPLY, INPLACE, ADD, ELEMENT, EXPEC, INIT, PARENT, VALID, SAME, ADDSELF, UPDATE, NOPS };
static const char* ON[] = { "Apply", "Apply in place", "ApplyAdd", "MatrixElement", "Expec", "Init", "ApplyParent", "Valid", "MatrixElement(a,a)", "Apply of i*(x+2y)", "UpdateTime" };
struct Rig {
   mc::Ctx& c; const Case& k; Operator* o; const Mat& m; WaveFunction *a, *b; int n; int t = 0; std::string hist; bool expec;
   Rig(mc::Ctx& c, const Case& k, Operator* o, const Mat& m) : c(c), k(k), o(o), m(m), n(k.wf.size()) { a = make(k.wf, CV(n)); b = make(k.wf, CV(n)); expec = k.name.find("Gobbler") != 0; }
   ~Rig() { DELETE_WF(a); DELETE_WF(b); }
   void eq(WaveFunction* w, const CV& want, const char* what) {
      CV got = get(w, k.wf); double tol = 1e-10 * (1 + mx(want) + mx(m.a));
      for (int i = 0; i < n; i++) if (!(std::abs(got[i] - want[i]) <= tol)) c.fail(std::string(what) + ":" + k.name.substr(0, k.name.find(" on ")), "%s after%s: element %d of the %s is (%.12g,%.12g) instead of (%.12g,%.12g)", k.name.c_str(), hist.c_str(), i, what, got[i].real(), got[i].imag(), want[i].real(), want[i].imag());
      if (w->IsKspace()) c.fail("representation:" + k.name, "%s after%s: the %s is left in momentum space", k.name.c_str(), hist.c_str(), what);
   }
   void num(dcomplex got, cd want, const char* what) { double tol = 1e-10 * (1 + std::abs(want) + mx(m.a)); if (!(std::abs(cd(got._real, got._imag) - want) <= tol)) c.fail(std::string(what) + ":" + k.name.substr(0, k.name.find(" on ")), "%s after%s: %s is (%.12g,%.12g) instead of (%.12g,%.12g)", k.name.c_str(), hist.c_str(), what, got._real, got._imag, want.real(), want.imag()); }
   void step(int op) {
      CV x = vec(n, 3 + t % 5), y = vec(n, 11 + t % 7); t++; put(a, k.wf, x); put(b, k.wf, y); if (hist.size() < 400 || hist.size() > 100000) hist += std::string(" ") + ON[op]; else hist = " ..." + hist.substr(100) + " " + ON[op]; c.step();
      switch (op) {
         case APPLY: o->Apply(b, a); eq(b, m * x, "result"); eq(a, x, "source"); break;
         case INPLACE: o->Apply(a); eq(a, m * x, "result in place"); break;
         case ADD: { o->ApplyAdd(b, a); CV r = m * x; for (int i = 0; i < n; i++) r[i] += y[i]; eq(b, r, "sum"); eq(a, x, "source"); break; }
         case ELEMENT: { dcomplex e = o->MatrixElement(b, a); num(e, vol(k.wf) * dot(y, m * x), "matrix element"); eq(a, x, "ket"); eq(b, y, "bra"); break; }
         case SAME: { dcomplex e = o->MatrixElement(a, a); num(e, vol(k.wf) * dot(x, m * x), "diagonal element"); eq(a, x, "ket"); break; }
         case EXPEC: if (expec) { double e = o->Expec(a); num(dcomplex(e), vol(k.wf) * dot(x, m * x).real(), "expectation value"); eq(a, x, "source"); } break;
         case INIT: { WaveFunction* w = make(k.wf, y); o->Init(w); eq(w, y, "wave function of Init"); DELETE_WF(w); break; }
         case PARENT: if (!(k.attr & LASER) && !o->isTimeDep()) { o->ApplyParent(b, a); eq(b, m * x, "result of the parent"); eq(a, x, "source"); } break;
         case VALID: if (!o->Valid(a)) c.fail("valid:" + k.name, "%s after%s: refuses its wave function", k.name.c_str(), hist.c_str()); eq(a, x, "source"); break;
         case ADDSELF: { CV z(n); for (int i = 0; i < n; i++) z[i] = cd(0, 1) * (x[i] + 2. * y[i]); put(a, k.wf, z); o->Apply(b, a); eq(b, m * z, "linear combination"); break; }
         case UPDATE: o->UpdateTime(); break;
      }
   }
};
static std::vector<int> debruijn(int k, int n) { // every window of n operations occurs
   std::vector<int> a(k * n), s; std::function<void(int, int)> db = [&](int t, int p) { if (t > n) { if (n % p == 0) for (int i = 1; i <= p; i++) s.push_back(a[i]); } else { a[t] = a[t - p]; db(t + 1, p); for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; db(t + 1, t); } } };
   db(1, 1); for (int i = 0; i < n - 1; i++) s.push_back(s[i]); return s;
}
// wave functions of another kind, grid or number of states
static std::vector<std::pair<std::string, Wf>> others(const Wf& f, bool sizeOnly) {
   std::vector<std::pair<std::string, Wf>> r; auto each = [&](const char* t, std::function<void(Sp&)> e) { Wf g = f; for (auto& x : g.s) e(x); r.push_back({ t, g }); };
   if (f.s[0].level) { each("one level more", [](Sp& s) { s.level++; }); if (f.s[0].level > 1) each("one level less", [](Sp& s) { s.level--; }); if (!sizeOnly && f.s[0].level > 1) each("a grid", [](Sp& s) { s = grid({ s.level }); }); }
   else for (size_t d = 0; d < f.s[0].n.size(); d++) {
      auto t = [&](const char* x) { static std::list<std::string> k; k.push_back(std::string(x) + " in dimension " + std::to_string(d)); return k.back().c_str(); };
      each(t("one point more"), [d](Sp& s) { s.hi[d] += s.dx(d); s.n[d]++; }); if (f.s[0].n[d] > 2) each(t("one point less"), [d](Sp& s) { s.hi[d] -= s.dx(d); s.n[d]--; }); each(t("one point more on the same range"), [d](Sp& s) { s.n[d]++; });
      if (sizeOnly) continue;
      each(t("another lower limit"), [d](Sp& s) { s.lo[d] -= 0.25; }); each(t("another upper limit"), [d](Sp& s) { s.hi[d] += 0.25; }); each(t("a shifted range"), [d](Sp& s) { s.lo[d] += 0.5; s.hi[d] += 0.5; });
   }
   if (!f.s[0].level && !sizeOnly) { each("one dimension more", [](Sp& s) { s.n.push_back(2); s.lo.push_back(0); s.hi.push_back(1); }); if (f.s[0].n.size() > 1) { each("one dimension less", [](Sp& s) { s.n.pop_back(); s.lo.pop_back(); s.hi.pop_back(); }); if (f.s[0].n[0] != f.s[0].n[1]) each("exchanged dimensions", [](Sp& s) { std::swap(s.n[0], s.n[1]); std::swap(s.lo[0], s.lo[1]); std::swap(s.hi[0], s.hi[1]); }); } each("levels", [](Sp& s) { s = level(s.size()); }); }
   if (f.multi) { Wf g = f; g.s.push_back(g.s.back()); r.push_back({ "one state more", g }); if (f.s.size() > 2) { g = f; g.s.pop_back(); r.push_back({ "one state less", g }); } r.push_back({ "a single state", Wf(f.s[0]) }); } else if (!sizeOnly) r.push_back({ "two states", Wf(f.s[0], 2) });
   return r;
}
static void compat(mc::Ctx& c) {
   const auto& v = every(); int i = c.big(v.size(), "operator"); const Case& k = v[i]; c.doing("%s", k.name.c_str()); c.nontrivial(); Operator* o = ready(k);
   std::string bad; for (auto& w : others(k.wf, k.name.find("Scalar") == 0 || k.name.find("Projection") == 0)) { c.step(); WaveFunction* p = make(w.second, CV(w.second.size(), 1)); if (o->Valid(p)) bad += (bad.empty() ? "" : ", ") + w.first; DELETE_WF(p); }
   if (!bad.empty()) c.fail("valid for others:" + k.name, "%s: accepts a wave function with %s", k.name.c_str(), bad.c_str());
   WaveFunction* p = make(k.wf, CV(k.wf.size(), 1)); if (!o->Valid(p)) c.fail("valid:" + k.name, "%s: refuses its wave function", k.name.c_str()); DELETE_WF(p);
   c.outcome(mc::Hash().i(i).h); CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
static void run(mc::Ctx& c) {
   const auto& v = every(); int i = c.big(v.size(), "operator"); const Case& k = v[i]; c.doing("%s", k.name.c_str()); c.nontrivial();
   Operator* q = ready(k); Mat m = measure(q, k.wf); c.outcome(mc::Hash().i(i).h);
   if (k.def && mx((m - k.def()).a) > 1e-9 * (1 + mx(m.a)) && !(k.alt && mx((m - k.alt()).a) < 1e-9 * (1 + mx(m.a)))) c.fail("matrix:" + k.name, "%s: not its definition", k.name.c_str());
   int first = c.big(NOPS + 1, "first");
   if (first == NOPS) { Rig r(c, k, q, m); for (int op : debruijn(NOPS, c.bound(3, 4))) r.step(op); }   // all windows of operations in one life
   else {                                                                                               // all histories of a new operator
      int d = c.bound(2, 3); std::vector<int> h(d); h[0] = first;
      for (;;) { Operator* o = ready(k); { Rig r(c, k, o, m); for (int op : h) r.step(op); } DELETE_OP(o); int j = d - 1; while (j > 0 && ++h[j] == NOPS) h[j--] = 0; if (j == 0) break; }
   }
   CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "O01"; std::string m = argv[1]; return mc::Main(argc - 1, argv + 1, m == "compat" ? compat : run, o); }
