// G01: index maps and one-dimensional profiles on all small grids, after every way to set a grid up.
#include "objs.h"
#include "math/VectorView.h"
#include <memory>
using namespace QDLIB; using namespace objs;
static std::string gMode = "index";
typedef std::vector<int> Sh;
static size_t total(const Sh& n) { size_t t = 1; for (int x : n) t *= x; return t; }
static Sh shape(mc::Ctx& c, int md, int mx) { int nd = 1 + c.pick(md, "dims"); Sh n; for (int i = 0; i < nd; i++) n.push_back(1 + c.pick(nd > 3 ? std::min(mx, 2 + c.thorough()) : mx, "extent")); return n; }
struct Holder { std::unique_ptr<GridSystem> g; WFGridCartesian* w = 0; GridSystem& grid() { return w ? *(GridSystem*)w : *g; } ~Holder() { if (w) DELETE_WF(w); } };
// 6 ways to describe a grid
static void setup(GridSystem& g, WFGridCartesian* w, const Sh& n, int how) {
   auto lim = [](int i, double& a, double& b) { a = -1.0 - i; b = 2.0 + 3 * i; };
   if (how == 0) { g.Dim(n.size()); for (size_t i = 0; i < n.size(); i++) { double a, b; lim(i, a, b); g.DimSize(i, n[i]); g.Xmin(i, a); g.Xmax(i, b); } }
   if (how == 1) { std::vector<double> a(n.size()), b(n.size()); for (size_t i = 0; i < n.size(); i++) lim(i, a[i], b[i]); g.SetFromArrays(n, a, b); }
   if (how == 2) { GridSystem h(n.size()); for (int i = n.size() - 1; i >= 0; i--) { double a, b; lim(i, a, b); h.Xmax(i, b); h.Xmin(i, a); h.DimSize(i, n[i]); } g = h; }
   if (how == 3) { ParamContainer p; p.SetValue("dims", (int)n.size()); for (size_t i = 0; i < n.size(); i++) { double a, b; lim(i, a, b); auto s = std::to_string(i); p.SetValue("N" + s, n[i]); p.SetValue("xmin" + s, a); p.SetValue("xmax" + s, b); } w->Init(p); }
   if (how == 4) { GridSystem h; std::vector<double> a(n.size()), b(n.size()); for (size_t i = 0; i < n.size(); i++) lim(i, a[i], b[i]); h.SetFromArrays(n, a, b); WFGridCartesian* v = new WFGridCartesian(h); g = *(GridSystem*)v; DELETE_WF(v); }
}
static void verify(mc::Ctx& c, GridSystem& g, const Sh& n, int d) {
   size_t N = total(n);
   if (g.Dim() != (int)n.size() || (size_t)g.Size() != N) c.fail("size", "dims %d size %d", g.Dim(), g.Size());
   for (int i = 0; i < (int)n.size(); i++) {
      if (g.DimSize(i) != n[i] || g.DimSizes()[i] != n[i]) c.fail("extent", "dimension %d: %d", i, g.DimSize(i));
      if (g.Xmin(i) != -1.0 - i || g.Xmax(i) != 2.0 + 3 * i) c.fail("limits", "dimension %d", i);
      if (n[i] > 1 && std::fabs(g.Dx(i) - (3.0 + 4 * i) / (n[i] - 1)) > 1e-14) c.fail("dx", "dimension %d: %g", i, g.Dx(i));
      int low = 1; for (int j = 0; j < i; j++) low *= n[j];
      if (g.LowOthers(i) != low || (size_t)g.NumOthers(i) * n[i] != N) c.fail("others", "dimension %d: %d lower, %d others", i, g.LowOthers(i), g.NumOthers(i));
      for (int j = 0; j < (int)n.size(); j++) if (j != i && (size_t)g.NumOthers((size_t)i, (size_t)j) * n[i] * n[j] != N) c.fail("others-pair", "dimensions %d %d: %d", i, j, g.NumOthers((size_t)i, (size_t)j));
   }
   g.ActiveDim(d); c.step();
   if (g.NumActive() != n[d] || (size_t)g.NumOthers() * n[d] != N) c.fail("active", "dimension %d: %d points, %d others", d, g.NumActive(), g.NumOthers());
   int low = 1; for (int j = 0; j < d; j++) low *= n[j]; if (g.LowOthers() != low) c.fail("stride", "%d", g.LowOthers());
   std::vector<int> seen(N, 0);
   for (int r = 0; r < g.NumOthers(); r++) for (int i = 0; i < n[d]; i++) {
      int x = g.Index(i, r); if (x < 0 || (size_t)x >= N) c.fail("index:range", "index %d", x);
      if ((x / low) % n[d] != i) c.fail("index:coordinate", "index %d claims coordinate %d of dimension %d", x, i, d);
      if (seen[x]++) c.fail("index:twice", "index %d visited twice", x);
      if (g.IndexBase(r) + i * g.LowOthers() != x) c.fail("index:base", "base %d", g.IndexBase(r));
   }
}
static void indices(mc::Ctx& c) {
   Sh a = shape(c, 4, c.bound(3, 4)), b; int how = c.pick(5, "set up"), how2 = c.pick(6, "set up again"), d2 = 0;
   if (how2 < 5) { b = shape(c, c.bound(2, 3), 3); d2 = c.pick(b.size(), "dim"); }
   WFGridCartesian* w = new WFGridCartesian(); std::unique_ptr<GridSystem> pg; GridSystem* g = w; c.nontrivial();
   if (how != 3 && how2 != 3 && c.flag("plain")) { pg.reset(new GridSystem()); g = pg.get(); }
   setup(*g, w, a, how); int d = c.pick(a.size(), "dim");
   verify(c, *g, a, d); if (a.size() > 1) verify(c, *g, a, (d + 1) % a.size());
   if (how2 < 5) { setup(*g, w, b, how2); verify(c, *g, b, d2); }
   DELETE_WF(w);
}
static bool eq(double a, double b) { return std::fabs(a - b) <= 1e-13 * std::fabs(b); }
static bool eq(const dcomplex& a, const dcomplex& b) { double m = std::hypot(b._real, b._imag) * 1e-13; return std::fabs(a._real - b._real) <= m && std::fabs(a._imag - b._imag) <= m; }
template <class T> static void viewT(mc::Ctx& c, T unit) {
   Sh n = shape(c, 4, c.bound(3, 4)); size_t N = total(n); Vector<T> v(N); std::vector<T> m(N); c.nontrivial();
   for (size_t i = 0; i < N; i++) { m[i] = unit * (double)(i + 1); v[i] = m[i]; }
   VectorView<T> view(v, n.size(), n.data());
   int len = n.size() < 4 || N < 8 ? c.bound(3, 4) : 2;
   for (int k = 0; k < len; k++) {
      int d = c.pick(n.size(), "dim"), op = c.pick(4, "op"), low = 1; for (int j = 0; j < d; j++) low *= n[j]; c.step(); c.log("dim %d op %d", d, op);
      Vector<T> p(n[d]); for (int i = 0; i < n[d]; i++) p[i] = unit * (double)((k + 1) * (i + 2)) ;
      view.ActiveDim(d);
      if (op == 3) { Vector<T>* s = view.Sum(); if ((size_t)s->size() * n[d] != N) c.fail("view:sum", "size %d", (int)s->size());
         for (size_t r = 0; r < N / n[d]; r++) { T e = unit * 0.0; for (int i = 0; i < n[d]; i++) e += m[r / low * low * n[d] + r % low + i * low]; if (!eq((*s)[r], e)) c.fail("view:sum", "wrong at %zu", r); } delete s; continue; }
      for (size_t i = 0; i < N; i++) { T x = p[(i / low) % n[d]]; if (op == 0) m[i] = x; if (op == 1) m[i] *= x; if (op == 2) m[i] += x; }
      if (op == 0) view = p; if (op == 1) view *= p; if (op == 2) view += p;
      for (size_t i = 0; i < N; i++) if (!eq(v[i], m[i])) c.fail(op == 0 ? "view:assign" : op == 1 ? "view:multiply" : "view:add", "element %zu after profile along %d", i, d);
   }
}
static void views(mc::Ctx& c) { if (c.flag("complex")) viewT<dcomplex>(c, dcomplex(0.5, -2)); else viewT<double>(c, 1.0); }
static void equals(mc::Ctx& c) {
   GridSystem g[2]; std::vector<int> n[2]; std::vector<double> a[2], b[2]; static const double V[] = { -1, 1, 1e9, -1 + 1e-3, 0 };
   for (int k = 0; k < 2; k++) { int nd = c.pick(4, "dims"); for (int i = 0; i < nd; i++) { n[k].push_back(nd < 3 ? 2 + c.pick(2, "extent") : 2 + (i == 2 ? c.pick(2, "extent") : 0)); a[k].push_back(nd < 3 || i == 2 ? V[c.pick(nd < 2 ? 5 : 3, "lower")] : -2); b[k].push_back(nd < 3 || i == 0 ? 2e9 + V[c.pick(3, "upper")] : 7); } g[k].SetFromArrays(n[k], a[k], b[k]); }
   bool e = n[0] == n[1] && a[0] == a[1] && b[0] == b[1]; c.step(); if (e) c.nontrivial();
   if ((g[0] == g[1]) != e || (g[1] == g[0]) != e || (g[0] != g[1]) == e) c.fail("equal", "compared %s", e ? "different" : "equal");
   GridSystem h; h = g[0]; if (!(h == g[0]) || (h == g[1]) != e) c.fail("equal:copy", "copy compares differently");
}
int main(int argc, char** argv) {
   for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--view" || a == "--equal") gMode = a.substr(2); }
   mc::Options o; o.name = "g01"; return mc::Main(argc, argv, gMode == "view" ? views : gMode == "equal" ? equals : indices, o);
}
