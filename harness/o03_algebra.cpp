// O03: composed operators against the algebra of their parts
#include "ops.h"
using namespace ops;
static const Case& letter(const std::string& n) { return byName(n + " on grid4"); }
static const char* LET[] = { "GridPotential", "GridMomentum", "GridKick", "GridNabla", "GridDipole", "Projection 2", "GridPosition", "GridNablaSq", "GridHOFD deriv1 dim0", "Gobbler nip right" };
struct X { Operator* o = 0; Mat m; bool td = false, herm = true; std::string t; };   // an operator, what it has to do, and the flags of its parts
static X make1(int l) { const Case& k = letter(LET[l]); X x; x.o = k.build(); x.m = k.def(); x.td = k.attr & LASER; x.herm = x.o->Hermitian(); x.t = LET[l]; return x; }
static X scalar(cd v) { X x; x.o = init(new OScalar(), PC().set("value", v.real()).set("im", v.imag())); x.m = Mat(4, v); x.herm = v.imag() == 0; x.t = "Scalar"; return x; }
static void join(X& r, const X& p) { r.td |= p.td; r.herm &= p.herm; }
static X sum(mc::Ctx&, std::vector<X> p, bool named = false) { X r; OSum* o = new OSum(); r.m = Mat(p[0].m.n); r.t = "Sum("; int i = 0; for (X& x : p) { if (named) o->Add("op" + std::to_string(i++), x.o); else o->Add(x.o); r.m = r.m + x.m; join(r, x); r.t += x.t + " "; } r.o = o; r.t += ")"; return r; }
static X product(mc::Ctx&, std::vector<X> p, bool named = false) { X r; OProduct* o = new OProduct(); r.m = Mat(p[0].m.n, 1); r.t = "Product("; int i = 0; for (X& x : p) { if (named) o->Add("op" + std::to_string(i++), x.o); else o->Add(x.o); r.m = r.m * x.m; join(r, x); r.t += x.t + " "; } r.o = o; r.t += ")"; return r; }
// a block matrix: element e[i][j] or nothing
static X blocks(int n, std::vector<std::vector<X>> e, int herm, int unity) {
   X r; OMultistate* o = new OMultistate(); PC p; if (!herm) p.set("nonhermitian", true); p.set("unity", (bool)unity).set("states", n); o->Init(p);
   int b = 4; std::vector<std::tuple<int, int, Mat>> m; r.t = "Multistate("; if (!herm) r.herm = false;
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if (e[i][j].o) { o->Add(e[i][j].o, i, j); m.push_back({ i, j, e[i][j].m }); join(r, e[i][j]); r.t += std::to_string(i) + std::to_string(j) + "=" + e[i][j].t + " "; }
      else if (i == j) { if (unity) m.push_back({ i, j, Mat(b, 1) }); }
      else if (herm && e[j][i].o) m.push_back({ i, j, adj(e[j][i].m) });
   }
   r.m = block(n, b, m); r.o = o; r.t += herm ? ")" : "nonhermitian)"; if (unity) r.t += " unity"; return r;
}
static void same(mc::Ctx& c, const X& x, const CV& got, const CV& want, const char* what) {
   double tol = 1e-10 * (1 + mx(want) + mx(x.m.a)); for (size_t i = 0; i < got.size(); i++) if (!(std::abs(got[i] - want[i]) <= tol)) c.fail(what, "%s: element %zu is (%.12g,%.12g) instead of (%.12g,%.12g)", x.t.c_str(), i, got[i].real(), got[i].imag(), want[i].real(), want[i].imag());
}
static void check(mc::Ctx& c, X& x, const Wf& f) {
   c.doing("%s", x.t.c_str()); c.step(); c.nontrivial();
   if (x.o->isTimeDep() != x.td) c.fail("time dependence", "%s: isTimeDep() is %d", x.t.c_str(), (int)x.o->isTimeDep());
   if (!x.herm && x.o->Hermitian()) c.fail("hermiticity", "%s: has a part that is not Hermitian, but reports to be Hermitian", x.t.c_str());
   clockOf()->TimeStep(2); x.o->Clock(clockOf()); WaveFunction *s = make(f, vec(f.size(), 3)), *d = make(f, vec(f.size(), 4)); x.o->Init(s);
   if (x.o->isTimeDep() != x.td) c.fail("time dependence", "%s: isTimeDep() is %d after Init", x.t.c_str(), (int)x.o->isTimeDep());
   if (!x.herm && x.o->Hermitian()) c.fail("hermiticity", "%s: reports to be Hermitian after Init", x.t.c_str());
   CV v = vec(f.size(), 3), w = x.m * v;
   auto all = [&](const Mat& m, const char* tag) {
      std::string k = std::string("blocks") + tag; Mat got = measure(x.o, f);
      for (int j = 0; j < m.n; j++) { CV a(m.n), b(m.n); for (int i = 0; i < m.n; i++) { a[i] = got(i, j); b[i] = m(i, j); } same(c, x, a, b, (std::string("matrix") + tag).c_str()); }
      CV w = m * v, z = vec(f.size(), 4), zw = z; for (size_t i = 0; i < w.size(); i++) zw[i] += w[i];
      put(s, f, v); x.o->Apply(s); same(c, x, get(s, f), w, (std::string("in place") + tag).c_str());
      put(s, f, v); put(d, f, z); x.o->ApplyAdd(d, s); same(c, x, get(d, f), zw, (std::string("add") + tag).c_str()); same(c, x, get(s, f), v, (std::string("source") + tag).c_str());
      if (!x.td) { put(d, f, z); x.o->ApplyParent(d, s); same(c, x, get(d, f), w, (std::string("parent") + tag).c_str()); }
      put(d, f, z); dcomplex e = x.o->MatrixElement(d, s); same(c, x, { cd(e._real, e._imag) }, { vol(f) * dot(z, w) }, (std::string("element") + tag).c_str());
   };
   all(x.m, ""); 
   if (c.flag("adjoint")) { x.o->Conj(true); all(adj(x.m), " of the adjoint"); x.o->Conj(false); all(x.m, " after switching back"); }
   c.outcome(mc::Hash().i((int)(mx(x.m.a) * 1e6)).i(x.td).i(x.herm).h);
   DELETE_WF(s); DELETE_WF(d); CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
static std::string mode;
static void run(mc::Ctx& c) {
   Wf g = grid({ 4 }); int nl = c.bound(8, 10);
   if (mode == "flat") {             // sums and products of up to 3 operators
      int kind = c.pick(4, "kind"), n = 1 + c.pick(3, "length"); std::vector<X> p; if (n == 3) nl = c.bound(6, 10);
      for (int i = 0; i < n; i++) p.push_back(make1(c.pick(nl, "part")));
      if (kind > 1 && n == 3) c.prune();
      X x = kind % 2 ? product(c, p, kind > 1) : sum(c, p, kind > 1); check(c, x, g);
   } else if (mode == "nested") {    // (a . b) . c and c . (a . b), and scalar factors
      int nl2 = c.bound(4, 6); bool outer = c.flag("outer product"), inner = c.flag("inner product"), left = c.flag("nested first"), shared = c.flag("shared");
      X a = make1(c.pick(nl2, "a")), b = c.flag("scalar b") ? scalar(cd(-1.5, 0.5 * c.pick(2, "imaginary part"))) : make1(c.pick(nl2, "b")); X in = inner ? product(c, { a, b }) : sum(c, { a, b });
      X z = shared ? a : make1(c.pick(nl2, "c")); std::vector<X> p = { in, z }; if (!left) std::swap(p[0], p[1]);
      X x = outer ? product(c, p) : sum(c, p); check(c, x, g);
   } else if (mode == "set") {       // replaced elements
      bool prod = c.flag("product"), named = c.flag("named"); int n = 1 + c.pick(2, "length"), at = c.pick(n, "position"); std::vector<X> p, q; int nl2 = c.bound(5, 8);
      for (int i = 0; i < n; i++) { X x = make1(c.pick(nl2, "part")); p.push_back(x); q.push_back(x); }
      X r = make1(c.pick(nl2, "replacement")); q[at] = r; X x = prod ? product(c, p, named) : sum(c, p, named); OList* o = dynamic_cast<OList*>(x.o);
      if (named) o->Set("op" + std::to_string(at), r.o); else o->Set(at, r.o);
      if (o->Get(at) != r.o || o->Size() != n) c.fail("list", "element %d is not the one that was set", at);
      x.m = Mat(4, prod ? 1 : 0); x.td = false; x.herm = true; x.t += " with " + std::to_string(at) + "=" + r.t; for (X& y : q) { x.m = prod ? x.m * y.m : x.m + y.m; join(x, y); } check(c, x, g);
   } else if (mode == "matrix2") {   // all 2x2 block matrices
      bool herm = c.flag("hermitian"), unity = c.flag("unity"); int nl2 = c.bound(4, 6); std::vector<std::vector<X>> e(2, std::vector<X>(2)); int set = 0;
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int l = c.pick(1 + nl2, "element"); if (l) e[i][j] = make1(l - 1), set++; }
      X x = blocks(2, e, herm, unity); check(c, x, Wf(grid({ 4 }), 2));
   } else if (mode == "matrix3") {   // 3x3: every off-diagonal none, above, below, both
      bool herm = c.flag("hermitian"), unity = c.flag("unity"); std::vector<std::vector<X>> e(3, std::vector<X>(3)); int k = 0;
      for (int i = 0; i < 3; i++) { if (c.pick(2, "diagonal")) e[i][i] = make1(i == 2 ? 7 : 0); for (int j = i + 1; j < 3; j++) { int w = c.pick(4, "coupling"); static const int L[] = { 2, 4, 1 }; if (w & 1) e[i][j] = make1(L[k]); if (w & 2) e[j][i] = make1(w == 3 ? 6 : L[k]); k++; } }
      X x = blocks(3, e, herm, unity); check(c, x, Wf(grid({ 4 }), 3));
   } else {                          // lists of block matrices and block matrices of lists
      bool herm = c.flag("hermitian"), prod = c.flag("product"); Wf f(grid({ 4 }), 2); X x;
      auto low = [&](int a, int b) { int p = c.pick(3, "placement"); std::vector<std::vector<X>> e(2, std::vector<X>(2)); e[0][0] = make1(a); if (p == 1) e[1][1] = make1(7); if (p == 2) e[1][0] = make1(b); else e[0][1] = make1(b); return blocks(2, e, herm, c.flag("unity")); };
      if (c.flag("list outside")) { X a = low(0, 2), b = low(7, c.pick(2, "coupling") ? 1 : 4); x = prod ? product(c, { a, b }) : sum(c, { a, b }); }
      else { std::vector<std::vector<X>> e(2, std::vector<X>(2)); int at = c.pick(4, "position"); X a = make1(c.pick(4, "a")), b = make1(c.pick(4, "b")); e[at / 2][at % 2] = prod ? product(c, { a, b }) : sum(c, { a, b }); int q = c.pick(4, "position of the shared part"); if (q != at) e[q / 2][q % 2] = a; x = blocks(2, e, herm, c.flag("unity")); }
      check(c, x, f);
   }
}
int main(int argc, char** argv) { mode = argv[1]; GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "O03"; return mc::Main(argc - 1, argv + 1, run, o); }
