// O02: the hermiticity flag and the adjoint switch of every operator against its measured matrix
#include "ops.h"
using namespace ops;
static void same(mc::Ctx& c, const Case& k, const Mat& got, const Mat& want, const char* what) {
   double tol = 1e-10 * (1 + mx(want.a)); std::string key = std::string(k.alt && diff(got, k.alt()) <= tol ? "hofd-lower-edge" : what) + ":" + k.name.substr(0, k.name.find(" on "));
   for (int x = 0; x < got.n; x++) for (int y = 0; y < got.n; y++) if (!(std::abs(got(x, y) - want(x, y)) <= tol)) c.fail(key, "%s: element %d,%d is (%.12g,%.12g) instead of (%.12g,%.12g)", k.name.c_str(), x, y, got(x, y).real(), got(x, y).imag(), want(x, y).real(), want(x, y).imag());
}
static void run(mc::Ctx& c) {
   const auto& v = every(); int i = c.big(v.size(), "operator"); const Case& k = v[i]; c.doing("%s", k.name.c_str()); c.step(); c.nontrivial();
   int what = c.pick(3, "what"); if (what && k.attr & NOTEXACT) c.prune(); Operator* o = ready(k); bool herm = o->Hermitian();
   if (what == 0) {       // Hermitian matrix and real expectation values
      Mat m = measure(o, k.wf); int n = m.n; c.outcome(mc::Hash().i(i).i(herm).h);
      if (o->Hermitian() != herm) c.fail("flag changed", "%s", k.name.c_str());
      if (herm && !(k.attr & NOTEXACT)) {
         same(c, k, m, adj(m), "hermitian");
         for (int s = 0; s < 3; s++) { CV x = vec(n, 20 + s), y = vec(n, 30 + s); WaveFunction *a = make(k.wf, x), *b = make(k.wf, y); dcomplex p = o->MatrixElement(a, b), q = o->MatrixElement(b, a), e = o->MatrixElement(a, a); double t = 1e-9 * (1 + mx(m.a) * mx(x) * mx(y) * n);
            if (!(std::abs(cd(p._real, p._imag) - cd(q._real, -q._imag)) <= t)) c.fail("elements:" + k.name.substr(0, k.name.find(" on ")), "%s: <a|Ob> is not the conjugate of <b|Oa>", k.name.c_str());
            if (!(std::abs(e._imag) <= t)) c.fail("expectation:" + k.name.substr(0, k.name.find(" on ")), "%s: <a|Oa> has imaginary part %g", k.name.c_str(), e._imag);
            double ex = o->Expec(a); if (k.name.find("Gobbler") && !(std::abs(ex - e._real) <= t)) c.fail("expec:" + k.name.substr(0, k.name.find(" on ")), "%s: Expec is %g, <a|Oa> is %g", k.name.c_str(), ex, e._real); DELETE_WF(a); DELETE_WF(b); }
      }
   } else if (what == 1) { // switched after use, in all forms, twice
      Mat m = measure(o, k.wf), ma = adj(m); WaveFunction *s = make(k.wf, vec(m.n, 3)), *d = make(k.wf, vec(m.n, 4));
      auto forms = [&](const Mat& w, const char* t) {
         same(c, k, measure(o, k.wf), w, t); CV in = vec(m.n, 3), z = vec(m.n, 4), r = w * in; auto eq = [&](CV got, CV want, const char* f) { double tol = 1e-10 * (1 + mx(want) + mx(w.a)); for (size_t q = 0; q < got.size(); q++) if (!(std::abs(got[q] - want[q]) <= tol)) c.fail(std::string(t) + " " + f + ":" + k.name.substr(0, k.name.find(" on ")), "%s: %s %s differs at %zu", k.name.c_str(), t, f, q); };
         put(s, k.wf, in); o->Apply(s); eq(get(s, k.wf), r, "in place"); put(s, k.wf, in); put(d, k.wf, z); o->ApplyAdd(d, s); CV zr = z; for (size_t q = 0; q < zr.size(); q++) zr[q] += r[q]; eq(get(d, k.wf), zr, "add");
         put(d, k.wf, z); dcomplex e = o->MatrixElement(d, s); eq({ cd(e._real, e._imag) }, { vol(k.wf) * dot(z, r) }, "element"); };
      int hist = c.pick(c.bound(8, 16), "switches"); bool on = false;
      for (int b = 0; b < (c.thorough() ? 4 : 3); b++) { bool w = hist >> b & 1; o->Conj(w); if (o->Conj() != w) c.fail("switch", "%s: Conj() is not what was set", k.name.c_str()); forms(w ? ma : m, w ? "adjoint" : "switched back"); }
      (void)on; DELETE_WF(s); DELETE_WF(d);
   } else {               // switched before initialisation
      Mat m = measure(o, k.wf); Operator* p = k.build(); p->Conj(true); clockOf()->TimeStep(2); p->Clock(clockOf()); WaveFunction* w = make(k.wf, vec(m.n, 1)); p->Init(w); DELETE_WF(w); same(c, k, measure(p, k.wf), adj(m), "adjoint before init"); p->Conj(false); same(c, k, measure(p, k.wf), m, "switched back");
   }
   CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "O02"; return mc::Main(argc, argv, run, o); }
