// O04: the matrix of every operator on all unit vectors against its definition
#include "ops.h"
using namespace ops;
static void run(mc::Ctx& c) {
   const auto& v = simple(); int i = c.big(v.size(), "operator"); const Case& k = v[i]; if (!k.def) c.prune();
   int n = k.wf.size(), form = c.pick(2, "form"); c.nontrivial(); c.doing("%s", k.name.c_str()); c.step();
   Operator* o = ready(k); Mat want = k.def(), got(n);
   if (form == 0) got = measure(o, k.wf);
   else { WaveFunction *b = make(k.wf, CV(n)), *q = make(k.wf, CV(n)); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) { put(b, k.wf, unit(n, x)); put(q, k.wf, unit(n, y)); dcomplex r = o->MatrixElement(b, q); got(x, y) = cd(r._real, r._imag) / vol(k.wf); } DELETE_WF(b); DELETE_WF(q); }
   double tol = 1e-11 * (1 + mx(want.a));
   if (k.alt && diff(got, want) > tol && diff(got, k.alt()) <= tol) c.fail("hofd-lower-edge:" + k.name.substr(0, k.name.find(" on ")), "%s: the points at the lower edge are coupled to the upper edge without periodic boundaries", k.name.c_str());
   for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) if (!(std::abs(got(x, y) - want(x, y)) <= tol)) c.fail("matrix:" + k.name.substr(0, k.name.find(" on ")), "%s: element %d,%d is (%.15g,%.15g) instead of (%.15g,%.15g)", k.name.c_str(), x, y, got(x, y).real(), got(x, y).imag(), want(x, y).real(), want(x, y).imag());
   c.outcome(mc::Hash().i(i).h); DELETE_OP(o); CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "O04"; return mc::Main(argc, argv, run, o); }
