// G02: every element-wise kernel, scalar product, norm and matrix-vector product against its definition.
#include "qd.h"
#include "math/typedefs.h"
#include "math/math_functions.h"
#include <complex>
#include <functional>
using namespace QDLIB;
typedef std::complex<double> cd;
static cd C(const dcomplex& d) { return cd(d._real, d._imag); }
// a kernel works on up to three vectors and a scalar; 'c' complex vector, 'd' real vector, 'C' complex scalar, 'D' real scalar
struct K { const char* name; const char* args; std::function<void(cVec**, dVec**, dcomplex, double)> run; std::function<cd(cd*, cd, double)> f; bool realResult; };
#define KV(n) (cv[n] ? cv[n] : 0)
static std::vector<K> kernels() {
   typedef cVec** CV; typedef dVec** DV; cd I1(0, 1);
   std::vector<K> k;
#define R(name, args, call, expr) k.push_back({ name, args, [](CV c, DV d, dcomplex z, double x) { call; }, [=](cd* v, cd z, double x) -> cd { return expr; }, false })
   // argument 0 is the result; v[i] the values of argument i before the call
   R("AddElements(A,B)", "cc", AddElements(c[0], c[1]), v[0] + v[1]);
   R("AddElements(A,B,z)", "ccC", AddElements(c[0], c[1], z), v[0] + v[1] * z);
   R("AddElements(A,B,x)", "ccD", AddElements(c[0], c[1], x), v[0] + v[1] * x);
   R("AddElementsEq(C,A,B)", "ccc", AddElementsEq(c[0], c[1], c[2]), v[1] + v[2]);
   R("ExpElements(A,B,z)", "ccC", ExpElements(c[0], c[1], z), std::exp(v[1] * z));
   R("ExpElements(A,d,z)", "cdC", ExpElements(c[0], d[1], z), std::exp(v[1] * z));
   R("Im(A)", "c", Im(c[0]), cd(v[0].imag(), 0));
   R("Im(A,B)", "cc", Im(c[0], c[1]), cd(v[1].imag(), 0));
   R("Re(A)", "c", Re(c[0]), cd(v[0].real(), 0));
   R("Re(A,B)", "cc", Re(c[0], c[1]), cd(v[1].real(), 0));
   R("MultElementsAdd(A,B,d)", "ccd", MultElementsAdd(c[0], c[1], d[2]), v[0] + v[1] * v[2]);
   R("MultElementsAdd(A,B,d,x)", "ccdD", MultElementsAdd(c[0], c[1], d[2], x), v[0] + v[1] * v[2] * x);
   R("MultElementsAdd(A,B,z)", "ccC", MultElementsAdd(c[0], c[1], z), v[0] + v[1] * z);
   R("MultElementsAdd(A,B,x)", "ccD", MultElementsAdd(c[0], c[1], x), v[0] + v[1] * x);
   R("MultElements(A,B)", "cc", MultElements(c[0], c[1]), v[0] * v[1]);
   R("MultElements(A,B,d)", "ccd", MultElements(c[0], c[1], d[2]), v[1] * v[2]);
   R("MultElements(A,B,d,x)", "ccdD", MultElements(c[0], c[1], d[2], x), v[1] * v[2] * x);
   R("MultElements(A,B,x)", "ccD", MultElements(c[0], c[1], x), v[0] * v[1] * x);
   R("MultElements(A,d)", "cd", MultElements(c[0], d[1]), v[0] * v[1]);
   R("MultElements(A,d,z)", "cdC", MultElements(c[0], d[1], z), v[0] * v[1] * z);
   R("MultElements(A,d,x)", "cdD", MultElements(c[0], d[1], x), v[0] * v[1] * x);
   R("MultElements(A,z)", "cC", MultElements(c[0], z), v[0] * z);
   R("MultElements(A,x)", "cD", MultElements(c[0], x), v[0] * x);
   R("MultElementsComplex(C,A,d,x)", "ccdD", MultElementsComplex(c[0], c[1], d[2], x), v[0] * v[1] * I1 * v[2] * x);
   R("MultElementsComplex(A,B,x)", "ccD", MultElementsComplex(c[0], c[1], x), v[0] * I1 * v[1] * x);
   R("MultElementsComplex(A,d,x)", "cdD", MultElementsComplex(c[0], d[1], x), v[0] * I1 * v[1] * x);
   R("MultElementsComplexEq(C,A,d,x)", "ccdD", MultElementsComplexEq(c[0], c[1], d[2], x), v[1] * v[2] * I1 * x);
   R("MultElementsConjugate(C,A,B,x)", "cccD", MultElementsConjugate(c[0], c[1], c[2], x), std::conj(v[1]) * v[2] * x);
   R("MultElementsConjugate(A,B,x)", "ccD", MultElementsConjugate(c[0], c[1], x), std::conj(v[0]) * v[1] * x);
   R("MultElementsCopy(C,A,B)", "ccc", MultElementsCopy(c[0], c[1], c[2]), v[1] * v[2]);
   R("MultElementsCopy(C,A,B,x)", "cccD", MultElementsCopy(c[0], c[1], c[2], x), v[1] * v[2] * x);
   R("MultElementsCopy(A,B,d)", "ccd", MultElementsCopy(c[0], c[1], d[2]), v[1] * v[2]);
   R("MultElementsCopy(A,B,d,x)", "ccdD", MultElementsCopy(c[0], c[1], d[2], x), v[1] * v[2] * x);
   R("MultElementsCopy(A,B,z)", "ccC", MultElementsCopy(c[0], c[1], z), v[1] * z);
   R("MultElementsCopy(A,B,x)", "ccD", MultElementsCopy(c[0], c[1], x), v[1] * x);
   R("MultElements(d,x)", "dD", MultElements(d[0], x), v[0] * x);
   R("Abs(d,A)", "dc", Abs(d[0], c[1]), cd(std::abs(v[1]), 0));
   // operators of the vector class
   R("A*=z", "cC", *c[0] *= z, v[0] * z);
   R("A=z", "cC", *c[0] = z, z);
   R("C=A+B", "ccc", if (c[0]->strides() == 1) *c[0] = *c[1] + *c[2]; else AddElementsEq(c[0], c[1], c[2]), v[1] + v[2]);
   R("C=A-B", "ccc", if (c[0]->strides() == 1) *c[0] = *c[1] - *c[2]; else for (lint i = 0; i < c[0]->size(); i++) (*c[0])[i] = (*c[1])[i] - (*c[2])[i], v[1] - v[2]);
   R("A+=B", "cc", *c[0] += *c[1], v[0] + v[1]);
   R("A-=B", "cc", *c[0] -= *c[1], v[0] - v[1]);
   R("C=elementwise_mult(A,B)", "ccc", if (c[0]->strides() == 1) *c[0] = elementwise_mult(*c[1], *c[2]); else MultElementsCopy(c[0], c[1], c[2]), v[1] * v[2]);
   R("d+=e", "dd", *d[0] += *d[1], v[0] + v[1]);
   R("d-=e", "dd", *d[0] -= *d[1], v[0] - v[1]);
   R("f=d*e", "ddd", if (d[0]->strides() == 1) *d[0] = elementwise_mult(*d[1], *d[2]); else for (lint i = 0; i < d[0]->size(); i++) (*d[0])[i] = (*d[1])[i] * (*d[2])[i], v[1] * v[2]);
   R("d*=x", "dD", *d[0] *= x, v[0] * x);
   R("d=x", "dD", *d[0] = x, cd(x, 0));
#undef R
   return k;
}
static const double AL[] = { 1.25, -0.75, 0.0, 2.0, -1.0, 0.5, -3.5 };
static double val(int pat, int arg, int i) { if (pat == 0) return AL[(arg * 3 + i * 2 + 1) % 7]; if (pat == 1) return AL[(arg + i * 5) % 7] * (arg + 1); return ((int64_t)(mc::mix(pat * 1000003 + arg * 1009 + i) % 4001) - 2000) / 1000.0; }
static bool close(cd a, cd b, double scale) { return std::abs(a - b) <= 2e-14 * (scale + std::abs(b)); }
static void run(mc::Ctx& c) {
   static std::vector<K> ks = kernels(); static const int SZ[] = { 1, 2, 3, 5, 8, 4, 7, 17 };
   int kind = c.pick(3, "kind");
   int pat = c.pick(c.bound(4, 12), "values");
   if (kind == 0) {
      const K& k = ks[c.pick(ks.size(), "kernel")]; int strides = 1 + c.pick(c.bound(3, 4), "strides"), n = SZ[c.pick(c.bound(5, 8), "size")];
      int nv = 0; std::string a = k.args; for (char x : a) if (x == 'c' || x == 'd') nv++;
      // aliasing: argument i shares the vector with an earlier argument of the same type
      int alias[3] = { 0, 1, 2 }; for (int i = 1; i < nv; i++) { std::vector<int> opt{ i }; for (int j = 0; j < i; j++) if (a[j] == a[i] && alias[j] == j) opt.push_back(j); alias[i] = opt[c.pick(opt.size(), "alias")]; }
      dcomplex z(1, 0); double x = 1; std::vector<dcomplex> ZS{ dcomplex(0.5, -1.25), dcomplex(0, 1), dcomplex(-2, 0), dcomplex(0, 0) }; std::vector<double> XS{ -1.5, 0.25, 0.0, 1.0 };
      if (a.find('C') != std::string::npos) z = c.of(ZS, "scalar"); if (a.find('D') != std::string::npos) x = c.of(XS, "scalar");
      c.doing("%s", k.name); c.step();
      cVec* cv[3] = { 0, 0, 0 }; dVec* dv[3] = { 0, 0, 0 }; std::vector<std::vector<cd>> old(3);
      for (int i = 0; i < nv; i++) {
         if (alias[i] != i) { cv[i] = cv[alias[i]]; dv[i] = dv[alias[i]]; old[i] = old[alias[i]]; continue; }
         for (int e = 0; e < n * strides; e++) old[i].push_back(a[i] == 'c' ? cd(val(pat, i, 2 * e), val(pat, i, 2 * e + 1)) : cd(val(pat, i, e), 0));
         if (a[i] == 'c') { cv[i] = new cVec(n * strides, strides); for (int e = 0; e < n * strides; e++) (*cv[i])[e] = dcomplex(old[i][e].real(), old[i][e].imag()); }
         else { dv[i] = new dVec(n * strides, strides); for (int e = 0; e < n * strides; e++) (*dv[i])[e] = old[i][e].real(); }
      }
      k.run(cv, dv, z, x);
      for (int i = 0; i < nv; i++) { lint sz = cv[i] ? cv[i]->size() : dv[i]->size(), st = cv[i] ? cv[i]->strides() : dv[i]->strides(); if (sz != n * strides || st != strides) c.fail(std::string("shape:") + k.name, "argument %d changed its shape", i); }
      for (int e = 0; e < n * strides; e++) {
         cd in[3]; double scale = 1; for (int i = 0; i < nv; i++) { in[i] = old[i][e]; scale *= 1 + std::abs(in[i]); }
         cd want = k.f(in, C(z), x), got = cv[0] ? C((*cv[0])[e]) : cd((*dv[0])[e], 0);
         if (!close(got, want, scale)) c.fail(std::string("value:") + k.name, "%s: element %d of %d x %d is (%.17g,%.17g) instead of (%.17g,%.17g), aliasing %d %d", k.name, e, strides, n, got.real(), got.imag(), want.real(), want.imag(), alias[1], alias[2]);
         for (int i = 1; i < nv; i++) if (alias[i] != 0) { cd now = cv[i] ? C((*cv[i])[e]) : cd((*dv[i])[e], 0); if (now != in[i]) c.fail(std::string("input:") + k.name, "%s changed element %d of argument %d", k.name, e, i); }
      }
      for (int i = 0; i < nv; i++) if (alias[i] == i) { delete cv[i]; delete dv[i]; }
      c.nontrivial();
   } else if (kind == 1) {      // reductions and matrices
      int what = c.pick(9, "function"); static const char* FN[] = { "a*b", "dot(d,e)", "norm", "MatVecMult", "matrix*vector", "VecMin/Max", "Matrix", "coloumn/diag", "Norm(d)" }; c.doing("%s", FN[what]); c.step();
      int strides = what < 3 || what == 5 || what == 8 ? 1 + c.pick(3, "strides") : 1, n = SZ[c.pick(5, "size")]; int N = n * strides;
      cVec a(N, strides), b(N, strides); dVec d(N, strides), e(N, strides); std::vector<cd> A, Bv; double scale = 0;
      for (int i = 0; i < N; i++) { a[i] = dcomplex(val(pat, 0, 2 * i), val(pat, 0, 2 * i + 1)); b[i] = dcomplex(val(pat, 1, 2 * i), val(pat, 1, 2 * i + 1)); d[i] = val(pat, 2, i); e[i] = val(pat, 3, i); A.push_back(C(a[i])); Bv.push_back(C(b[i])); scale += 20; }
      cVec a0(a), b0(b);
      if (what == 0) { cd w = 0; for (int i = 0; i < N; i++) w += std::conj(A[i]) * Bv[i]; cd g = C(a * b); if (!close(g, w, scale)) c.fail("value:product", "scalar product is (%g,%g) instead of (%g,%g)", g.real(), g.imag(), w.real(), w.imag()); cd s = C(a * a); double q = 0; for (auto& x : A) q += std::norm(x); if (!close(s, q, scale)) c.fail("value:square", "<a|a> is wrong"); }
      if (what == 1) { double w = 0; for (int i = 0; i < N; i++) w += d[i] * e[i]; if (!close(d * e, w, scale) || !close(dot_prod(d, e), w, scale) || !close(dot_product(d, e), w, scale)) c.fail("value:dot", "%g instead of %g", d * e, w); }
      if (what == 2) { double q = 0; for (int i = 0; i < N; i++) q += d[i] * d[i]; if (!close(norm(d), sqrt(q), scale)) c.fail("value:norm", "%g instead of %g", norm(d), sqrt(q)); }
      if (what == 8) { double q = 0; for (int i = 0; i < N; i++) q += d[i] * d[i]; if (!close(d.Norm(), sqrt(q), scale)) c.fail("value:Norm", "%g instead of %g", d.Norm(), sqrt(q)); }
      if (what == 3 || what == 4) {
         int mode = what == 4 ? 0 : c.pick(3, "mode"); bool cplx = what == 3 && c.flag("complex matrix"); int m = what == 4 ? n : SZ[c.pick(5, "rows")];      // m x n matrix
         cMat M(m, n); dMat D(m, n); std::vector<cd> W(m * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double re = val(pat, 4, 2 * (i * n + j)), im = cplx ? val(pat, 4, 2 * (i * n + j) + 1) : 0; W[i * n + j] = cd(re, im); M(i, j) = dcomplex(re, im); D(i, j) = re; }
         int in = mode == 0 ? n : m, out = mode == 0 ? m : n; cVec x(in), y(c.pick(2, "result size") ? out : out + 2);
         for (int i = 0; i < in; i++) x[i] = dcomplex(val(pat, 0, 2 * i), val(pat, 0, 2 * i + 1)); for (int i = 0; i < y.size(); i++) y[i] = dcomplex(7, 7);
         if (what == 4) { cVec r = D * x; y = r; } else if (cplx) MatVecMult(&y, &M, &x, mode > 0, mode == 2); else MatVecMult(&y, &D, &x, mode > 0, mode == 2);
         if (y.size() != out) c.fail("shape:matvec", "product of a %dx%d matrix (mode %d) has %d elements instead of %d", m, n, mode, (int)y.size(), out);
         for (int i = 0; i < out; i++) { cd w = 0; for (int j = 0; j < in; j++) { cd t = mode == 0 ? W[i * n + j] : W[j * n + i]; if (mode == 2) t = std::conj(t); w += t * cd(val(pat, 0, 2 * j), val(pat, 0, 2 * j + 1)); } if (!close(C(y[i]), w, 300)) c.fail("value:matvec", "element %d of the product with a %dx%d %s matrix (mode %d) is (%g,%g) instead of (%g,%g)", i, m, n, cplx ? "complex" : "real", mode, C(y[i]).real(), C(y[i]).imag(), w.real(), w.imag()); }
         for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (C(M(i, j)) != W[i * n + j] || D(i, j) != W[i * n + j].real()) c.fail("input:matvec", "matrix changed");
         for (int i = 0; i < in; i++) if (x[i]._real != val(pat, 0, 2 * i) || x[i]._imag != val(pat, 0, 2 * i + 1)) c.fail("input:matvec", "vector changed");
      }
      if (what == 5) { double mn = d[0], mx = d[0], ma = 0; for (int i = 0; i < N; i++) { mn = std::min(mn, d[i]); mx = std::max(mx, d[i]); ma = std::max(ma, std::abs(A[i])); } if (VecMin(d) != mn || VecMax(d) != mx || !close(VecMax(a), ma, 1)) c.fail("value:minmax", "minimum %g, maximum %g, largest %g instead of %g, %g, %g", VecMin(d), VecMax(d), VecMax(a), mn, mx, ma); }
      if (what == 6 || what == 7) {
         int m = SZ[c.pick(5, "rows")]; dMat D(m, n), E; cMat M(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { D(i, j) = val(pat, 4, i * n + j); M(i, j) = dcomplex(i + 1, j + 10); }
         if (what == 6) {
            if (D.rows() != m || D.cols() != n || D.sizeBytes() != m * n * sizeof(double)) c.fail("shape:matrix", "wrong shape");
            for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (&D(i, j) != D.begin() + j * m + i || &D(i, j) != D.begin(j) + i) c.fail("layout:matrix", "element %d,%d is not in coloumn order", i, j);
            E = D; D *= -2.0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (E(i, j) != val(pat, 4, i * n + j) || D(i, j) != -2 * E(i, j)) c.fail("value:matrix", "copy or scaling of element %d,%d", i, j);
            if (m == n) { E.transpose(); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (E(i, j) != val(pat, 4, j * n + i)) c.fail("value:transpose", "element %d,%d", i, j); }
            E.newsize(m, n + 1); E = 3.0; for (int i = 0; i < m; i++) for (int j = 0; j <= n; j++) if (E(i, j) != 3) c.fail("value:matrix", "fill");
         } else {
            for (int j = 0; j < n; j++) { dVec* v = D.coloumn(j); if (v->size() != m) c.fail("shape:coloumn", "size"); for (int i = 0; i < m; i++) if ((*v)[i] != D(i, j)) c.fail("value:coloumn", "element %d,%d", i, j); delete v; }
            dVec* v = D.diag(); if ((v != 0) != (m == n)) c.fail("value:diag", "diagonal of %dx%d", m, n); if (v) { for (int i = 0; i < n; i++) if ((*v)[i] != D(i, i)) c.fail("value:diag", "element %d", i); *v *= 3.0; D.diag(v); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (D(i, j) != (i == j ? 3 : 1) * val(pat, 4, i * n + j)) c.fail("value:setdiag", "element %d,%d", i, j); delete v; }
         }
      }
      for (int i = 0; i < N; i++) if (C(a[i]) != C(a0[i]) || C(b[i]) != C(b0[i])) c.fail(std::string("input:") + FN[what], "argument changed");
      c.nontrivial();
   } else {      // complex numbers: definition on the alphabet
      int f = c.pick(14, "function"); double re = AL[c.pick(7, "re")], im = AL[c.pick(7, "im")], re2 = 1, im2 = 0; if (f < 5 || f == 13) { re2 = AL[c.pick(7, "re2")]; im2 = AL[c.pick(7, "im2")]; }
      if (pat) c.prune();
      dcomplex z(re, im), w(re2, im2); cd Z(re, im), W(re2, im2); c.doing("complex function %d", f); c.step(); dcomplex t; auto bad = [&](cd g, cd x) { if (!close(g, x, 1 + std::abs(Z) * std::abs(W))) c.fail("complex:" + std::to_string(f), "function %d of (%g,%g) and (%g,%g) is (%.17g,%.17g) instead of (%.17g,%.17g)", f, re, im, re2, im2, g.real(), g.imag(), x.real(), x.imag()); };
      switch (f) {
         case 0: bad(C(z + w), Z + W); bad(C(z + re2), Z + re2); t = z; t += w; bad(C(t), Z + W); break;
         case 1: bad(C(z - w), Z - W); bad(C(z - re2), Z - re2); t = z; t -= w; bad(C(t), Z - W); break;
         case 2: bad(C(z * w), Z * W); bad(C(z * re2), Z * re2); bad(C(re2 * z), Z * re2); t = z; t *= w; bad(C(t), Z * W); t = z; t *= re2; bad(C(t), Z * re2); break;
         case 3: if (W == 0.0) break; bad(C(z / w), Z / W); t = z; t /= w; bad(C(t), Z / W); bad(C(re / w), re / W); break;
         case 4: if (re2 == 0) break; bad(C(z / re2), Z / re2); break;
         case 5: bad(C(z.conj()), std::conj(Z)); t = z; t.conjugate(); bad(C(t), std::conj(Z)); bad(C(conj(z)), std::conj(Z)); break;
         case 6: bad(C(cexp(z)), std::exp(Z)); break;
         case 7: bad(C(cexpI(re)), std::exp(cd(0, re))); break;
         case 8: bad(cabs(z), std::abs(Z)); break;
         case 9: if (Z == 0.0) break; bad(phase(z), std::arg(Z)); break;
         case 10: { dcomplex r = csqrt(z); bad(C(r * r), Z); if (r._real < -1e-14) c.fail("complex:sqrt", "not the principal root of (%g,%g)", re, im); break; }
         case 11: { int n = c.pick(17, "power") - 8; cd x = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) x *= n < 0 ? cd(0, -1) : cd(0, 1); bad(C(cpow(I, n)), x); break; }
         case 12: bad(C(I * z), cd(0, 1) * Z); bad(C(z * I), cd(0, 1) * Z); bad(C(I * re), cd(0, re)); bad(C(re * I), cd(0, re)); bad(I * I, -1); break;
         case 13: { double ev[2]; double** vec = new double*[2]; vec[0] = new double[2]; vec[1] = new double[2]; diag22symm(re, im, re2, ev); double e2[2]; diag22symm(re, im, re2, e2, vec);      // eigenvalues and vectors of a symmetric 2x2 matrix
            for (int s = 0; s < 2; s++) { bool ok = false; for (int q = 0; q < 2; q++) if (fabs(ev[s] - e2[q]) < 1e-13) ok = true; if (!ok) c.fail("diag22:values", "the two forms disagree for %g %g %g", re, im, re2); }
            double M[2][2] = { { re, re2 }, { re2, im } }; if (fabs(ev[0] + ev[1] - re - im) > 1e-13 || fabs(ev[0] * ev[1] - (re * im - re2 * re2)) > 1e-12) c.fail("diag22:values", "eigenvalues %g %g of %g %g %g", ev[0], ev[1], re, im, re2);
            // vectors are stored by row or by coloumn: one of both must diagonalise the matrix with the eigenvalues in order
            auto test = [&](bool col) { for (int s = 0; s < 2; s++) { double x = col ? vec[0][s] : vec[s][0], y = col ? vec[1][s] : vec[s][1]; if (fabs(x * x + y * y - 1) > 1e-13) return false; if (fabs(M[0][0] * x + M[0][1] * y - e2[s] * x) > 1e-12 || fabs(M[1][0] * x + M[1][1] * y - e2[s] * y) > 1e-12) return false; } return true; };
            bool r = test(false), co = test(true); for (int i = 0; i < 2; i++) delete[] vec[i]; delete[] vec; if (!r && !co) c.fail("diag22:vectors", "eigenvectors of %g %g %g", re, im, re2); break; }
      }
      c.nontrivial();
   }
}
#ifndef KERNELS_ONLY
int main(int argc, char** argv) { mc::Options o; o.name = "G02"; return mc::Main(argc, argv, run, o); }
#endif
