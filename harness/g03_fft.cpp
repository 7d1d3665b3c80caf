// G03: histories of transforms, representation switches, copies and buffer changes against the defining sums.
#include "objs.h"
#include "qdlib/TransformFFT.h"
#include "fft/fft.h"
#include <complex>
#include <optional>
using namespace QDLIB; using namespace objs; typedef std::complex<double> cd; typedef std::vector<cd> V;
static std::string gMode = "ops";
struct Shape { std::vector<int> n; };
static const std::vector<std::vector<int>> SH = { {6}, {3, 2}, {2, 3}, {2, 3, 2}, {5}, {2, 2, 2} };
static ParamContainer params(const std::vector<int>& n) { ParamContainer p; p.SetValue("dims", (int)n.size()); for (size_t i = 0; i < n.size(); i++) { auto s = std::to_string(i); p.SetValue("N" + s, n[i]); p.SetValue("xmin" + s, -1.0 - i); p.SetValue("xmax" + s, 1.5 + 2 * i); } return p; }
static size_t total(const std::vector<int>& n) { size_t t = 1; for (int x : n) t *= x; return t; }
static V dft1(const V& x, const std::vector<int>& n, int d, int sign) {
   size_t low = 1; for (int i = 0; i < d; i++) low *= n[i]; V o(x.size());
   for (size_t i = 0; i < x.size(); i++) { int k = (i / low) % n[d]; size_t b = i - k * low; cd s = 0; for (int j = 0; j < n[d]; j++) s += x[b + j * low] * std::polar(1.0, sign * 2 * M_PI * ((j * k) % n[d]) / n[d]); o[i] = s; }
   return o;
}
static V dft(V x, const std::vector<int>& n, int sign) { for (size_t d = 0; d < n.size(); d++) x = dft1(x, n, d, sign); return x; }
static V get(cVec* w) { V r; for (lint i = 0; i < w->lsize(); i++) r.push_back(cd(w->begin(0)[i]._real, w->begin(0)[i]._imag)); return r; }
static void put(cVec* w, const V& v) { for (size_t i = 0; i < v.size(); i++) w->begin(0)[i] = dcomplex(v[i].real(), v[i].imag()); }
static double err(const V& a, const V& b) { double e = 0, m = 0; for (size_t i = 0; i < a.size(); i++) { e = std::max(e, std::abs(a[i] - b[i])); m = std::max(m, std::abs(b[i])); } return m > 0 ? e / m : e; }
struct Slot {
   WFGridCartesian* w = 0; std::vector<int> n; bool k = false; std::optional<V> live, other; unsigned partial = 0;
};
static void check(mc::Ctx& c, Slot& s, const char* after) {
   if (s.w->IsKspace() != s.k) c.fail(std::string("flag:") + after, "reports k-space=%d instead of %d", (int)s.w->IsKspace(), (int)s.k);
   if ((size_t)s.w->lsize() != total(s.n) || (size_t)s.w->GridSystem::Size() != total(s.n)) c.fail(std::string("size:") + after, "%d points, grid %d", (int)s.w->lsize(), (int)s.w->GridSystem::Size());
   if (s.live) { V g = get(s.w); double e = err(g, *s.live); if (!(e < 1e-12)) c.fail(std::string("content:") + after, "%s content is wrong by %g (relative)", s.k ? "momentum" : "position", e); }
}
static V pattern(size_t n, int seed) { V v(n); for (size_t i = 0; i < n; i++) v[i] = cd(value(1, seed + 2 * i), value(1, seed + 2 * i + 1)); return v; }
static void ops(mc::Ctx& c) {
   fftw_forget_wisdom();
   if (gMode == "wisdom" && access("wisdom", F_OK)) { FILE* f = fopen("wisdom", "w"); fputs("none", f); fclose(f); }   // an unusable file selects the measured plans
   bool opt = gMode == "optimize" || gMode == "wisdom";
   bool few = opt && !c.thorough(); int cfg = few ? 1 : c.pick(3, "shape"); static const int S0[] = { 0, 1, 3 }, S1[] = { 2, 1, 5 };
   TransformFFT T; Slot s[2];
   for (int i = 0; i < 2; i++) { s[i].w = new WFGridCartesian(); s[i].n = SH[i ? S1[cfg] : S0[cfg]]; auto p = params(s[i].n); s[i].w->Init(p); s[i].live = pattern(total(s[i].n), 100 * i); put(s[i].w, *s[i].live); }
   int depth = c.bound(opt ? 3 : 4, opt ? 4 : 5), seed = 1000;
   for (int d = 0; d < depth; d++) {
      struct Op { int k, i, a; }; std::vector<Op> o; o.push_back({ 99, 0, 0 });
      for (int i = 0; i < 2; i++) { Slot& x = s[i];
         if (x.live) {
            if (!x.k) o.push_back({ 0, i, 0 }); else o.push_back({ 1, i, 0 });
            for (size_t m = 0; m < x.n.size(); m++) { bool in = x.partial >> m & 1; if (!x.k || x.partial) if (!in) o.push_back({ 2, i, (int)m }); if (x.k || in) o.push_back({ 3, i, (int)m }); }
            o.push_back({ 4, i, 0 });
         }
         o.push_back({ 5, i, 0 }); o.push_back({ 6, i, 0 }); o.push_back({ 7, i, 0 }); o.push_back({ 8, i, 0 }); o.push_back({ 9, i, 0 });
         if (cfg < 2 && !few) for (int t = 0; t < 3; t++) if (SH[t] != x.n) o.push_back({ 10, i, t });
      }
      Op p = c.of(o, "op"); if (p.k == 99) break;
      Slot& x = s[p.i]; Slot& y = s[!p.i]; const char* nm = "";
      c.step(); c.nontrivial();
      switch (p.k) {
      case 0: nm = "forward"; T.Forward(x.w); x.other = x.live; x.live = dft(*x.live, x.n, -1); x.k = true; x.partial = 0; if (std::fabs(T.Normalization() * total(x.n) - 1) > 1e-14) c.fail("normalization", "%g for %zu points", T.Normalization(), total(x.n)); break;
      case 1: nm = "backward"; T.Backward(x.w); x.other = x.live; x.live = dft(*x.live, x.n, 1); x.k = false; x.partial = 0; break;
      case 2: { nm = "forward-dim"; bool chain = x.k; T.Forward(x.w, p.a); if (chain) x.other.reset(); else x.other = x.live; x.live = dft1(*x.live, x.n, p.a, -1); x.k = true; x.partial |= 1u << p.a; break; }
      case 3: nm = "backward-dim"; T.Backward(x.w, p.a); x.other = x.live; x.live = dft1(*x.live, x.n, p.a, 1); if (!x.k) x.other.reset(); x.k = false; x.partial &= ~(1u << p.a); break;
      case 4: { nm = "copy"; *(WaveFunction*)y.w = (WaveFunction*)x.w; y.n = x.n; y.k = x.k; y.live = x.live; y.other.reset(); y.partial = x.partial; break; }
      case 5: nm = "switch"; x.w->IsKspace(!x.k); x.k = !x.k; std::swap(x.live, x.other); x.partial = 0; break;
      case 6: nm = "write"; x.live = pattern(total(x.n), seed += 50); put(x.w, *x.live); x.partial = 0; break;
      case 7: nm = "retire"; x.w->Retire(); x.w->Reaquire(); x.live.reset(); x.other.reset(); break;
      case 8: nm = "plan"; x.w->fft(); break;
      case 9: { nm = "instance"; WaveFunction* w = x.w->NewInstance(); DELETE_WF(x.w); x.w = (WFGridCartesian*)w; x.live = pattern(total(x.n), seed += 50); put(x.w, *x.live); x.k = false; x.other.reset(); x.partial = 0; break; }
      case 10: nm = "reshape"; { auto q = params(SH[p.a]); x.w->Init(q); } x.n = SH[p.a]; x.partial = 0; break;      // same number of points: contents are not touched
      }
      c.doing("%s", nm); c.log("%s of %d", nm, p.i);
      check(c, s[0], nm); check(c, s[1], nm);
      // scalar product in either representation
      if (x.live && p.k != 7) { cd e = 0; for (auto z : *x.live) e += std::conj(z) * z; double f = 1; for (int i = 0; i < (int)x.n.size(); i++) { double l = x.w->Xmax(i) - x.w->Xmin(i); f *= x.k ? 2 * M_PI / l : l / (x.n[i] - 1); }
         dcomplex g = *x.w * (WaveFunction*)x.w; if (std::abs(cd(g._real, g._imag) - e * f) > 1e-12 * std::abs(e * f) + 1e-300) c.fail("norm", "scalar product %g instead of %g", g._real, (e * f).real()); }
   }
   uint64_t h = 7; for (auto& x : s) { h = mc::mix(h * 31 + x.k + 2 * x.partial + x.n.size() * 100 + x.n[0] * 1000 + (x.live ? 1 << 20 : 0)); if (x.live) for (auto z : *x.live) h = mc::mix(h ^ (uint64_t)llround(z.real() * 1e6)); DELETE_WF(x.w); } c.outcome(h);
}
// several components: transforms of the components, switches and copies of the whole
static void multi(mc::Ctx& c) {
   fftw_forget_wisdom();
   struct St { std::vector<int> n; bool k; std::optional<V> live, other; }; struct Ms { WFMultistate* m; std::vector<St> s; bool k; };
   int ns = 1 + c.pick(3, "states"), sh = c.pick(2, "shape") ? 4 : 1; TransformFFT T; Ms m[2];
   for (int i = 0; i < 2; i++) { m[i].m = new WFMultistate(); m[i].k = false;
      for (int j = 0; j < ns; j++) { auto w = new WFGridCartesian(); auto n = SH[i && c.pick(j ? 1 : 2, "other shape") ? 0 : sh]; if (i) n = m[0].s[0].n; auto p = params(n); w->Init(p); V v = pattern(total(n), 100 * i + 10 * j); put(w, v); m[i].m->Add(w, j); m[i].s.push_back({ n, false, v, {} }); }
      m[i].m->Init(ns); }
   int seed = 5000, depth = c.bound(4, 6);
   for (int d = 0; d < depth; d++) {
      int i = c.pick(2, "which"), op = c.pick(7, "op"); Ms& x = m[i]; Ms& y = m[!i]; const char* nm = "";
      if (op == 0) break; c.step(); c.nontrivial();
      if (op == 1 || op == 2) {      // transform all components and tell the container
         bool fwd = op == 1; for (auto& s : x.s) if (!s.live) c.prune(); if (x.k == fwd) c.prune();
         nm = fwd ? "forward" : "backward";
         for (int j = 0; j < ns; j++) { auto& s = x.s[j]; if (fwd) T.Forward(x.m->State(j)); else T.Backward(x.m->State(j)); s.other = s.live; s.live = dft(*s.live, s.n, fwd ? -1 : 1); s.k = fwd; }
         x.m->IsKspace(fwd); x.k = fwd;
      } else if (op == 3) { nm = "switch"; x.m->IsKspace(!x.k); x.k = !x.k; for (auto& s : x.s) { s.k = x.k; std::swap(s.live, s.other); } }
      else if (op == 4) { nm = "copy"; for (auto& s : x.s) if (!s.live) c.prune(); *(WaveFunction*)y.m = (WaveFunction*)x.m; y.k = x.k; y.s = x.s; for (auto& s : y.s) s.other.reset(); }
      else if (op == 5) { nm = "write"; for (int j = 0; j < ns; j++) { auto& s = x.s[j]; s.live = pattern(total(s.n), seed += 50); for (size_t e = 0; e < s.live->size(); e++) x.m->begin(j)[e] = dcomplex((*s.live)[e].real(), (*s.live)[e].imag()); } }
      else { nm = "instance"; WFMultistate* w = (WFMultistate*)x.m->NewInstance(); DELETE_WF(x.m); x.m = w; x.k = false; for (int j = 0; j < ns; j++) { auto& s = x.s[j]; s.k = false; s.other.reset(); s.live = pattern(total(s.n), seed += 50); for (size_t e = 0; e < s.live->size(); e++) w->begin(j)[e] = dcomplex((*s.live)[e].real(), (*s.live)[e].imag()); } }
      c.doing("%s", nm); c.log("%s of %d", nm, i);
      for (auto& z : m) {
         if (((WaveFunction*)z.m)->IsKspace() != z.k) c.fail(std::string("flag:") + nm, "multistate reports k-space=%d", (int)((WaveFunction*)z.m)->IsKspace());
         if (z.m->strides() != ns) c.fail("strides", "%d", (int)z.m->strides());
         for (int j = 0; j < ns; j++) { WaveFunction* w = z.m->State(j); auto& s = z.s[j];
            if (w->IsKspace() != s.k) c.fail(std::string("flag:") + nm, "state %d reports k-space=%d", j, (int)w->IsKspace());
            if (z.m->begin(j) != w->begin(0) || z.m->lsize() != w->lsize()) c.fail(std::string("link:") + nm, "stride %d is not the storage of its state", j);
            if (s.live) { double e = err(get(w), *s.live); if (!(e < 1e-12)) c.fail(std::string("content:") + nm, "state %d is wrong by %g", j, e); } }
      }
   }
   for (auto& z : m) DELETE_WF(z.m);
}
// every shape and every unit vector: the transform is the defining sum
static void sums(mc::Ctx& c) {
   fftw_forget_wisdom();
   int nd = 1 + c.pick(4, "dims"); int mx = nd == 1 ? 17 : nd == 2 ? c.bound(5, 7) : nd == 3 ? c.bound(3, 5) : c.bound(3, 3); std::vector<int> n;
   for (int i = 0; i < nd; i++) n.push_back(1 + c.pick(mx, "extent"));
   size_t N = total(n); auto p = params(n); TransformFFT T; c.nontrivial();
   int dim = c.pick(nd + 1, "dim") - 1, dir = c.pick(2, "direction");
   c.doing("%s", dim < 0 ? "full" : "dim");
   WFGridCartesian* w = new WFGridCartesian(); w->Init(p);
   for (size_t u = 0; u <= N; u++) {
      V v(N); if (u < N) v[u] = cd(1, 0); else v = pattern(N, 3); c.step();
      if (dir) w->IsKspace(true); else w->IsKspace(false);
      put(w, v); if (dim < 0) { if (dir) T.Backward(w); else T.Forward(w); } else { if (dir) T.Backward(w, dim); else T.Forward(w, dim); }
      V e = dim < 0 ? dft(v, n, dir ? 1 : -1) : dft1(v, n, dim, dir ? 1 : -1);
      if (w->IsKspace() == (bool)dir) c.fail("flag", "representation flag not switched");
      double r = err(get(w), e); if (!(r < 1e-12)) c.fail(dim < 0 ? "sum:full" : "sum:dim", "unit vector %zu of %s differs by %g", u, "grid", r);
      if (dim < 0) { if (dir) T.Forward(w); else T.Backward(w); } else { if (dir) T.Forward(w, dim); else T.Backward(w, dim); }
      V b = get(w); for (auto& z : b) z /= dim < 0 ? N : n[dim]; r = err(b, v); if (!(r < 1e-12)) c.fail("inverse", "unit vector %zu is not restored (%g)", u, r);
   }
   DELETE_WF(w);
   if (nd == 1 && dim < 0) {      // the plain transforms of vectors
      size_t M = n[0]; cVec a(M), b(M); V va = pattern(M, 9), vb = pattern(M, 77); put(&a, va); put(&b, vb); FFT f(a, b); 
      if (err(get(&a), va) > 0 ) c.fail("plain:input", "constructor changed its input");
      f.forward(); if (!(err(get(&b), dft1(va, n, 0, -1)) < 1e-12)) c.fail("plain:forward", "size %zu", M); if (err(get(&a), va) > 0) c.fail("plain:input", "forward changed its input");
      put(&b, vb); f.backward(); if (!(err(get(&a), dft1(vb, n, 0, 1)) < 1e-12)) c.fail("plain:backward", "size %zu", M);
      dVec r(M); cVec rb(M / 2 + 1); V rv(M); for (size_t i = 0; i < M; i++) { r[i] = va[i].real(); rv[i] = va[i].real(); } FFT g(r, rb); for (size_t i = 0; i < M; i++) if (r[i] != va[i].real()) c.fail("plain:real-input", "changed");
      g.forward(); V e = dft1(rv, n, 0, -1); V got = get(&rb); e.resize(M / 2 + 1); if (!(err(got, e) < 1e-12)) c.fail("plain:real-forward", "size %zu", M);
      g.backward(); for (size_t i = 0; i < M; i++) if (std::fabs(r[i] / M - va[i].real()) > 1e-12) c.fail("plain:real-backward", "size %zu", M);
   }
}
int main(int argc, char** argv) {
   for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--multi" || a == "--sums" || a == "--optimize" || a == "--wisdom") gMode = a.substr(2); }
   GlobalParams::Instance().SetValue("fftwOptimize", gMode == "optimize");
   mc::Options o; o.name = "g03"; return mc::Main(argc, argv, gMode == "multi" ? multi : gMode == "sums" ? sums : ops, o);
}
