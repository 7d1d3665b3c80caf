// F05: lossy compression of wave functions over all small vectors (level) and all small momentum spectra (grid).
#include "objs.h"
#include <complex>
using namespace QDLIB; using namespace objs; typedef std::complex<double> cd;
static std::string gMode = "level";
static const char* FMT[] = { "auto", "stream", "binary" };
static const double TOL[] = { 0, 1e-13, 1e-3, 0.3, 0.6, 0.999 };
static const double VAL[] = { 0, 1, -1, 1e-4, -1e-4, 0.4, -0.4 };   // real and imaginary parts
static void format(FileWF& f, int fmt, int comp, double tol) { f.FormatOut(fmt == 0 ? FileWF::autodetect : fmt == 1 ? FileWF::stream : FileWF::binary); f.Compression(comp ? FileWF::BZIP : FileWF::ZLIB); f.CompressionTolerance(tol); }
static std::vector<cd> dft(const std::vector<cd>& x, const std::vector<int>& n, int sign) {
   size_t N = x.size(); std::vector<cd> r = x; size_t low = 1;
   for (size_t d = 0; d < n.size(); d++) {
      std::vector<cd> o(N);
      for (size_t i = 0; i < N; i++) { int k = (i / low) % n[d]; size_t b = i - k * low; cd s = 0; for (int j = 0; j < n[d]; j++) s += r[b + j * low] * std::polar(1.0, sign * 2 * M_PI * j * k / n[d]); o[i] = s; }
      r = o; low *= n[d];
   }
   return r;
}
static std::vector<cd> get(WaveFunction* w) { std::vector<cd> r; for (lint i = 0; i < w->lsize(); i++) r.push_back(cd(w->begin(0)[i]._real, w->begin(0)[i]._imag)); return r; }
// one component: kept, or dropped and then small compared to the tolerance
static const char* component(double got, double was, double cut, double eps) {
   if (std::fabs(got - was) <= eps) return 0;
   if (std::fabs(got) <= eps) return std::fabs(was) <= cut * (1 + 1e-9) + eps ? 0 : "dropped";
   return "changed";
}
static void run(mc::Ctx& c) {
   std::string d = "f"; mc::rmtree(c.dir() + "/f"); mkdir(d.c_str(), 0700);
   bool grid = gMode == "grid"; int fmt = c.pick(3, "format"), comp = c.flag("method"), known = c.flag("known type"), itol = c.pick(6, "tolerance"), multi = c.flag("multistate"); double tol = TOL[itol];
   if (!c.thorough() && (fmt == 0 || (comp && fmt == 1))) c.prune();
   Desc one = L(1); std::vector<int> n;
   if (grid) { static const std::vector<int> gs = { 0, 1, 4 }; int g = c.of(gs, "grid"); one = Gd(g); n = grids()[g].n; } else { one = L(1 + c.pick(c.bound(2, 3), "size")); n = { one.arg }; }
   size_t N = 1; for (int x : n) N *= x;
   int vals = N < 2 ? 7 : c.thorough() ? 5 : 3; if (N > 1 && !multi && fmt == 1 && !known) vals = c.bound(5, 7);
   std::vector<cd> v(N);
   int free = std::min<size_t>(N, grid ? (c.thorough() ? 3 : 2) : 3), at = grid && N > 2 ? c.pick(N - 1, "position") : 0;
   for (int i = 0; i < free; i++) { size_t k = (at + i) % N; v[k] = cd(VAL[c.pick(vals, "re")], VAL[c.pick(vals, "im")]); }
   std::vector<cd> x = v; if (grid) { x = dft(v, n, 1); }            // v is the spectrum then
   double scale = c.pick(2, "scale") ? 1e-5 : 1; for (auto& a : x) a *= scale; for (auto& a : v) a *= scale;
   c.doing("%s %s", gMode.c_str(), FMT[fmt]); c.log("%s %s tol %g", text(one).c_str(), FMT[fmt], tol);
   std::vector<WaveFunction*> st; 
   auto put = [&](WaveFunction* w, const std::vector<cd>& a) { for (size_t i = 0; i < N; i++) w->begin(0)[i] = dcomplex(a[i].real(), a[i].imag()); };
   std::vector<cd> x2 = x, v2 = v; for (auto& a : x2) a *= cd(0, 3); for (auto& a : v2) a *= cd(0, 3);      // second state: three times as large
   WaveFunction* w; Desc ds = one;
   if (multi) { ds = M({ one, one }); w = make(ds, 0, 0); put(((WFMultistate*)w)->State(0), x); put(((WFMultistate*)w)->State(1), x2); }
   else { w = make(one, 0, 0); put(w, x); }
   FileWF f; format(f, fmt, comp, tol); f.Name("f/psi"); f << w;
   for (int s = 0; s < (multi ? 2 : 1); s++) {
      WaveFunction* p = multi ? ((WFMultistate*)w)->State(s) : w; auto a = get(p); auto& e = s ? x2 : x;
      if (p->IsKspace()) c.fail("memory:kspace", "writing left the wave function in momentum space");
      for (size_t i = 0; i < N; i++) if (a[i] != e[i]) c.fail("memory:values", "writing changed element %zu in memory", i);
   }
   FileWF r; r.Name("f/psi"); WaveFunction* q = 0;
   if (known) { q = make(ds, 1, 5); r >> q; } else r >> &q;
   std::string df = differs(q, ds, 1, 0, 1e100); if (!df.empty()) c.fail("shape:" + key(df), "%s", df.c_str());
   for (int s = 0; s < (multi ? 2 : 1); s++) {
      WaveFunction* p = multi ? ((WFMultistate*)q)->State(s) : q; auto a = get(p);
      if (p->IsKspace()) c.fail("read:kspace", "read back in momentum space");
      std::vector<cd> ref = s ? v2 : v; if (grid) { a = dft(a, n, -1); for (auto& z : a) z /= N; }
      double m = 0, nn = 0; for (auto z : ref) { m = std::max(m, std::abs(z)); nn += std::norm(z); }
      double eps = m * 1e-13 * (grid ? 1 : 0), cut = tol * (grid ? m : std::sqrt(nn));
      for (size_t i = 0; i < N; i++) for (int im = 0; im < 2; im++) {
         double g = im ? a[i].imag() : a[i].real(), o = im ? ref[i].imag() : ref[i].real();
         if (const char* bad = component(g, o, cut, eps)) c.fail(std::string(bad) + (o < 0 ? ":negative" : ":positive"), "%s part of %s element %zu of state %d is %.17g instead of %.17g with tolerance %g (largest %g)", im ? "imaginary" : "real", grid ? "momentum space" : "", i, s, g, o, tol, m);
      }
   }
   DELETE_WF(w); DELETE_WF(q);
   if (tol > 0) c.nontrivial();
   mc::Hash h; h.i(itol).i(multi).s(text(one)); for (auto z : v) h.d(z.real()).d(z.imag()); c.state(h.h);
}
int main(int argc, char** argv) {
   for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--grid")) gMode = "grid";
   GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "F05";
   return mc::Main(argc, argv, run, o);
}
