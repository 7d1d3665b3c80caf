// F01: every storable object, in every format/compression/sequence mode, is read back identical.
#include "objs.h"
using namespace QDLIB; using namespace objs;
static std::string gMode = "wf";
static const char* FMT[] = { "auto", "stream", "binary" };
static const char* CMP[] = { "none", "zlib", "bzip" };
template <class F> static void format(F& f, int fmt, int comp) {
   f.FormatOut(fmt == 0 ? F::autodetect : fmt == 1 ? F::stream : F::binary);
   f.Compression(comp == 0 ? F::UNCOMPRESSED : comp == 1 ? F::ZLIB : F::BZIP);
}
static const std::vector<Desc>& descs() {
   static std::vector<Desc> d;
   if (d.empty()) {
      d = { L(1), L(2), L(5), Gd(0), Gd(1), Gd(2), Gd(3), M({ L(3) }), M({ L(2), L(2) }), M({ L(1), L(1), L(1) }), M({ Gd(0), Gd(0) }), M({ Gd(1), Gd(1), Gd(1) }), L(5000) };
      std::vector<Desc> many; for (int i = 0; i < 12; i++) many.push_back(L(2)); d.push_back(M(many));
   }
   return d;
}
static bool hasGrid(const Desc& d) { if (d.kind == 'G') return true; for (auto& s : d.states) if (hasGrid(s)) return true; return false; }

static void wf(mc::Ctx& c) {
   std::string d = c.dir() + "/f"; mc::rmtree(d); mkdir(d.c_str(), 0700);
   const Desc& ds = c.of(descs(), "object"); bool big = ds.arg >= 12;
   int fmt = c.pick(3, "format"), comp = c.pick(3, "compression"), seq = c.pick(3, "sequence"), known = c.flag("known type");
   bool grid = hasGrid(ds);
   int pat = comp && grid ? (c.flag("pattern") ? 1 : 4) : big ? c.pick(3, "pattern") : c.pick(4, "pattern");
   std::string name = d + (c.flag("name") ? "/a.b_7" : "/psi");
   int chain = c.pick(big && !c.thorough() ? 2 : 4, "rewritten as");                      // none, or written once more from what was read
   double tol = comp && grid ? 1e-11 : -1;
   std::string what = std::string(CMP[comp]) + "/" + FMT[fmt];
   c.doing("%s %s", text(ds).substr(0, 2).c_str(), what.c_str());
   c.log("%s pattern %d %s sequence %d known %d chain %d", text(ds).c_str(), pat, what.c_str(), seq, known, chain);
   int n = seq == 0 ? 1 : 3, first = seq == 2 ? 9 : 0;
   int before = big ? 0 : c.pick(c.thorough() ? 5 : 3, "overwritten");       // something else was stored under that name before
   if (before) {
      FileWF f; format(f, 1 + before % 2, before > 2); f.Name(name); WaveFunction* w = before <= 2 ? make(M({ L(3), L(3) }), 1, 77) : make(L(7), 1, 78);
      if (seq) { f.ActivateSequence(); f.Counter(first); } f << w; DELETE_WF(w);
   }
   {
      FileWF f; format(f, fmt, comp); f.CompressionTolerance(0); f.Name(name);
      if (seq) { f.ActivateSequence(); f.Counter(first); }
      for (int i = 0; i < n; i++) {
         WaveFunction* w = make(ds, pat, 100000 * i);
         f << w;
         std::string r = differs(w, ds, pat, 100000 * i, tol < 0 ? -1 : 1e-11);
         if (!r.empty()) c.fail("write-changed:" + key(r) + ":" + what, "writing changed the wave function in memory: %s", r.c_str());
         DELETE_WF(w);
         if (f.Counter() != (seq ? first + i + 1 : 0)) c.fail("counter:" + what, "counter %d after writing member %d", f.Counter(), i);
      }
   }
   for (int pass = 0; pass < (chain ? 2 : 1); pass++) {
      FileWF f; f.Name(name); if (seq) { f.ActivateSequence(); f.Counter(first); }
      std::string name2 = d + "/copy"; int fmt2 = chain == 1 ? 2 : chain == 2 ? 1 : 2, comp2 = chain == 3 && !grid ? 1 : 0;
      if (pass) { f.Name(name2); }
      FileWF o; if (chain && !pass) { format(o, fmt2, comp2); o.CompressionTolerance(0); o.Name(name2); if (seq) { o.ActivateSequence(); o.Counter(first); } }
      for (int i = 0; i < n; i++) {
         WaveFunction* w = 0;
         if (known) { w = make(ds, 0, 0); f >> w; } else f >> &w;
         std::string r = differs(w, ds, pat, 100000 * i, tol);
         if (!r.empty()) c.fail("read:" + key(r) + ":" + (pass ? "copy " : "") + what, "%s written as %s%s and read back (%s type, member %d) differs: %s", text(ds).c_str(), what.c_str(), pass ? " then copied" : "", known ? "known" : "unknown", i, r.c_str());
         if (seq && f.Counter() != first + i + 1) c.fail("counter:read " + what, "counter %d after reading member %d", f.Counter(), i);
         if (chain && !pass) o << w;
         DELETE_WF(w);
      }
   }
   if (pat) c.nontrivial();
   c.outcome(mc::Hash().s(text(ds)).i(fmt).i(comp).i(seq).i(pat).h);
}
// lasers, grid operators, matrices
static void other(mc::Ctx& c) {
   std::string d = c.dir() + "/f"; mc::rmtree(d); mkdir(d.c_str(), 0700);
   int kind = c.pick(3, "kind"), fmt = c.pick(3, "format"), comp = c.pick(3, "compression"), seq = c.pick(3, "sequence"), pat = c.pick(4, "pattern"), chain = c.pick(4, "rewritten as");
   int size = kind == 1 ? c.pick(5, "grid") : std::vector<int>{ 1, 2, 5, kind == 0 ? 3000 : 40 }[c.pick(4, "size")];
   std::string name = d + (c.flag("name") ? "/a.b_7" : "/x"), what = std::string(CMP[comp]) + "/" + FMT[fmt];
   int n = seq == 0 ? 1 : 3, first = seq == 2 ? 9 : 0;
   static const char* K[] = { "Laser", "OGridPotential", "OHermitianMatrix" };
   c.doing("%s %s", K[kind], what.c_str()); c.log("%s %d pattern %d %s sequence %d chain %d", K[kind], size, pat, what.c_str(), seq, chain);
   std::string cur = name;
   for (int pass = 0; pass < (chain ? 2 : 1); pass++) {
      std::string name2 = d + "/copy"; int fmt2 = chain == 1 ? 2 : chain == 2 ? 1 : 2, comp2 = chain == 3 ? 1 : 0;
      auto session = [&](auto* dummy, auto* rdummy, auto mk, auto fresh, auto cmp, auto del) {
         typedef typename std::remove_pointer<decltype(dummy)>::type T; typedef typename std::remove_pointer<decltype(rdummy)>::type R;
         if (!pass) {
            FileSingle<T> f; format(f, fmt, comp); f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(first); }
            for (int i = 0; i < n; i++) { T* t = mk(i); f << t; std::string r = cmp(t, i); if (!r.empty()) c.fail("write-changed:" + key(r) + ":" + what, "writing changed the object: %s", r.c_str()); del(t); if (f.Counter() != (seq ? first + i + 1 : 0)) c.fail("counter:" + what, "counter %d", f.Counter()); }
         }
         FileSingle<R> f; f.Name(pass ? name2 : name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(first); }
         FileSingle<T> o; format(o, fmt2, comp2); o.Name(name2); o.Suffix(".x"); if (seq) { o.ActivateSequence(); o.Counter(first); }
         for (int i = 0; i < n; i++) {
            T* t = fresh(); f >> (R*)t; std::string r = cmp(t, i);
            if (!r.empty()) c.fail("read:" + key(r) + ":" + (pass ? "copy " : "") + K[kind] + " " + what, "%s (size %d) written as %s%s and read back, member %d, differs: %s", K[kind], size, what.c_str(), pass ? " then copied" : "", i, r.c_str());
            if (seq && f.Counter() != first + i + 1) c.fail("counter:read " + what, "counter %d after reading member %d", f.Counter(), i);
            if (chain && !pass) o << t;
            del(t);
         }
      };
      if (kind == 0) session((Laser*)0, (Laser*)0, [&](int i) { Laser* l = new Laser(); fillLaser(*l, size, 1.0 / 3, pat, 1000 * i); return l; }, [] { return new Laser(); }, [&](Laser* l, int i) { return differs(*l, size, 1.0 / 3, pat, 1000 * i); }, [](Laser* l) { delete l; });
      if (kind == 1) session((OGridPotential*)0, (OGridSystem*)0, [&](int i) { return makePot(size, pat, 1000 * i); }, []() { return new OGridPotential(); }, [&](OGridPotential* o, int i) { return differs(o, size, pat, 1000 * i); }, [](OGridPotential* o) { DELETE_OP(o); });
      if (kind == 2) session((OHermitianMatrix*)0, (OHermitianMatrix*)0, [&](int i) { return makeMat(size, pat, 1000 * i); }, [] { return new OHermitianMatrix(); }, [&](OHermitianMatrix* o, int i) { return differs(o, size, pat, 1000 * i); }, [](OHermitianMatrix* o) { DELETE_OP(o); });
   }
   if (pat) c.nontrivial();
   c.outcome(mc::Hash().i(kind).i(size).i(fmt).i(comp).i(seq).i(pat).h);
}
static void run(mc::Ctx& c) { if (gMode == "other") other(c); else wf(c); }
int main(int argc, char** argv) {
   for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--other")) gMode = "other";
   GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "F01";
   return mc::Main(argc, argv, run, o);
}
