// F03: every I/O operation of a save is made to fail; a save that returns normally has left readable, identical files.
#include "objs.h"
#include "iofault.h"
#include "qdlib/WFBuffer.h"
using namespace QDLIB; using namespace objs;
static void run(mc::Ctx& c) {
   std::string d = c.dir() + "/f"; mc::rmtree(d); mkdir(d.c_str(), 0700); std::string name = d + "/a";
   static std::vector<Desc> ds = { L(4), Gd(1), M({ L(3) }), M({ L(2), L(2) }), M({ Gd(0), Gd(0), Gd(0) }), L(3000), M({ L(3000), L(3000) }) };
   static const char* K[] = { "Laser", "OGridPotential", "OHermitianMatrix", "Laser large" };
   int wfs = (int)ds.size(), k = c.pick(wfs + 4, "object"), fmt = c.pick(3, "format"), comp = c.pick(3, "compression"), seq = c.flag("sequence");
   std::string what = std::string(comp == 0 ? "none" : comp == 1 ? "zlib" : "bzip") + "/" + (fmt == 0 ? "auto" : fmt == 1 ? "stream" : "binary"), obj = k < wfs ? (ds[k].kind == 'M' ? "multistate" : "single") : K[k - wfs];
   c.doing("%s %s", obj.c_str(), what.c_str());
   auto setf = [&](auto& f) { typedef typename std::remove_reference<decltype(f)>::type F; f.FormatOut(fmt == 0 ? F::autodetect : fmt == 2 ? F::binary : F::stream); f.Compression(comp == 0 ? F::UNCOMPRESSED : comp == 1 ? F::ZLIB : F::BZIP); f.Name(name); if (seq) { f.ActivateSequence(); f.Counter(3); } };
   FileWF fw; FileSingle<Laser> fl; FileSingle<OGridPotential> fp; FileSingle<OHermitianMatrix> fm; setf(fw); setf(fl); setf(fp); setf(fm); fw.CompressionTolerance(0); fl.Suffix(".x"); fp.Suffix(".x"); fm.Suffix(".x");
   struct Obj { WaveFunction* w = 0; Laser* l = 0; OGridPotential* p = 0; OHermitianMatrix* m = 0; ~Obj() { if (w) DELETE_WF(w); delete l; if (p) DELETE_OP(p); if (m) DELETE_OP(m); } } o;
   int big = k == wfs + 3 ? 2500 : 5;
   if (k < wfs) o.w = make(ds[k], 1, 5); else if (k == wfs || k == wfs + 3) { o.l = new Laser; fillLaser(*o.l, big, 0.25, 1, 5); } else if (k == wfs + 1) o.p = makePot(1, 1, 5); else o.m = makeMat(3, 1, 5);
   auto save = [&] { if (o.w) fw << o.w; else if (o.l) fl << o.l; else if (o.p) fp << o.p; else fm << o.m; };
   auto counter = [&] { return o.w ? fw.Counter() : o.l ? fl.Counter() : o.p ? fp.Counter() : fm.Counter(); };
   auto verify = [&](const char* when) {
      std::string diff;
      try {
         if (o.w) { FileWF f; f.Name(name); if (seq) { f.ActivateSequence(); f.Counter(3); } WaveFunction* w = 0; f >> &w; diff = differs(w, ds[k], 1, 5, comp ? 1e-11 : -1); DELETE_WF(w); }
         else if (o.l) { FileSingle<Laser> f; f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(3); } Laser l; f >> &l; diff = differs(l, big, 0.25, 1, 5); }
         else if (o.p) { FileSingle<OGridSystem> f; f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(3); } OGridPotential* q = new OGridPotential(); f >> (OGridSystem*)q; diff = differs(q, 1, 1, 5); DELETE_OP(q); }
         else { FileSingle<OHermitianMatrix> f; f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(3); } OHermitianMatrix* q = new OHermitianMatrix(); f >> q; diff = differs(q, 3, 1, 5); DELETE_OP(q); }
      } catch (Exception& e) { diff = std::string("unreadable: ") + e.GetMessage(); }
      if (!diff.empty()) c.fail(std::string(when) + ":" + obj + " " + what, "%s %s: the save returned normally but the files differ: %s (operations: %s)", obj.c_str(), what.c_str(), diff.c_str(), iof::s().log.c_str());
   };
   // how many operations does the save consist of
   iof::State& t = iof::s(); t = iof::State(); t.dir = d + "/"; t.on = true; save(); t.on = false; int n = t.n;
   verify("no fault"); if (n < 1) c.fail("harness", "no operation seen");
   bool fresh = c.flag("fresh file"); if (fresh) { mc::rmtree(d); mkdir(d.c_str(), 0700); }
   if (o.w) fw.Counter(3); else if (o.l) fl.Counter(3); else if (o.p) fp.Counter(3); else fm.Counter(3);
   if (!fresh) { if (o.w) fill(o.w->strides() > 1 ? dynamic_cast<WFMultistate*>(o.w)->State(0) : dynamic_cast<WFMultistate*>(o.w) ? dynamic_cast<WFMultistate*>(o.w)->State(0) : o.w, 1, 99), o.w->strides(); }
   // with old files in place the new content must differ, otherwise a lost write would go unnoticed
   if (!fresh && o.w) { DELETE_WF(o.w); o.w = make(ds[k], 4, 9); FileWF f; setf(f); f.CompressionTolerance(0); f << o.w; DELETE_WF(o.w); o.w = make(ds[k], 1, 5); }
   int at = c.pick(n, "failing operation"), kind = c.pick(2, "half written"), forever = c.flag("later ones fail too"), err = c.flag("EIO") ? EIO : ENOSPC;
   t = iof::State(); t.dir = d + "/"; t.at = at; t.kind = kind; t.forever = forever; t.err = err; t.on = true;
   bool thrown = false;
   try { save(); } catch (Exception& e) { thrown = true; }
   t.on = false;
   c.log("%s %s: operation %d of %d fails (kind %d, forever %d): %s; %s", obj.c_str(), what.c_str(), at, n, kind, forever, t.log.c_str(), thrown ? "reported" : "not reported");
   if (t.injected) c.nontrivial();
   if (!thrown) verify("silent");
   int expect = thrown ? (seq ? 3 : o.w || o.l || o.p || o.m ? 3 : 0) : seq ? 4 : 3;
   if (counter() != expect) c.fail("counter:" + obj + " " + what, "sequence counter %d, expected %d after a %s save", counter(), expect, thrown ? "failed" : "good");
   // the writer stays usable
   if (thrown) { save(); verify("after a failed save"); if (seq && counter() != 4) c.fail("counter after:" + obj, "counter %d", counter()); }
   c.outcome(mc::Hash().i(k).i(fmt).i(comp).i(seq).i(at).i(kind).i(thrown).h);
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "F03"; return mc::Main(argc, argv, run, o); }
