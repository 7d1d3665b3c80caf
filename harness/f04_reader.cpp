// F04: a reused reader behaves like a fresh one, over all histories of reads.
#include "objs.h"
using namespace QDLIB; using namespace objs;
static std::string gMode = "wf";
static bool gSeq = false;
struct Item { const char* name; Desc d; int fmt, comp; int bad; /*0 fine, 1 missing, 2 data cut, 3 meta missing / meta cut*/ };
static void format(FileWF& f, int fmt, int comp) { f.FormatOut(fmt == 1 ? FileWF::stream : FileWF::binary); f.Compression(comp == 0 ? FileWF::UNCOMPRESSED : comp == 1 ? FileWF::ZLIB : FileWF::BZIP); f.CompressionTolerance(0); }
static std::vector<Item> items() { return {
   { "lev", L(3), 1, 0, 0 }, { "bin", L(3), 2, 0, 0 }, { "two", M({ L(3), L(3) }), 1, 1, 0 }, { "twob", M({ L(3), L(3) }), 2, 0, 0 },
   { "cut", L(3), 1, 0, 2 }, { "cutm", M({ L(3), L(3) }), 1, 0, 2 }, { "none", L(3), 1, 0, 1 }, { "cutb", M({ L(3), L(3) }), 2, 0, 2 }, { "grid", Gd(1), 2, 2, 0 } }; }
static uint64_t gVer = 0;
static void store(const Item& it, int idx, bool damaged) {
   std::string base = std::string("f/") + it.name;
   FileWF f; format(f, it.fmt, it.comp); f.Name(base);
   for (int k = 0; k < (gSeq ? 3 : 1); k++) {
      if (gSeq) { if (!k) f.ActivateSequence(); f.Counter(k); }
      WaveFunction* w = make(it.d, 4, 1000 * idx + 100 * k + gVer * 7); f << w; DELETE_WF(w);
      if (!damaged || (gSeq && k != 1)) continue;
      std::string num = gSeq ? "_" + std::to_string(k) : "";
      if (it.bad == 1) unlink((base + num + ".wf").c_str());
      if (it.bad == 2) { std::string p = base + (it.fmt == 2 && it.d.kind == 'M' ? "-1" : "") + num + ".wf"; struct stat s; if (stat(p.c_str(), &s)) p = base + num + (it.fmt == 2 && it.d.kind == 'M' ? "-1" : "") + ".wf"; if (!stat(p.c_str(), &s)) { if (truncate(p.c_str(), s.st_size - 9)) {} } else { fprintf(stderr, "no %s\n", p.c_str()); _exit(97); } }
   }
}
// outcome of a read as text: the type and values, or the fact that it failed
static std::string readAs(FileWF& f, int how) {
   WaveFunction* w = 0;
   static const std::vector<Desc> types = { L(1), L(3), L(2), M({ L(3), L(3) }), M({ L(1), L(1), L(1) }), Gd(1) };
   try {
      if (how == 0) f >> &w;
      else { w = make(types[how], 0, 0); f >> w; }
   } catch (Exception& e) { if (w && how) DELETE_WF(w); return "error"; }
   std::string s = w->Name() + ":"; char b[64];
   std::function<void(WaveFunction*)> dump = [&](WaveFunction* p) {
      WFMultistate* m = dynamic_cast<WFMultistate*>(p);
      if (m) { s += "["; for (int i = 0; i < (int)m->States(); i++) { s += m->State(i)->Name(); dump(m->State(i)); } s += "]"; return; }
      for (lint i = 0; i < p->lsize(); i++) { snprintf(b, sizeof b, " %.6g,%.6g", p->begin(0)[i]._real, p->begin(0)[i]._imag); s += b; }
   };
   dump(w); DELETE_WF(w); return s;
}
static void run(mc::Ctx& c) {
   mc::rmtree(c.dir() + "/f"); mkdir("f", 0700); gVer = 0;
   gSeq = c.flag("sequence"); std::vector<Item> its = items();
   bool stored[16] = { 0 };
   FileWF f; if (gSeq) f.ActivateSequence();
   int n = c.bound(gSeq ? 2 : 3, gSeq ? 3 : 4), cnt = 0; std::string hist; int file = -1, reads = 0, last = -1;
   for (int s = 0; s < n; s++) {
      int op = c.pick(3 + (s > 0), "operation");       // 0 go to a file and read; 1 read again; 2 change the counter and read; 3 rewrite the file, then read
      if (op && file < 0) c.prune();
      if (op == 2 && !gSeq) c.prune();
      if (op == 0) {
         file = c.pick((int)its.size(), "file"); if (!stored[file]) { store(its[file], file, true); stored[file] = true; }
         f.Name(std::string("f/") + its[file].name); hist += std::string(" ") + its[file].name;
      }
      if (op == 2) { int k = c.pick(4, "counter"); if (k == 3) { f.ResetCounter(); cnt = 0; } else { f.Counter(k); cnt = k; } hist += " #" + std::to_string(k); }
      if (op == 3) { gVer++; store(its[file], file, false); hist += " rewritten"; }
      if (f.Counter() != (gSeq ? cnt : 0)) c.fail("counter:set", "counter is %d, expected %d after%s", f.Counter(), cnt, hist.c_str());
      int how = c.pick(c.bound(4, 6), "type"); hist += ":" + std::to_string(how);
      c.doing("%s as %d", its[file].name, how);
      FileWF fresh; if (gSeq) { fresh.ActivateSequence(); } fresh.Name(std::string("f/") + its[file].name); if (gSeq) fresh.Counter(cnt);
      std::string want = readAs(fresh, how), got = readAs(f, how);
      c.log("%s -> %s", hist.c_str(), got.c_str()); c.step();
      // the fresh reader itself must return what was stored
      if (want != got) c.fail(std::string("history:") + (got == "error" ? "refused" : want == "error" ? "accepted" : "values"), "reader with history%s returned '%s', a fresh reader '%s'", hist.c_str(), got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
      bool success = got != "error";
      if (gSeq && success) cnt++;
      if (f.Counter() != (gSeq ? cnt : 0)) c.fail(std::string("counter:") + (success ? "success" : "failure"), "counter is %d, expected %d after%s", f.Counter(), gSeq ? cnt : 0, hist.c_str());
      if (fresh.Counter() != (gSeq ? cnt : 0)) c.fail("counter:fresh", "counter of a fresh reader is %d, expected %d after%s", fresh.Counter(), cnt, hist.c_str());
      if (f.Name() != std::string("f/") + its[file].name) c.fail("name", "file name is %s after%s", f.Name().c_str(), hist.c_str());
      reads++; c.state(mc::Hash().i(file).i(cnt).s(got).i(gSeq).h);
   }
   if (reads > 1) c.nontrivial();
}
// lasers: FileSingle without the wave function layer, reader and writer interleaved
static void lasers(mc::Ctx& c) {
   mc::rmtree(c.dir() + "/f"); mkdir("f", 0700);
   bool seq = c.flag("sequence"); int fmt = c.pick(2, "format"), comp = c.pick(3, "compression");
   FileSingle<Laser> w, r; w.Suffix(".l"); r.Suffix(".l"); if (seq) { w.ActivateSequence(); r.ActivateSequence(); }
   w.FormatOut(fmt ? FileSingle<Laser>::stream : FileSingle<Laser>::binary); w.Compression(comp == 0 ? FileSingle<Laser>::UNCOMPRESSED : comp == 1 ? FileSingle<Laser>::ZLIB : FileSingle<Laser>::BZIP);
   w.Name("f/a"); r.Name("f/a"); int wc = 0, rc = 0; std::map<std::string, int> have; std::string names[2] = { "f/a", "f/b" }; int wn = 0, rn = 0, ver = 0, n = c.bound(4, 5), good = 0; std::string hist;
   for (int s = 0; s < n; s++) {
      int op = c.pick(5, "operation"); static const char* ON[] = { "write", "read", "other", "counter", "remove", "meta" }; hist += std::string(" ") + ON[op]; c.doing("%s", ON[op]); c.step();
      auto nm = [&](int i, int k) { return names[i] + (seq ? "_" + std::to_string(k) : "") + ".l"; };
      if (op == 0) { Laser l; fillLaser(l, 3 + (seq && !fmt ? 0 : ver % 2), 0.5, 4, 50 * ver); w << &l; have[nm(wn, wc)] = ver; ver++; if (seq) wc++; }
      if (op == 1) {
         Laser l; bool ok = true; try { r >> &l; } catch (Exception&) { ok = false; }
         auto it = have.find(nm(rn, rc));
         if (ok != (it != have.end())) c.fail(ok ? "laser:accepted" : "laser:refused", "reading %s %s after%s", nm(rn, rc).c_str(), ok ? "succeeded" : "failed", hist.c_str());
         if (ok) { std::string df = differs(l, 3 + (seq && !fmt ? 0 : it->second % 2), 0.5, 4, 50 * it->second); if (!df.empty()) c.fail("laser:" + key(df), "%s after%s", df.c_str(), hist.c_str()); good++; if (seq) rc++; }
      }
      if (op == 2) { int k = c.pick(2, "which"); if (k) { rn = !rn; r.Name(names[rn]); } else { wn = !wn; w.Name(names[wn]); } }
      if (op == 3) { if (!seq) c.prune(); int k = c.pick(3, "which"); if (k == 0) { r.ResetCounter(); rc = 0; } if (k == 1) { w.Counter(1); wc = 1; } if (k == 2) { r.Counter(1); rc = 1; } }
      if (op == 4) { if (have.empty()) c.prune(); auto it = have.begin(); unlink(it->first.c_str()); have.erase(it); }
      if (w.Counter() != (seq ? wc : 0)) c.fail("laser:counter:write", "writer counter %d, expected %d after%s", w.Counter(), wc, hist.c_str());
      if (r.Counter() != (seq ? rc : 0)) c.fail("laser:counter:read", "reader counter %d, expected %d after%s", r.Counter(), rc, hist.c_str());
   }
   if (good) c.nontrivial(); c.state(mc::Hash().i(seq).i(fmt).i(comp).i(wc).i(rc).i(good).h);
}
static void runAll(mc::Ctx& c) { if (gMode == "laser") lasers(c); else run(c); }
int main(int argc, char** argv) {
   for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--laser")) gMode = "laser";
   GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "F04";
   return mc::Main(argc, argv, runAll, o);
}
