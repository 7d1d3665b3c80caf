// F02: every prefix of every stored file is rejected.
#include "objs.h"
#include <fstream>
#include <sstream>
using namespace QDLIB; using namespace objs;
static std::string slurp(const std::string& n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& n, const std::string& b) { int fd = open(n.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (write(fd, b.data(), b.size()) < 0) {} close(fd); }
static std::vector<std::string> ls(const std::string& d) { std::vector<std::string> r; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(p); std::sort(r.begin(), r.end()); return r; }
static void run(mc::Ctx& c) {
   std::string d = "f"; mc::rmtree(c.dir() + "/f"); mkdir(d.c_str(), 0700); std::string name = d + "/a_b";   // relative: the name is part of the file
   static std::vector<Desc> ds = { L(1), L(4), Gd(0), Gd(1), M({ L(3) }), M({ L(2), L(2) }), M({ Gd(0), Gd(0), Gd(0) }), L(300) };
   int k = c.pick((int)ds.size() + 3, "object"), fmt = c.pick(2, "format"), comp = c.pick(3, "compression"), pat = c.pick(c.bound(2, 3), "pattern"), seq = c.flag("sequence");
   int wfs = (int)ds.size(); bool multi = k < wfs && ds[k].kind == 'M';
   static const char* K[] = { "Laser", "OGridPotential", "OHermitianMatrix" };
   std::string what = std::string(comp == 0 ? "none" : comp == 1 ? "zlib" : "bzip") + "/" + (fmt ? "binary" : "stream"), obj = k < wfs ? text(ds[k]) : K[k - wfs];
   c.doing("write %s %s", obj.c_str(), what.c_str());
   auto setf = [&](auto& f) { typedef typename std::remove_reference<decltype(f)>::type F; f.FormatOut(fmt ? F::binary : F::stream); f.Compression(comp == 0 ? F::UNCOMPRESSED : comp == 1 ? F::ZLIB : F::BZIP); f.Name(name); if (seq) { f.ActivateSequence(); f.Counter(3); } };
   if (k < wfs) { FileWF f; setf(f); f.CompressionTolerance(0); WaveFunction* w = make(ds[k], pat, 5); f << w; DELETE_WF(w); }
   else if (k == wfs) { FileSingle<Laser> f; setf(f); f.Suffix(".x"); Laser l; fillLaser(l, 5, 0.25, pat, 5); f << &l; }
   else if (k == wfs + 1) { FileSingle<OGridPotential> f; setf(f); f.Suffix(".x"); OGridPotential* o = makePot(1, pat, 5); f << o; DELETE_OP(o); }
   else { FileSingle<OHermitianMatrix> f; setf(f); f.Suffix(".x"); OHermitianMatrix* o = makeMat(3, pat, 5); f << o; DELETE_OP(o); }
   std::vector<std::string> fs = ls(d);
   int which = fs.size() == 1 ? 0 : c.pick((int)fs.size(), "file");
   std::string full = slurp(d + "/" + fs[which]); bool meta = fs[which].find(".meta") != std::string::npos;
   // one prefix per execution; the length is chosen in two digits
   size_t n = full.size(), cut; int blocks = (int)((n + 199) / 200);
   if (n == 0) c.fail("empty", "%s is empty", fs[which].c_str());
   { size_t hi = blocks > 1 ? c.pick(blocks, "cut/200") : 0; size_t m = std::min<size_t>(200, n - hi * 200); cut = hi * 200 + (m > 1 ? c.pick((int)m, "cut%200") : 0); }
   spit(d + "/" + fs[which], full.substr(0, cut));
   c.log("%s %s: %s cut to %zu of %zu bytes", obj.c_str(), what.c_str(), fs[which].c_str(), cut, n);
   std::string kind = meta ? "meta" : "data";
   for (int known = 0; known < (k < wfs ? 2 : 1); known++) {
      c.doing("read %s %s %s", what.c_str(), kind.c_str(), multi ? "multistate" : k < wfs ? "single" : K[k - wfs]);
      bool accepted = false; std::string diff;
      try {
         if (k < wfs) {
            FileWF f; f.Name(name); if (seq) { f.ActivateSequence(); f.Counter(3); } WaveFunction* w = 0;
            struct Del { WaveFunction*& w; ~Del() { if (w) DELETE_WF(w); } } del{ w };
            if (known) { w = make(ds[k], 0, 0); f >> w; } else f >> &w;
            accepted = true; diff = differs(w, ds[k], pat, 5, comp ? 1e-11 : -1);
         } else if (k == wfs) { FileSingle<Laser> f; f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(3); } Laser l; f >> &l; accepted = true; diff = differs(l, 5, 0.25, pat, 5); }
         else if (k == wfs + 1) { FileSingle<OGridSystem> f; f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(3); } OGridPotential* o = new OGridPotential(); struct D { OGridPotential* o; ~D() { DELETE_OP(o); } } del{ o }; f >> (OGridSystem*)o; accepted = true; diff = differs(o, 1, pat, 5); }
         else { FileSingle<OHermitianMatrix> f; f.Name(name); f.Suffix(".x"); if (seq) { f.ActivateSequence(); f.Counter(3); } OHermitianMatrix* o = new OHermitianMatrix(); struct D { OHermitianMatrix* o; ~D() { DELETE_OP(o); } } del{ o }; f >> o; accepted = true; diff = differs(o, 3, pat, 5); }
      } catch (Exception& e) { c.count("rejected"); }
      // the text meta file may lose what carries no information; the data files may not lose a byte
      if (accepted && (!meta || !diff.empty())) c.fail("accepted:" + kind + ":" + what + (multi ? " multistate" : ""), "%s %s: the first %zu of %zu bytes of %s were accepted (%s type)%s%s", obj.c_str(), what.c_str(), cut, n, fs[which].c_str(), known ? "known" : "unknown", diff.empty() ? "" : ": ", diff.c_str());
      if (accepted) c.count("harmless meta cut");
   }
   c.nontrivial(); c.outcome(mc::Hash().i(k).i(fmt).i(comp).i(seq).i(pat).i(which).i(cut).h);
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "F02"; return mc::Main(argc, argv, run, o); }
