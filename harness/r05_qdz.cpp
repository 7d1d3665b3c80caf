// R05: the compression tool on stored wave functions and series
#include "run.h"
#define main qdz_main
#include "qdz.cpp"
#undef main
using namespace run;
static const Wf& kind(int k) { static std::vector<Wf> v; if (v.empty()) { v.push_back(level(5)); v.push_back(grid({ 8 })); v.push_back(Wf(level(3), 3)); v.push_back(Wf(grid({ 2, 4 }), 2)); v.push_back(grid({ 3, 2, 2 })); v.push_back(level(1)); } return v[k]; }
// member i of a series: a few large, some small, some negative, some vanishing components
static CV member(int k, int i, int data) { CV v = vec(kind(k).size(), 3 + i); for (size_t p = 0; p < v.size(); p++) { if (data == 0) v[p] *= (p + i) % 3 == 0 ? 1.0 : (p + i) % 3 == 1 ? 1e-4 : 0; else if (data == 2) v[p] = p == (size_t)i % v.size() ? cd(-0.75, 1e-7) : cd(0, 0); } return v; }
static int tool(std::vector<std::string> a, std::string& out) { a.insert(a.begin(), "qdz"); std::string log = "tool.log"; pid_t p = fork(); if (p == 0) { int f = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(f, 2); std::vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(NULL); qdz_main(a.size(), v.data()); _exit(99); } int st; waitpid(p, &st, 0); slurp(log, out); unlink(log.c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : -1; }
static std::string meta(FileWF& f, WaveFunction* w) { std::string t; w->Params().Write(t, false); std::string r; std::vector<std::string> l = lines(t); for (auto& x : l) if (x.compare(0, 5, "CLASS") && x.compare(0, 8, "compress") && x.compare(0, 8, "COMPRESS")) r += x + "\n"; return r; }
struct Open : FileWF { using FileWF::ReadMeta; };
struct Member { int index; CV v; std::string params; };
static bool load(int k, const std::string& base, int index, Member& m, std::string& err, std::string& cls) {
   FileWF f; f.Suffix(BINARY_WF_SUFFIX); f.Name(base); if (index >= 0) { f.ActivateSequence(); f.Counter(index); } WaveFunction* w = NULL;
   try { w = f.LoadWaveFunctionByMeta(); if ((size_t)w->size() * 1 == 0) throw(EIncompatible("empty")); } catch (Exception& e) { err = e.GetMessage(); return false; }
   WFMultistate* ms = dynamic_cast<WFMultistate*>(w); const Wf& q = kind(k); if ((ms != NULL) != q.multi || (ms && ms->States() != (lint)q.s.size())) { err = "has another shape"; DELETE_WF(w); return false; } cls = w->Name(); m.index = index; m.v = get(w, q); m.params = meta(f, w); DELETE_WF(w); return true; }
static double n2(const CV& v) { double s = 0; for (auto& x : v) s += std::norm(x); return std::sqrt(s); }
static void body(mc::Ctx& c) {
   wipe("."); int k = c.pick(c.bound(5, 6), "kind"), fmt = c.pick(2, "format"), series = c.pick(c.bound(4, 5), "members"), data = c.pick(3, "data"), was = c.pick(2, "initially compressed"); bool defect = series >= 2 && c.flag("damaged member");
   if (!c.thorough() && (was ? data != 0 : data == 1 && series > 1)) c.prune(); c.doing("kind %d %s", k, series ? "series" : "single");
   FileWF o; o.Name("psi"); o.Suffix(BINARY_WF_SUFFIX); if (series) o.ActivateSequence(); o.FormatOut(fmt ? FileSingle<WaveFunction>::binary : FileSingle<WaveFunction>::stream); if (was) { o.Compress(true); o.CompressionTolerance(0); }
   std::vector<Member> m; for (int i = 0; i < std::max(series, 1); i++) { CV v = member(k, i, data); WaveFunction* w = make(kind(k), v); o << w; DELETE_WF(w); }
   // bystanders with similar names
   FileWF b; b.Suffix(BINARY_WF_SUFFIX); b.FormatOut(fmt ? FileSingle<WaveFunction>::binary : FileSingle<WaveFunction>::stream); for (std::string n : { series ? "psi_0-x" : "psi_0", "psi_x", "psi1", "apsi_0", series ? "psi_7" : "psi2" }) { CV v = member(k, 5, 1); WaveFunction* w = make(kind(k), v); b.Name(n); b << w; DELETE_WF(w); }
   std::map<std::string, std::string> other; auto files = [] { std::vector<std::string> r; for (auto& f : tree(".")) if (f != "wisdom") r.push_back(f); return r; }; std::vector<std::string> before = files();
   auto mine = [&](const std::string& f) { for (int i = 0; i < std::max(series, 1); i++) { std::string n = series ? "_" + std::to_string(i) : ""; if (f == "psi.meta" || f == "psi" + n + ".wf") return true; for (int s = 0; s < 4; s++) { std::string q = "psi-" + std::to_string(s); if (f == q + ".meta" || f == q + n + ".wf") return true; } } return false; };
   for (auto& f : before) if (!mine(f)) slurp(f, other[f]);
   std::string err, cls, cls0; for (int i = 0; i < std::max(series, 1); i++) { Member x; if (!load(k, "psi", series ? i : -1, x, err, cls0)) c.fail("cannot read what was stored", "%s", err.c_str()); CV v = member(k, i, data); if (!(dist(x.v, v) <= 1e-13)) c.fail("stored", "%g", dist(x.v, v)); m.push_back(x); }
   int bad = -1; std::string victim; if (defect) { bad = 1; for (auto& f : before) if (mine(f) && f.find("_1.wf") != std::string::npos) victim = f; std::string t; slurp(victim, t); spit(victim, t.substr(0, t.size() / 2)); before = files(); }
   int nops = c.bound(2, 3); bool done = false;
   for (int t = 0; t < nops && !done; t++) { if (t && c.flag("end")) break;
      bool de = c.flag("decompress"); std::vector<std::string> a; double tol = 1e-5; if (de) a.push_back("-d"); else { static const char* T[] = { "", "1e-3", "0", "-1e-3" }; static const char* L[] = { "", "1", "9" }; int ti = c.pick(t ? 2 : c.bound(3, 4), "tolerance"), l = c.pick(t ? 1 : 3, "level"), me = c.pick(3, "method"); if (ti) { a.push_back("-t"); a.push_back(T[ti]); tol = std::fabs(atof(T[ti])); } if (l) { a.push_back("-l"); a.push_back(L[l]); } if (me) { a.push_back("-m"); a.push_back(me == 1 ? "z" : "j"); } }
      if (series) a.push_back("-s"); a.push_back("psi"); std::string cmd; for (auto& x : a) cmd += x + " "; c.log("qdz %s", cmd.c_str()); std::string out; int rc = tool(a, out); c.step();
      if (defect) { if (rc == 0) c.fail("damaged member not reported", "qdz %s: exit status 0 although member %d cannot be read", cmd.c_str(), bad); if (rc < 0) c.fail("crash", "qdz %s", cmd.c_str()); done = true; }
      else if (rc != 0) c.fail("failed", "qdz %s: exit status %d: %s", cmd.c_str(), rc, out.c_str());
      if (files() != before) { std::string l; for (auto& f : tree(".")) l += f + " "; c.fail("files", "qdz %s: now there are %s", cmd.c_str(), l.c_str()); }
      for (auto& f : other) { std::string s; slurp(f.first, s); if (s != f.second) c.fail("other file changed", "qdz %s changed %s", cmd.c_str(), f.first.c_str()); }
      for (size_t i = 0; i < m.size(); i++) { if ((int)i == bad) continue; Member x; if (!load(k, "psi", series ? i : -1, x, err, cls)) c.fail("unreadable", "qdz %s: member %zu: %s", cmd.c_str(), i, err.c_str()); if (cls != cls0) c.fail("class", "%s instead of %s", cls.c_str(), cls0.c_str()); CV d = x.v; for (size_t p = 0; p < d.size(); p++) d[p] -= m[i].v[p]; double lim = de ? 1e-14 * n2(m[i].v) : 1.0001 * std::sqrt(2.0 * d.size()) * tol * n2(m[i].v) + 1e-13; if (!(n2(d) <= lim)) c.fail(de ? "changed by decompression" : "beyond the tolerance", "qdz %s: member %zu differs by %g, tolerance %g", cmd.c_str(), i, n2(d), lim);
         if (x.params != m[i].params) c.fail("meta information", "qdz %s: member %zu: %s instead of %s", cmd.c_str(), i, x.params.c_str(), m[i].params.c_str()); m[i].v = x.v;
         if (!defect && !kind(k).multi && !fmt) { Open f; f.Suffix(BINARY_WF_SUFFIX); f.Name("psi"); if (series) { f.ActivateSequence(); f.Counter(i); } bool z = f.ReadMeta().header.compression() != FileSingleHeader_Compression_UNCOMPRESSED; if (z && de) c.fail("still compressed", "qdz %s: member %zu", cmd.c_str(), i); if (!z && !de) c.fail("not compressed", "qdz %s: member %zu", cmd.c_str(), i); } } }
   c.nontrivial(); c.outcome(mc::Hash().i(k).i(fmt).i(series).i(defect).h); }
int main(int argc, char** argv) { mc::Options o; o.name = "R05"; return mc::Main(argc, argv, body, o); }
