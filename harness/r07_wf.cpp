// R07: wave function definitions
#include "run.h"
#include "ChainLoader.h"
using namespace run;
static const Wf& base(int sys) { static Wf a(level(2)), b(grid({ 3 })); return sys ? b : a; }
static const double DV[] = { 1, 0.5 };
struct Val { bool ok = true, multi = false; std::vector<CV> s; int seq = 0; };
enum { NOPT = 12 };
struct Opt { const char* text; int norm; double phase, coeff; };
static const Opt OPT[NOPT] = { { "", 0, 0, 1 }, { " normalize=\"true\"", 1, 0, 1 }, { " coeff=\"0.25\"", 0, 0, 0.25 }, { " phase=\"0.5\"", 0, 0.5, 1 }, { " coeff2=\"0.25\"", 0, 0, 0.5 }, { " coeff=\"0\"", 0, 0, 0 },
   { " coeff=\"-1.5\" phase=\"-1.25\" normalize=\"true\"", 1, -1.25, -1.5 }, { " normalize=\"false\" coeff=\"1\"", 0, 0, 1 }, { " phase=\"1\" coeff2=\"2\"", 0, 1, 1.4142135623730951 }, { " coeff2=\"0\" phase=\"0.25\"", 0, 0.25, 0 }, { " normalize=\"true\" coeff=\"3\" coeff2=\"0.5\"", 1, 0, 3 }, { " phase=\"0\" normalize=\"true\" coeff2=\"0.75\"", 1, 0, 0.8660254037844386 } };
static double nrm(const Val& v, double dv) { double n = 0; for (auto& s : v.s) for (auto& x : s) n += std::norm(x); return std::sqrt(n * dv); }
struct Gen { mc::Ctx& c; int sys, seq; std::vector<std::pair<std::string, Val>> keys; int inside = 0; std::vector<std::string> keyed; bool full() const { return c.thorough() || (sys == 0 && seq < 0); } bool undefined = false;
   // options of a node; the first decision levels use all of them, deeper ones a few
   const Opt& opts(int level) { int n = level == 0 && full() ? NOPT : level < 2 ? c.bound(2, 4) : c.bound(1, 2); if (level == 0 && !full()) n = 4; static const int FEW[] = { 0, 6, 2, 5 }; return OPT[level == 0 && full() ? c.pick(n, "options") : FEW[c.pick(n, "options")]]; }
   void finish(Val& v, const Opt& o) { if (!v.ok) return; if (o.norm) { double n = nrm(v, DV[sys]); if (n < 1e-12) { undefined = true; return; } for (auto& s : v.s) for (auto& x : s) x /= n; } cd f = std::polar(o.coeff, o.phase * M_PI); for (auto& s : v.s) for (auto& x : s) x *= f; }
   std::string key(int level, bool plain) { static int serial = 0; if (level > 1 || (plain && !c.thorough()) || !c.flag("key")) return ""; keyed.push_back("state" + std::to_string(serial++)); return keyed.back(); }
   static CV data(int sys, int f, int k, int seq) { int n = base(sys).size(); CV v = vec(n, 3 + f * 3 + k + 11 * seq); for (auto& x : v) x *= 0.5 + f; return v; }
   static std::string fileName(int sys, int f, int fmt) { return std::string(sys ? "g" : "l") + "abm"[f] + (fmt ? "bin" : ""); }
   std::string leaf(const std::string& tag, int level, Val& v, bool single) { int f = single ? c.pick(2, "file") : c.pick(3, "file"), fmt = level < 2 ? c.pick(2, "format") : 0; v.multi = f == 2; for (int k = 0; k < (f == 2 ? 3 : 1); k++) v.s.push_back(data(sys, f, k, seq + 1)); const Opt& o = opts(level); std::string k = level == 0 ? key(level, &o != &OPT[0] && &o != &OPT[6]) : "", nm = fmt && c.flag("module") ? f == 2 ? "WFMultistate" : sys ? "WFGridCartesian" : "WFLevel" : ""; if (nm == "WFMultistate") nm = ""; finish(v, o); if (k.size() && !inside) keys.push_back({ k, v });
      return "<" + tag + (nm.size() ? " name=\"" + nm + "\"" : "") + " file=\"" + fileName(sys, f, fmt) + "\"" + o.text + (k.size() ? " key=\"" + k + "\"" : "") + "/>"; }
   std::string node(const std::string& tag, int level, int depth, Val& v) {
      int kind = depth ? c.pick(4, "node") : 0; if (kind == 0) return leaf(tag, level, v, false); const Opt& o = opts(level); std::string k = key(level, &o != &OPT[0] && &o != &OPT[6] || seq >= 0), in, at; if (k.size()) at = " key=\"" + k + "\"";
      if (kind == 1) { int n = c.pick(level ? 2 : 3, "members") + 1; for (int i = 0; i < n; i++) { Val m; in += i && !(c.thorough() && level == 0 && i == 1) ? leaf("wf" + std::to_string(i), level + 2, m, false) : node("wf" + std::to_string(i), level + 1, depth - 1, m); if (!m.ok) v.ok = false; if (!v.ok) continue; if (i == 0) { v = m; continue; } if (m.multi != v.multi && m.s.size() == v.s.size()) undefined = true; if (m.multi != v.multi || m.s.size() != v.s.size()) { v.ok = false; continue; } for (size_t s = 0; s < v.s.size(); s++) for (size_t p = 0; p < v.s[s].size(); p++) v.s[s][p] += m.s[s][p]; }
         finish(v, o); if (v.ok && k.size() && !inside) keys.push_back({ k, v }); return "<" + tag + " name=\"LC\"" + o.text + at + ">" + in + "</" + tag + ">"; }
      if (kind == 2) { static const std::vector<std::vector<int>> IDX = { { 0, 1 }, { 1 }, { 2, 0 }, { 0 }, { 1, 0 }, { 0, 1, 2 }, { 3 }, { 2, 1, 0 }, { 1, 2 } }; auto& idx = IDX[c.pick(level || !full() ? c.bound(3, 4) : IDX.size(), "states used")]; int want = level || !full() ? c.of<int>({ 0, 4 }, "states") : c.of<int>({ 0, 2, 4 }, "states"); v.multi = true; int n = std::max(want, *std::max_element(idx.begin(), idx.end()) + 1); v.s.assign(n, CV(base(sys).size(), 0));
         for (size_t i = 0; i < idx.size(); i++) { Val m; std::string t = "wf" + std::to_string(idx[i]); inside++; in += i ? leaf(t, level + 2, m, true) : node(t, level + 1, depth - 1, m); inside--; if (!m.ok || m.multi) v.ok = false; else v.s[idx[i]] = m.s[0]; if (m.multi && m.s.size() == 1) undefined = true; }
         finish(v, o); if (v.ok && k.size() && !inside) keys.push_back({ k, v }); return "<" + tag + " name=\"Multistate\"" + (want ? " states=\"" + std::to_string(want) + "\"" : "") + o.text + at + ">" + in + "</" + tag + ">"; }
      static const std::vector<std::vector<int>> MAP = { { 1 }, { 2, 0, 1 }, { 1, 0 }, { 0 }, { 2 }, { 0, 1 }, { 1, 2, 0 }, { 2, 1 }, { 1, 1 }, { 0, 1, 2 }, { 2, 2, 0 }, { 3 }, { 0, -1 } }; auto& map = MAP[c.pick(level || !full() ? c.bound(3, 7) : MAP.size(), "map")]; int co = level || !c.thorough() ? 2 * c.pick(2, "coefficients") : c.pick(3, "coefficients"); static const double CO[3][3] = { { 1, 1, 1 }, { 0.2, 0.3, 0.4 }, { -2, 0, 1.5 } };
      Val m; in = node("wf", level + 1, depth - 1, m); std::string ms, cs; for (size_t i = 0; i < map.size(); i++) { ms += (i ? "," : "") + std::to_string(map[i]); cs += (i ? "," : "") + num(CO[co][i]); }
      v.ok = m.ok && m.multi && map.size() <= m.s.size(); for (int x : map) if (x < 0 || x >= (int)m.s.size()) v.ok = false; if (v.ok) { v.multi = map.size() > 1; for (size_t i = 0; i < map.size(); i++) { v.s.push_back(m.s[map[i]]); for (auto& x : v.s.back()) x *= CO[co][i]; } }
      finish(v, o); if (v.ok && k.size() && !inside) keys.push_back({ k, v }); return "<" + tag + " name=\"Multimap\" statemap=\"" + ms + "\"" + (co ? " coeffs=\"" + cs + "\"" : "") + o.text + at + ">" + in + "</" + tag + ">"; } };
static void check(mc::Ctx& c, WaveFunction* w, const Val& v, double dv, const std::string& what) {
   WFMultistate* m = dynamic_cast<WFMultistate*>(w); if ((m != NULL) != v.multi) c.fail("type", "%s: built a %s", what.c_str(), w->Name().c_str()); if (m && m->States() != (lint)v.s.size()) c.fail("number of states", "%s: %d states instead of %zu", what.c_str(), (int)m->States(), v.s.size());
   double big = 1e-3; for (auto& s : v.s) big = std::max(big, mx(s));
   for (size_t s = 0; s < v.s.size(); s++) { WaveFunction* t = m ? m->State(s) : w; if ((size_t)t->size() != v.s[s].size()) c.fail("size", "%s: state %zu has %d components", what.c_str(), s, (int)t->size()); for (size_t p = 0; p < v.s[s].size(); p++) { c.step(); cd x(t->begin(0)[p]._real, t->begin(0)[p]._imag); if (!(std::abs(x - v.s[s][p]) <= 1e-13 * big)) c.fail("value", "%s: component %zu of state %zu is (%g,%g) instead of (%g,%g)", what.c_str(), p, s, x.real(), x.imag(), v.s[s][p].real(), v.s[s][p].imag());
         if (m) { dcomplex y = ((cVec*)w)->begin(s)[p]; if (y._real != x.real() || y._imag != x.imag()) c.fail("storage", "%s: state %zu is not part of the vector", what.c_str(), s); } } }
   double n = nrm(v, dv); if (!(std::fabs(w->Norm() - n) <= 1e-12 * (n + 1))) c.fail("norm", "%s: norm %g instead of %g", what.c_str(), w->Norm(), n); }
static WaveFunction* load(const std::string& xml, int seq, std::string& err) {
   std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf()); Logger& log = Logger::InstanceRef(); log.ConsoleOutput(); WaveFunction* w = NULL;
   try { XmlParser x; x.Parse(xml.c_str(), xml.size()); XmlNode n = x.Root(); w = ChainLoader::LoadWaveFunctionChain(&n, seq); } catch (Exception& e) { err = e.GetMessage(); } log.flush(); log.SetIndent(0); std::cout.rdbuf(old); return w; }
static void body(mc::Ctx& c) {
   static bool done = false; if (!done) { done = true; for (int sys = 0; sys < 2; sys++) for (int f = 0; f < 3; f++) for (int fmt = 0; fmt < 2; fmt++) for (int seq = -1; seq < 2; seq++) { Wf w = f == 2 ? Wf(base(sys).s[0], 3) : base(sys); CV v; for (int k = 0; k < (f == 2 ? 3 : 1); k++) { CV x = Gen::data(sys, f, k, seq + 1); v.insert(v.end(), x.begin(), x.end()); }
      FileWF o; o.Name(Gen::fileName(sys, f, fmt)); if (seq >= 0) { o.ActivateSequence(); o.Counter(seq); } o.Suffix(BINARY_WF_SUFFIX); o.FormatOut(fmt ? FileSingle<WaveFunction>::binary : FileSingle<WaveFunction>::stream); WaveFunction* p = make(w, v); o << p; DELETE_WF(p); } }
   int sys = c.pick(2, "system"), seq = c.pick(sys == 0 || c.thorough() ? 2 : 1, "number"); if (seq == 0) seq = -1; Gen g{ c, sys, seq, {}, 0 }; Val v; std::string xml = g.node("wf", 0, c.bound(2, 3), v); c.doing("%s", xml.c_str()); if (g.undefined) c.prune();
   std::string err; WaveFunction* w = load(xml, seq, err); if (!v.ok) { if (w) c.fail("inconsistent definition accepted", "%s", xml.c_str()); c.outcome(1); return; }
   if (!w) c.fail("definition rejected", "%s: %s", xml.c_str(), err.c_str()); c.nontrivial(); check(c, w, v, DV[sys], xml);
   for (auto& k : g.keys) { if (!Collector<WaveFunction>::Instance()->IsAllocated(GlobalWFList::Instance().Get(k.first))) c.fail("registered state destroyed", "%s: %s", xml.c_str(), k.first.c_str()); check(c, GlobalWFList::Instance().Get(k.first), k.second, DV[sys], xml + " key " + k.first); }
   if (g.keyed.empty()) { WaveFunction* w2 = load(xml, seq, err); if (!w2) c.fail("second load", "%s: %s", xml.c_str(), err.c_str()); *((cVec*)w) = dcomplex(7, 7); check(c, w2, v, DV[sys], xml + " again"); DELETE_WF(w2); }
   DELETE_WF(w); for (auto& k : g.keyed) DELETE_WF(GlobalWFList::Instance().Get(k)); // nothing else ever removes a named state
   c.outcome(mc::Hash().i(v.multi).i(v.s.size()).i(xml.size()).h); }
int main(int argc, char** argv) { mc::Options o; o.name = "definitions"; return mc::Main(argc, argv, body, o); }
