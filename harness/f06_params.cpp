// F06: parameter sets: operation sequences + text round trip (ops), and all short texts (text), against a reference.
#include "qd.h"
#include "tools/ParamContainer.h"
#include <sstream>
#include <fstream>
#include <cmath>
#include <limits>
using namespace QDLIB;
typedef ParamContainer PC;
struct Val { int kind; std::string s; double d; long l; std::vector<double> ad; std::vector<int> ai; std::vector<size_t> as; std::vector<char> ab; };
enum { STR, STRT, INT, LONG, SIZE, DBL, BOOL, ADBL, AINT, ASIZE, ABOOL };
static const char* TYPE[] = { "", "string", "int", "int", "sizet", "double", "bool", "double", "int", "sizet", "bool" };
static std::vector<Val> values() {
   std::vector<Val> v; auto add = [&](Val x) { v.push_back(x); };
   add({ STR, "x" }); add({ DBL, "", 0.1 }); add({ DBL, "", 1.0 / 3 }); add({ INT, "", 0, -3 }); add({ STR, "" }); add({ STR, "u = [v] # w" });
   add({ STRT, "txt,y" }); add({ LONG, "", 0, std::numeric_limits<long>::min() }); add({ SIZE, "", 0, -1 }); add({ DBL, "", -1.7976931348623157e308 });
   add({ DBL, "", 4.9406564584124654e-324 }); add({ BOOL, "", 0, 1 }); add({ BOOL, "", 0, 0 }); add({ DBL, "", 123456789.0 });
   Val a; a.kind = ADBL; a.ad = { 0.1, -1.0 / 3, 1e22 }; add(a); a = Val(); a.kind = AINT; a.ai = { 1, -2 }; add(a); a = Val(); a.kind = ASIZE; a.as = { 7, (size_t)-1 }; add(a);
   a = Val(); a.kind = ABOOL; a.ab = { 1, 0, 1 }; add(a); a = Val(); a.kind = ADBL; add(a); add({ STR, std::string(3000, 'q') });
   return v;
}
static void put(PC& p, const std::string& k, const Val& v) {
   switch (v.kind) {
   case STR: p.SetValue(k, v.s); break; case STRT: p.SetValue(k, v.s.c_str(), PC::t_string); break;
   case INT: { int i = (int)v.l; p.SetValue(k, i); break; } case LONG: { long l = v.l; p.SetValue(k, l); break; }
   case SIZE: { size_t l = v.l; p.SetValue(k, l); break; } case DBL: p.SetValue(k, v.d); break; case BOOL: { bool b = v.l; p.SetValue(k, b); break; }
   case ADBL: p.SetArray(k, v.ad.data(), v.ad.size()); break; case AINT: p.SetArray(k, v.ai.data(), v.ai.size()); break; case ASIZE: p.SetArray(k, v.as.data(), v.as.size()); break;
   case ABOOL: { bool b[8]; for (size_t i = 0; i < v.ab.size(); i++) b[i] = v.ab[i]; p.SetArray(k, b, v.ab.size()); break; }
   }
}
static void same(mc::Ctx& c, PC& p, const std::string& k, const Val& v, const char* w) {
   auto bad = [&](const char* what) { c.fail(std::string("value:") + TYPE[v.kind] + (v.kind >= ADBL ? "[]:" : ":") + w, "key %s, %s value: %s (%s)", k.c_str(), TYPE[v.kind], what, w); };
   if (!p.isPresent(k) || !p.isPresent(k.c_str())) bad("missing");
   switch (v.kind) {
   case STR: case STRT: { std::string s = "?"; if (!p.GetValue(k, s) || s != v.s) bad(("text differs: " + s.substr(0, 60)).c_str()); if (v.s.size() < 100) { char b[200]; if (!p.GetValue(k, b) || v.s != b) bad("C text differs"); } break; }
   case INT: { int i = 99; if (!p.GetValue(k, i) || i != v.l) bad("number differs"); break; }
   case LONG: { long i = 99; if (!p.GetValue(k, i) || i != v.l) bad("number differs"); break; }
   case SIZE: { size_t i = 99; if (!p.GetValue(k, i) || i != (size_t)v.l) bad("number differs"); break; }
   case DBL: { double d = 99; if (!p.GetValue(k, d) || d != v.d) bad("double precision lost"); break; }
   case BOOL: { bool b = !v.l; if (!p.GetValue(k, b, !v.l) || b != (bool)v.l) bad("boolean differs"); break; }
   case ADBL: { std::vector<double> a; if (!p.GetArray(k, a) || a != v.ad) bad("array differs"); break; }
   case AINT: { std::vector<int> a; if (!p.GetArray(k, a) || a != v.ai) bad("array differs"); break; }
   case ASIZE: { std::vector<std::string> a; if (!p.GetArray(k, a) || a.size() != v.as.size()) bad("array length differs"); for (size_t i = 0; i < a.size(); i++) if (a[i] != std::to_string(v.as[i])) bad("array differs"); break; }
   case ABOOL: { std::vector<bool> a; if (!p.GetArray(k, a) || a.size() != v.ab.size()) bad("array length"); for (size_t i = 0; i < a.size(); i++) if (a[i] != (bool)v.ab[i]) bad("array differs"); break; }
   }
}
static void whole(mc::Ctx& c, PC& p, const std::map<std::string, Val>& ref, const char* w, bool types) {
   if (p.Size() != ref.size()) c.fail(std::string("size:") + w, "%zu keys, expected %zu (%s)", p.Size(), ref.size(), w);
   p.ResetPosition(); std::string k, v;
   for (auto& r : ref) { if (!p.GetNextValue(k, v) || k != r.first) c.fail(std::string("order:") + w, "key '%s', expected '%s' (%s)", k.c_str(), r.first.c_str(), w); }
   if (p.GetNextValue(k, v)) c.fail(std::string("extra:") + w, "extra key '%s' (%s)", k.c_str(), w);
   for (auto& r : ref) {
      same(c, p, r.first, r.second, w);
      PC::datatype t = types ? PC::String2Type(TYPE[r.second.kind]) : PC::t_undef;
      if (p.GetType(r.first) != t || !p.isType(r.first, t) || !p.isType(r.first, PC::Type2String(t))) c.fail(std::string("type:") + w, "key %s has type '%s', expected '%s' (%s)", r.first.c_str(), PC::Type2String(p.GetType(r.first)).c_str(), PC::Type2String(t).c_str(), w);
   }
   std::string s; int i; double d; bool b;
   if (p.isPresent("absent") || p.GetValue("absent", s) || p.GetValue("absent", i) || p.GetValue("absent", d) || p.GetValue("absent", b, true) || !b) c.fail("absent", "an absent key is reported present");
}
static void ops(mc::Ctx& c) {
   static const std::vector<Val> V = values(); static const char* K[] = { "a", "key two", "zz_3" };
   PC p; std::map<std::string, Val> ref; int depth = c.bound(3, 3), nv = (int)V.size();
   int nvals = c.thorough() ? nv : nv;
   for (int i = 0; i < depth; i++) {
      int op = c.pick(i == 0 ? 1 : 5, "op");
      if (op == 0) { int k = c.pick(i == 0 && !c.thorough() ? 2 : 3, "key"), v = c.pick(nvals, "value"); c.doing("SetValue"); put(p, K[k], V[v]); ref[K[k]] = V[v]; c.log("set %s = value %d", K[k], v); }
      else if (op == 1) { int k = c.pick(3, "key"); p.Params().erase(K[k]); ref.erase(K[k]); c.log("erase %s", K[k]); }
      else if (op == 2) { PC q; int k = c.pick(3, "key"), v = c.pick(nv, "value"); put(q, K[k], V[v]); put(q, "m", V[0]); std::map<std::string, Val> before = ref; p += q; ref[K[k]] = V[v]; ref["m"] = V[0]; c.log("merge %s = value %d", K[k], v); }
      else if (op == 3) { p.clear(); ref.clear(); c.log("clear"); }
      else { PC q; put(q, "a", V[3]); q = p; put(p, "a", V[1]); whole(c, q, ref, "copy", true); p = q; c.log("copy"); }
      c.step(); whole(c, p, ref, "operation", true);
      mc::Hash h; for (auto& r : ref) h.s(r.first).i(r.second.kind).d(r.second.d).i(r.second.l).s(r.second.s.substr(0, 9)); c.state(h.h);
   }
   if (ref.size()) c.nontrivial();
   bool types = c.flag("types"); int how = c.pick(3, "medium");
   PC q; put(q, "stale", V[0]); c.doing("round trip");
   if (how == 0) { std::string s; p.Write(s, types); q.Parse(s); }
   else if (how == 1) { std::stringstream s; p.Write(s, types); s << "--end--\nafter = 1\n"; q.Parse(s, "--end--"); std::string rest; getline(s, rest); if (rest != "after = 1") c.fail("eofmark", "stream is not positioned behind the end mark: '%s'", rest.c_str()); }
   else { std::string f = c.dir() + "/p"; if (!p.WriteToFile(f, types)) c.fail("writefile", "WriteToFile failed"); if (!q.ReadFromFile(f)) c.fail("readfile", "ReadFromFile failed"); unlink(f.c_str()); if (q.ReadFromFile(f)) c.fail("readmissing", "reading a missing file succeeded"); q = PC(); p.WriteToFile(f, types); q.ReadFromFile(f); unlink(f.c_str()); }
   whole(c, q, ref, how == 0 ? "text" : how == 1 ? "stream" : "file", types); whole(c, p, ref, "after writing", true);
   c.outcome(mc::Hash().i(ref.size()).i(types).i(how).h);
}
static std::string tr(std::string s) { while (s.size() && strchr(" \t", s[0])) s.erase(0, 1); while (s.size() && strchr(" \t", s[s.size() - 1])) s.pop_back(); return s; }
static void text(mc::Ctx& c) {
   static const std::vector<std::string> T = { "a", "=", "\n", " ", "b", "[int]", "5", "#", "[", "]", "\t", "int", "[x]", std::string(2100, 'L') };
   int n = c.pick(c.bound(6, 7), "length"); std::string s; for (int i = 0; i < n; i++) s += T[c.pick((int)T.size(), "token")];
   // reference
   std::map<std::string, std::pair<std::string, std::string>> ref; bool err = false, unspec = false;
   { std::stringstream ss(s); std::string l;
     while (getline(ss, l)) {
        size_t e = l.find('='); if (e == l.npos) continue;
        std::string k = tr(l.substr(0, e)), v = tr(l.substr(e + 1)), t;
        if (k.size() && k[0] == '#') continue;
        size_t b = k.find('['), q = k.find(']');
        if (b != k.npos || q != k.npos) {
           if (b == k.npos) { unspec = true; continue; }
           if (q != k.size() - 1 || b > q) { unspec = true; continue; }
           t = k.substr(b + 1, q - b - 1); k = tr(k.substr(0, b));
           if (t != "" && t != "int") { if (t != "x") unspec = true; else err = true; if (err) break; continue; }
        }
        if (k.size()) ref[k] = { v, t };
     } }
   PC p; bool thrown = false; p.SetValue("stale", "1");
   std::string show; for (char ch : s.substr(0, 60)) show += ch == '\n' ? '|' : ch; c.doing("Parse(%s)", show.substr(0, 40).c_str());
   int how = c.pick(2, "interface");
   try { if (how) { std::stringstream ss(s); p.Parse(ss); } else p.Parse(s); } catch (Exception&) { thrown = true; }
   c.log("'%s' -> %zu keys%s", show.c_str(), p.Size(), thrown ? " rejected" : "");
   c.step(); mc::Hash h; h.i(err); for (auto& r : ref) h.s(r.first).s(r.second.first).s(r.second.second); c.state(h.h); c.outcome(mc::Hash().i(thrown).i(ref.size()).h);
   if (unspec) return;
   if (err != thrown) c.fail(err ? "text:accepted" : "text:rejected", "text '%s' %s", show.c_str(), err ? "with unknown type accepted" : "rejected");
   if (err) return;
   if (ref.size()) c.nontrivial();
   if (p.Size() != ref.size()) c.fail("text:size", "text '%s' gives %zu keys, expected %zu", show.c_str(), p.Size(), ref.size());
   for (auto& r : ref) { std::string v; if (!p.GetValue(r.first, v) || v != r.second.first) c.fail("text:value", "text '%s': key '%s' is '%s', expected '%s'", show.c_str(), r.first.c_str(), v.c_str(), r.second.first.c_str());
      if (p.GetType(r.first) != PC::String2Type(r.second.second)) c.fail("text:type", "text '%s': key '%s' has a wrong type", show.c_str(), r.first.c_str()); }
}
// typed reads of arbitrary text
static void typed(mc::Ctx& c) {
   static const std::vector<std::string> T = { "5", "-", ".", "e", "x", "", " ", "+", "true", "false" };
   int n = c.pick(5, "length"); std::string s; for (int i = 0; i < n; i++) s += T[c.pick((int)T.size(), "token")];
   PC p; p.SetValue("k", s); int kind = c.pick(8, "type"); bool isnum, thrown = false; c.doing("typed read of '%s'", s.c_str());
   char* e; std::string t = s; double dv = strtod(t.c_str(), &e); bool dnum = e != t.c_str(); long lv = strtol(t.c_str(), &e, 10); bool lnum = e != t.c_str();
   int iv = -77; long l = -77; size_t z = 77; unsigned u = 77; double d = -77; bool b, r = true; std::vector<double> ad; std::vector<int> ai;
   try { switch (kind) { case 0: r = p.GetValue("k", iv); break; case 1: r = p.GetValue("k", l); break; case 2: r = p.GetValue("k", z); break; case 3: r = p.GetValue("k", u); break; case 4: r = p.GetValue("k", d); break;
      case 5: r = p.GetValue("k", b, true); break; case 6: r = p.GetArray("k", ad); break; case 7: r = p.GetArray("k", ai); break; } } catch (Exception&) { thrown = true; }
   c.step(); c.state(mc::Hash().s(s).i(kind).h); c.outcome(mc::Hash().i(kind).i(thrown).h); if (!thrown) c.nontrivial();
   if (kind == 5) { if (thrown || b != (s == "false" ? false : true)) c.fail("typed:bool", "'%s' read as %d", s.c_str(), b); return; }
   isnum = (kind == 4 || kind == 6) ? dnum : lnum;
   if (kind >= 6 && s.empty()) { if (thrown || ad.size() + ai.size()) c.fail("typed:emptyarray", "an empty entry yields %zu elements", ad.size() + ai.size()); return; }
   if (!isnum && !thrown) c.fail("typed:garbage", "'%s' was read as a number (kind %d)", s.c_str(), kind);
   if (isnum && thrown) { if ((dv != dv) || s.find_first_of("ex") != s.npos) return; c.fail("typed:refused", "'%s' was refused as a number (kind %d)", s.c_str(), kind); }
   if (isnum && !r) c.fail("typed:missing", "'%s' reported missing", s.c_str());
   if (isnum) { bool same = kind == 0 ? iv == (int)lv : kind == 1 ? l == lv : kind == 2 ? z == (size_t)lv : kind == 3 ? u == (unsigned)lv : kind == 4 ? d == dv : kind == 6 ? ad.size() == 1 && ad[0] == dv : ai.size() == 1 && ai[0] == (int)lv;
      if (!same) c.fail("typed:value", "'%s' was read as another number (kind %d)", s.c_str(), kind); }
}
int main(int argc, char** argv) {
   for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--text")) return mc::Main(argc, argv, text); if (!strcmp(argv[i], "--typed")) return mc::Main(argc, argv, typed); }
   return mc::Main(argc, argv, ops);
}
