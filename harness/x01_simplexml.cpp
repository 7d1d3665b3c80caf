// X01/X02: programs of the simple input language through the real translator, against an independent interpreter.
//   trees      programs of up to n statements (elements, attributes, assignments, loops) in several layouts
//   values     every value expression up to a length over atoms with special characters and formats; every loop range
//   sequences  every sequence of translations (valid, failing in different places, defining variables) in one process
//   tokens     every token sequence up to a length in several contexts
//   edits      every prefix, deletion, insertion and replacement of single characters of correct programs
#include "run.h"
#include "simpleXml/Simple2Xml.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace QDLIB;
extern std::map<std::string, std::string> varlist;
namespace {
typedef std::string S; typedef std::vector<S> SV; typedef std::map<S, S> Vars;
struct Node { S name; std::vector<std::pair<S, S>> at; std::vector<Node> kids; };
S show(const Node& n) { S s = "<" + n.name; for (auto& a : n.at) s += " " + a.first + "='" + a.second + "'"; s += ">"; for (auto& k : n.kids) s += show(k); return s + "</>"; }
struct Bad { S why; }; struct Unspecified { bool big; };
// ------------------------------------------------------------------ reference: scanner, recursive descent parser, interpreter
enum T { WORD, STR, DEF, USE, FMT, OPEN, CLOSE, EQ, CAT, FOR_, END_ };
struct Tok { T t; S s; };
bool wordc(char c) { return isalnum((unsigned char)c) || c == '.' || c == '-' || c == '_' || c == ':' || c == ','; }
bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
std::vector<Tok> scan(const S& x) {
   std::vector<Tok> v; size_t i = 0;
   while (i < x.size()) {
      char c = x[i];
      if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { i++; continue; }
      if (c == '#') { while (i < x.size() && x[i] != '\n') i++; continue; }
      if (c == '{') { v.push_back({ OPEN, "{" }); i++; continue; }
      if (c == '}') { v.push_back({ CLOSE, "}" }); i++; continue; }
      if (c == '=') { v.push_back({ EQ, "=" }); i++; continue; }
      if (c == '~') { v.push_back({ CAT, "~" }); i++; continue; }
      if (c == '"') { size_t e = i + 1; while (e < x.size() && x[e] != '"' && x[e] != '\n' && x[e]) e++; if (e >= x.size() || x[e] != '"') throw Bad{ "unterminated string" }; v.push_back({ STR, x.substr(i + 1, e - i - 1) }); if (v.back().s.find('\xff') != S::npos) throw Unspecified{ false }; i = e + 1; continue; }
      if (c == '$') {
         if (i + 1 < x.size() && x[i + 1] == '(') { size_t e = i + 2; while (e < x.size() && idc(x[e])) e++; if (e == i + 2 || e >= x.size() || x[e] != ')') throw Bad{ "bad variable" }; v.push_back({ USE, x.substr(i + 2, e - i - 2) }); i = e + 1; continue; }
         size_t e = i + 1; while (e < x.size() && idc(x[e])) e++; if (e == i + 1) throw Bad{ "bad variable" }; v.push_back({ DEF, x.substr(i + 1, e - i - 1) }); i = e; continue; }
      if (c == '%') { size_t e = i + 1; while (e < x.size() && (isdigit((unsigned char)x[e]) || x[e] == '.' || x[e] == 'f' || x[e] == 'd' || x[e] == 's')) e++; if (e == i + 1) throw Bad{ "bad format" }; v.push_back({ FMT, x.substr(i, e - i) }); i = e; continue; }
      if (wordc(c)) { size_t e = i; while (e < x.size() && wordc(x[e])) e++; S w = x.substr(i, e - i); v.push_back({ w == "for" ? FOR_ : WORD, w }); i = e; continue; }
      throw Bad{ "unexpected character" };
   }
   v.push_back({ END_, "" }); return v;
}
struct Part { bool var; S s, fmt; };
typedef std::vector<Part> Expr;
struct Stmt { enum { ELEM, ATTR, SET, LOOP } k; S name; Expr e; std::vector<Stmt> body; S b, en, st; };
bool decimal(const S& s, double& d) { char* e; d = strtod(s.c_str(), &e); return !s.empty() && !*e && std::isfinite(d); }
struct Parser {
   std::vector<Tok> t; size_t i = 0;
   bool is(T k) { return t[i].t == k; }
   Tok need(T k) { if (!is(k)) throw Bad{ "syntax" }; return t[i++]; }
   Expr expr() { Expr e; for (;;) { if (is(WORD) || is(STR)) { e.push_back({ false, t[i++].s, "" }); } else if (is(USE)) { Part p{ true, t[i++].s, "%s" }; if (is(FMT)) p.fmt = t[i++].s; e.push_back(p); } else throw Bad{ "value expected" }; if (!is(CAT)) return e; i++; } }
   std::vector<Stmt> list(int level, bool attrOk) {
      std::vector<Stmt> v;
      for (;;) {
         if (is(END_)) { if (level) throw Bad{ "missing }" }; return v; }
         if (is(CLOSE)) { if (!level) throw Bad{ "too many }" }; i++; return v; }
         Stmt s;
         if (is(DEF)) { s.k = Stmt::SET; s.name = t[i++].s; need(EQ); s.e = expr(); }
         else if (is(FOR_)) { i++; s.k = Stmt::LOOP; s.name = need(DEF).s; need(EQ); s.b = need(WORD).s; s.en = need(WORD).s; s.st = "1"; if (is(WORD)) s.st = t[i++].s; need(OPEN); s.body = list(level + 1, false); }
         else { s.name = need(WORD).s; if (is(OPEN)) { i++; s.k = Stmt::ELEM; s.body = list(level + 1, true); } else { need(EQ); s.k = Stmt::ATTR; s.e = expr(); if (!attrOk) throw Bad{ "attribute outside an element" }; } }
         v.push_back(s);
      }
   }
};
// decimal fractions as integers times 10^-12
bool fixedp(const S& s, long long& r) { r = 0; size_t i = 0; bool neg = false; if (s[0] == '-') { neg = true; i = 1; } int frac = -1, dig = 0; for (; i < s.size(); i++) { if (s[i] == '.') { if (frac >= 0) return false; frac = 0; } else if (isdigit((unsigned char)s[i])) { r = r * 10 + (s[i] - '0'); dig++; if (frac >= 0) frac++; } else return false; if (r > 100000000) return false; } if (!dig) return false; if (frac < 0) frac = 0; if (frac > 6) return false; for (int k = frac; k < 6; k++) r *= 10; if (neg) r = -r; return true; }
S fixedText(long long r) { bool neg = r < 0; if (neg) r = -r; S i = std::to_string(r / 1000000), f = std::to_string(1000000 + r % 1000000).substr(1); while (!f.empty() && f.back() == '0') f.pop_back(); return (neg ? "-" : "") + i + (f.empty() ? "" : "." + f); }
struct Interp {
   Vars v; long work = 0; bool dupAttr = false, oddName = false;
   S part(const Part& p) {
      if (!p.var) return p.s;
      auto it = v.find(p.s); if (it == v.end()) throw Bad{ "unknown variable " + p.s };
      size_t i = 1; int width = 0, prec = -1; bool zero = false; const S& f = p.fmt; const S val = it->second;
      if (i < f.size() && f[i] == '0') zero = true;
      while (i < f.size() && isdigit((unsigned char)f[i])) { width = width * 10 + (f[i++] - '0'); if (width > 100000) throw Unspecified{ false }; }
      if (i < f.size() && f[i] == '.') { prec = 0; i++; while (i < f.size() && isdigit((unsigned char)f[i])) { prec = prec * 10 + (f[i++] - '0'); if (prec > 100000) throw Unspecified{ false }; } }
      if (i + 1 != f.size()) throw Bad{ "bad format" };
      S r;
      if (f[i] == 's') { r = val; if (prec >= 0) r = r.substr(0, prec); if (zero && (int)r.size() < width) throw Unspecified{ false }; }
      else if (f[i] == 'd') { char* e; errno = 0; long long k = strtoll(val.c_str(), &e, 10); if (val.empty() || *e || errno || k != (int)k) throw Bad{ "not an integer" }; r = std::to_string(k < 0 ? -k : k); if (prec >= 0) { if (!prec && !k) r = ""; while ((int)r.size() < prec) r = "0" + r; zero = false; } if (zero) while ((int)r.size() + (k < 0) < width) r = "0" + r; if (k < 0) r = "-" + r; }
      else if (f[i] == 'f') { double d; if (!decimal(val, d)) throw Bad{ "not a number" }; if (prec < 0) prec = 6; std::ostringstream o; o.setf(std::ios::fixed); o.precision(prec); o << (std::signbit(d) ? -d : d); r = o.str(); if (zero) while ((int)r.size() + (std::signbit(d) ? 1 : 0) < width) r = "0" + r; if (std::signbit(d)) r = "-" + r; }
      else throw Bad{ "bad format" };
      while ((int)r.size() < width) r = " " + r;
      return r;
   }
   S value(const Expr& e) { S r; for (auto& p : e) r += part(p); return r; }
   void run(const std::vector<Stmt>& l, Node& out) {
      for (auto& s : l) {
         if (++work > 20000) throw Unspecified{ true };
         if (s.k == Stmt::SET) v[s.name] = value(s.e);
         else if (s.k == Stmt::ATTR) { for (auto& a : out.at) if (a.first == s.name) dupAttr = true; if (!(isalpha((unsigned char)s.name[0]) || s.name[0] == '_') || s.name.find(',') != S::npos || s.name.find(':') != S::npos) oddName = true; out.at.push_back({ s.name, value(s.e) }); }
         else if (s.k == Stmt::ELEM) { if (!(isalpha((unsigned char)s.name[0]) || s.name[0] == '_') || s.name.find(',') != S::npos || s.name.find(':') != S::npos) oddName = true; Node n; n.name = s.name; run(s.body, n); out.kids.push_back(n); }
         else {
            double db, de, ds; if (!decimal(s.b, db) || !decimal(s.en, de) || !decimal(s.st, ds)) throw Bad{ "range" };
            if (ds == 0) throw Bad{ "step 0" };
            long long b, e, st; if (!fixedp(s.b, b) || !fixedp(s.en, e) || !fixedp(s.st, st) || !st) throw Unspecified{ false };
            if (st < 0) st = -st;
            if (e >= b) for (long long x = b; x <= e; x += st) { v[s.name] = fixedText(x); if (++work > 20000) throw Unspecified{ true }; run(s.body, out); }
            else for (long long x = b; x >= e; x -= st) { v[s.name] = fixedText(x); if (++work > 20000) throw Unspecified{ true }; run(s.body, out); }
         }
      }
   }
};
struct Expect { enum { DOC, ERROR, ANY } k; S tree, why; };
Expect reference(const S& text, const Vars& preset) {
   try { Parser p; p.t = scan(text); std::vector<Stmt> prog = p.list(0, false);
      Interp in; in.v = preset; Node root; root.name = "r";
      in.run(prog, root);
      bool any = false; for (auto& s : prog) if (s.k == Stmt::ELEM || s.k == Stmt::LOOP) any = true;
      if (!any) return { Expect::ERROR, "", "empty" };
      if (in.dupAttr || in.oddName || root.kids.empty()) return { Expect::ANY, "", "" };
      return { Expect::DOC, show(root), "" };
   } catch (Bad& b) { return { Expect::ERROR, "", b.why }; }
   catch (Unspecified& u) { return { Expect::ANY, "", u.big ? "long" : "" }; }
}
// ------------------------------------------------------------------ the real thing
bool hasText(xmlNodePtr n) { for (xmlNodePtr k = n->children; k; k = k->next) if (k->type == XML_TEXT_NODE && !xmlIsBlankNode(k)) return true; return false; }
bool conv(xmlNodePtr n, Node& o) {
   o.name = (const char*)n->name;
   for (xmlAttrPtr a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1); o.at.push_back({ (const char*)a->name, v ? (const char*)v : "" }); xmlFree(v); }
   if (hasText(n)) return false;
   for (xmlNodePtr k = n->children; k; k = k->next) { if (k->type == XML_ELEMENT_NODE) { Node c; if (!conv(k, c)) return false; o.kids.push_back(c); } else if (k->type != XML_TEXT_NODE && k->type != XML_COMMENT_NODE) return false; }
   return true;
}
void noErr(void*, const char*, ...) {}
bool document(const S& xml, S& tree) {
   xmlSetGenericErrorFunc(NULL, noErr);
   S w = "<r>" + xml + "</r>"; xmlDocPtr d = xmlReadMemory(w.data(), w.size(), "x", "UTF-8", XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
   if (!d) return false; Node n; bool ok = conv(xmlDocGetRootElement(d), n); xmlFreeDoc(d); if (ok) tree = show(n); return ok;
}
struct Got { bool ok; S xml, err; };
Got translate(const S& text, bool convert = false) {
   run::spit("in.qds", text); Got g; g.ok = true;
   std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
   try { if (convert) { unlink("out.xml"); QDSXML::Convert("in.qds", "out.xml"); if (!run::slurp("out.xml", g.xml)) { g.ok = false; g.err = "no file"; } } else QDSXML::Parse("in.qds", g.xml); } catch (Exception& e) { g.ok = false; g.err = e.GetMessage(); }
   std::cout.rdbuf(old); return g;
}
S id;
S esc(S t) { S o; for (char c : t) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else o += c; } return o; }
// wantDoc: a violation is one of X01 (right programs) otherwise of X02
void check(mc::Ctx& c, const S& text, const Vars& preset, const S& key, bool convert = false) {
   varlist = preset; c.doing("translate %.120s", esc(text).c_str()); c.log("text: %s", esc(text).c_str());
   Expect e = reference(text, preset); if (e.k == Expect::ANY && e.why == "long") { c.count("too long"); return; }
   Got g = translate(text, convert);
   c.step(); c.outcome(mc::Hash().s(g.ok ? g.xml : "!" + g.err).h);
   c.log("expected %s %s", e.k == Expect::DOC ? e.tree.c_str() : e.k == Expect::ERROR ? "error" : "unspecified", e.why.c_str()); c.log("got %s", g.ok ? g.xml.c_str() : ("error: " + g.err).c_str());
   c.count(e.k == Expect::DOC ? "documents" : e.k == Expect::ERROR ? "rejected" : "unspecified");
   if (e.k == Expect::ANY) return;
   c.nontrivial();
   if (e.k == Expect::ERROR) { if (g.ok) c.fail(key + ":accepted:" + e.why, "a text that is not a program (%s) was translated: %s -> %.300s", e.why.c_str(), esc(text).c_str(), g.xml.c_str()); return; }
   if (!g.ok) c.fail(key + ":refused", "a correct program was refused: %s (%s)", esc(text).c_str(), g.err.c_str());
   S tree; if (!document(g.xml, tree)) c.fail(key + ":notxml", "the translation is no well-formed XML: %s -> %.300s", esc(text).c_str(), g.xml.c_str());
   if (tree != e.tree) c.fail(key + ":wrong", "wrong translation of %s:\n%.400s\ninstead of\n%.400s", esc(text).c_str(), tree.c_str(), e.tree.c_str());
   for (auto& p : preset) if (varlist[p.first] != p.second) c.fail(key + ":preset", "a variable of the command line was changed for later inputs");
   if (varlist.size() != preset.size()) c.fail(key + ":leaks", "variables of the text remain defined");
}
// ------------------------------------------------------------------ layouts: tokens to text
S layout(const SV& t, int how) {
   S o; if (how == 4) o = "# head { } = \" $(x\n\n";
   for (size_t i = 0; i < t.size(); i++) {
      const S& a = t[i]; S b = i + 1 < t.size() ? t[i + 1] : "";
      bool glue = !a.empty() && !b.empty() && (wordc(a.back()) || a[0] == '%') && (wordc(b[0])); bool defw = a[0] == '$' && a.back() != ')' && !b.empty() && idc(b[0]); bool fm = a[0] == '%' && !b.empty() && (isdigit((unsigned char)b[0]) || strchr(".fds", b[0]));
      bool must = glue || defw || fm;
      o += a;
      if (how == 0) o += " "; else if (how == 1) o += must ? " " : ""; else if (how == 2) o += "\n"; else if (how == 3) o += "\t \r\n"; else if (how == 4) o += "  # comment } { \"\n"; else o += a == "{" || a == "}" ? "\n   " : " ";
   }
   if (how == 5) o += "# last line";
   return o;
}
// ------------------------------------------------------------------ trees
void genExpr(mc::Ctx& c, SV& o, bool rich) {
   int k = c.pick(rich ? 5 : 3, "value");
   switch (k) { case 0: o.push_back("w1"); break; case 1: o.push_back("$(v)"); break; case 2: o.push_back("\"s \""); o.push_back("~"); o.push_back("$(u)"); break; case 3: o.push_back("$(v)"); o.push_back("%03d"); break; default: o.push_back("$(u)"); o.push_back("~"); o.push_back("-"); o.push_back("~"); o.push_back("$(v)"); o.push_back("%s"); }
}
void genList(mc::Ctx& c, SV& o, int& budget, int depth, bool attrOk, int& serial, bool rich) {
   for (;;) {
      if (!budget) return;
      int k = c.pick(attrOk ? 5 : 4, "statement"); if (!k) return;
      budget--;
      if (k == 1) { o.push_back("e" + std::to_string(serial++)); o.push_back("{"); genList(c, o, budget, depth + 1, true, serial, rich); o.push_back("}"); }
      else if (k == 2) { static const SV n = { "v", "u" }; o.push_back("$" + n[c.pick(2, "variable")]); o.push_back("="); genExpr(c, o, rich); }
      else if (k == 3) { static const std::vector<SV> R = { { "1", "2" }, { "2", "0" }, { "0", "0.2", "0.1" }, { "1", "1" } }; o.push_back("for"); o.push_back(c.flag("loop variable") ? "$u" : "$v"); o.push_back("="); for (auto& s : R[c.pick(rich ? 4 : 2, "range")]) o.push_back(s); o.push_back("{"); genList(c, o, budget, depth + 1, false, serial, rich); o.push_back("}"); }
      else { o.push_back("a" + std::to_string(serial++)); o.push_back("="); genExpr(c, o, rich); }
   }
}
void trees(mc::Ctx& c) {
   // preset: v from the command line, so that every program has a value for it; u only if the text defines it
   int pre = c.pick(2, "preset"); Vars p; if (pre) { p["v"] = "7"; p["u"] = "pre"; }
   bool rich = c.thorough(); int how = c.pick(c.thorough() ? 6 : 3, "layout"); if (!c.thorough()) { static const int L[] = { 1, 4, 5 }; how = L[how]; }
   SV o; int serial = 0; int budget = c.bound(4, 4);
   genList(c, o, budget, 0, false, serial, rich);
   check(c, layout(o, how), p, "trees");
   if (how == 5) check(c, layout(o, how), p, "convert", true);
}
// ------------------------------------------------------------------ values and ranges
void values(mc::Ctx& c) {
   int mode = c.pick(3, "what");
   if (mode == 0) { // expressions
      static const SV A = { "w", "1.50", "-3", "1e-3", "a.b-c_d:e,f", "\"\"", "\"<a & b> 'q'\"", "\"# { } = ~ $(x) %d\"", "\"\xc3\xa4 \t&amp;\"", "$(i)", "$(x)", "$(s)", "$(i) %d", "$(i) %05d", "$(i) %.2f", "$(x) %f", "$(x) %8.3f", "$(x)%.0f", "$(x) %d", "$(s) %s", "$(s) %6s", "$(s) %.2s", "$(s) %f", "$(none)", "$(e)", "$(m)", "$(e) %d", "$(e) %f", "$(i) %d.", "$(i) %.d", "$(i) %ds", "$(big) %d", "$(long)", "$(long) %s", "$(x) %300.2f", "$(n) %04d", "$(n) %08.3f", "$(h) %d", "$(inf) %f" };
      int n = 1 + c.pick(c.bound(2, 3), "length"); S e; for (int i = 0; i < n; i++) e += (i ? " ~ " : "") + A[c.pick((int)A.size(), "atom")];
      Vars p; p["i"] = "12"; p["x"] = "-2.5"; p["s"] = "text"; p["e"] = ""; p["m"] = "<\"&'>"; p["big"] = "3000000000"; p["long"] = S(3000, 'x'); p["n"] = "-5"; p["h"] = "0x10"; p["inf"] = "inf";
      int where = c.pick(3, "position");
      check(c, where == 0 ? "q { a = " + e + " b = 1 }" : where == 1 ? "$i = " + e + " q { a = $(i) }" : "q { c { a = " + e + "} $i = z b = $(i) }", p, "values");
   } else if (mode == 1) { // loops over every range
      static const SV N = { "0", "1", "-1", "2", "3", "0.1", "0.2", "0.3", "0.5", "1.5", "-0.3", "10", "-2", "1000000", "1000002", "0.7", "1.1", "100000.5", "x", "1e", "-", "00", "1.50" };
      static const SV ST = { "", "1", "0.1", "-1", "2", "0", "0.05", "0.7", "3", "-0.25", "0.3", "y", "250000.5" };
      S b = c.of(N, "begin"), e = c.of(N, "end"), s = c.of(ST, "step");
      check(c, "q { for $i = " + b + " " + e + " " + s + " { p { a = $(i) } } z {} }", Vars(), "loops");
   } else { // formatted loop values, nested loops, loop variable reuse, assignments in loops
      static const SV F = { "", "%d", "%03d", "%.2f", "%f", "%s", "%5s", "%8.1f" };
      static const SV R = { "1 3", "3 1", "0 1 0.25", "-1 1", "8 12 2", "0.5 2.5", "1 0 0.5" };
      S f = c.of(F, "format"), r = c.of(R, "range"), r2 = c.of(R, "range"); int shape = c.pick(5, "shape");
      S t;
      switch (shape) {
         case 0: t = "q { for $i = " + r + " { p { a = f_ ~ $(i) " + f + " } } }"; break;
         case 1: t = "q { for $i = " + r + " { for $j = " + r2 + " { p { a = $(i) " + f + " ~ _ ~ $(j) " + f + " } } } }"; break;
         case 2: t = "q { for $i = " + r + " { w { for $i = " + r2 + " { p { a = $(i)" + f + " } } b = $(i) } } }"; break;
         case 3: t = "$n = 0 q { for $i = " + r + " { $m = $(n) ~ $(i) " + f + " $n = $(m) p { a = $(n) } } d { a = $(n) } }"; break;
         default: t = "for $i = " + r + " { q { a = $(i)" + f + " } } for $j = " + r2 + " { s { for $i = 1 2 { b = 1 } } }"; // an attribute inside a loop
      }
      check(c, t, Vars(), "loops");
   }
}
// ------------------------------------------------------------------ sequences
void sequences(mc::Ctx& c) {
   static const SV P = { "a { b = 1 }", "$v = 5 a { b = $(v) }", "a { b = $(v) }", "a { b { c = x", "a { b = \"x", "a { b = q ~ }", "for $v = 1 2 { a { n = $(v) } }", "for $v = 1 2 { a { n = $(v) }", "a { } }", "a { n = p ~ $(none) }", "a { c { } } $v = 8 b { d = $(v) }", "a { b = 1 } ?", "", "$v = x ~ $(none)", "a { $v = 3 b = $(v) } c { d = $(v) }", "for $w = 1 2 0 { a { } }", "$v = pre ~" };
   int n = 2 + c.pick(c.bound(2, 3), "length"); int pre = c.pick(2, "preset"); Vars p; if (pre) p["v"] = "cmd";
   for (int i = 0; i < n; i++) { int k = c.pick((int)P.size(), "program"); bool cv = i == 1 && c.flag("convert");
      check(c, P[k], p, "sequence", cv); }
   // missing input
   varlist = p; S x = "untouched"; try { QDSXML::Parse("nonexistent", x); c.fail("sequence:missing", "a missing file was translated"); } catch (Exception&) {}
   check(c, P[1], p, "sequence");
}
// ------------------------------------------------------------------ tokens
void tokens(mc::Ctx& c) {
   static const SV CT = { "", "a {", "a { b =", "for $i = 1 2 {", "$v =", "a { b = $(v)", "for" };
   static const SV TK = { "a", "{", "}", "=", "\"q\"", "$v", "$(v)", "%d", "~", "for", "2", "?", "\"", "$i", "# } \n" };
   int k = c.pick((int)CT.size(), "context"), n = c.pick(c.bound(5, 6), "length"), close = c.pick(2, "closed"); S t = CT[k];
   for (int i = 0; i < n; i++) t += " " + TK[c.pick((int)TK.size(), "token")];
   if (close) { int o = 0; for (char ch : t) o += ch == '{' ? 1 : 0; for (int i = 0; i < (o > 3 ? 3 : o); i++) t += " }"; }
   Vars p; if (k == 5) p["v"] = "4";
   check(c, t, p, "tokens");
}
// ------------------------------------------------------------------ edits
void edits(mc::Ctx& c) {
   static const SV P = {
      "qdng {\n   # note\n   propa { dt=2 dir=\"p\" ~ $(d) %.2f\n      wf { file=wf0 }\n   }\n}\n",
      "$n = \"3\"\nq {for $i=1 3 0.5{p {a=$(i) b=\"x\"~$(n)%03d}}}",
      "for $k = 2 0 {\r\n m { w.1-2=$(k) ~ _ ~ $(d) } }# end" };
   static const char CH[] = "a1{}=\"$()%~#.-?<\n f\t\r&;\\\0\xff"; const int NC = sizeof CH - 1;
   const S& b = P[c.pick(3, "program")]; int op = c.pick(4, "edit"); S t; int at = c.big((int)b.size() + 1, "position");
   Vars p; p["d"] = "1.5";
   if (op == 0) t = b.substr(0, at);
   else if (op == 1) { t = b; if (at < (int)b.size()) t.erase(at, 1); if (c.thorough() && c.flag("again")) { int a2 = c.big((int)t.size() + 1, "position"); if (a2 < (int)t.size()) t.erase(a2, 1); } }
   else if (op == 2) { t = b; t.insert((size_t)at, 1, CH[c.pick(NC, "character")]); }
   else { t = b; if (at < (int)b.size()) t[at] = CH[c.pick(NC, "character")]; if (c.thorough() && c.flag("again")) { int a2 = c.big((int)t.size() + 1, "position"); if (a2 < (int)t.size()) t[a2] = CH[c.pick(NC, "character")]; } }
   check(c, t, p, "edits");
}
void go(mc::Ctx& c) { if (id == "trees") trees(c); else if (id == "values") values(c); else if (id == "sequences") sequences(c); else if (id == "tokens") tokens(c); else edits(c); }
}
int main(int argc, char** argv) { if (argc > 1 && argv[1][0] != '-') { id = argv[1]; argv++; argc--; } mc::Options o; o.name = "x01"; o.deadline = 700; o.forkPerExec = id == "sequences"; return mc::Main(argc, argv, go, o); }
