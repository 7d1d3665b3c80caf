// X03: every argument vector up to a length over a small token alphabet, against a reference parser.
#include "qd.h"
#include "tools/Getopt.h"
#include <getopt.h>
using namespace QDLIB;
struct Ref { std::map<char, std::string> val; std::vector<std::string> pos; bool err = false; };
// POSIX short options with GNU permutation.  flags: a, b, h; with value: n, s, x, r
static Ref parse(const std::vector<std::string>& v, const std::string& valued, const std::string& flags) {
   Ref r; size_t i = 0;
   for (; i < v.size(); i++) {
      const std::string& t = v[i];
      if (t == "--") { i++; break; }
      if (t.size() < 2 || t[0] != '-') { r.pos.push_back(t); continue; }
      for (size_t k = 1; k < t.size(); k++) {
         char o = t[k];
         if (flags.find(o) != std::string::npos) r.val[o] = "";
         else if (valued.find(o) != std::string::npos) {
            if (k + 1 < t.size()) { r.val[o] = t.substr(k + 1); break; }
            if (i + 1 < v.size()) { r.val[o] = v[++i]; break; }
            r.err = true;
         } else r.err = true;
      }
   }
   for (; i < v.size(); i++) r.pos.push_back(v[i]);
   return r;
}
static const char* TOK[] = { "-a", "-n", "5", "-s", "pos", "-z", "--", "-ab", "-n7", "-sx=1", "-", "-h", "-r", "-azn", "", "-x", "-2.5" };
static void run(mc::Ctx& c) {
   int conf = c.pick(3, "declaration");           // 0: all optional, 1: r required, 2: declared through the option string
   int n = c.pick(c.bound(5, 6), "argc"); std::vector<std::string> v;
   for (int i = 0; i < n; i++) v.push_back(TOK[c.pick(17, "token")]);
   std::string line; for (auto& s : v) line += " '" + s + "'";
   // arguments at the end of their own heap blocks, pointer array exactly sized
   char** argv = new char*[n + 2]; argv[0] = strdup("prog"); for (int i = 0; i < n; i++) argv[i + 1] = strdup(v[i].c_str()); argv[n + 1] = 0;
   Ref r = parse(v, "nsxr", "abh");
   optind = 0;
   c.doing("parse%s", line.c_str()); c.log("conf %d:%s", conf, line.c_str());
   char def[] = "abhn:s:x:r:";
   Getopt* g = conf == 2 ? new Getopt(n + 1, argv, def) : new Getopt();
   if (conf != 2) {
      g->SetDescription("d"); g->SetHelp('a', "flag a"); g->SetHelp('b', "flag b");
      g->SetHelp('n', "number", false, "a number", "3"); g->SetHelp('s', "text", false, "a text", "dflt"); g->SetHelp('x', "real", false, "a real", "1.25");
      g->SetHelp('r', "req", conf == 1, "required", "");
      g->ReadArgs(n + 1, argv);
   }
   bool bad = r.err || r.val.count('h') || (conf == 1 && !r.val.count('r'));
   auto query = [&](const char* when) {
      for (const char* o = "abhnsxr"; *o; o++) if (g->GetOption(*o) != (r.val.count(*o) > 0)) c.fail(std::string("present:") + *o, "option -%c reported %d (%s):%s", *o, g->GetOption(*o), when, line.c_str());
      for (size_t i = 0; i < r.pos.size() + 2; i++) {
         std::string s = "?"; bool ok = g->GetNonOption((int)i, s);
         if (ok != (i < r.pos.size())) c.fail("positional:count", "positional %zu reported %d, %zu expected (%s):%s", i, ok, r.pos.size(), when, line.c_str());
         if (ok && s != r.pos[i]) c.fail("positional:value", "positional %zu is '%s', expected '%s':%s", i, s.c_str(), r.pos[i].c_str(), line.c_str());
         char buf[16]; memset(buf, '?', sizeof buf); bool okc = g->GetNonOption((int)i, buf, sizeof buf);
         if (okc != ok || (ok && s != buf)) c.fail("positional:buffer", "positional %zu into a buffer differs:%s", i, line.c_str());
      }
      std::string s; int k; double x;
      if (conf != 2 || r.val.count('s')) { g->GetOption('s', s); std::string e = r.val.count('s') ? r.val['s'] : "dflt"; if (s != e) c.fail("value:s", "-s is '%s', expected '%s' (%s):%s", s.c_str(), e.c_str(), when, line.c_str()); }
      if (r.val.count('n') ? (r.val['n'].size() && sscanf(r.val['n'].c_str(), "%d", &k) == 1) : conf != 2) { int e = r.val.count('n') ? atoi(r.val['n'].c_str()) : 3; k = -77; g->GetOption('n', k); if (k != e) c.fail("value:n", "-n is %d, expected %d:%s", k, e, line.c_str()); }
      if (r.val.count('x') ? (sscanf(r.val['x'].c_str(), "%lf", &x) == 1) : conf != 2) { double e = r.val.count('x') ? atof(r.val['x'].c_str()) : 1.25; x = -77; g->GetOption('x', x); if (x != e) c.fail("value:x", "-x is %g, expected %g:%s", x, e, line.c_str()); }
   };
   bool first = c.flag("query before check");
   if (first && !r.err) query("before");
   if (conf != 2) {
      bool ok = g->CheckOptions();
      if (ok && r.err) c.fail("check:unknown", "unknown option or missing value not reported:%s", line.c_str());
      if (ok && bad) c.fail("check:required", "help or missing required option not reported:%s", line.c_str());
      if (!ok && !bad) c.fail("check:refused", "correct command line refused:%s", line.c_str());
   }
   if (!r.err) { query("after"); query("again"); if (v.size()) c.nontrivial(); }
   mc::Hash h; h.i(conf).i(r.err); for (auto& p : r.val) h.i(p.first).s(p.second); for (auto& p : r.pos) h.s(p);
   c.state(h.h); c.outcome(mc::Hash().i(bad).i(r.pos.size()).i(r.val.size()).h); c.step();
   delete g; for (int i = 0; i <= n; i++) free(argv[i]); delete[] argv;
}
int main(int argc, char** argv) { return mc::Main(argc, argv, run); }
