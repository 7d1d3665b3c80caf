// M05: object registries - the reference counting collector, the operator list, the wave function list, and operators shared by reference between programs
#include "run.h"
#include "ChainLoader.h"
#include "qdlib/OScalar.h"
using namespace run;
// the collector ------------------------------------------------------------------------------------------------------------------
struct Obj { int id; Obj* child; static int dead[8]; Obj(int i, Obj* ch) : id(i), child(ch) {} ~Obj() { dead[id]++; if (child) Collector<Obj>::Instance()->Delete(child); } };
int Obj::dead[8];
static void collector(mc::Ctx& c) {
   Collector<Obj>* k = Collector<Obj>::Instance(); k->Delete(); memset(Obj::dead, 0, sizeof Obj::dead); const int N = 3; struct M { Obj* p = NULL; int refs = 0, child = -1, died = 0; bool aligned = false; }; std::vector<M> m; std::vector<Obj*> old;
   std::function<void(int)> release = [&](int i) { if (m[i].refs <= 0) return; if (--m[i].refs == 0) { if (!m[i].aligned) { m[i].died++; if (m[i].child >= 0) release(m[i].child); } } };
   int depth = c.bound(6, 8);
   for (int t = 0; t < depth; t++) {
      int live = 0; for (auto& x : m) live += x.refs > 0;
      if (t && c.flag("end")) break;
      int op = c.pick(6, "operation");
      if (op == 0) { if ((int)m.size() >= N) c.prune(); int ch = -1; int kind = c.pick(2 + (int)m.size(), "kind"); if (kind >= 2) { ch = kind - 2; if (m[ch].refs == 0) c.prune(); }
         M x; x.refs = 1; x.aligned = kind == 1; x.child = ch; if (x.aligned) { x.p = (Obj*)malloc(sizeof(Obj)); new (x.p) Obj(m.size(), NULL); } else x.p = new Obj(m.size(), ch >= 0 ? m[ch].p : NULL); if (ch >= 0) { k->Register(m[ch].p); m[ch].refs++; } k->Register(x.p, x.aligned); m.push_back(x); }
      else if (op == 1 || op == 2) { if (m.empty()) c.prune(); int i = c.pick(m.size(), "object"); if (op == 1) { if (m[i].refs == 0) c.prune(); k->Register(m[i].p); m[i].refs++; } else if (m[i].refs > 0) { k->Delete(m[i].p); release(i); } else { k->Delete(m[i].p); c.count("released twice"); } }
      else if (op == 3) { k->Delete(NULL); k->Register(NULL); }
      else if (op == 4) { int target = -1; (void)target; if (m.empty()) c.prune(); k->Delete(); for (auto& x : m) if (x.refs > 0) { x.refs = 0; if (!x.aligned) x.died++; } }
      else { if (m.empty()) c.prune(); int i = c.pick(m.size(), "object"); if (m[i].refs != 1) c.prune(); Obj* mine = m[i].p; (void)mine; k->Register(m[i].p); k->Delete(m[i].p); }
      c.step(); size_t n = 0; for (size_t i = 0; i < m.size(); i++) { n += m[i].refs > 0; if (k->IsAllocated(m[i].p) != (m[i].refs > 0)) c.fail("registered", "object %zu with %d references is %slisted", i, m[i].refs, m[i].refs ? "not " : ""); if (Obj::dead[i] != m[i].died) c.fail("destroyed", "object %zu with %d references was destroyed %d times instead of %d", i, m[i].refs, Obj::dead[i], m[i].died); if (m[i].refs && m[i].p->id != (int)i) c.fail("content", "object %zu", i); }
      if (k->IsAllocated(NULL)) c.fail("NULL listed", "NULL is listed"); if (k->Elements() != n) c.fail("count", "%zu objects instead of %zu", k->Elements(), n);
      mc::Hash h; h.i(depth - t); for (auto& x : m) h.i(x.refs).i(x.child).i(x.aligned).i(x.died); if (!c.thorough() || t < 6) c.visit(h.h); }
   c.nontrivial(); k->Delete(); for (size_t i = 0; i < m.size(); i++) if (!m[i].aligned && Obj::dead[i] != 1) c.fail("clear", "object %zu destroyed %d times", i, Obj::dead[i]); }
// the operator list --------------------------------------------------------------------------------------------------------------
static int opDead[16], opInit[16], wfDead[16];
struct TOp : OScalar { int id; TOp(int i) : id(i) {} ~TOp() { opDead[id]++; } virtual void Init(WaveFunction* p) { opInit[id]++; OScalar::Init(p); } virtual void Init(ParamContainer& p) { OScalar::Init(p); } virtual bool Valid(WaveFunction*) { return true; } };
static Operator* alive(mc::Ctx& c, Operator* o, int id, const char* what) { if (!Collector<Operator>::Instance()->IsAllocated(o)) c.fail("destroyed object returned", "%s", what); TOp* t = dynamic_cast<TOp*>(o); if (!t || t->id != id) c.fail("wrong object returned", "%s", what); return o; }
static void opList(mc::Ctx& c) {
   GlobalOpList::Destroy(); DELETE_ALL_OP(); memset(opDead, 0, sizeof opDead); memset(opInit, 0, sizeof opInit); GlobalOpList& L = GlobalOpList::Instance(); WaveFunction* psi = new WFLevel(); ((WFLevel*)psi)->Size(2);
   struct E { int id; bool persist; std::string label; bool init; }; std::map<std::string, E> m; std::vector<TOp*> o; std::vector<int> died; static const char* KEY[] = { "a", "b", "__Scalar#0", "" }; static const char* LAB[] = { "x", "y" };
   auto listed = [&](int id) { for (auto& e : m) if (e.second.id == id) return true; return false; };
   std::vector<bool> owned; int depth = c.bound(5, 6);
   struct Done { WaveFunction* w; ~Done() { DELETE_WF(w); } } done{ psi };
   for (int t = 0; t < depth; t++) { if (t && c.flag("end")) break; int op = c.pick(7, "operation");
      if (op == 0) { // add a new or a known operator
         int who = c.pick(std::min<int>(o.size() + 1, 3), "operator"); if (who == (int)o.size()) { o.push_back(new TOp(who)); died.push_back(0); owned.push_back(false); } if (died[who]) c.prune(); std::string key = KEY[c.pick(4, "key")], given = key; bool persist = c.flag("persistent"), thrown = false; try { L.Add(key, o[who], persist); } catch (Exception&) { thrown = true; }
         bool want = given.size() && m.count(given); if (thrown != want) c.fail("add", "operator %d under key '%s' %s", who, given.c_str(), thrown ? "rejected" : "replaced an entry"); if (thrown) { if (!owned[who] && !listed(who)) { DELETE_OP(o[who]); died[who]++; } }
         else { if (given.empty() && m.count(key)) c.fail("internal key", "the internal key %s replaces an entry of that name", key.c_str()); if (given.size() && key != given) c.fail("key", "key %s changed to %s", given.c_str(), key.c_str()); m[key] = E{ who, persist, "", false }; owned[who] = true; } }
      else if (op == 1) { bool thrown = false; std::string k = "n"; try { L.Add(k, NULL); } catch (Exception&) { thrown = true; } if (!thrown) c.fail("no operator accepted", "NULL"); }
      else if (op == 2) { L.Clear(); std::set<int> gone; for (auto i = m.begin(); i != m.end();) if (!i->second.persist) { gone.insert(i->second.id); i = m.erase(i); } else ++i; for (int g : gone) if (!listed(g)) died[g]++; }
      else if (op == 3) { int k = c.pick(2, "key"); const char* l = LAB[c.pick(2, "label")]; bool thrown = false; try { L.SetLabel(KEY[k], l); } catch (Exception&) { thrown = true; } if (thrown != !m.count(KEY[k])) c.fail("label", "key %s", KEY[k]); if (!thrown) m[KEY[k]].label = l; }
      else if (op == 4) { int k = c.pick(2, "key"); bool thrown = false; try { L.Init(KEY[k], psi); } catch (Exception&) { thrown = true; } if (thrown != !m.count(KEY[k])) c.fail("init", "key %s", KEY[k]); if (!thrown) m[KEY[k]].init = true; }
      else if (op == 5) { if (o.empty()) c.prune(); int who = c.pick(o.size(), "operator"); if (died[who] || !listed(who)) c.prune(); L.Init(o[who], psi); for (auto& e : m) if (e.second.id == who) e.second.init = true; }
      else { TOp* n; if (o.size() > 2) c.prune(); n = new TOp(o.size()); L.Init(n, psi); o.push_back(n); died.push_back(0); owned.push_back(true); // becomes known under an internal key
         std::string k; for (int i = 0;; i++) { k = "__Scalar#" + std::to_string(i); if (m.count(k)) continue; try { if (L[k] == n) break; } catch (Exception&) {} if (i > 20) c.fail("unknown operator not registered", "initialized but not listed"); } m[k] = E{ (int)o.size() - 1, false, "", true }; }
      c.step();
      for (size_t i = 0; i < o.size(); i++) { if (opDead[i] != died[i]) c.fail("destroyed", "operator %zu was destroyed %d times instead of %d", i, opDead[i], died[i]); if (!died[i] && !Collector<Operator>::Instance()->IsAllocated(o[i])) c.fail("registered", "operator %zu", i); }
      for (auto& e : m) { Operator* p = NULL; try { p = L[e.first]; } catch (Exception&) { c.fail("lookup", "key %s not found", e.first.c_str()); } alive(c, p, e.second.id, e.first.c_str()); if (e.second.init && !opInit[e.second.id]) c.fail("not initialized", "key %s", e.first.c_str()); }
      for (int k = 0; k < 2; k++) if (!m.count(KEY[k])) { bool thrown = false; try { L[KEY[k]]; } catch (Exception&) { thrown = true; } if (!thrown) c.fail("lookup", "key %s found", KEY[k]); }
      for (int l = 0; l < 2; l++) { Operator* got[16]; int n = L.GetLabels(LAB[l], got, 16), want = 0; std::multiset<int> a, b; for (auto& e : m) if (e.second.label == LAB[l]) { want++; a.insert(e.second.id); } if (n != want) c.fail("labels", "%d operators labelled %s instead of %d", n, LAB[l], want); for (int i = 0; i < n; i++) b.insert(((TOp*)alive(c, got[i], ((TOp*)got[i])->id, "label"))->id); if (a != b) c.fail("labels", "wrong operators labelled %s", LAB[l]); if (want > 1) { int one = L.GetLabels(LAB[l], got, 1); if (one != 1) c.fail("labels", "%d found in an array of 1", one); } 
         for (size_t i = 0; i < o.size(); i++) { int entries = 0; bool has = false; for (auto& e : m) if (e.second.id == (int)i) { entries++; has |= e.second.label == LAB[l]; } if (entries <= 1 && L.CheckLabel(o[i], LAB[l]) != has) c.fail("label of an operator", "operator %zu label %s", i, LAB[l]); } }
      mc::Hash h; h.i(depth - t); for (auto& e : m) h.s(e.first).i(e.second.id).i(e.second.persist).s(e.second.label).i(e.second.init); for (size_t i = 0; i < o.size(); i++) h.i(died[i]).i(opInit[i]); if (!c.thorough()) c.visit(h.h); }
   c.nontrivial(); L.Clear(); for (auto& e : m) if (!e.second.persist && opDead[e.second.id] == 0) { bool p = false; for (auto& f : m) p |= f.second.id == e.second.id && f.second.persist; if (!p) c.fail("leak", "operator %d survived clearing", e.second.id); } for (auto& e : m) if (e.second.persist) { Operator* p = alive(c, L[e.first], e.second.id, e.first.c_str()); p->Apply(psi); } }
// the wave function list ---------------------------------------------------------------------------------------------------------
struct TWf : WFLevel { int id; TWf(int i) : id(i) { Size(2); } ~TWf() { if (id >= 0) wfDead[id]++; } WaveFunction* NewInstance() { return new TWf(-1); } using WFLevel::operator=; virtual WaveFunction* operator=(WaveFunction* p) { return WFLevel::operator=(p); } };
static void wfs(mc::Ctx& c) {
   static int serial = 0, anon = 0; memset(wfDead, 0, sizeof wfDead); GlobalWFList& L = GlobalWFList::Instance(); serial++; std::string K[4] = { "a" + std::to_string(serial), "b" + std::to_string(serial), "", "" };
   struct E { int id; bool persist; }; std::map<std::string, E> m; struct W { TWf* p; int refs; }; std::vector<W> w; int depth = c.bound(4, 5); int hidden = 0; auto val = [](int id) { return dcomplex(id + 1, -id); };
   struct Done { std::vector<W>& w; std::map<std::string, E>& m; ~Done() { GlobalWFList::Instance().Clear(); for (auto& x : w) (void)x; } } done{ w, m };
   bool anonymousPersistent = false; std::vector<std::pair<int, bool>> anonEntries;
   for (int t = 0; t < depth; t++) { if (t && c.flag("end")) break; int op = c.pick(6, "operation");
      if (op <= 1) { // add (1: set)
         int who = c.pick(std::min<int>(w.size() + 1, 3), "state"); if (who == (int)w.size()) { w.push_back({ new TWf(who), 1 }); for (int i = 0; i < 2; i++) (*((cVec*)w[who].p))[i] = val(who); } if (!w[who].refs) c.prune();
         if (op == 0) { int k = c.pick(4, "key"); bool persist = c.flag("persistent"), thrown = false; if (k == 3) { K[3] = "__" + w[who].p->Name() + "#" + std::to_string(anon); } std::string key = K[k]; try { L.Add(key, w[who].p, persist); } catch (Exception&) { thrown = true; } bool want = key.size() && m.count(key); if (thrown != want) c.fail("add", "state %d under key %s %s", who, key.c_str(), thrown ? "rejected" : "replaced an entry"); if (!thrown) { w[who].refs++; if (key.size()) m[key] = E{ who, persist }; else { anonEntries.push_back({ who, persist }); anon++; while (m.count("__" + w[who].p->Name() + "#" + std::to_string(anon - 1))) anon++; } } }
         else { std::string key = K[c.pick(2, "key")]; L.Set(key, w[who].p); w[who].refs++; if (m.count(key)) { w[m[key].id].refs--; m[key].id = who; } else m[key] = E{ who, true }; } }
      else if (op == 2) { L.Clear(); for (auto i = m.begin(); i != m.end();) if (!i->second.persist) { w[i->second.id].refs--; i = m.erase(i); } else ++i; std::vector<std::pair<int, bool>> keep; for (auto& a : anonEntries) if (a.second) keep.push_back(a); else w[a.first].refs--; anonEntries = keep; }
      else if (op == 3) { if (w.empty()) c.prune(); int who = c.pick(w.size(), "state"); int entries = 0; for (auto& e : m) entries += e.second.id == who; for (auto& a : anonEntries) entries += a.first == who; if (w[who].refs - entries < 1) c.prune(); DELETE_WF(w[who].p); w[who].refs--; } // the user lets go
      else if (op == 4) { std::string key = K[c.pick(2, "key")]; if (!m.count(key)) { bool thrown = false; try { L.GetCopy(key); } catch (Exception&) { thrown = true; } if (!thrown) c.fail("copy of nothing", "%s", key.c_str()); } else { WaveFunction* x = L.GetCopy(key); if (x == w[m[key].id].p) c.fail("copy", "shares the object"); if ((*((cVec*)x))[1]._real != val(m[key].id)._real || x->size() != 2) c.fail("copy", "differs"); (*((cVec*)x))[0] = dcomplex(99, 0); if ((*((cVec*)L.Get(key)))[0]._real == 99) c.fail("copy", "shares the storage"); DELETE_WF(x); } }
      else { std::string key = K[c.pick(2, "key")]; bool set = c.flag("set"), thrown = false; try { if (set) L.Set(key, NULL); else L.Add(key + "n", NULL); } catch (Exception&) { thrown = true; } if (!thrown) c.fail("no state accepted", "%s", set ? "Set" : "Add"); }
      c.step(); (void)hidden; (void)anonymousPersistent;
      for (size_t i = 0; i < w.size(); i++) { int want = w[i].refs == 0; if (wfDead[i] != want) c.fail("destroyed", "state %zu with %d references was destroyed %d times", i, w[i].refs, wfDead[i]); if (!want && !Collector<WaveFunction>::Instance()->IsAllocated(w[i].p)) c.fail("registered", "state %zu", i); }
      for (int k : { 0, 1, 3 }) { if (k == 3 && !m.count(K[k])) continue; WaveFunction* p = NULL; bool thrown = false; try { p = L[K[k]]; } catch (Exception&) { thrown = true; } if (thrown != !m.count(K[k])) c.fail("lookup", "key %s %sfound", K[k].c_str(), thrown ? "not " : ""); if (!thrown) { if (p != w[m[K[k]].id].p) c.fail("wrong object returned", "key %s", K[k].c_str()); if ((*((cVec*)p))[0]._real != val(m[K[k]].id)._real) c.fail("content", "key %s", K[k].c_str()); } }
      mc::Hash h; h.i(depth - t).i(anon).s(K[3]); for (auto& e : m) h.s(e.first).i(e.second.id).i(e.second.persist); for (auto& a : anonEntries) h.i(a.first).i(a.second); for (auto& x : w) h.i(x.refs); if (!c.thorough()) c.visit(h.h); }
   c.nontrivial(); }
// operators shared between programs ----------------------------------------------------------------------------------------------
struct Def { const char* key; const char* inl; }; // text of the definition without tag
static const Def D[] = { { "T", "name=\"GridNablaSq\" mass=\"8\"/>" }, { "V", "name=\"GridPotential\" file=\"pot1\"/>" }, { "W", "name=\"GridPotential\" file=\"pot2\"/>" }, { "S", "name=\"GridSum\"><v @V><w @W></@>" }, { "H", "name=\"Sum\"><A @T><B @S></@>" }, { "K", "name=\"Scalar\" value=\"0.5\"/>" }, { "U", "name=\"Cheby\" scaling=\"2\"><hamiltonian @H></@>" }, { "G", "name=\"GSPO\"><A @T><B @S></@>" } };
// node of the given tag: with references to what is persistent, or everything written out
static std::string node(const std::string& tag, const std::string& key, bool refs, bool top = false, int depth = 0) {
   if (refs && !top) return "<" + tag + " ref=\"" + key + "\"/>";
   const char* t = NULL; for (auto& d : D) if (key == d.key) t = d.inl; std::string s = "<" + tag + (refs ? " key=\"" + key + "\"" : "") + " ";
   for (const char* p = t; *p; p++) { if (*p == '<' && p[1] != '/') { std::string in; const char* q = p + 1; while (*q != ' ') in += *q++; q += 2; std::string k(1, *q); s += node(in, k, refs, false, depth + 1); p = q + 1; } else if (*p == '<' && p[1] == '/') { s += "</" + tag + ">"; p += 3; } else s += *p; }
   return s; }
enum { NPROG = 9 };
static std::string program(int p, bool refs, const std::string& out) {
   std::string pr = "<propa dt=\"0.1\" steps=\"2\" wcycle=\"1\" dir=\"" + out + "\">", end = "<wf file=\"start\"/></propa>";
   switch (p) {
   case 0: return pr + "<propagator name=\"Cheby\" scaling=\"2\">" + node("hamiltonian", "H", refs) + "</propagator>" + end;
   case 1: return pr + "<propagator name=\"SIL\" order=\"4\">" + node("hamiltonian", "H", refs) + "</propagator>" + end;
   case 2: return pr + "<propagator name=\"GSPO\">" + node("A", "T", refs) + node("B", "V", refs) + "</propagator>" + end;
   case 3: return pr + "<propagator name=\"RK4\"><hamiltonian name=\"Sum\">" + node("A", "T", refs) + "<B name=\"GridSum\">" + node("v", "V", refs) + node("w", "W", refs) + "</B></hamiltonian></propagator>" + end;
   case 4: return pr + node("propagator", "U", refs) + end;
   case 5: return "<filter start=\"0\" steps=\"1\" fname=\"start\" dir=\"" + out + "\"><filterpropa><expec name=\"" + "f" + "\" >" + "</expec></filterpropa></filter>";
   case 6: return "<eigen Nef=\"1\" method=\"imag\" dt=\"0.5\" steps=\"400\" conv=\"1e-6\" dir=\"" + out + "\"><propagator name=\"Cheby\" scaling=\"2\">" + node("hamiltonian", "H", refs) + "</propagator><wf file=\"start\"/></eigen>";
   case 7: return pr + "<propagator name=\"Arnoldi\" order=\"4\"><hamiltonian name=\"Product\">" + node("A", "K", refs) + node("B", "H", refs) + "</hamiltonian></propagator>" + end;
   default: return pr + node("propagator", "G", refs) + end; } }
static const int USED[] = { 0, 1, 2, 3, 4, 6, 7, 8 };
static std::string head(bool refs) { return refs ? [] { std::string s = "<opdefs>"; for (auto& d : D) s += node(*d.key == 'U' || *d.key == 'G' ? "udef" : "opdef", d.key, true, true); return s + "</opdefs>"; }() : std::string(); }
static Sp gr() { return grid({ 4 }); }
static CV psi0() { CV v = vec(4, 5); double n = 0; for (auto& x : v) n += std::norm(x); for (auto& x : v) x /= std::sqrt(n * gr().dx(0)); return v; }
static std::vector<std::pair<std::string, CV>> states(const std::string& dir) { std::vector<std::pair<std::string, CV>> r; for (auto& f : tree(dir)) if (f.size() > 3 && f.substr(f.size() - 3) == ".wf") { CV v; std::string e; if (readWf(gr(), dir + "/" + f.substr(0, f.size() - 3), v, e)) r.push_back({ f, v }); else r.push_back({ f + ": " + e, CV() }); } return r; }
static void programs(mc::Ctx& c) {
   mkdir("data", 0700); if (chdir("data")) {} static bool done = false; if (!done || access("start.wf", F_OK)) { done = true; dataFiles(); wfFile(gr(), psi0(), "start"); }
   int n = c.bound(2, 3), k = 1 + c.pick(n, "programs"); std::vector<int> p; for (int i = 0; i < k; i++) p.push_back(USED[c.pick(8, "program")]); bool separate = c.flag("separate inputs"); int cleared = c.thorough() ? c.pick(2, "cleared in between") : 1; std::string what; for (int x : p) what += std::to_string(x) + " ";
   c.doing("programs %s%s", what.c_str(), separate ? "(separate inputs)" : "");
   std::vector<std::string> in; std::string all = "<qdng>" + head(true); for (int i = 0; i < k; i++) { std::string o = "o" + std::to_string(i); wipe(o); std::string t = program(p[i], true, o); if (separate) { in.push_back((i ? "<qdng>" : all) + t + "</qdng>"); } else all += t; } if (!separate) in.push_back(all + "</qdng>");
   for (size_t i = 0; i < in.size(); i++) { Result r = input(in[i]); if (!r.ok) c.fail("rejected", "%s: %s", in[i].c_str(), r.error.c_str()); c.step(); if (cleared) GlobalOpList::Instance().Clear(); }
   for (int i = 0; i < k; i++) { std::string o = "o" + std::to_string(i); wipe("ref"); size_t before = Collector<Operator>::Instance()->Elements(); Result r = input(program(p[i], false, "ref")); GlobalOpList::Instance().Clear(); if (Collector<Operator>::Instance()->Elements() != before) c.fail("operators left over", "%d operators of program %d are not released by clearing", (int)(Collector<Operator>::Instance()->Elements() - before), p[i]); if (!r.ok) c.fail("reference rejected", "%s", r.error.c_str()); auto a = states(o), b = states("ref"); if (a.size() != b.size() || a.empty()) c.fail("files", "program %d of %s: %zu states instead of %zu", i, what.c_str(), a.size(), b.size()); for (size_t s = 0; s < a.size(); s++) { if (a[s].first != b[s].first) c.fail("files", "%s instead of %s", a[s].first.c_str(), b[s].first.c_str()); if (!(dist(a[s].second, b[s].second) <= 1e-12)) c.fail("result", "program %d of %s: %s differs by %g from the run without references", i, what.c_str(), a[s].first.c_str(), dist(a[s].second, b[s].second)); } }
   // what was defined must still be there and work
   GlobalOpList& L = GlobalOpList::Instance(); L.Clear(); WaveFunction* w = make(gr(), psi0()); WaveFunction* y = w->NewInstance();
   for (const char* q : { "T", "V", "W", "S", "H", "K", "U", "G" }) { Operator* o = NULL; try { o = L[q]; } catch (Exception& e) { c.fail("persistent operator not found", "%s after %s", q, what.c_str()); } if (!Collector<Operator>::Instance()->IsAllocated(o)) c.fail("destroyed object returned", "%s after %s", q, what.c_str()); if (*q == 'U' || *q == 'G') { dynamic_cast<OPropagator*>(o)->Size(); continue; }
      o->Init(w); o->Apply(y, w); CV v = get(y, gr()); Mat T = 0.125 * kinRef(gr()), R = *q == 'T' ? T : *q == 'V' ? potRef(gr(), 1) : *q == 'W' ? potRef(gr(), 2) : *q == 'S' ? potRef(gr(), 1) + potRef(gr(), 2) : *q == 'H' ? T + potRef(gr(), 1) + potRef(gr(), 2) : 0.5 * potRef(gr(), 1); if (*q == 'K') { CV h = psi0(); for (auto& x : h) x *= 0.5; if (!(dist(v, h) < 1e-12)) c.fail("persistent operator changed", "K after %s", what.c_str()); } else if (!(dist(v, R * psi0()) < 1e-11)) c.fail("persistent operator changed", "%s after %s: %g", q, what.c_str(), dist(v, R * psi0())); }
   DELETE_WF(w); DELETE_WF(y); c.nontrivial(); }
int main(int argc, char** argv) { mc::Options o; o.name = "M05"; std::string m = argv[1]; GlobalParams::Instance().SetValue("fftwOptimize", false); if (m == "programs" || m == "wfs") o.forkPerExec = true; return mc::Main(argc - 1, argv + 1, m == "collector" ? collector : m == "ops" ? opList : m == "wfs" ? wfs : programs, o); }
