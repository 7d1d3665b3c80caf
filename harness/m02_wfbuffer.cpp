// M02: the wave function buffer against a plain array, over all operation histories and budgets.
#include "objs.h"
#include "qdlib/WFBuffer.h"
#include <deque>
#include <memory>
using namespace QDLIB; using namespace objs;
static double val(int v, int i) { return v * 10 + i; }
static void put(WaveFunction* w, int v) { WFMultistate* m = dynamic_cast<WFMultistate*>(w); if (m) { for (int s = 0; s < (int)m->States(); s++) put(m->State(s), v + 500 * s); return; } for (lint i = 0; i < w->lsize(); i++) w->begin(0)[i] = dcomplex(val(v, i), -i); }
static bool is(WaveFunction* w, int v) { WFMultistate* m = dynamic_cast<WFMultistate*>(w); if (m) { for (int s = 0; s < (int)m->States(); s++) if (!is(m->State(s), v + 500 * s)) return false; return m->States() == 2; } if (w->lsize() < 1) return false; for (lint i = 0; i < w->lsize(); i++) if (w->begin(0)[i]._real != val(v, i) || w->begin(0)[i]._imag != -i) return false; return true; }
static int nfiles() { int n = 0; DIR* d = opendir("f"); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static void run(mc::Ctx& c) {
   mc::rmtree(c.dir() + "/f"); mkdir("f", 0700); mc::rmtree(c.dir() + "/s"); mkdir("s", 0700);
   ParamContainer& gp = GlobalParams::Instance(); gp.clear(); gp.SetValue("tmpdir", "f"); gp.SetValue("fftwOptimize", false);
   int kind = c.pick(3, "kind"), budget = 1 + c.pick(3, "budget"), al = c.pick(c.bound(3, 4), "autolock"), pre = c.thorough() ? c.pick(3, "filled") : 2 * c.pick(2, "filled");
   if (!c.thorough() && kind && (budget == 3 || al == 3)) c.prune();
   Desc d = kind == 0 ? L(2) : kind == 1 ? Gd(1) : M({ L(2), L(2) });
   WaveFunction* src = make(d, 0, 0); size_t wb = src->size_bytes();
   char b[40]; snprintf(b, sizeof b, "%zu", wb * budget); gp.SetValue("MaxBufferSize", std::string(b));
   struct El { int v; bool locked; bool k; }; std::vector<El> ref; std::deque<int> last; std::map<int, WaveFunction*> held; int immediate = -1; int ver = 1;
   std::string hist;
   if (!c.thorough() && budget == 3 && al == 0) c.prune();
   {
   WFBuffer buf; buf.Init(src); ref.resize(1, El{ -1, false, false }); buf.AutoLock(al);
   auto set = [&](int pos, bool k) { put(src, ver); src->IsKspace(k); put(src, ver); buf.Set(pos, src); if ((int)ref.size() <= pos) ref.resize(pos + 1, El{ -1, false, false }); ref[pos].v = ver; ref[pos].k = k; ver++; };
   for (int i = 0; i < 2 * pre; i++) set(i, false);
   int n = c.bound(kind ? 2 : 3, kind ? 3 : 4);
   for (int s = 0; s < n; s++) {
      int op = c.pick(10, "operation"); static const char* ON[] = { "set", "get", "modify", "lock", "unlock", "autolock", "resize", "add", "save/load", "clear" };
      char h[60]; int arg = 0, wasImmediate = immediate; immediate = -1; c.step();
      auto nlocked = [&](int pos) { std::set<int> q(last.begin(), last.end()); for (size_t i = 0; i < ref.size(); i++) if (ref[i].locked) q.insert(i); if (pos >= 0) q.insert(pos); return (int)q.size(); };
      auto prune = [&] { for (auto it = held.begin(); it != held.end();) { bool ok = it->first < (int)ref.size() && (ref[it->first].locked || std::find(last.begin(), last.end(), it->first) != last.end() || it->first == immediate); if (!ok) it = held.erase(it); else ++it; } };
      if (op <= 4) arg = c.pick(c.bound(3, 4), "position"); if (op == 5) arg = c.thorough() ? c.pick(4, "locks") : 3 * c.pick(2, "locks"); if (op == 6) arg = c.thorough() ? c.pick(5, "size") : 2 * c.pick(2, "size"); if (op == 8) arg = c.pick(c.bound(2, 4), "range");
      if (op == 0 && kind == 1) arg += 10 * c.flag("kspace");
      snprintf(h, sizeof h, " %s %d", ON[op], arg); hist += h; c.doing("%s", ON[op]); c.log("%s", h);
      std::string err;
      try {
         if (op == 0) { held.size(); set(arg % 10, arg >= 10); }
         if (op == 1 || op == 2) {
            if (op == 1 || !held.count(arg)) {      // modify goes through the pointer held, if there is a valid one
               WaveFunction* w = 0;
               if (arg >= (int)ref.size()) { try { w = buf.Get(arg); } catch (EIncompatible&) { continue; } c.fail("range", "element %d of %zu was returned after%s", arg, ref.size(), hist.c_str()); }
               int need = nlocked(-1);      // recents after this access
               { std::deque<int> l2 = last; l2.push_front(arg); while ((int)l2.size() > al) l2.pop_back(); std::set<int> q(l2.begin(), l2.end()); for (size_t i = 0; i < ref.size(); i++) if (ref[i].locked) q.insert(i); q.insert(arg); need = q.size(); }
               try { w = buf.Get(arg); } catch (EMemError&) { if (need <= budget) c.fail("memory:get", "element %d was refused with budget %d and %d locked after%s", arg, budget, need, hist.c_str()); held.erase(arg); prune(); c.count("refused"); goto verify; }
               if (need > budget) c.fail("memory:limit", "element %d was provided with budget %d and %d locked after%s", arg, budget, need, hist.c_str());
               last.push_front(arg); while ((int)last.size() > al) last.pop_back();
               if (held.count(arg) && held[arg] != w) c.fail("moved", "locked element %d moved after%s", arg, hist.c_str());
               held[arg] = w; immediate = arg; prune();
               if (ref[arg].v >= 0 && !is(w, ref[arg].v)) c.fail(std::string("value:get:") + ON[op], "element %d does not have the value last stored after%s", arg, hist.c_str());
               if (ref[arg].v >= 0 && w->IsKspace() != ref[arg].k) c.fail("value:kspace", "element %d changed its representation after%s", arg, hist.c_str());
            }
            if (op == 2) { if (ref[arg].v < 0) ref[arg].k = held[arg]->IsKspace(); put(held[arg], ver); ref[arg].v = ver++; }
         }
         if (op == 3) {
            bool out = arg >= (int)ref.size(); bool refused = false; int need = nlocked(arg);
            try { buf.Lock(arg); } catch (EMemError&) { if (out || need <= budget) c.fail("memory:lock", "lock refused after%s", hist.c_str()); refused = true; } catch (EIncompatible&) { if (!out) throw; refused = true; }
            if (out && !refused) c.fail("range:lock", "locking element %d of %zu was accepted", arg, ref.size());
            if (!refused && need > budget) c.fail("memory:limit", "element %d was locked with budget %d and %d locked after%s", arg, budget, need, hist.c_str());
            if (!refused) { ref[arg].locked = true; immediate = wasImmediate == arg ? arg : -1; }
         }
         if (op == 4) { bool out = arg >= (int)ref.size(), refused = false; try { buf.UnLock(arg); } catch (EIncompatible&) { if (!out) throw; refused = true; } if (out != refused) c.fail("range:unlock", "unlocking element %d of %zu", arg, ref.size()); if (!out) ref[arg].locked = false; }
         if (op == 5) { al = arg; buf.AutoLock(al); while ((int)last.size() > al) last.pop_back(); if ((int)buf.AutoLock() != al) c.fail("autolock", "not set"); }
         if (op == 6) { buf.ResizeBuffer(arg); ref.resize(arg, El{ -1, false, false }); std::deque<int> l2; for (int x : last) if (x < arg) l2.push_back(x); last = l2; for (auto it = held.begin(); it != held.end();) if (it->first >= arg) it = held.erase(it); else ++it; }
         if (op == 7) { put(src, ver); src->IsKspace(false); put(src, ver); buf.Add(src); ref.push_back(El{ ver++, false, false }); }
         if (op == 8) {
            bool all = true, ks = false; for (auto& e : ref) { if (e.v < 0) all = false; if (e.k) ks = true; } if (!all || ks || ref.empty()) c.prune();
            held.clear(); int locked = 0; for (auto& e : ref) locked += e.locked; bool may = std::min<int>(al, ref.size()) + locked > budget || al + locked + 1 > budget;
            try { buf.SaveToFiles("s/x" + std::to_string(s)); } catch (EMemError&) { if (!may) c.fail("memory:save", "refused"); c.prune(); }
            last.clear(); int begin = arg & 1, step = 1 + (arg >> 1); if (begin >= (int)ref.size()) begin = 0;
            std::vector<El> r2; for (size_t i = begin; i < ref.size(); i += step) r2.push_back(El{ ref[i].v, false, false });
            buf.ReadFromFiles("s/x" + std::to_string(s), begin, step, c.flag("number given") ? (int)r2.size() : -1); ref = r2;
         }
         if (op == 9) { buf.Clear(); ref.clear(); last.clear(); held.clear(); if (nfiles()) c.fail("files:clear", "files left after clear"); }
      } catch (mc::Abort&) { throw; }
      catch (EMemError& e) { int l = nlocked(-1); if (l <= budget) c.fail(std::string("memory:") + ON[op], "memory error with budget %d and %d locked after%s", budget, l, hist.c_str()); c.prune(); }
      catch (Exception& e) {
         if (op == 8 && ref.empty()) c.prune();
         bool any = false; for (auto& x : ref) any |= x.v >= 0;
         if ((op == 1 || op == 2 || op == 3) && !any) { c.count("empty"); c.prune(); }
         c.fail(std::string("exception:") + ON[op], "%s after%s", e.GetMessage().c_str(), hist.c_str());
      }
   verify:
      prune();
      if (buf.Size() != ref.size()) c.fail("size", "size is %zu, expected %zu after%s", buf.Size(), ref.size(), hist.c_str());
      for (auto& h : held) if (ref[h.first].v >= 0 && !is(h.second, ref[h.first].v)) c.fail("held", "element %d held by its pointer has lost its value after%s", h.first, hist.c_str());
      if (nfiles()) c.nontrivial();
      mc::Hash sh; for (auto& e : ref) sh.i(e.v >= 0).i(e.locked).i(e.k); for (int x : last) sh.i(x); sh.i(al).i(budget).i(kind).i(nfiles()); c.state(sh.h);
   }
   // every element still has its value; nothing is locked for this
   hist += " (finally)"; c.doing("final"); buf.AutoLock(0); for (size_t i = 0; i < ref.size(); i++) buf.UnLock(i);
   for (int i = ref.size() - 1; i >= 0; i--) { if (ref[i].v < 0) continue; WaveFunction* w; try { w = buf.Get(i); } catch (Exception& e) { c.fail("final:exception", "element %d: %s after%s", i, e.GetMessage().c_str(), hist.c_str()); }
      if (!is(w, ref[i].v) || w->IsKspace() != ref[i].k) c.fail("value:final", "element %d does not have the value last stored after%s", i, hist.c_str()); }
   }
   if (nfiles()) c.fail("files:left", "temporary files left behind after%s", hist.c_str());
   DELETE_WF(src);
}
int main(int argc, char** argv) { mc::Options o; o.name = "M02"; return mc::Main(argc, argv, run, o); }
