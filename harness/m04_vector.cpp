// M04: strided vectors against a reference made of shared element stores, over all operation histories.
#include "qd.h"
#include "math/typedefs.h"
#include <memory>
#include <optional>
using namespace QDLIB;
struct TV : public dVec { using dVec::dVec; TV() : dVec() {} bool SRef(dVec& v, lint s, lint d) { return StrideRef(v, s, d); } };
typedef std::vector<std::optional<int>> Store; typedef std::shared_ptr<Store> SP;
struct RV { int n = 0, k = 1, l = 0; bool ref = false, locked = false; std::vector<SP> st; std::vector<int> master, ms; RV() { fresh(0, 1); }
   void fresh(int N, int s) { n = N; k = s; l = N / s; ref = false; locked = false; st.clear(); for (int i = 0; i < s; i++) st.push_back(std::make_shared<Store>(l)); master.assign(s, -1); ms.assign(s, -1); } };
struct Sys { std::unique_ptr<TV> v[3]; RV r[3]; size_t base; std::string hist; int ver = 1; };
static bool live(Sys& y, int i) { for (auto& s : y.r[i].st) if (!s) return false; if (y.r[i].ref) for (int s = 0; s < y.r[i].k; s++) { int m = y.r[i].master[s]; if (m < 0 || y.r[m].st[y.r[i].ms[s]] != y.r[i].st[s]) return false; } return true; }
static bool referenced(Sys& y, int i) { for (int j = 0; j < 3; j++) if (j != i) for (int m : y.r[j].master) if (m == i) return true; return false; }
static void verify(mc::Ctx& c, Sys& y) {
   std::set<Store*> own; size_t mem = 0;
   for (int i = 0; i < 3; i++) if (!y.r[i].ref) for (auto& s : y.r[i].st) if (s && own.insert(s.get()).second) mem += s->size() * sizeof(double);
   for (int i = 0; i < 3; i++) {
      RV& r = y.r[i]; TV& v = *y.v[i];
      if (v.size() != r.n || v.strides() != r.k || v.lsize() != r.l || v.sizeBytes() != r.l * sizeof(double) || v.stop() != r.n || v.start() != 0) c.fail("shape", "vector %d reports size %d, %d strides of %d (%zu bytes), expected %d/%d/%d after%s", i, (int)v.size(), (int)v.strides(), (int)v.lsize(), v.sizeBytes(), r.n, r.k, r.l, y.hist.c_str());
      if (!live(y, i)) { for (int s = 0; s < r.k; s++) if (!r.st[s] && r.l > 0 && v.begin(s) != NULL) c.fail("retired", "vector %d still exposes stride %d after%s", i, s, y.hist.c_str()); continue; }
      for (int s = 0; s < r.k; s++) {
         double* p = v.begin(s); if (v.begin()[s] != p) c.fail("begin", "stride pointers of vector %d differ after%s", i, y.hist.c_str());
         for (int e = 0; e < r.l; e++) {
            if (&v[s * r.l + e] != p + e || &((const TV&)v)[s * r.l + e] != p + e) c.fail("index", "element %d of vector %d is not element %d of stride %d after%s", s * r.l + e, i, e, s, y.hist.c_str());
            if ((*r.st[s])[e] && p[e] != *(*r.st[s])[e]) c.fail("value", "element %d of stride %d of vector %d is %g instead of %d after%s", e, s, i, p[e], *(*r.st[s])[e], y.hist.c_str());
         }
         for (int j = 0; j < 3; j++) for (int t = 0; t < y.r[j].k; t++) if ((i != j || s != t) && r.l > 0 && live(y, j) && y.r[j].l > 0 && y.r[j].st[t] != r.st[s] && y.v[j]->begin(t) < p + r.l && p < y.v[j]->begin(t) + y.r[j].l) c.fail("overlap", "stride %d of vector %d shares memory with stride %d of vector %d after%s", s, i, t, j, y.hist.c_str());
      }
   }
   size_t used = Memory::Instance().CurrentSizeUsed() - y.base;
   if (used != mem) c.fail("memory", "%zu bytes are in use instead of %zu after%s", used, mem, y.hist.c_str());
}
static uint64_t canon(Sys& y, int left) {
   mc::Hash h; h.i(left); std::map<Store*, int> id; std::map<int, int> val;
   auto sid = [&](Store* s) { if (!s) return -1; auto k = id.emplace(s, (int)id.size()); return k.first->second; };
   for (auto& r : y.r) { h.i(r.n).i(r.k).i(r.l).i(r.ref).i(r.locked); for (int s = 0; s < r.k; s++) { h.i(sid(r.st[s].get())).i(r.master[s]).i(r.ms[s]); if (r.st[s]) for (auto& e : *r.st[s]) h.i(e ? val.emplace(*e, (int)val.size()).first->second : -1); } }
   return h.h;
}
static void run(mc::Ctx& c) {
   Sys y; for (auto& v : y.v) v.reset(new TV()); y.base = 0; { size_t u = Memory::Instance().CurrentSizeUsed(); y.base = u; }
   static const int SH[][2] = { {4, 2}, {2, 1}, {0, 2}, {4, 1}, {2, 2}, {6, 3}, {1, 1}, {0, 1} };
   int nsh = c.bound(6, 8), depth = c.bound(3, 4), pre = c.pick(4, "initial");
   // initial shapes: all distinct, pairwise equal, or a stride vector with two masters
   auto init = [&](int i, int s) { y.v[i]->newsize(SH[s][0], SH[s][1]); if (SH[s][0] != 0 || SH[s][1] != 1) y.r[i].fresh(SH[s][0], SH[s][1]); };
   auto setall = [&](int i) { int k = y.ver++; (dVec&)*y.v[i] = (double)k; for (auto& s : y.r[i].st) for (auto& e : *s) e = k; };
   if (pre == 1) { init(0, 0); init(1, 0); init(2, 2); setall(0); setall(1); }
   if (pre == 2) { init(0, 1); init(1, 1); init(2, 2); setall(0); setall(1); for (int s = 0; s < 2; s++) { if (!y.v[2]->SRef(*y.v[s], 0, s)) c.fail("ref", "refused"); } RV& r = y.r[2]; r.ref = true; r.l = 2; r.n = 4; for (int s = 0; s < 2; s++) { r.st[s] = y.r[s].st[0]; r.master[s] = s; r.ms[s] = 0; } }
   if (pre == 3) { init(0, 0); init(2, 2); setall(0); y.v[0]->begin(1)[1] = y.ver; (*y.r[0].st[1])[1] = y.ver++; RV& r = y.r[2]; for (int s = 0; s < 2; s++) { if (!y.v[2]->SRef(*y.v[0], 1 - s, s)) c.fail("ref", "refused"); } r.ref = true; r.l = 2; r.n = 4; for (int s = 0; s < 2; s++) { r.st[s] = y.r[0].st[1 - s]; r.master[s] = 0; r.ms[s] = 1 - s; } }
   verify(c, y);
   for (int step = 0; step < depth; step++) {
      int op = c.pick(16, "operation"); char h[100]; c.step();
      int i = c.pick(3, "vector"); TV& v = *y.v[i]; RV& r = y.r[i];
      auto need = [&](bool b) { if (!b) c.prune(); };
      auto note = [&](const char* f, int a = 0, int b = 0, int d = 0, int e = 0) { snprintf(h, sizeof h, f, a, b, d, e); y.hist += " "; y.hist += h; c.doing("%s", h); c.log("%s", h); };
      if (op == 0) { int N = c.pick(4, "size"); static const int NS[] = { 0, 2, 4, 1 }; N = NS[N]; need(!referenced(y, i)); note("v%d.newsize(%d)", i, N); v.newsize(N); if (N != r.n) r.fresh(N, 1); else if (v.strides() == 1 && r.k != 1) { r.fresh(N, 1); } }
      else if (op == 1) { int s = c.pick(nsh, "shape"); need(!referenced(y, i)); note("v%d.newsize(%d,%d)", i, SH[s][0], SH[s][1]); v.newsize(SH[s][0], SH[s][1]); if (r.n != SH[s][0] || r.k != SH[s][1]) r.fresh(SH[s][0], SH[s][1]); }
      else if (op == 2 || op == 3) {
         int j = c.pick(3, "from"); if (i == j && op == 3) c.prune(); bool sameShape = r.n == y.r[j].n && r.k == y.r[j].k; need(live(y, j) && (!sameShape || live(y, i)) && (sameShape || !referenced(y, i)));
         if (i != j) for (int s = 0; s < r.k; s++) for (int t = 0; t < y.r[j].k; t++) if (s != t) need(r.st[s] != y.r[j].st[t] || !r.st[s]);      // partially overlapping source and destination are not defined
         note(op == 2 ? "v%d=v%d" : "v%d.FastCopy(v%d)", i, j); if (op == 2) (dVec&)v = (dVec&)*y.v[j]; else v.FastCopy(*y.v[j]);
         std::vector<Store> src; for (auto& s : y.r[j].st) src.push_back(*s);
         if (!sameShape) r.fresh(y.r[j].n, y.r[j].k); for (int s = 0; s < r.k; s++) *r.st[s] = src[s];
         c.nontrivial();
      }
      else if (op == 4) { need(live(y, i)); note("v%d=scalar", i); setall(i); }
      else if (op == 5) { need(live(y, i) && r.l > 0); int e = c.pick(2, "element") ? r.n - 1 : 0; note("v%d[%d]=", i, e); int k = y.ver++; if (c.flag("through begin")) v.begin(e / r.l)[e % r.l] = k; else v[e] = k; (*r.st[e / r.l])[e % r.l] = k; }
      else if (op == 6) {
         int j = c.pick(3, "with"); need(j != i && !referenced(y, i) && !referenced(y, j)); RV& q = y.r[j]; note("v%d.swap(v%d)", i, j);
         bool ok = v.swap(*y.v[j]); bool must = r.n == q.n && r.k == q.k && !r.ref && !q.ref, may = r.n == q.n && r.k == q.k;
         if (must && !ok) c.fail("swap:refused", "vectors of the same shape were not swapped after%s", y.hist.c_str()); if (ok && !may) c.fail("swap:accepted", "vectors of different shape were swapped after%s", y.hist.c_str());
         if (ok) { std::swap(r.st, q.st); std::swap(r.master, q.master); std::swap(r.ms, q.ms); std::swap(r.ref, q.ref); }
         if (ok) c.nontrivial();
      }
      else if (op == 7) { note("v%d.Retire", i); v.RetireStorage(); if (!r.locked) for (int s = 0; s < r.k; s++) { if (r.ref && r.master[s] >= 0) { RV& m = y.r[r.master[s]]; if (!m.locked) for (auto& x : m.st) x.reset(); } r.st[s].reset(); } }
      else if (op == 8) { note("v%d.Reaquire", i); v.ReaquireStorage(); if (!r.locked) for (int s = 0; s < r.k; s++) { if (r.ref) { if (r.master[s] >= 0) { RV& m = y.r[r.master[s]]; if (!m.locked) for (auto& x : m.st) if (!x) x = std::make_shared<Store>(m.l); r.st[s] = m.st[r.ms[s]]; } } else if (!r.st[s]) r.st[s] = std::make_shared<Store>(r.l); } c.nontrivial(); }
      else if (op == 9) { bool l = c.flag("lock"); note(l ? "v%d.Lock" : "v%d.UnLock", i); if (l) v.LockStorage(); else v.UnLockStorage(); r.locked = l; }
      else if (op == 10) {
         int j = c.pick(3, "master"), src = c.pick(4, "source") - 1, dst = c.pick(4, "destination") - 1; RV& m = y.r[j];
         need(!m.ref && !referenced(y, i) && (j == i || live(y, j)));
         note("v%d.StrideRef(v%d,%d,%d)", i, j, src, dst); bool ok = v.SRef(*y.v[j], src, dst);
         bool valid = j != i && src >= 0 && src < m.k && dst >= 0 && dst < r.k && (!r.ref || r.l == m.l);
         if (ok != valid) c.fail(ok ? "ref:accepted" : "ref:refused", "reference was %s after%s", ok ? "accepted" : "refused", y.hist.c_str());
         if (ok) { if (!r.ref) { int k = r.k; r.fresh(0, k); for (auto& x : r.st) x.reset(); r.ref = true; r.l = m.l; } r.n = r.k * r.l; r.st[dst] = m.st[src]; r.master[dst] = j; r.ms[dst] = src; c.nontrivial(); }
      }
      else if (op == 11) {
         int j = c.pick(3, "from"), src = c.pick(4, "source") - 1, dst = c.pick(4, "destination") - 1; RV& m = y.r[j]; need(live(y, i) && live(y, j)); note("v%d.StrideCopy(v%d,%d,%d)", i, j, src, dst);
         bool ok = v.StrideCopy(*y.v[j], src, dst), valid = src >= 0 && src < m.k && dst >= 0 && dst < r.k && r.l == m.l;
         if (ok != valid) c.fail(ok ? "stridecopy:accepted" : "stridecopy:refused", "copy was %s after%s", ok ? "accepted" : "refused", y.hist.c_str());
         if (ok) { Store s = *m.st[src]; *r.st[dst] = s; }
      }
      else if (op == 12) {
         int j = c.pick(3, "from"), b = c.pick(4, "begin") - 1, e = c.pick(4, "end") - 1; RV& m = y.r[j]; need(j != i && !referenced(y, i) && live(y, j) && live(y, i) && b <= e); for (auto& p : r.st) for (auto& q : m.st) need(!p || p != q); note("v%d.CopySub(v%d,%d,%d)", i, j, b, e);
         v.CopySub(*y.v[j], b, e); if (b >= 0 && e < m.l) { int z = e - b + 1; std::vector<Store> src; for (auto& s : m.st) src.push_back(*s); if (!(r.l >= z && r.k == m.k)) { int k = m.k; r.fresh(z * k, k); } for (int s = 0; s < r.k; s++) for (int q = 0; q < z; q++) (*r.st[s])[q] = src[s][b + q]; }
      }
      else if (op == 13) { need(live(y, i)); note("copy of v%d", i); { TV w(v); if (w.size() != r.n || w.strides() != r.k || w.lsize() != r.l) c.fail("copy:shape", "copy differs after%s", y.hist.c_str());
            for (int s = 0; s < r.k; s++) for (int e = 0; e < r.l; e++) { if ((*r.st[s])[e] && w.begin(s)[e] != *(*r.st[s])[e]) c.fail("copy:value", "copy differs after%s", y.hist.c_str()); w.begin(s)[e] = -7; } } }
      else if (op == 14) { need(!referenced(y, i)); note("new v%d", i); y.v[i].reset(new TV()); r = RV(); }
      else { need(live(y, i)); note("v%d*=2", i); v *= 2.0; std::set<Store*> d; for (auto& s : r.st) { for (auto& e : *s) if (e) e = *e * 2; } }
      verify(c, y);
      c.visit(canon(y, depth - step));
   }
   c.outcome(canon(y, 0));
}
int main(int argc, char** argv) { mc::Options o; o.name = "M04"; o.deadline = 70; o.tableBits = 25; return mc::Main(argc, argv, run, o); }
