// threads.h - controlled execution of OpenMP programs compiled with -fopenmp -fsanitize=thread but linked against neither
// runtime: this header provides both interfaces.  The threads of a parallel region are fibers of one process; every
// instrumented memory access and every synchronisation of a thread is a scheduling point.  explore() enumerates all
// interleavings of one region modulo the commutation of independent accesses (dynamic partial order reduction after
// Flanagan/Godefroid with sleep sets), everything else of the program runs its threads one after the other.
#pragma once
#include <ucontext.h>
#include <unistd.h>
#include <omp.h>
#include <sys/mman.h>
#include <unordered_map>
#include <new>
#include <vector>
#include <string>
#include <functional>
#include <map>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace sch {
#define NS __attribute__((no_sanitize_thread))
enum { MAXT = 6, STK = 1 << 20 };
enum Kind { READ, WRITE, LOCK, UNLOCK, NONE };
struct Op { int kind = NONE; uintptr_t a = 0; unsigned n = 0; bool atomic = false; };
struct Clock { int c[MAXT]; Clock() { memset(c, 0, sizeof c); } void join(const Clock& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Fiber { ucontext_t uc; char* stack = 0; bool live = false, started = false, atBarrier = false; Op pend; uintptr_t lockWait = 0; int nest = 0; int wsId = 0; std::map<int, long> wsNext; Clock c; };
struct Cell { int w = -1, wt = -1, wi = 0; Clock wc; int r[MAXT], ri[MAXT]; Clock rc[MAXT]; Op wo, ro[MAXT]; Cell() { for (int i = 0; i < MAXT; i++) r[i] = -1; } };
struct Node { unsigned enabled = 0, back = 0, done = 0, sleep = 0; int chosen = -1; };
struct Work { long next = 0, end = 0, incr = 1, chunk = 1; int users = 0; };
struct State {
   bool active = false;       // provide teams of `threads` threads
   int threads = 2; bool desc = false;
   int target = -1, region = 0; std::vector<void*> regionFn;
   bool in = false;           // inside a region (a fiber is running)
   bool rec = false;          // accesses of this region are scheduling points
   bool busy = false;         // own code is running
   Fiber f[MAXT]; int nf = 0, cur = -1, next = -1; ucontext_t main;
   void (*fn)(void*) = 0; void* data = 0;
   std::unordered_map<uintptr_t, Cell> mem; std::unordered_map<uintptr_t, int> owner; std::unordered_map<uintptr_t, Clock> relClock;
   std::vector<Node> node; size_t step = 0, prefix = 0; unsigned sleep = 0; bool cut = false; std::vector<Clock> dummy;
   std::map<int, Work> work; std::map<int, int> singles;
   uint64_t events = 0, races = 0, conflicts = 0; int ct[2]; uintptr_t ca = 0; void* cfn = 0; std::vector<int> sched; bool deadlock = false; uintptr_t wsAddr[4096];
};
inline State* theState = 0;
NS inline State& S() { if (!theState) { theState = (State*)calloc(1, sizeof(State)); new (theState) State(); } return *theState; }
struct Busy { bool o; NS Busy() : o(S().busy) { S().busy = true; } NS ~Busy() { S().busy = o; } };
NS inline bool own(uintptr_t a) { Fiber& f = S().f[S().cur]; return a >= (uintptr_t)f.stack && a < (uintptr_t)f.stack + STK; }
NS inline bool dependent(const Op& x, const Op& y) { if (x.kind == NONE || y.kind == NONE) return false; if (x.kind == LOCK || y.kind == LOCK || x.kind == UNLOCK || y.kind == UNLOCK) return x.a == y.a; if (x.kind == READ && y.kind == READ) return false; return x.a / 8 <= (y.a + y.n - 1) / 8 && y.a / 8 <= (x.a + x.n - 1) / 8; }
NS inline bool enabled(int t) { Fiber& f = S().f[t]; if (!f.live || f.atBarrier) return false; if (f.pend.kind == LOCK) { auto i = S().owner.find(f.pend.a); if (i != S().owner.end() && i->second >= 0) return false; } return true; }
NS inline int def(unsigned en, int pref) { if (pref >= 0 && (en >> pref & 1)) return pref; if (S().desc) { for (int t = MAXT - 1; t >= 0; t--) if (en >> t & 1) return t; } else for (int t = 0; t < MAXT; t++) if (en >> t & 1) return t; return -1; }
// the race between the earlier event at node `at` and the next event of thread p: let p go first
NS inline void race(int at, int p) { State& s = S(); s.races++; if (s.cut || at < 0 || at >= (int)s.node.size()) return; Node& n = s.node[at]; if (n.enabled >> p & 1) n.back |= 1u << p; else n.back |= n.enabled; }
NS inline void conflict(const Op& x, const Op& y, int t, int u) { State& s = S(); if ((x.atomic && y.atomic) || x.a >= y.a + y.n || y.a >= x.a + x.n) return; if (!s.conflicts++) { s.ct[0] = t; s.ct[1] = u; s.ca = x.a; s.cfn = (void*)s.fn; } }
NS inline void account(int t) { // perform the pending event of t in the bookkeeping
   State& s = S(); Fiber& f = s.f[t]; Op o = f.pend; int at = (int)s.step - 1; s.events++;
   if (o.kind == NONE) return;
   if (o.kind == LOCK) { Cell& k = s.mem[o.a * 2 + 1]; if (k.w >= 0 && k.wt != t && k.wi > f.c.c[k.wt]) race(k.w, t); s.owner[o.a] = t; auto i = s.relClock.find(o.a); if (i != s.relClock.end()) f.c.join(i->second); f.c.c[t]++; k.w = at; k.wt = t; k.wi = f.c.c[t]; f.pend.kind = NONE; return; }
   if (o.kind == UNLOCK) { f.c.c[t]++; s.relClock[o.a] = f.c; s.owner[o.a] = -1; f.pend.kind = NONE; return; }
   Clock before = f.c; f.c.c[t]++;
   for (uintptr_t g = o.a / 8; g <= (o.a + o.n - 1) / 8; g++) {
      Cell& k = s.mem[g * 2];
      if (k.w >= 0 && k.wt != t) { if (k.wi > before.c[k.wt]) { race(k.w, t); conflict(k.wo, o, k.wt, t); } f.c.join(k.wc); }
      if (o.kind == WRITE) for (int q = 0; q < s.nf; q++) if (q != t && k.r[q] >= 0) { if (k.ri[q] > before.c[q]) { race(k.r[q], t); conflict(k.ro[q], o, q, t); } f.c.join(k.rc[q]); }
   }
   for (uintptr_t g = o.a / 8; g <= (o.a + o.n - 1) / 8; g++) {
      Cell& k = s.mem[g * 2];
      if (o.kind == WRITE) { k.w = at; k.wt = t; k.wi = f.c.c[t]; k.wc = f.c; k.wo = o; for (int q = 0; q < s.nf; q++) k.r[q] = -1; }
      else { k.r[t] = at; k.ri[t] = f.c.c[t]; k.rc[t] = f.c; k.ro[t] = o; }
   }
   f.pend.kind = NONE;
}
// choose the next thread; -1 if none can run
NS inline int choose() {
   State& s = S(); unsigned en = 0; for (int t = 0; t < s.nf; t++) if (enabled(t)) en |= 1u << t;
   if (!en) return -1;
   if (!s.rec) { int t = def(en, s.cur); account(t); return t; }
   int t; size_t k = s.step;
   if (k < s.prefix) { t = s.node[k].chosen; if (!(en >> t & 1)) { fprintf(stderr, "sched: schedule does not replay\n"); _exit(98); } }
   else { Node n; n.enabled = en; n.sleep = s.sleep; unsigned ok = en & ~s.sleep; if (!ok && !s.cut) s.cut = true; t = def(s.cut || !ok ? en : ok, s.cur); n.chosen = t; n.back = 1u << t; if (!s.cut) s.node.push_back(n); }
   s.step++;
   // threads asleep or explored before this choice stay asleep as long as their next event commutes with this one
   unsigned sl = 0; if (k < s.node.size() && !s.cut) { unsigned z = (s.node[k].sleep | s.node[k].done) & ~(1u << t); for (int u = 0; u < s.nf; u++) if ((z >> u & 1) && !dependent(s.f[u].pend, s.f[t].pend)) sl |= 1u << u; }
   s.sleep = sl;
   if (s.sched.size() < 4000) s.sched.push_back(t);
   account(t); return t;
}
NS inline void toMain() { State& s = S(); swapcontext(&s.f[s.cur].uc, &s.main); }
// a visible operation of the running fiber: returns when it may be performed
NS inline void event(int kind, uintptr_t a, unsigned n, bool atomic = false) {
   State& s = S(); s.busy = true; Fiber& f = s.f[s.cur]; f.pend.kind = kind; f.pend.a = a; f.pend.n = n; f.pend.atomic = atomic;
   if (!f.started) { f.started = true; s.next = -2; toMain(); }        // announced; main continues once all have announced
   else { int t = choose(); if (t != s.cur || t < 0) { s.next = t; toMain(); } }
   s.busy = false;
}
NS inline void access(void* p, unsigned n, int kind, bool atomic = false) { State& s = S(); if (!s.in || s.busy || !s.rec) return; uintptr_t a = (uintptr_t)p; if (own(a)) return; event(kind, a, n, atomic); }
NS inline void barrier() { State& s = S(); if (!s.in || s.f[s.cur].nest) return; s.busy = true; Fiber& f = s.f[s.cur]; f.atBarrier = true; f.started = false; f.pend.kind = NONE; s.next = -2; toMain(); s.busy = false; }
NS inline void sync(int kind, void* p) { State& s = S(); if (!s.in || s.f[s.cur].nest > 64) return; event(kind, (uintptr_t)p, 8); }
NS inline void entry(int t) { State& s = S(); s.busy = false; s.fn(s.data); s.busy = true; s.f[t].live = false; s.f[t].pend.kind = NONE; s.next = -2; toMain(); }
NS inline void trampoline(int t) { entry(t); }
NS inline void region(void (*fn)(void*), void* data, unsigned want) {
   State& s = S();
   if (!s.active || s.in) { // nested, or not our business: a team of one
      if (s.in) { Fiber& f = s.f[s.cur]; f.nest++; fn(data); f.nest--; } else fn(data);
      return; }
   { Busy b; s.rec = s.region == s.target; s.region++; s.regionFn.push_back((void*)fn); s.nf = want ? (int)want : s.threads; if (s.nf > MAXT) s.nf = MAXT; s.fn = fn; s.data = data; s.mem.clear(); s.owner.clear(); s.relClock.clear(); s.work.clear(); s.singles.clear(); s.step = 0; s.sleep = 0; s.cut = false;
     for (int t = 0; t < s.nf; t++) { Fiber& f = s.f[t]; if (!f.stack) f.stack = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); f.live = true; f.started = false; f.atBarrier = false; f.pend = Op(); f.nest = 0; f.wsId = 0; f.wsNext.clear(); f.c = Clock(); getcontext(&f.uc); f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = STK; f.uc.uc_link = &s.main; makecontext(&f.uc, (void (*)())trampoline, 1, t); } }
   s.busy = true; s.in = true; s.next = -2; s.cur = -1;
   auto run = [&](int t) { s.cur = t; swapcontext(&s.main, &s.f[t].uc); };
   for (;;) {
      if (s.next == -2) { // bring everybody to its first event
         bool again = false;
         if (s.rec) { for (int i = 0; i < s.nf; i++) { int t = s.desc ? s.nf - 1 - i : i; if (s.f[t].live && !s.f[t].started && !s.f[t].atBarrier) { run(t); again = true; break; } } if (again) { s.next = -2; continue; } }
         else { for (int i = 0; i < s.nf; i++) { int t = s.desc ? s.nf - 1 - i : i; Fiber& f = s.f[t]; if (f.live && !f.atBarrier && !f.started) { run(t); again = true; break; } } if (again) { s.next = -2; continue; } }
         int live = 0, bar = 0; for (int t = 0; t < s.nf; t++) { live += s.f[t].live; bar += s.f[t].live && s.f[t].atBarrier; }
         if (!live) break;
         if (bar == live) { Clock j; for (int t = 0; t < s.nf; t++) j.join(s.f[t].c); for (int t = 0; t < s.nf; t++) { s.f[t].c = j; s.f[t].atBarrier = false; } s.next = -2; continue; }
         s.cur = -1; int t = choose(); if (t < 0) { s.deadlock = true; break; } run(t); continue;
      }
      if (s.next < 0) { s.deadlock = true; break; }
      run(s.next);
   }
   s.in = false; s.rec = false; s.busy = false; s.cur = -1;
}
// ------------------------------------------------------------------ exploration
struct Report { uint64_t schedules = 0, regions = 0, events = 0, races = 0, conflicts = 0; bool full = true; bool bad = false; std::string what; };
// run() performs the whole computation from scratch; same() tells whether its result is right
NS inline Report explore(const std::function<void()>& run, const std::function<std::string()>& wrong, int threads, int perFn, uint64_t limit) {
   State& s = S(); Report r;
   auto once = [&](int target, bool desc) { s.target = target; s.desc = desc; s.region = 0; s.regionFn.clear(); s.sched.clear(); s.active = true; s.threads = threads; s.deadlock = false; run(); s.active = false; };
   auto bad = [&](const std::string& w, int reg) { r.bad = true; std::string t; for (int x : s.sched) { t += (char)('0' + x); if (t.size() > 300) { t += "..."; break; } } r.what = w + " (" + std::to_string(threads) + " threads" + (reg >= 0 ? ", region " + std::to_string(reg) + " in the order " + t : ", threads one after the other") + ")"; };
   for (bool d : { true, false }) { once(-1, d); r.schedules++; std::string w = s.deadlock ? "deadlock" : wrong(); if (!w.empty()) { bad(w, -1); return r; } }
   std::vector<void*> fns = s.regionFn; std::map<void*, int> seen;
   for (size_t g = 0; g < fns.size(); g++) {
      if (seen[fns[g]]++ >= perFn) continue;
      r.regions++; s.node.clear(); s.prefix = 0; uint64_t n = 0;
      for (;;) {
         s.events = s.races = s.conflicts = 0; once((int)g, false); r.schedules++; n++; r.events += s.events; r.races += s.races; r.conflicts += s.conflicts;
         std::string w = s.deadlock ? "deadlock" : wrong(); if (!w.empty()) { bad(w, (int)g); return r; }
         if (s.conflicts) { bad("threads " + std::to_string(s.ct[0]) + " and " + std::to_string(s.ct[1]) + " access the same memory without synchronisation, at least one writing", (int)g); return r; }
         while (!s.node.empty()) { Node& x = s.node.back(); x.done |= 1u << x.chosen; unsigned todo = x.back & ~x.done & ~x.sleep & x.enabled; if (todo) { x.chosen = def(todo, -1); break; } s.node.pop_back(); }
         if (s.node.empty()) break;
         s.prefix = s.node.size();
         if (n >= limit) { r.full = false; break; }
      }
   }
   return r;
}
}
// ------------------------------------------------------------------ interfaces called by compiled code
#define SCH extern "C" __attribute__((no_sanitize_thread))
SCH void __tsan_init() {} 
SCH void __tsan_func_entry(void*) {}
SCH void __tsan_func_exit(void*) {}
#define RW(n) SCH void __tsan_read##n(void* p) { sch::access(p, n, sch::READ); } SCH void __tsan_write##n(void* p) { sch::access(p, n, sch::WRITE); } \
   SCH void __tsan_unaligned_read##n(void* p) { sch::access(p, n, sch::READ); } SCH void __tsan_unaligned_write##n(void* p) { sch::access(p, n, sch::WRITE); } \
   SCH void __tsan_volatile_read##n(void* p) { sch::access(p, n, sch::READ); } SCH void __tsan_volatile_write##n(void* p) { sch::access(p, n, sch::WRITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SCH void __tsan_read_range(void* p, long n) { if (n) sch::access(p, n, sch::READ); }
SCH void __tsan_write_range(void* p, long n) { if (n) sch::access(p, n, sch::WRITE); }
SCH void __tsan_vptr_update(void* p, void*) { sch::access(p, 8, sch::WRITE); }
SCH void __tsan_vptr_read(void* p) { sch::access(p, 8, sch::READ); }
#define AT(b, T) \
   SCH T __tsan_atomic##b##_load(const volatile void* q, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::READ, true); return __atomic_load_n(p, 5); } \
   SCH void __tsan_atomic##b##_store(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); __atomic_store_n(p, v, 5); } \
   SCH T __tsan_atomic##b##_exchange(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_exchange_n(p, v, 5); } \
   SCH T __tsan_atomic##b##_fetch_add(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_fetch_add(p, v, 5); } \
   SCH T __tsan_atomic##b##_fetch_sub(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_fetch_sub(p, v, 5); } \
   SCH T __tsan_atomic##b##_fetch_and(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_fetch_and(p, v, 5); } \
   SCH T __tsan_atomic##b##_fetch_or(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_fetch_or(p, v, 5); } \
   SCH T __tsan_atomic##b##_fetch_xor(volatile void* q, T v, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_fetch_xor(p, v, 5); } \
   SCH bool __tsan_atomic##b##_compare_exchange_strong(volatile void* q, void* e, T v, int, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_compare_exchange_n(p, (T*)e, v, false, 5, 5); } \
   SCH bool __tsan_atomic##b##_compare_exchange_weak(volatile void* q, void* e, T v, int, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); return __atomic_compare_exchange_n(p, (T*)e, v, false, 5, 5); } \
   SCH T __tsan_atomic##b##_compare_exchange_val(volatile void* q, T e, T v, int, int) { T* p = (T*)q; sch::access(p, sizeof(T), sch::WRITE, true); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
SCH void __tsan_atomic_thread_fence(int) {}
SCH void __tsan_atomic_signal_fence(int) {}
namespace sch {
NS inline int teamSize() { State& s = S(); return s.in && !s.f[s.cur].nest ? s.nf : 1; }
NS inline int self() { State& s = S(); return s.in && !s.f[s.cur].nest ? s.cur : 0; }
NS inline bool team() { State& s = S(); return s.in && !s.f[s.cur].nest; }
// work sharing construct number k of the running thread
NS inline bool loopNext(long* a, long* b) { State& s = S(); if (!team()) { static Work lone; (void)lone; return false; } Fiber& f = s.f[s.cur]; int id = f.wsId; event(WRITE, (uintptr_t)&s.wsAddr[id & 4095], 8, true); Busy bz; Work& w = s.work[id]; if ((w.incr > 0 && w.next >= w.end) || (w.incr < 0 && w.next <= w.end)) return false; *a = w.next; long e = w.next + w.incr * w.chunk; if ((w.incr > 0 && e > w.end) || (w.incr < 0 && e < w.end)) e = w.end; w.next = e; *b = e; return true; }
NS inline bool loopStart(long st, long en, long inc, long chunk, long* a, long* b) { State& s = S(); if (!team()) { if ((inc > 0 && st >= en) || (inc < 0 && st <= en)) return false; *a = st; *b = en; return true; } { Busy bz; Fiber& f = s.f[s.cur]; f.wsId++; if (!s.work.count(f.wsId)) { Work w; w.next = st; w.end = en; w.incr = inc; w.chunk = chunk < 1 ? 1 : chunk; s.work[f.wsId] = w; } } return loopNext(a, b); }
// static schedule handed out by the runtime
NS inline bool staticStart(long st, long en, long inc, long chunk, long* a, long* b) { State& s = S(); if (!team()) return loopStart(st, en, inc, chunk, a, b); Busy bz; Fiber& f = s.f[s.cur]; f.wsId++; long n = (en - st + inc + (inc > 0 ? -1 : 1)) / inc; if (n <= 0) return false; long q = (n + s.nf - 1) / s.nf, lo = q * s.cur, hi = lo + q; if (hi > n) hi = n; if (lo >= hi) return false; *a = st + lo * inc; *b = st + hi * inc; return true; }
struct LoopArgs { void (*fn)(void*); void* data; long st, en, inc, chunk; };
NS inline void preset(long st, long en, long inc, long chunk) { State& s = S(); Work w; w.next = st; w.end = en; w.incr = inc; w.chunk = chunk < 1 ? 1 : chunk; s.work[1] = w; }
}
SCH void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { sch::region(fn, data, n); }
SCH void GOMP_barrier() { sch::barrier(); }
SCH void GOMP_critical_start() { sch::sync(sch::LOCK, &sch::S().wsAddr[4093]); }
SCH void GOMP_critical_end() { sch::sync(sch::UNLOCK, &sch::S().wsAddr[4093]); }
SCH void GOMP_critical_name_start(void** p) { sch::sync(sch::LOCK, p); }
SCH void GOMP_critical_name_end(void** p) { sch::sync(sch::UNLOCK, p); }
SCH void GOMP_atomic_start() { sch::sync(sch::LOCK, (void*)&sch::S().wsAddr[4095]); }
SCH void GOMP_atomic_end() { sch::sync(sch::UNLOCK, (void*)&sch::S().wsAddr[4095]); }
SCH bool GOMP_single_start() { if (!sch::team()) return true; sch::State& s = sch::S(); int id; { sch::Busy b; id = ++s.f[s.cur].wsId; } sch::event(sch::WRITE, (uintptr_t)&s.wsAddr[id & 4094], 8, true); sch::Busy b; return !s.singles[id]++; }
#define LOOPS(name) SCH bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* x, long* y) { return sch::loopStart(a, b, i, c, x, y); } SCH bool GOMP_loop_##name##_next(long* x, long* y) { return sch::loopNext(x, y); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RLOOPS(name) SCH bool GOMP_loop_##name##_start(long a, long b, long i, long* x, long* y) { return sch::loopStart(a, b, i, 1, x, y); } SCH bool GOMP_loop_##name##_next(long* x, long* y) { return sch::loopNext(x, y); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
SCH bool GOMP_loop_static_start(long a, long b, long i, long c, long* x, long* y) { return sch::staticStart(a, b, i, c, x, y); }
SCH bool GOMP_loop_static_next(long*, long*) { return false; }
SCH void GOMP_loop_end() { sch::barrier(); }
SCH void GOMP_loop_end_nowait() {}
// combined constructs: the work is set up before the team starts
namespace sch { NS inline void ploop(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c) {
   struct L { void (*fn)(void*); void* d; long a, b, i, c; NS static void go(void* p) { L* l = (L*)p; State& s = S(); if (team()) { Busy bz; Fiber& f = s.f[s.cur]; f.wsId = 1; if (!s.work.count(1)) preset(l->a, l->b, l->i, l->c); } l->fn(l->d); } } l = { fn, data, a, b, i, c }; region(L::go, &l, n); } }
#define PLOOP(name) SCH void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { sch::ploop(fn, d, n, a, b, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
SCH void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { sch::ploop(fn, d, n, a, b, i, c); }
SCH void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { sch::ploop(fn, d, n, a, b, i, 1); }
SCH unsigned GOMP_sections_start(unsigned n) { long a, b; return sch::loopStart(1, n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
SCH unsigned GOMP_sections_next() { long a, b; return sch::loopNext(&a, &b) ? (unsigned)a : 0; }
SCH void GOMP_sections_end() { sch::barrier(); }
SCH void GOMP_sections_end_nowait() {}
SCH void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { sch::ploop(fn, d, n, 1, (long)c + 1, 1, 1); }
SCH void GOMP_taskwait() {}
SCH int omp_get_thread_num() throw() { return sch::self(); }
SCH int omp_get_num_threads() throw() { return sch::teamSize(); }
SCH int omp_get_max_threads() throw() { return sch::S().active ? sch::S().threads : 1; }
SCH int omp_get_num_procs() throw() { return 4; }
SCH int omp_in_parallel() throw() { return sch::S().in; }
SCH void omp_set_num_threads(int) throw() {}
SCH void omp_init_lock(omp_lock_t*) throw() {}
SCH void omp_destroy_lock(omp_lock_t*) throw() {}
SCH void omp_set_lock(omp_lock_t* p) throw() { sch::sync(sch::LOCK, p); }
SCH void omp_unset_lock(omp_lock_t* p) throw() { sch::sync(sch::UNLOCK, p); }
SCH double omp_get_wtime() throw() { return 0; }
SCH int omp_get_level() throw() { return sch::S().in; }
SCH int omp_get_active_level() throw() { return sch::S().in; }
SCH int omp_get_thread_limit() throw() { return sch::MAXT; }
SCH int omp_get_dynamic() throw() { return 0; }
SCH void omp_set_dynamic(int) throw() {}
SCH int omp_get_nested() throw() { return 0; }
SCH void omp_set_nested(int) throw() {}
SCH int omp_get_max_active_levels() throw() { return 1; }
SCH void omp_set_max_active_levels(int) throw() {}
SCH int omp_test_lock(omp_lock_t* p) throw() { sch::State& s = sch::S(); if (s.in) { auto i = s.owner.find((uintptr_t)p); if (i != s.owner.end() && i->second >= 0) return 0; } sch::sync(sch::LOCK, p); return 1; }
