// mc.h - small stateless model checker ("choice explorer") for C++ harnesses.
//
// A harness supplies one function  void run(mc::Ctx& c).  Every nondeterministic decision (which
// operation comes next, which argument, which fault, which thread runs) is taken by  c.pick(n, label).
// The explorer executes run() once for every leaf of the resulting decision tree (depth first, spread
// over worker processes), so within the bounds coded in the harness the enumeration is exhaustive.
// A worker that dies (signal, sanitizer abort) or does not return is attributed to the decision
// vector it was executing; every failure is replayed in a process of its own before it is reported.
#pragma once
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

enum { MAXD = 400, QCAP = 4096, KEYLEN = 200, MSGLEN = 1200, NVIOL = 64, MAXW = 16, NSAMP = 12, LABL = 48 };

struct Vec { int n; unsigned char c[MAXD]; unsigned char a[MAXD]; };

struct Violation { char key[KEYLEN]; char msg[MSGLEN]; Vec v; int kind; /*0 fail,1 crash,2 hang*/ };

struct Slot {                // one per worker, survives its death
   Vec cur;                  // decisions of the execution in progress
   int base;                 // decisions below this depth belong to somebody else
   int busy;                 // executing (1), idle (0)
   int have;                 // cur/base describe an unfinished subtree
   char ctx[KEYLEN];         // what the harness was doing
   double started;           // wall time at which the execution started
   pid_t pid, child;
   int lastlen;              // for the edge count
   unsigned char last[MAXD];
   int lastn;
};

struct Shared {
   std::atomic<int> lock;
   int qn; Vec q[QCAP];
   std::atomic<int> idle, pending;
   std::atomic<int> stop;
   std::atomic<uint64_t> execs, edges, steps, nontrivial, states, outcomes, pruned, tableFull;
   int nviol; Violation viol[NVIOL];
   std::atomic<uint64_t> violExecs;
   Slot slot[MAXW];
   uint64_t cnt[32]; char cntName[32][LABL]; std::atomic<int> ncnt;
   int nsamp; Vec samp[NSAMP];
};

struct Abort {};            // thrown by Ctx::fail / Ctx::prune

struct Options {
   const char* name = "harness";
   bool forkPerExec = false;     // run every execution in a process of its own
   double execTimeout = 20;      // seconds; a hang is retried alone with 4x this before it counts
   double deadline = 600;        // wall seconds after which exploration is cut (reported as not exhaustive)
   int workers = 0;              // 0: number of cpus, at most 8
   size_t tableBits = 22;
   int maxViolExecs = 400;
};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
struct Hash {
   uint64_t h = 1469598103934665603ULL;
   Hash& b(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ULL; } return *this; }
   Hash& i(int64_t v) { h = mix(h ^ (uint64_t)v) + 0x9e3779b97f4a7c15ULL; return *this; }
   Hash& d(double v) { return b(&v, sizeof v); }
   Hash& s(const std::string& v) { i(v.size()); return b(v.data(), v.size()); }
};

struct G {                      // per-process view
   Shared* sh = 0;
   uint64_t* table = 0; size_t tmask = 0;
   Options opt;
   int me = 0;
   bool thorough = false;
   std::string scratch;         // root scratch directory of the whole run
   std::string argv0;
   std::string (*describe)() = 0;   // text of the library exception in flight
};
inline G& g() { static G x; return x; }

inline void lock() { while (g().sh->lock.exchange(1, std::memory_order_acquire)) sched_yield(); }
inline void unlock() { g().sh->lock.store(0, std::memory_order_release); }

// insert into the shared set; true if new
inline bool tableInsert(uint64_t h) {
   h = mix(h); if (!h) h = 1;
   size_t i = h & g().tmask;
   for (int k = 0; k < 4096; k++, i = (i + 1) & g().tmask) {
      uint64_t cur = __atomic_load_n(&g().table[i], __ATOMIC_RELAXED);
      if (cur == h) return false;
      if (!cur) {
         uint64_t z = 0;
         if (__atomic_compare_exchange_n(&g().table[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
         if (z == h) return false;
      }
   }
   g().sh->tableFull++;
   return true;
}

struct Ctx {
   Slot* s = 0;
   const Vec* prefix = 0;      // forced decisions
   int depth = 0;
   bool logging = false;
   std::string trace;
   int viol = 0; std::string vkey, vmsg;
   bool counted = false;

   bool thorough() const { return g().thorough; }
   // bound helper: value for the quick tier, value for the thorough tier
   int bound(int q, int t) const { return g().thorough ? t : q; }

   int pick(int n, const char* label = "") {
      if (n <= 0 || n > 255) { fprintf(stderr, "mc: bad arity %d at %s\n", n, label); _exit(97); }
      if (depth >= MAXD) { fprintf(stderr, "mc: depth overflow at %s\n", label); _exit(97); }
      int c = 0;
      if (depth < s->cur.n) {
         c = s->cur.c[depth];
         if (s->cur.a[depth] && s->cur.a[depth] != n) { fprintf(stderr, "mc: nondeterministic harness: arity %d vs %d at %s depth %d\n", n, s->cur.a[depth], label, depth); _exit(98); }
         if (c >= n) { fprintf(stderr, "mc: bad replayed choice %d of %d at %s\n", c, n, label); _exit(98); }
         s->cur.a[depth] = n;
      } else {
         s->cur.c[depth] = 0; s->cur.a[depth] = n;
         s->cur.n = depth + 1;
      }
      depth++;
      if (logging && n > 1) { char b[96]; snprintf(b, sizeof b, "[%s=%d/%d] ", label, c, n); trace += b; }
      return c;
   }
   int big(int n, const char* label = "") { if (n <= 200) return pick(n, label); int b = pick((n + 49) / 50, label) * 50; return b + pick(std::min(50, n - b), label); }
   bool flag(const char* label = "") { return pick(2, label) != 0; }
   template <class T> const T& of(const std::vector<T>& v, const char* label = "") { return v[pick((int)v.size(), label)]; }

   // human readable trace, only built while replaying
   void log(const char* f, ...) __attribute__((format(printf, 2, 3))) {
      if (!logging) return;
      char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
      trace += b; trace += "\n";
   }
   // name what is being done: used as the key of a crash or hang
   void doing(const char* f, ...) __attribute__((format(printf, 2, 3))) {
      va_list ap; va_start(ap, f); vsnprintf(s->ctx, KEYLEN, f, ap); va_end(ap);
   }
   void step() { g().sh->steps.fetch_add(1, std::memory_order_relaxed); }
   // canonical state reached (counted once over all workers); true if it was new
   bool state(uint64_t h) { if (tableInsert(h)) { g().sh->states.fetch_add(1, std::memory_order_relaxed); return true; } return false; }
   bool outcome(uint64_t h) { if (tableInsert(h ^ 0xabcdef1234567ULL)) { g().sh->outcomes.fetch_add(1, std::memory_order_relaxed); return true; } return false; }
   // an execution that exercised something (counted once per execution)
   void nontrivial() { if (!counted) { counted = true; g().sh->nontrivial.fetch_add(1, std::memory_order_relaxed); } }
   void count(const char* name, uint64_t n = 1) {
      int k = g().sh->ncnt.load();
      for (int i = 0; i < k; i++) if (!strcmp(g().sh->cntName[i], name)) { __atomic_fetch_add(&g().sh->cnt[i], n, __ATOMIC_RELAXED); return; }
      lock(); k = g().sh->ncnt.load(); int i;
      for (i = 0; i < k; i++) if (!strcmp(g().sh->cntName[i], name)) break;
      if (i == k && k < 32) { snprintf(g().sh->cntName[k], LABL, "%s", name); g().sh->cnt[k] = 0; g().sh->ncnt.store(k + 1); }
      unlock();
      if (i < 32) __atomic_fetch_add(&g().sh->cnt[i], n, __ATOMIC_RELAXED);
   }
   [[noreturn]] void prune() { throw Abort(); }
   // explicit-state reduction: cut this execution if another path already reached this state (with as many
   // operations left, which the caller includes in the hash); decisions repeated from earlier executions do not count
   int forced = 0;
   void visit(uint64_t h) { bool isNew = state(h); if (!isNew && depth >= forced && !logging) prune(); }
   // the property does not hold on this execution
   [[noreturn]] void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
      char b[MSGLEN]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
      viol = 1; vkey = key; vmsg = b;
      throw Abort();
   }
   std::string dir() const { return g().scratch + "/w" + std::to_string(g().me); }
};

typedef void (*RunFn)(Ctx&);

inline void rmtree(const std::string& d) {
   if (d.compare(0, 5, "/tmp/") != 0 && d.compare(0, 9, "/dev/shm/") != 0) return;   // only ever our own scratch
   struct stat st;
   if (lstat(d.c_str(), &st)) return;
   if (!S_ISDIR(st.st_mode)) { unlink(d.c_str()); return; }
   if (DIR* p = opendir(d.c_str())) {
      while (dirent* e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rmtree(d + "/" + e->d_name);
      closedir(p);
   }
   rmdir(d.c_str());
}

inline void recordViolation(const char* key, const char* msg, const Vec& v, int kind) {
   Shared* sh = g().sh;
   sh->violExecs++;
   static const bool first = getenv("MC_FIRST") != 0; if (first && !sh->stop) sh->stop = 1;   // development: one is enough
   lock();
   for (int i = 0; i < sh->nviol; i++) if (!strncmp(sh->viol[i].key, key, KEYLEN - 1)) {
      if (v.n < sh->viol[i].v.n) { sh->viol[i].v = v; snprintf(sh->viol[i].msg, MSGLEN, "%s", msg); }   // keep the shortest
      unlock(); return; }
   if (sh->nviol < NVIOL) {
      Violation& w = sh->viol[sh->nviol++];
      snprintf(w.key, KEYLEN, "%s", key); snprintf(w.msg, MSGLEN, "%s", msg); w.v = v; w.kind = kind;
   }
   unlock();
}

inline void runOnce(RunFn fn, Ctx& c) {
   c.forced = c.s->cur.n;
   try { fn(c); }
   catch (Abort&) {}
   catch (std::exception& e) { c.viol = 1; c.vkey = std::string("exception:") + c.s->ctx; c.vmsg = e.what(); }
   catch (...) { c.viol = 1; c.vkey = std::string("exception:") + c.s->ctx; c.vmsg = "unexpected exception: " + (g().describe ? g().describe() : std::string("?")); }
}

// advance to the next decision vector in the subtree; false if it is exhausted
inline bool advance(Slot* s) {
   while (s->cur.n > s->base) {
      int i = s->cur.n - 1;
      if (s->cur.c[i] + 1 < s->cur.a[i]) { s->cur.c[i]++; return true; }
      s->cur.n--;
   }
   return false;
}

inline void account(Slot* s) {      // distinct edges of the decision tree
   Shared* sh = g().sh;
   int common = 0;
   while (common < s->cur.n && common < s->lastn && s->cur.c[common] == s->last[common]) common++;
   sh->edges.fetch_add(s->cur.n - common, std::memory_order_relaxed);
   memcpy(s->last, s->cur.c, s->cur.n); s->lastn = s->cur.n;
   uint64_t e = ++sh->execs;
   if ((e & (e - 1)) == 0 && sh->nsamp < NSAMP) { lock(); if (sh->nsamp < NSAMP) sh->samp[sh->nsamp++] = s->cur; unlock(); }
}

inline void donate(Slot* s) {        // hand the shallowest unexplored sibling range to idle workers
   Shared* sh = g().sh;
   for (int d = s->base; d < s->cur.n; d++) {
      if (s->cur.c[d] + 1 >= s->cur.a[d]) { if (d == s->base) { s->base++; } continue; }
      // give away all siblings at depth d, one vector each
      lock();
      int k = s->cur.c[d] + 1;
      if (sh->qn + (s->cur.a[d] - k) >= QCAP) { unlock(); return; }
      for (; k < s->cur.a[d]; k++) {
         Vec& v = sh->q[sh->qn++];
         v.n = d + 1; memcpy(v.c, s->cur.c, d); memcpy(v.a, s->cur.a, d); v.c[d] = k; v.a[d] = s->cur.a[d];
         sh->pending++;
      }
      unlock();
      s->base = d + 1;
      return;
   }
}

inline void quiet(const char* err) {
   int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1);
   if (err) { int e = open(err, O_WRONLY | O_CREAT | O_APPEND, 0600); if (e >= 0) { dup2(e, 2); close(e); } else dup2(fd, 2); }
   else dup2(fd, 2);
   close(fd);
}

inline void freshDir() { std::string d = g().scratch + "/w" + std::to_string(g().me); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) {} }

// run one execution in the current process, storing the result in the shared slot
inline void execOne(RunFn fn, Slot* s) {
   Ctx c; c.s = s; s->ctx[0] = 0; s->started = now(); s->busy = 1;
   if (g().opt.forkPerExec) {
      pid_t p = fork();
      if (p == 0) { runOnce(fn, c); if (c.viol) recordViolation(c.vkey.c_str(), c.vmsg.c_str(), s->cur, 0); _exit(0); }
      s->child = p;
      int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      s->child = 0;
      if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
         if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) _exit(WEXITSTATUS(st));
         char key[KEYLEN], msg[MSGLEN];
         bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
         snprintf(key, KEYLEN, "%s:%.150s", hang ? "hang" : "crash", s->ctx);
         snprintf(msg, MSGLEN, hang ? "did not return" : WIFSIGNALED(st) ? "process died with signal %d" : "process exited with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
         recordViolation(key, msg, s->cur, hang ? 2 : 1);
      }
   } else {
      runOnce(fn, c);
      if (c.viol) recordViolation(c.vkey.c_str(), c.vmsg.c_str(), s->cur, 0);
   }
   s->busy = 0;
   account(s);
}

inline void worker(RunFn fn, int id) {
   G& G_ = g(); G_.me = id; Shared* sh = G_.sh; Slot* s = &sh->slot[id]; s->pid = getpid();
   quiet((G_.scratch + "/err." + std::to_string(id)).c_str());
   freshDir();
   bool resume = s->have;
   for (;;) {
      if (!resume) {
         lock();
         if (sh->stop) { unlock(); _exit(0); }
         if (sh->qn == 0) {
            bool done = sh->pending == 0; unlock();
            if (done) _exit(0);
            sh->idle++; usleep(300); sh->idle--;
            continue;
         }
         Vec v = sh->q[--sh->qn];
         s->cur = v; s->base = v.n; s->have = 1;
         unlock();
      } else {                        // the vector in cur killed the previous incarnation: go on after it
         resume = false;
         if (!advance(s)) { s->have = 0; sh->pending--; continue; }
      }
      for (;;) {
         if (sh->stop) _exit(0);
         execOne(fn, s);
         if ((int)sh->violExecs > G_.opt.maxViolExecs) sh->stop = 2;
         if (sh->idle > 0 && sh->qn == 0) donate(s);
         if (!advance(s)) break;
      }
      s->have = 0; sh->pending--;
   }
}

// replay one vector alone in a fresh process. returns 0 ok, 1 fail, 2 crash, 3 hang
inline int replay(RunFn fn, const Vec& v, double limit, std::string& key, std::string& msg, std::string& trace) {
   G& G_ = g();
   std::string errf = G_.scratch + "/replay.err", out = G_.scratch + "/replay.out";
   unlink(errf.c_str()); unlink(out.c_str());
   pid_t p = fork();
   if (p == 0) {
      setpgid(0, 0);
      g().me = MAXW - 1; Slot* s = &G_.sh->slot[MAXW - 1];
      memset(s, 0, sizeof *s); s->cur = v; s->base = 0;
      quiet(errf.c_str()); rmtree(G_.scratch + "/w" + std::to_string(MAXW - 1)); freshDir();
      Ctx c; c.s = s; c.logging = true;
      runOnce(fn, c);
      FILE* f = fopen(out.c_str(), "w");
      if (f) { fprintf(f, "%d\n%s\n%s\n", c.viol, c.vkey.c_str(), c.vmsg.c_str()); fwrite(c.trace.data(), 1, c.trace.size(), f); fclose(f); }
      _exit(0);
   }
   double t0 = now(); int st = 0; bool hang = false;
   for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (now() - t0 > limit) { hang = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
      usleep(500);
   }
   kill(-p, SIGKILL);
   Slot* s = &G_.sh->slot[MAXW - 1];
   if (hang) { key = std::string("hang:") + std::string(s->ctx).substr(0, 150); msg = "did not return"; return 3; }
   if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
      key = std::string("crash:") + std::string(s->ctx).substr(0, 150);
      msg = WIFSIGNALED(st) ? "died with signal " + std::to_string(WTERMSIG(st)) : "exited with status " + std::to_string(WEXITSTATUS(st));
      FILE* f = fopen(errf.c_str(), "r"); if (f) { char b[6000]; size_t n = fread(b, 1, sizeof b, f); trace.assign(b, n); fclose(f); }
      return 2;
   }
   FILE* f = fopen(out.c_str(), "r"); if (!f) { key = "crash:noresult"; return 2; }
   std::string all; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f);
   size_t a = all.find('\n'), e = all.find('\n', a + 1), h = all.find('\n', e + 1);
   key = all.substr(a + 1, e - a - 1); msg = all.substr(e + 1, h - e - 1); trace = all.substr(h + 1);
   return atoi(all.c_str()) ? 1 : 0;
}

inline std::string js(const std::string& s) {
   std::string o = "\"";
   for (unsigned char ch : s) { char b[8];
      if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
   return o + "\"";
}
inline std::string vecs(const Vec& v) { std::string o; for (int i = 0; i < v.n; i++) { if (i) o += ","; o += std::to_string(v.c[i]); } return o; }

inline int Main(int argc, char** argv, RunFn fn, Options opt = Options()) {
   G& G_ = g(); G_.opt = opt; G_.argv0 = argv[0];
   std::string out = "/dev/stdout", rep; 
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--out" && i + 1 < argc) out = argv[++i];
      else if (a == "--thorough") G_.thorough = true;
      else if (a == "--replay" && i + 1 < argc) rep = argv[++i];
      else if (a == "--workers" && i + 1 < argc) G_.opt.workers = atoi(argv[++i]);
      else if (a == "--deadline" && i + 1 < argc) G_.opt.deadline = atof(argv[++i]);
   }
   struct statvfs vfs; bool shm = !statvfs("/dev/shm", &vfs) && (double)vfs.f_bavail * vfs.f_frsize > 2e9 && !access("/dev/shm", W_OK); char tmpl[] = "/tmp/mcXXXXXX", tmps[] = "/dev/shm/mcXXXXXX", *tmp_ = shm ? tmps : tmpl; G_.scratch = mkdtemp(tmp_);
   Shared* sh = G_.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   size_t tn = (size_t)1 << (G_.thorough ? G_.opt.tableBits + 3 : G_.opt.tableBits);
   G_.tmask = tn - 1; G_.table = (uint64_t*)mmap(0, tn * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (!rep.empty()) {
      Vec v; memset(&v, 0, sizeof v);
      const char* p = rep.c_str(); while (*p) { v.c[v.n++] = (unsigned char)strtol(p, (char**)&p, 10); if (*p == ',') p++; }
      std::string k, m, t; int r = replay(fn, v, G_.opt.execTimeout * 4, k, m, t);
      printf("result=%d key=%s\n%s\n--- trace\n%s\n", r, k.c_str(), m.c_str(), t.c_str());
      rmtree(G_.scratch); return r ? 1 : 0;
   }
   int W = G_.opt.workers; if (!W) { W = (int)sysconf(_SC_NPROCESSORS_ONLN); if (W > 8) W = 8; if (W < 2) W = 2; }
   double t0 = now();
   sh->q[0].n = 0; sh->qn = 1; sh->pending = 1;
   std::vector<pid_t> pid(W, 0); int alive = 0; int harnessError = 0;
   std::vector<bool> killed(W, false);
   for (int i = 0; i < W; i++) { pid_t p = fork(); if (!p) { setpgid(0, 0); worker(fn, i); } pid[i] = p; alive++; }
   std::vector<Vec> hangs;
   while (alive) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p <= 0) {
         usleep(2000);
         if (now() - t0 > G_.opt.deadline && !sh->stop) sh->stop = 1;
         for (int i = 0; i < W; i++) if (pid[i] && sh->slot[i].busy && now() - sh->slot[i].started > G_.opt.execTimeout) {
            if (G_.opt.forkPerExec) { pid_t ch = sh->slot[i].child; if (ch > 0) kill(ch, SIGALRM), kill(ch, SIGALRM); sh->slot[i].started = now(); }
            else { killed[i] = true; kill(-pid[i], SIGKILL); }
         }
         continue;
      }
      int w = -1; for (int i = 0; i < W; i++) if (pid[i] == p) w = i;
      if (w < 0) continue;
      pid[w] = 0; alive--;
      kill(-p, SIGKILL);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) { harnessError = WEXITSTATUS(st); sh->stop = 3; continue; }
      Slot* s = &sh->slot[w];
      char key[KEYLEN], msg[MSGLEN];
      bool hang = killed[w]; killed[w] = false;
      snprintf(key, KEYLEN, "%s:%.150s", hang ? "hang" : "crash", s->ctx);
      snprintf(msg, MSGLEN, hang ? "did not return" : WIFSIGNALED(st) ? "process died with signal %d" : "process exited with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
      recordViolation(key, msg, s->cur, hang ? 2 : 1);
      account(s); s->busy = 0;
      if (hang && sh->violExecs > 40) sh->stop = 2;
      if (sh->lock.load()) unlock();       // the dead worker cannot hold it usefully
      if (!sh->stop) { pid_t q = fork(); if (!q) { setpgid(0, 0); worker(fn, w); } pid[w] = q; alive++; }
   }
   // replay before report
   std::string viols; int nv = 0, flaky = 0;
   int cut = sh->stop;
   for (int i = 0; i < sh->nviol; i++) {
      Violation& v = sh->viol[i];
      std::string k, m, t; int r = 0;
      for (int a = 0; a < 3 && !r; a++) r = replay(fn, v.v, G_.opt.execTimeout * 4, k, m, t);
      if (!r) { flaky++; fprintf(stderr, "mc: NOT REPRODUCED %s: %s choices=%s\n", v.key, v.msg, vecs(v.v).c_str()); continue; }
      if (nv++) viols += ",\n";
      viols += "{\"key\":" + js(k) + ",\"msg\":" + js(m) + ",\"choices\":\"" + vecs(v.v) + "\",\"trace\":" + js(t.substr(0, 6000)) + "}";
   }
   std::string samp;
   for (int i = 0; i < sh->nsamp; i++) {
      std::string k, m, t; Vec v = sh->samp[i];
      int r = (i >= sh->nsamp - 4) ? replay(fn, v, G_.opt.execTimeout * 4, k, m, t) : -1;
      if (r < 0) continue;
      if (samp.size()) samp += ",\n";
      samp += "{\"choices\":\"" + vecs(v) + "\",\"trace\":" + js(t.substr(0, 700)) + ",\"result\":" + std::to_string(r) + "}";
   }
   std::string cnt;
   for (int i = 0; i < sh->ncnt; i++) { if (i) cnt += ","; cnt += js(sh->cntName[i]) + ":" + std::to_string(sh->cnt[i]); }
   FILE* f = fopen(out.c_str(), "w");
   fprintf(f, "{\"executions\":%" PRIu64 ",\"edges\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"states\":%" PRIu64 ",\"outcomes\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"violating_executions\":%" PRIu64 ",\"cut\":%d,\"flaky\":%d,\"harness_error\":%d,\"wall\":%.2f,\n\"counters\":{%s},\n\"violations\":[%s],\n\"samples\":[%s]}\n",
      sh->execs.load(), sh->edges.load(), sh->steps.load(), sh->states.load(), sh->outcomes.load(), sh->nontrivial.load(), sh->violExecs.load(), cut, flaky, harnessError, now() - t0, cnt.c_str(), viols.c_str(), samp.c_str());
   if (out != "/dev/stdout") fclose(f); else fflush(f);
   if (harnessError) { std::string c = "tail -qn 5 " + G_.scratch + "/err.* >&2"; if (system(c.c_str())) {} }
   rmtree(G_.scratch);
   return harnessError ? 2 : nv ? 1 : 0;
}

} // namespace mc
