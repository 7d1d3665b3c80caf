// M01: every sequence of allocate / free / cleanup / limit changes on the real memory manager.
// Built twice: as the test build configures it, and with NDEBUG (slots are pooled and reused).
#include "qd.h"
#include "tools/Memory.h"
#include "tools/GlobalParams.h"
using namespace QDLIB;
struct Blk { char* p; size_t n; unsigned char pat; };
static size_t rnd(size_t n) { return (n + QDMEM_BLOCK_SIZE - 1) / QDMEM_BLOCK_SIZE * QDMEM_BLOCK_SIZE; }

static void run(mc::Ctx& c) {
   Memory& m = Memory::Instance();
   m.Cleanup();
   size_t base = m.CurrentSizeUsed();         // static users, if any
   const size_t U = QDMEM_BLOCK_SIZE == 1 ? 64 : 4096;
   const std::vector<size_t> sizes = { 1, U, U + 1, 3 * U };
   std::vector<Blk> live; size_t lim = 6 * U; size_t freed = 0;   // freed: upper bound on idle slots
   size_t peak = m.MaximumSizeUsed();
   auto setlim = [&](size_t l) { GlobalParams::Instance().SetValue("MaxMem", std::to_string(l + base)); m.Reconfigure(); lim = l; };
   auto usedLive = [&]() { size_t s = 0; for (auto& b : live) s += rnd(b.n); return s; };
   auto check = [&](const char* op) {
      size_t u = m.CurrentSizeUsed() - base, l = usedLive();
      if (u < l || u > l + freed) c.fail(std::string("used:") + op, "reported use %zu, live %zu, idle at most %zu after %s", u, l, freed, op);
      if (m.MaximumSize() != lim + base) c.fail("limit", "limit %zu, expected %zu", m.MaximumSize(), lim + base);
      size_t av = m.CurrentSizeAvail(), ex = lim > u ? lim - u : 0;
      if (av != ex) c.fail(std::string("avail:") + op, "available %zu, expected %zu after %s", av, ex, op);
      if (m.MaximumSizeUsed() < m.CurrentSizeUsed() || m.MaximumSizeUsed() < peak) c.fail("peak", "peak use %zu below current %zu", m.MaximumSizeUsed(), m.CurrentSizeUsed());
      for (auto& b : live) for (size_t i = 0; i < b.n; i++) if ((unsigned char)b.p[i] != b.pat) c.fail(std::string("content:") + op, "content of a live block of %zu bytes changed at %zu after %s", b.n, i, op);
   };
   setlim(6 * U);
   int depth = c.bound(6, 8); unsigned char pat = 1;
   for (int i = 0; i < depth; i++) {
      int nl = (int)live.size();
      int op = c.pick(4 + nl + 3, "op");
      if (op < 4) {
         size_t n = sizes[op]; void* p = 0; bool thrown = false;
         c.doing("Align");
         size_t l = usedLive();
         try { m.Align(&p, n); } catch (EMemory&) { thrown = true; }
         bool fits = l + rnd(n) <= lim;
         c.log("allocate %zu (live %zu, limit %zu) -> %s", n, l, lim, thrown ? "refused" : "ok");
         if (fits && thrown) c.fail("refused", "allocation of %zu bytes refused with %zu of %zu in use", n, l, lim);
         if (!fits && !thrown) c.fail("exceeded", "allocation of %zu bytes granted with %zu of %zu in use", n, l, lim);
         if (!thrown) {
            if ((size_t)p % QDLIB_DATA_ALIGNMENT) c.fail("align", "block of %zu bytes is not aligned to %d", n, QDLIB_DATA_ALIGNMENT);
            for (auto& b : live) if ((char*)p < b.p + b.n && b.p < (char*)p + n) c.fail("overlap", "block overlaps a live one");
            Blk b = { (char*)p, n, pat++ }; memset(b.p, b.pat, n); live.push_back(b); c.nontrivial();
         }
         c.state(mc::Hash().i(op).i(thrown).i(l).i(lim).h);
         check(thrown ? "refused allocation" : "allocation");
      } else if (op < 4 + nl) {
         Blk b = live[op - 4]; live.erase(live.begin() + (op - 4)); freed += rnd(b.n);
         c.doing("Free"); m.Free(b.p); c.log("free %zu", b.n); check("free");
      } else if (op == 4 + nl) {
         c.doing("Cleanup"); m.Cleanup(); freed = 0; c.log("cleanup"); check("cleanup");
      } else if (op == 5 + nl) { setlim(2 * U); c.log("limit %zu", lim); check("limit change"); }
      else { setlim(9 * U); c.log("limit %zu", lim); check("limit change"); }
      mc::Hash h; h.i(lim).i(m.CurrentSizeUsed()); for (auto& b : live) h.i(b.n); c.state(h.h);
      c.step();
   }
   while (live.size()) { Blk b = live.back(); live.pop_back(); freed += rnd(b.n); m.Free(b.p); check("free"); }
   m.Cleanup(); freed = 0; check("cleanup");
   int dummy; m.Free(&dummy); check("free of a foreign pointer");
   c.outcome(mc::Hash().i(m.CurrentSizeUsed()).i(pat).i(lim).h);
}

// limits as text: every short string over the alphabet of sizes
static void text(mc::Ctx& c) {
   static const char A[] = "102KMGTBx ";
   int n = c.pick(c.bound(5, 7), "length"); std::string s;
   for (int i = 0; i < n; i++) s += A[c.pick(10, "char")];
   // reference: digits [suffix] [B]
   size_t i = 0, v = 0; bool ok = true; while (i < s.size() && isdigit(s[i])) v = v * 10 + (s[i++] - '0');
   if (i == 0) ok = false;
   if (i < s.size() && strchr("KMGT", s[i])) { v <<= s[i] == 'K' ? 10 : s[i] == 'M' ? 20 : s[i] == 'G' ? 30 : 40; i++; }
   if (i < s.size() && s[i] == 'B') i++;
   if (i != s.size()) ok = false;
   size_t r = 0; bool thrown = false;
   c.doing("ReadFromString(%s)", s.c_str());
   try { r = Memory::ReadFromString(s); } catch (Exception&) { thrown = true; }
   c.step(); c.state(mc::Hash().s(s).h); c.outcome(mc::Hash().i(r).i(thrown).h); if (ok) c.nontrivial();
   c.log("'%s' -> %zu %s", s.c_str(), r, thrown ? "rejected" : "");
   if (ok && thrown) c.fail("text:refused", "size '%s' rejected", s.c_str());
   if (!ok && !thrown) c.fail("text:accepted", "malformed size '%s' accepted as %zu", s.c_str(), r);
   if (ok && r != v) c.fail("text:value", "size '%s' read as %zu, expected %zu", s.c_str(), r, v);
}
int main(int argc, char** argv) {
   bool t = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--text")) t = true;
   return mc::Main(argc, argv, t ? text : run);
}
