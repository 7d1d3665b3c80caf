// M03: every operation sequence on the temporary file storage against a plain array.
#include "qd.h"
#include "tools/TmpFile.h"
#include <dirent.h>
using namespace QDLIB;
typedef double T;
static int files(const std::string& d) { int n = 0; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') n++; closedir(p); return n; }

static void run(mc::Ctx& c) {
   std::string d = c.dir() + "/t"; mkdir(d.c_str(), 0700);
   { std::string cmd; if (files(d)) { mc::rmtree(d); mkdir(d.c_str(), 0700); } }
   GlobalParams::Instance().SetValue("tmpdir", d);
   TmpFile<T>* f = new TmpFile<T>();
   bool open = false, mm = false; T* map = 0; size_t size = 0;          // size: as last requested
   std::vector<T> ref; size_t flen = 0;                                   // file content, length in elements
   double val = 1; int kept = 0;
   auto sync = [&](const char* op) {
      if (f->isOpen() != open) c.fail(std::string("open:") + op, "isOpen %d, expected %d after %s", f->isOpen(), open, op);
      if (open && f->Size() != size) c.fail(std::string("size:") + op, "Size %zu, expected %zu after %s", f->Size(), size, op);
      int n = files(d); if (n != kept + (open ? 1 : 0)) c.fail(std::string("files:") + op, "%d files in the temporary directory, expected %d after %s", n, kept + (open ? 1 : 0), op);
      if (open && mm) { for (size_t i = 0; i < size; i++) if (map[i] != ref[i]) c.fail(std::string("map:") + op, "mapped element %zu is %g, expected %g after %s", i, map[i], ref[i], op); }
      if (open && !mm) for (size_t i = 0; i < ref.size(); i++) { T v = -1; f->Seek(i); f->Read(&v, 1); if (v != ref[i]) c.fail(std::string("read:") + op, "element %zu is %g, expected %g after %s", i, v, ref[i], op); }
   };
   static const size_t S[] = { 1, 3, 6, 600 };
   int depth = c.bound(4, 5);
   for (int i = 0; i < depth; i++) {
      int op = c.pick(open ? (mm ? 4 : 5) : 1, "op");
      if (op == 0) {                                            // (re)open
         int k = c.pick(5, "open size"); size_t n = k < 4 ? S[k] : 0; bool m = c.flag("mmap"); if (k == 4 && m) n = S[2];
         c.doing("Open(%zu,%d)", n, m);
         map = f->Open(n, m); open = true; mm = m; size = n; ref.assign(n, 0.0);
         c.log("open %zu mmap %d", n, m);
         if (m && !map) c.fail("nomap", "no mapping returned");
         sync("open");
      } else if (op == 1) {
         size_t n = S[c.pick(4, "resize")];
         c.doing("Resize(%zu->%zu,%d)", size, n, mm);
         T* p = f->Resize(n); if (mm) map = p;
         // ftruncate semantics; when the size is the current one nothing happens
         if (n != size) { ref.resize(n, 0.0); size = n; }
         c.log("resize %zu", n); sync("resize");
      } else if (op == 2) {
         int rm = c.flag("keep") ? 0 : 1; c.doing("Close(%d)", rm);
         f->Close(rm); open = false; size = 0; if (!rm) kept++; c.log("close remove=%d", rm); sync("close");
      } else if (op == 3) {
         if (mm) { size_t k = c.pick(2, "pos") ? size - 1 : 0; map[k] = ref[k] = val++; c.doing("Flush"); if (c.flag("flush")) f->Flush(); c.log("store at %zu", k); sync("store"); }
         else {
            size_t k = c.pick(3, "pos"), n = 1 + c.pick(2, "count"); T b[2] = { val, val + 1 }; val += 2;
            c.doing("Write(%zu,%zu)", k, n); f->Seek(k); f->Write(b, n);
            if (ref.size() < k + n) ref.resize(k + n, 0.0);
            for (size_t j = 0; j < n; j++) ref[k + j] = b[j];
            c.log("write %zu at %zu", n, k); c.nontrivial(); sync("write");
         }
      } else {
         // reading past the end must be reported, and must not leave the file behind
         size_t k = ref.size(); T b[3]; bool thrown = false; int back = c.pick(2, "back"); if ((size_t)back > k) back = (int)k;
         c.doing("Read past end"); f->Seek(k - back);
         try { f->Read(b, back + 1); } catch (Exception&) { thrown = true; }
         if (!thrown) c.fail("past-end", "reading past the end was not reported");
         open = f->isOpen(); if (!open) size = 0; c.log("read past end"); sync("failed read");
      }
      c.step(); mc::Hash h; h.i(open).i(mm).i(size); for (size_t j = 0; j < ref.size() && j < 8; j++) h.d(ref[j]); c.state(h.h);
   }
   c.outcome(mc::Hash().i(open).i(mm).i(size).i(kept).h);
   c.doing("destruction"); delete f; open = false;
   int n = files(d); if (n != kept) c.fail("leftover", "%d files left behind after destruction, expected %d", n, kept);
   if (kept) { mc::rmtree(d); }
}
// offsets beyond 2^31: sparse files
static void big(mc::Ctx& c) {
   std::string d = c.dir() + "/t"; mkdir(d.c_str(), 0700); GlobalParams::Instance().SetValue("tmpdir", d);
   static const size_t N[] = { (1ul << 27), (1ul << 28), (1ul << 29), (1ul << 29) + 1, (1ul << 30), 3ul << 28 };
   size_t n = c.of(std::vector<size_t>(N, N + 6), "elements"); T v = 42, r = 0;
   TmpFile<T> f; c.doing("Open(%zu)", n); f.Open(n, false);
   if (f.Size() != n) c.fail("big:size", "size %zu, expected %zu", f.Size(), n);
   size_t pos = c.flag("last") ? n - 1 : n / 2;
   c.doing("Seek(%zu)", pos); f.Seek(pos); f.Write(&v, 1); f.Seek(pos); f.Read(&r, 1);
   if (r != v) c.fail("big:value", "element %zu reads %g, expected %g", pos, r, v);
   T z = 1; f.Seek(0); f.Read(&z, 1); if (pos && z != 0) c.fail("big:zero", "element 0 changed");
   c.step(); c.nontrivial(); c.state(mc::Hash().i(n).i(pos).h); c.outcome(n);
   f.Close(); if (files(d)) c.fail("big:left", "file left behind");
}
int main(int argc, char** argv) {
   bool t = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--big")) t = true;
   return mc::Main(argc, argv, t ? big : run);
}
