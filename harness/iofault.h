// injection of I/O errors: open/write/flush of files below a directory can be made to fail.
// The definitions here replace the C library's for the whole process (also for libstdc++).
#pragma once
#include <dlfcn.h>
#include <sys/uio.h>
#include <cstdio>
#include <cerrno>
#include <string>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
namespace iof {
struct State {
   bool on = false;              // counting and injecting
   int n = 0;                    // operations seen
   int at = -1;                  // index of the operation that fails, -1: none
   int kind = 0;                 // 0 fail, 1 write half of it then fail
   bool forever = false;         // later operations fail as well
   int err = ENOSPC;
   int injected = 0;
   std::string dir;              // only files below this directory
   std::string log;
   int* seen = nullptr;          // copies of n and injected for a process which does not return
   bool fds[1024] = { };
};
inline State& s() { static State x; return x; }
inline bool hit(const char* what) {
   State& t = s(); if (!t.on) return false;
   int i = t.n++;
   bool f = t.at >= 0 && (i == t.at || (t.forever && i > t.at));
   if (t.log.size() < 2000) t.log += std::string(what) + (f ? "! " : " ");
   if (f) t.injected++;
   if (t.seen) { t.seen[0] = t.n; t.seen[1] = t.injected; }
   return f;
}
inline bool mine(int fd) { return s().on && fd >= 0 && fd < 1024 && s().fds[fd]; }
inline bool under(const char* p) { return s().on && p && s().dir.size() && !strncmp(p, s().dir.c_str(), s().dir.size()); }
template <class F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" {
FILE* fopen64(const char* p, const char* m) {
   static auto f = iof::next<FILE* (*)(const char*, const char*)>("fopen64");
   bool w = iof::under(p) && (m[0] == 'w' || m[0] == 'a');
   if (w && iof::hit("open")) { errno = iof::s().err; return 0; }
   FILE* r = f(p, m); if (r && iof::s().on && fileno(r) < 1024) iof::s().fds[fileno(r)] = w; return r;
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
ssize_t write(int fd, const void* b, size_t n) {
   static auto f = iof::next<ssize_t (*)(int, const void*, size_t)>("write");
   if (iof::mine(fd) && iof::hit("write")) { if (iof::s().kind == 1 && n > 1) { iof::s().at = iof::s().n; return f(fd, b, n / 2); } errno = iof::s().err; return -1; }
   return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
   static auto f = iof::next<ssize_t (*)(int, const struct iovec*, int)>("writev");
   if (iof::mine(fd) && iof::hit("writev")) { if (iof::s().kind == 1) { iof::s().at = iof::s().n; return f(fd, v, 1); } errno = iof::s().err; return -1; }
   return f(fd, v, c);
}
int fclose(FILE* p) {
   static auto f = iof::next<int (*)(FILE*)>("fclose");
   int fd = fileno(p); bool m = iof::mine(fd);
   if (m) iof::s().fds[fd] = false;
   if (m && iof::hit("close")) { f(p); errno = iof::s().err; return EOF; }
   return f(p);
}
}
