// storable objects: construction, comparison and the reference description used by the F* harnesses
#pragma once
#include "qd.h"
#include "qdlib/FileWF.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/Laser.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OHermitianMatrix.h"
#include "tools/GlobalParams.h"
#include <cmath>
namespace objs {
using namespace QDLIB;
struct Grid { std::vector<int> n; std::vector<double> lo, hi; };
inline const std::vector<Grid>& grids() {
   static std::vector<Grid> g = {
      { {4}, {-1.5}, {2.25} }, { {3, 2}, {0.1, -1.0 / 3}, {0.7, 1e-3} }, { {2, 3, 2}, {-1, -2, -3}, {1, 2, 3} },
      { {2, 1, 2, 2}, {-1, -1, -1, -1}, {1, 1, 1, 1e9 / 3} }, { {1}, {0}, {1} } };
   return g;
}
inline uint64_t bits(uint64_t k) { return mc::mix(k * 2654435761ULL + 12345); }
// value patterns: 0 zeros, 1 ordinary numbers, 2 arbitrary bit patterns, 3 special values
inline double value(int pat, uint64_t k) {
   if (pat == 0) return 0;
   if (pat == 1) return ((int64_t)(bits(k) % 2000001) - 1000000) / 700000.0;
   if (pat == 2) { uint64_t b = bits(k); double d; memcpy(&d, &b, 8); return d; }
   if (pat == 4) return ((k * 7) % 23) - 11.0;
   static const double sp[] = { 0.0, -0.0, 1e-310, -1.0, 1e300, 5e-324, 1.0 / 3, -1e-7, 1e-5 };
   return sp[bits(k) % 9];
}
inline ParamContainer gridParams(const Grid& g) {
   ParamContainer p; p.SetValue("dims", (int)g.n.size());
   for (size_t i = 0; i < g.n.size(); i++) { std::string s = std::to_string(i); p.SetValue("N" + s, g.n[i]); p.SetValue("xmin" + s, g.lo[i]); p.SetValue("xmax" + s, g.hi[i]); }
   return p;
}
// description of a wave function: "L<size>" or "G<grid>" or a list of states
struct Desc { char kind; int arg; std::vector<Desc> states; };
inline Desc L(int n) { return { 'L', n, {} }; }
inline Desc Gd(int n) { return { 'G', n, {} }; }
inline Desc M(std::vector<Desc> s) { return { 'M', (int)s.size(), s }; }
inline std::string text(const Desc& d) { std::string s = d.kind + std::to_string(d.arg); if (d.kind == 'M') { s += "("; for (auto& x : d.states) s += text(x) + " "; s += ")"; } return s; }
inline void fill(cVec* v, int pat, uint64_t seed) { dcomplex* b = v->begin(0); for (lint i = 0; i < v->lsize(); i++) { b[i]._real = value(pat, seed + 2 * i); b[i]._imag = value(pat, seed + 2 * i + 1); } }
inline WaveFunction* make(const Desc& d, int pat, uint64_t seed) {
   if (d.kind == 'L') { WFLevel* w = new WFLevel(); ParamContainer p; p.SetValue("size", d.arg); w->Init(p); fill(w, pat, seed); return w; }
   if (d.kind == 'G') { WFGridCartesian* w = new WFGridCartesian(); ParamContainer p = gridParams(grids()[d.arg]); w->Init(p); fill(w, pat, seed); return w; }
   WFMultistate* m = new WFMultistate();
   for (size_t i = 0; i < d.states.size(); i++) m->Add(make(d.states[i], pat, seed + 1000 * (i + 1)), i);
   m->Init((int)d.states.size());
   return m;
}
inline bool same(double a, double b, double tol) { if (tol < 0) return memcmp(&a, &b, 8) == 0; return std::fabs(a - b) <= tol; }
// empty if w is the described wave function (tol<0: bit identical), otherwise what differs
inline std::string differs(WaveFunction* w, const Desc& d, int pat, uint64_t seed, double tol = -1) {
   char b[300];
   if (!w) return "NULL";
   if (d.kind == 'M') {
      WFMultistate* m = dynamic_cast<WFMultistate*>(w);
      if (!m) return "type: not a multistate but " + w->Name();
      if (m->States() != (lint)d.states.size()) { snprintf(b, sizeof b, "states: %d instead of %zu", (int)m->States(), d.states.size()); return b; }
      for (size_t i = 0; i < d.states.size(); i++) {
         std::string r = differs(m->State(i), d.states[i], pat, seed + 1000 * (i + 1), tol);
         if (!r.empty()) return r + " in state " + std::to_string(i);
         if (m->begin(i) != m->State(i)->begin(0)) return "link: stride " + std::to_string(i) + " is not the storage of its state";
      }
      if (m->strides() != (lint)d.states.size()) return "strides";
      return "";
   }
   size_t n;
   if (d.kind == 'L') { if (!dynamic_cast<WFLevel*>(w)) return "type: not a level wave function but " + w->Name(); n = d.arg; }
   else {
      WFGridCartesian* g = dynamic_cast<WFGridCartesian*>(w);
      if (!g) return "type: not a grid wave function but " + w->Name();
      const Grid& r = grids()[d.arg]; n = 1;
      if (g->Dim() != (int)r.n.size()) { snprintf(b, sizeof b, "dims: %d instead of %zu", g->Dim(), r.n.size()); return b; }
      for (size_t i = 0; i < r.n.size(); i++) {
         n *= r.n[i];
         if (g->DimSize(i) != r.n[i]) return "grid: extent of dimension " + std::to_string(i);
         if (!same(g->Xmin(i), r.lo[i], -1) || !same(g->Xmax(i), r.hi[i], -1)) { snprintf(b, sizeof b, "limits: dimension %zu [%.17g,%.17g] instead of [%.17g,%.17g]", i, g->Xmin(i), g->Xmax(i), r.lo[i], r.hi[i]); return b; }
      }
   }
   if ((size_t)w->size() != n || w->strides() != 1 || (size_t)w->lsize() != n) { snprintf(b, sizeof b, "size: %d/%d instead of %zu", (int)w->size(), (int)w->lsize(), n); return b; }
   double scale = 0; if (tol >= 0) for (size_t i = 0; i < 2 * n; i++) scale = std::max(scale, std::fabs(value(pat, seed + i)));
   dcomplex* v = w->begin(0);
   for (size_t i = 0; i < n; i++) {
      double re = value(pat, seed + 2 * i), im = value(pat, seed + 2 * i + 1);
      if (!same(v[i]._real, re, tol < 0 ? -1 : tol * scale) || !same(v[i]._imag, im, tol < 0 ? -1 : tol * scale)) { snprintf(b, sizeof b, "values: element %zu is (%.17g,%.17g) instead of (%.17g,%.17g)", i, v[i]._real, v[i]._imag, re, im); return b; }
   }
   return "";
}
inline std::string key(const std::string& diff) { return diff.substr(0, diff.find(':')); }
// other storable classes ----------------------------------------------------------------------------------------------
inline void fillLaser(Laser& l, int nt, double dt, int pat, uint64_t seed) { ParamContainer p; p.SetValue("dt", dt); p.SetValue("Nt", nt); l.Init(p); for (int i = 0; i < nt; i++) l.begin(0)[i] = value(pat, seed + i); }
inline std::string differs(Laser& l, int nt, double dt, int pat, uint64_t seed) {
   char b[200];
   if (l.Nt() != nt || (size_t)l.sizeBytes() != nt * sizeof(double)) { snprintf(b, sizeof b, "size: %d instead of %d", l.Nt(), nt); return b; }
   if (!same(l.Dt(), dt, -1)) { snprintf(b, sizeof b, "dt: %.17g instead of %.17g", l.Dt(), dt); return b; }
   for (int i = 0; i < nt; i++) if (!same(l.begin(0)[i], value(pat, seed + i), -1)) { snprintf(b, sizeof b, "values: element %d is %.17g instead of %.17g", i, l.begin(0)[i], value(pat, seed + i)); return b; }
   return "";
}
inline OGridPotential* makePot(int g, int pat, uint64_t seed) {
   OGridPotential* o = new OGridPotential(); ParamContainer p = gridParams(grids()[g]); o->Init(p);
   dVec* v = o; for (lint i = 0; i < v->size(); i++) v->begin(0)[i] = value(pat, seed + i); return o;
}
inline std::string differs(OGridPotential* o, int gi, int pat, uint64_t seed) {
   const Grid& r = grids()[gi]; size_t n = 1; char b[200]; dVec* v = o;
   if (o->Dim() != (int)r.n.size()) return "dims: " + std::to_string(o->Dim());
   for (size_t i = 0; i < r.n.size(); i++) { n *= r.n[i]; if (o->DimSize(i) != r.n[i]) return "grid: extent"; if (!same(o->Xmin(i), r.lo[i], -1) || !same(o->Xmax(i), r.hi[i], -1)) return "limits: of dimension " + std::to_string(i); }
   if ((size_t)v->size() != n) return "size: " + std::to_string(v->size());
   for (size_t i = 0; i < n; i++) if (!same(v->begin(0)[i], value(pat, seed + i), -1)) { snprintf(b, sizeof b, "values: element %zu is %.17g instead of %.17g", i, v->begin(0)[i], value(pat, seed + i)); return b; }
   return "";
}
inline OHermitianMatrix* makeMat(int n, int pat, uint64_t seed) {
   OHermitianMatrix* o = new OHermitianMatrix(); ParamContainer p; p.SetValue("size", n); o->Init(p);
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*(dMat*)o)(i, j) = value(pat, seed + i * n + j); return o;
}
inline std::string differs(OHermitianMatrix* o, int n, int pat, uint64_t seed) {
   char b[200]; if (o->Size() != n || o->cols() != n) return "size: " + std::to_string(o->Size());
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!same((*(dMat*)o)(i, j), value(pat, seed + i * n + j), -1)) { snprintf(b, sizeof b, "values: element %d,%d is %.17g instead of %.17g", i, j, (*(dMat*)o)(i, j), value(pat, seed + i * n + j)); return b; }
   return "";
}
inline std::string files(const std::string& d) { return d; }
}
