// whole program runs inside the explorer: inputs as text, output captured, directories listed and read back
#pragma once
#include "u.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include "CmdHandler.h"
#include "GlobalOpList.h"
#include "GlobalWFList.h"
#include "tools/GlobalParams.h"
#include "tools/QDGlobalClock.h"
#include "tools/Logger.h"
#include "tools/XmlParser.h"
namespace run {
using namespace u;
inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
struct Result { bool ok = true; std::string error, out; };
inline void reset() { GlobalParams::Instance().clear(); }
// run a whole input like the program does
inline Result input(const std::string& xml, const std::string& dir = "") {
   Result r; std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf()); Logger::InstanceRef().ConsoleOutput(); reset();
   try { CmdHandler().RunXML(xml.c_str(), xml.size(), dir); } catch (Exception& e) { r.ok = false; r.error = e.GetMessage(); }
   Logger& log = Logger::InstanceRef(); log.ConsoleOutput(); log.flush(); log.SetIndent(0);
   std::cout.rdbuf(old); r.out = cap.str(); reset(); return r;
}
inline std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::istringstream s(t); std::string l; while (std::getline(s, l)) v.push_back(l); return v; }
inline std::vector<std::string> words(const std::string& l) { std::vector<std::string> v; std::istringstream s(l); std::string w; while (s >> w) v.push_back(w); return v; }
inline bool slurp(const std::string& f, std::string& t) { std::ifstream i(f.c_str(), std::ios::binary); if (!i) return false; std::ostringstream s; s << i.rdbuf(); t = s.str(); return true; }
inline void spit(const std::string& f, const std::string& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
inline void list_(const std::string& d, const std::string& pre, std::vector<std::string>& v) { DIR* p = opendir(d.c_str()); if (!p) return; while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (!lstat((d + "/" + n).c_str(), &st) && S_ISDIR(st.st_mode)) list_(d + "/" + n, pre + n + "/", v); else v.push_back(pre + n); } closedir(p); }
inline std::vector<std::string> tree(const std::string& d) { std::vector<std::string> v; list_(d, "", v); std::sort(v.begin(), v.end()); return v; }
inline void wfFile(const Wf& f, const CV& v, const std::string& name) { FileWF o; o.Name(name); o.Suffix(BINARY_WF_SUFFIX); WaveFunction* w = make(f, v); o << w; DELETE_WF(w); }
inline bool readWf(const Wf& f, const std::string& name, CV& v, std::string& err) {
   try { FileWF o; o.Name(name); o.Suffix(BINARY_WF_SUFFIX); WaveFunction* w = NULL; o >> &w; if ((int)w->size() == 0 || w->lsize() != f.s[0].size() || (f.multi && (!dynamic_cast<WFMultistate*>(w) || ((WFMultistate*)w)->States() != (lint)f.s.size()))) { err = "has another shape"; DELETE_WF(w); return false; } v = get(w, f); DELETE_WF(w); return true; }
   catch (Exception& e) { err = e.GetMessage(); return false; } }
inline double dist(const CV& a, const CV& b) { if (a.size() != b.size()) return 1e300; double m = 0; for (size_t i = 0; i < a.size(); i++) { double d = std::abs(a[i] - b[i]); if (!(d <= m)) m = std::isnan(d) ? 1e300 : d; } return m; }
// numbers of a table line; complex values "(a,b)" count twice
inline std::vector<double> numbers(const std::string& l) { std::vector<double> v; std::string t = l; for (char& c : t) if (c == '(' || c == ')' || c == ',' || c == 'i') c = ' '; for (auto& w : words(t)) v.push_back(atof(w.c_str())); return v; }
inline void wipe(const std::string& d) { for (auto& f : tree(d)) unlink((d + "/" + f).c_str()); }
// small systems with their input text -----------------------------------------------------------------------------------------
struct Sys { std::string name; Wf wf; std::string ham; std::function<Mat(int)> at; bool td; double dv; };
enum { NT_ = 16 };
inline double F(int seed, int t) { return t < 0 || t >= NT_ ? 0 : field(seed, t); }
inline void dataFiles() { // into the current directory
   Sp g = grid({ 4 }); potFile(g, 1, "pot1"); potFile(g, 2, "pot2"); potFile(g, 3, "coup"); potFile(g, 4, "mu"); matFile(3, 3, "mdi"); matFile(3, 5, "ham3"); matFile(2, 2, "ham2");
   for (int i = 1; i < 3; i++) laserFile(NT_, DT, i, "las" + std::to_string(i)); }
inline std::vector<Sys>& systems() {
   static std::vector<Sys> v; if (!v.empty()) return v; Sp g = grid({ 4 }); Mat T = 0.125 * kinRef(g), mu = local(g, [](int p) { return pv(4, p); });
   v.push_back({ "levels", level(2), "<hamiltonian name=\"HermitianMatrix\" file=\"ham2\"/>", [](int) { return matrixRef(2, 2); }, false, 1 });
   v.push_back({ "levels in a field", level(3), "<hamiltonian name=\"Sum\"><A name=\"HermitianMatrix\" file=\"ham3\"/><B name=\"MatDipole\" file=\"mdi\" laser=\"las2\"/></hamiltonian>", [](int t) { return matrixRef(3, 5) - F(2, t) * matrixRef(3, 3); }, true, 1 });
   v.push_back({ "grid", g, "<hamiltonian name=\"Sum\"><A name=\"GridNablaSq\" mass=\"8\" key=\"kinetic\"/><B name=\"GridPotential\" file=\"pot1\"/></hamiltonian>", [=](int) { return T + potRef(g, 1); }, false, g.dx(0) });
   v.push_back({ "two states", Wf(g, 2), "<hamiltonian name=\"Multistate\"><m0.0 name=\"GridNablaSq\" mass=\"8\" key=\"T\"/><m1.1 name=\"Sum\"><A ref=\"T\"/><B name=\"GridPotential\" file=\"pot1\"/></m1.1><m1.0 name=\"GridDipole\" file=\"mu\" laser=\"las1\"/></hamiltonian>",
               [=](int t) { return block(2, 4, { { 0, 0, T }, { 1, 1, T + potRef(g, 1) }, { 0, 1, -F(1, t) * mu }, { 1, 0, -F(1, t) * mu } }); }, true, g.dx(0) });
   return v;
}
inline CV start(const Sys& s) { CV v = vec(s.wf.size(), 5); double n = 0; for (auto& x : v) n += std::norm(x); for (auto& x : v) x /= std::sqrt(n * s.dv); return v; }
inline Mat step(const Sys& s, int t, double dt) { return rk4(s.at(t), cd(0, -dt)); }
inline cd ip(const Sys& s, const CV& a, const CV& b) { return s.dv * dot(a, b); }
}
