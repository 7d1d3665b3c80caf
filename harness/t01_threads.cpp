// T01: every interleaving (modulo commuting accesses) of every parallel region, and every number of threads, against one thread.
#include "threads.h"
#define KERNELS_ONLY
#include "g02_kernels.cpp"
#include "u.h"
namespace t {
using u::CV; using u::Wf; using u::Mat;
typedef std::complex<double> cd;
std::string id;
struct Job { std::string name; std::function<std::vector<cd>()> run; double tol = 1e-10; };
void explore(mc::Ctx& c, const Job& j, const std::vector<cd>* want = 0) {
   int threads = c.pick(c.bound(5, 6), "threads") + 1;   // 1 is the reference itself; above 3 threads only one after the other
   if (threads == 1) threads = 6;
   c.doing("%s with %d threads", j.name.c_str(), threads); c.log("%s, %d threads", j.name.c_str(), threads);
   sch::S().active = false; std::vector<cd> ref = j.run(), got; double m = 1; for (auto& x : ref) m = std::max(m, std::abs(x));
   if (want) { for (size_t i = 0; i < ref.size(); i++) if (!(std::abs(ref[i] - (*want)[i]) <= 1e-12 * m)) c.fail(j.name + ":value", "%s: wrong even with one thread", j.name.c_str()); }
   auto wrong = [&]() -> std::string { if (got.size() != ref.size()) return "another number of results"; for (size_t i = 0; i < ref.size(); i++) if (!(std::abs(got[i] - ref[i]) <= j.tol * m)) { char b[200]; snprintf(b, sizeof b, "result %zu is (%.12g,%.12g) instead of (%.12g,%.12g)", i, got[i].real(), got[i].imag(), ref[i].real(), ref[i].imag()); return b; } return ""; };
   bool all = threads <= 2 || (threads <= 3 && id != "propagators") || (c.thorough() && threads <= 3);
   sch::Report r = sch::explore([&] { got = j.run(); }, wrong, threads, all ? c.bound(6, 40) : 0, c.bound(3000, 50000));
   c.step(); c.nontrivial(); c.count("schedules", r.schedules); c.count("regions", r.regions); c.count("accesses", r.events); c.count("races", r.races); c.count("conflicts", r.conflicts); if (!r.full) c.count("regions cut");
   c.outcome(mc::Hash().s(j.name).i(threads).i(r.schedules).h);
   if (r.bad) c.fail(j.name, "%s: %s", j.name.c_str(), r.what.c_str());
}
void kernelJob(mc::Ctx& c) {
   static std::vector<K> ks = kernels(); static const int SZ[] = { 5, 2, 1, 8, 3 }; const int NK = ks.size(), NR = 12; int w = c.pick(NK + NR, "kernel"), strides = 1 + c.pick(2, "strides"), n = SZ[c.pick(c.bound(3, 5), "size")], N = n * strides;
   Job j; std::vector<cd> want; dcomplex z(0.5, -1.25); double x = -1.5; int pat = 2;
   auto cv = [=](int a) { cVec* v = new cVec(N, strides); for (int e = 0; e < N; e++) (*v)[e] = dcomplex(val(pat, a, 2 * e), val(pat, a, 2 * e + 1)); return v; };
   auto dv = [=](int a) { dVec* v = new dVec(N, strides); for (int e = 0; e < N; e++) (*v)[e] = val(pat, a, e); return v; };
   if (w < NK) {
      const K& k = ks[w]; j.name = k.name; std::string a = k.args;
      for (int e = 0; e < N; e++) { cd in[3]; int q = 0; for (char ch : a) { if (ch == 'c') in[q] = cd(val(pat, q, 2 * e), val(pat, q, 2 * e + 1)); else if (ch == 'd') in[q] = val(pat, q, e); else continue; q++; } want.push_back(k.f(in, C(z), x)); }
      j.run = [=, &k] { cVec* c3[3] = { 0, 0, 0 }; dVec* d3[3] = { 0, 0, 0 }; int q = 0; for (char ch : a) { if (ch == 'c') c3[q] = cv(q); else if (ch == 'd') d3[q] = dv(q); else continue; q++; } k.run(c3, d3, z, x); std::vector<cd> r; for (int e = 0; e < N; e++) r.push_back(c3[0] ? C((*c3[0])[e]) : cd((*d3[0])[e])); for (int i = 0; i < 3; i++) { delete c3[i]; delete d3[i]; } return r; };
   } else {
      static const char* FN[] = { "scalar product", "d*e", "dot_prod", "dot_product", "norm", "Norm", "VecMin", "VecMax", "MatVecMult", "MatVecMult transposed", "copy", "shrink" }; int f = w - NK; j.name = FN[f];
      j.run = [=] { std::vector<cd> r; cVec *a = cv(0), *b = cv(1); dVec *d = dv(2), *e = dv(3);
         switch (f) {
            case 0: r.push_back(C(*a * *b)); break; case 1: r.push_back(*d * *e); break; case 2: r.push_back(dot_prod(*d, *e)); break; case 3: r.push_back(dot_product(*d, *e)); break;
            case 4: r.push_back(norm(*d)); break; case 5: r.push_back(d->Norm()); break; case 6: r.push_back(VecMin(*d)); break; case 7: r.push_back(VecMax(*d)); break;
            case 8: case 9: if (strides == 1) { dMat D(n, n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) D(i, k) = val(pat, 4, i * n + k); MatVecMult(b, &D, a, f == 9); for (int i = 0; i < n; i++) r.push_back(C((*b)[i])); } else r.push_back(0); break;
            case 10: { cVec q(*a); q = *b; q += *a; for (int i = 0; i < N; i++) r.push_back(C(q[i])); break; }
            default: { a->FastCopy(*b); for (int i = 0; i < N; i++) r.push_back(C((*a)[i])); } }
         delete a; delete b; delete d; delete e; return r; };
   }
   explore(c, j, want.empty() ? 0 : &want);
}
std::vector<cd> vals(WaveFunction* w, const Wf& f) { CV v = u::get(w, f); return std::vector<cd>(v.begin(), v.end()); }
void wfJob(mc::Ctx& c) {
   static std::vector<Wf> F = { u::level(3), u::grid({ 4 }), u::grid({ 3, 2 }), Wf(u::grid({ 4 }), 2), Wf(u::level(2), 3) }; static const char* FN[] = { "scalar product", "Norm", "Normalize", "assignment", "sum", "multiply", "k space", "integral", "reduce and restore" };
   const Wf& f = c.of(F, "wave function"); int w = c.pick(9, "operation"); Job j; j.name = std::string(FN[w]) + " of " + f.text();
   j.run = [=] { int n = f.size(); WaveFunction *a = u::make(f, u::vec(n, 3)), *b = u::make(f, u::vec(n, 4)); std::vector<cd> r;
      switch (w) { case 0: { dcomplex z = *a * b; r.push_back(cd(z._real, z._imag)); break; } case 1: r.push_back(a->Norm()); break; case 2: a->Normalize(); break; case 3: *a = b; break; case 4: AddElements((cVec*)a, (cVec*)b); break; case 5: MultElements((cVec*)a, dcomplex(0.5, -2)); break;
         case 6: if (!f.s[0].level && !f.multi) { WFGridSystem* g = (WFGridSystem*)a; g->fft().forward(); std::vector<cd> k = vals(a, f); r.insert(r.end(), k.begin(), k.end()); g->fft().backward(); } break;
         case 7: if (!f.s[0].level && !f.multi) { dcomplex z = ((WFGridSystem*)a)->Integral(); r.push_back(cd(z._real, z._imag)); } break;
         default: if (!f.multi) { WaveFunction* q = a->Reduce(0.1); std::vector<cd> k = vals(q, f); r.insert(r.end(), k.begin(), k.end()); b->Restore(q); k = vals(b, f); r.insert(r.end(), k.begin(), k.end()); DELETE_WF(q); } }
      std::vector<cd> q = vals(a, f); r.insert(r.end(), q.begin(), q.end()); DELETE_WF(a); DELETE_WF(b); return r; };
   explore(c, j);
}
void opJob(mc::Ctx& c) {
   auto& all = ops::every(); const ops::Case& k = all[c.big(all.size(), "operator")]; int how = c.pick(c.bound(3, 5), "use"); static const char* H[] = { "apply", "in place", "matrix element", "add", "expectation value" };
   Job j; j.name = std::string(H[how]) + " " + k.name;
   j.run = [=] { Operator* o = ops::ready(k); int n = k.wf.size(); WaveFunction *a = u::make(k.wf, u::vec(n, 3)), *b = u::make(k.wf, u::vec(n, 4)); std::vector<cd> r;
      if (how == 0) { o->Apply(b, a); r = vals(b, k.wf); } else if (how == 1) { o->Apply(a); r = vals(a, k.wf); } else if (how == 2) { dcomplex z = o->MatrixElement(b, a); r.push_back(cd(z._real, z._imag)); } else if (how == 3) { o->ApplyAdd(b, a); r = vals(b, k.wf); } else r.push_back(o->Expec(a));
      DELETE_WF(a); DELETE_WF(b); DELETE_OP(o); return r; };
   explore(c, j);
}
void propJob(mc::Ctx& c) {
   auto& hs = u::hams(); auto& ps = u::props(); auto& sp = u::splits(); int k = c.big(hs.size() + sp.size(), "Hamiltonian"); bool gs = k >= (int)hs.size(); const u::Prop* p = 0; if (!gs) p = &ps[c.pick(ps.size(), "propagator")]; int mode = c.pick(c.bound(2, 4), "direction and mode"); if (!c.thorough()) mode *= 2;
   if (p && !hs[k].herm && (p->kind == u::Prop::SIL || mode & 2)) c.prune();
   const Wf f = gs ? sp[k - hs.size()].wf : hs[k].wf; Job j; j.name = (gs ? "GSPO, " + sp[k - hs.size()].name : p->name + ", " + hs[k].name) + (mode & 2 ? ", imaginary" : "") + (mode & 1 ? ", backward" : "");
   if (p && (p->kind == u::Prop::SIL || p->name.find("Arnoldi") == 0)) j.tol = 1e-4;   // the subspace amplifies the rounding of the sums
   j.run = [=, &hs, &sp] { QDClock q; q.Dt(0.5); q.Steps(u::L); q.TimeStep(2); OPropagator* U; if (gs) { OGSPO* g = new OGSPO(); u::PC pc; ((Operator*)g)->Init((ParamContainer&)pc); auto o = sp[k - hs.size()].build(); for (size_t i = 0; i < o.size(); i++) g->Add(std::string(1, 'A' + i), o[i]); U = g; } else { U = p->make(); u::PC pc = p->p; ((Operator*)U)->Init((ParamContainer&)pc); U->Add("hamiltonian", hs[k].build()); }
      int n = f.size(); WaveFunction *a = u::make(f, u::vec(n, 3)), *b = u::make(f, u::vec(n, 4)); U->Clock(&q); if (mode & 2) U->ImaginaryTime(); if (mode & 1) U->Backward(); U->Init(a); U->Apply(b, a); std::vector<cd> r = vals(b, f); U->Apply(a); std::vector<cd> r2 = vals(a, f); r.insert(r.end(), r2.begin(), r2.end());
      DELETE_WF(a); DELETE_WF(b); CollectorOp::Instance()->Delete(); DELETE_ALL_WF(); return r; };
   explore(c, j);
}
void go(mc::Ctx& c) { if (id == "kernels") kernelJob(c); else if (id == "states") wfJob(c); else if (id == "operators") opJob(c); else propJob(c); }
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); t::id = argv[1]; mc::Options o; o.name = "T01"; o.deadline = 700; o.execTimeout = 60; return mc::Main(argc - 1, argv + 1, t::go, o); }
