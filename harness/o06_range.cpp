// O06: the reported range of eigenvalues of every Hermitian operator against the spectrum of its measured matrix, at every time
#include "ops.h"
using namespace ops;
// eigenvalues of a Hermitian matrix by complex Jacobi rotations
static std::vector<double> eigen(Mat m) {
   int n = m.n; for (int sweep = 0; sweep < 60; sweep++) { double off = 0; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) off += std::norm(m(p, q)); if (off < 1e-26 * (1 + mx(m.a) * mx(m.a))) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { double g = std::abs(m(p, q)); if (g < 1e-300) continue; cd ph = m(p, q) / g; double th = 0.5 * std::atan2(2 * g, (m(p, p) - m(q, q)).real()), c = std::cos(th), s = std::sin(th);
         for (int k = 0; k < n; k++) { cd a = m(k, p), b = m(k, q); m(k, p) = c * a + s * std::conj(ph) * b; m(k, q) = -s * ph * a + c * b; }
         for (int k = 0; k < n; k++) { cd a = m(p, k), b = m(q, k); m(p, k) = c * a + s * ph * b; m(q, k) = -s * std::conj(ph) * a + c * b; } } }
   std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(m(i, i).real()); std::sort(v.begin(), v.end()); return v;
}
// further cases: fields, dipoles and couplings of every sign; known: the range a known finding reports
typedef std::pair<double, double> Range;
struct RCase : Case { std::function<Range()> known; RCase(Case c, std::function<Range()> k = nullptr) : Case(c), known(k) {} };
static double amp(int shape, int i) { return shape == 0 ? field(1, i) : shape == 1 ? 0.4 + 0.3 * i : shape == 2 ? -0.3 - 0.2 * i : 0.9 * (i % 2 ? 1 : -1); }
static Laser* pulse(Laser* l, int shape) { for (int i = 0; i < (int)l->lsize(); i++) l->begin(0)[i] = amp(shape, i); return l; }
static Range ampRange(int shape) { Range r(1e9, -1e9); for (int i = 0; i < NT; i++) { r.first = std::min(r.first, amp(shape, i)); r.second = std::max(r.second, amp(shape, i)); } return r; }
static Range potRange(const Sp& s, int seed, double shift) { Range r(1e9, -1e9); for (int i = 0; i < s.size(); i++) { r.first = std::min(r.first, pv(seed, i) + shift); r.second = std::max(r.second, pv(seed, i) + shift); } return r; }
// bounds of states with couplings: the lower one as the finding has it, with the lower bounds of the couplings only
static Range states(std::vector<Range> d, std::vector<std::tuple<int, int, Range>> off) {
   Mat lo(d.size()), hi(d.size()); for (size_t i = 0; i < d.size(); i++) { lo(i, i) = d[i].first; hi(i, i) = d[i].second; }
   for (auto& t : off) { int i = std::get<0>(t), j = std::get<1>(t); lo(i, j) = lo(j, i) = std::fabs(std::get<2>(t).first); hi(i, j) = hi(j, i) = std::fabs(std::get<2>(t).second); }
   return Range(eigen(lo)[0], eigen(hi).back());
}
static const std::vector<RCase>& all() {
   static std::vector<RCase> v; if (!v.empty()) return v;
   for (auto& k : every()) if (k.name.compare(0, 10, "Projection") && k.name.compare(0, 10, "GridDipole") && k.name.compare(0, 10, "Multistate") && k.name.compare(0, 9, "MatDipole") && k.name.compare(0, 13, "GridSum laser") && k.name.compare(0, 10, "Product GD") /* inherits the range of its dipole */) v.push_back(k);
   static const double SH[] = { 0, -4, 4, 0.5 };
   for (Sp s : { grid({ 4 }), grid({ 3, 2 }) }) {
      for (int sh = 0; sh < 4; sh++) for (int f = 0; f < 4; f++) {
         auto dip = [=] { potFile(s, 4, "dip", SH[sh]); laserFile(NT, DT, 1, "las"); OGridDipole* o = init(new OGridDipole(), PC().set("file", "dip").set("laser", "las")); pulse(o->GetLaser(), f); return o; };
         std::string t = " shift" + std::to_string(sh) + " field" + std::to_string(f); Range dr(0, potRange(s, 4, SH[sh]).second * ampRange(f).second);
         v.push_back({ { "GridDipole" + t + " on " + Wf(s).text(), s, dip, nullptr, LASER }, [=] { return dr; } });
         v.push_back({ { "GridSum dipole" + t + " on " + Wf(s).text(), s, [=] { OGridSum* o = new OGridSum(); o->Add(pot(s, 1, -SH[sh])); o->Add(dip()); return o; }, nullptr, LASER }, [=] { Range p = potRange(s, 1, -SH[sh]); return Range(p.first + dr.first, p.second + dr.second); } });
         v.push_back({ { "Multistate dipole" + t + " on " + Wf(s, 2).text(), Wf(s, 2), [=] { OMultistate* o = new OMultistate(); PC p; o->Init(p); o->Add(pot(s, 1, SH[sh]), 0, 0); o->Add(pot(s, 2, -1), 1, 1); o->Add(dip(), 0, 1); o->Add(dip(), 1, 0); return o; }, nullptr, LASER }, [=] { return states({ potRange(s, 1, SH[sh]), potRange(s, 2, -1) }, { std::make_tuple(0, 1, dr) }); } });
         for (int g = 0; g < 4; g++) v.push_back(Case{ "GridRaman" + t + std::to_string(g) + " on " + Wf(s).text(), s, [=] { potFile(s, 4, "dip", SH[sh]); laserFile(NT, DT, 1, "las"); laserFile(NT, DT, 2, "lbs"); OGridRaman* o = init(new OGridRaman(), PC().set("file", "dip").set("laser0", "las").set("laser1", "lbs")); pulse(o->GetLaser(0), f); pulse(o->GetLaser(1), g); return o; }, nullptr, LASER });
      }
      for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { std::string t = " " + std::to_string(a) + std::to_string(b); Range ra = potRange(s, 1, SH[a]), rb = potRange(s, 2, SH[b]), c1 = potRange(s, 3, SH[a]), c2 = potRange(s, 5, SH[b]);
         for (int three = 0; three < 2; three++) v.push_back(Case{ "Product of potentials" + t + (three ? "3" : "") + " on " + Wf(s).text(), s, [=]() -> Operator* { OProduct* o = new OProduct(); o->Add(pot(s, 1, SH[a])); o->Add(pot(s, 2, SH[b])); if (three) o->Add(pot(s, 3, -1)); return o; }, nullptr });
         v.push_back(Case{ "Sum of potentials" + t + " on " + Wf(s).text(), s, [=]() -> Operator* { OSum* o = new OSum(); o->Add(pot(s, 1, SH[a])); o->Add(pot(s, 2, SH[b])); return o; }, nullptr });
         for (int n = 1; n < 4; n++) for (int unity = 0; unity < 2; unity++) v.push_back({ { "Multistate coupled" + t + std::to_string(n) + (unity ? " unity" : "") + " on " + Wf(s, n == 1 ? 2 : 3).text(), Wf(s, n == 1 ? 2 : 3), [=]() -> Operator* { OMultistate* o = new OMultistate(); PC p; p.set("unity", (bool)unity); o->Init(p); o->Add(pot(s, 1, SH[a]), 0, 0); o->Add(pot(s, 2, SH[b]), 1, 1); if (n & 1) { o->Add(pot(s, 3, SH[a]), 0, 1); o->Add(pot(s, 3, SH[a]), 1, 0); } if (n & 2) { o->Add(pot(s, 5, SH[b]), 1, 2); o->Add(pot(s, 5, SH[b]), 2, 1); } return o; }, nullptr },
            [=] { std::vector<std::tuple<int, int, Range>> off; if (n & 1) off.push_back(std::make_tuple(0, 1, c1)); if (n & 2) off.push_back(std::make_tuple(1, 2, c2)); double u = unity ? 1 : 0; std::vector<Range> d{ ra, rb }; if (n & 2) d.push_back(Range(u, u)); return states(d, off); } });
      }
   }
   for (int n = 1; n < 4; n++) for (int seed = 0; seed < 3; seed++) for (int f = 0; f < 4; f++) v.push_back({ { "MatDipole " + std::to_string(seed) + " field" + std::to_string(f) + " on " + Wf(level(n)).text(), level(n), [=] { matFile(n, seed, "mdp"); laserFile(NT, DT, 1, "las"); OMatDipole* o = init(new OMatDipole(), PC().set("file", "mdp").set("laser", "las")); pulse(o->GetLaser(), f); return o; }, nullptr, LASER }, [=] { auto e = eigen(matrixRef(n, seed)); return Range(e[0] * ampRange(f).first, e.back() * ampRange(f).second); } });
   for (Wf w : { Wf(level(3)), Wf(grid({ 3, 2 })), Wf(level(2), 2) }) for (int k = 0; k < 8; k++) v.push_back(Case{ std::string("Projection ") + (k & 1 ? "two " : "one ") + (k & 2 ? "negative " : "") + (k & 4 ? "inverse " : "") + "on " + w.text(), w, [=] { OProjection* o = init(new OProjection(), PC().set("positive", !(k & 2)).set("inv", bool(k & 4))); for (int i = 0; i <= (k & 1); i++) { WaveFunction* x = make(w, unit(w.size(), i)); x->Normalize(); o->Add(x); DELETE_WF(x); } return o; }, nullptr });
   return v;
}
static void run(mc::Ctx& c) {
   const auto& v = all(); int i = c.big(v.size(), "operator"); const RCase& k = v[i]; c.doing("%s", k.name.c_str()); c.step(); c.log("%s", k.name.c_str()); if (k.attr & NOTEXACT) c.prune();
   int t = c.pick(NT, "time"); bool conj = c.pick(2, "adjoint"); if (!(k.attr & LASER) && t) c.prune();
   Operator* o = ready(k); clockOf()->TimeStep(t); if (conj) o->Conj(true); Mat m = measure(o, k.wf); double s = 1 + mx(m.a); bool herm = true;
   for (int x = 0; x < m.n; x++) for (int y = 0; y < m.n; y++) if (std::abs(m(x, y) - std::conj(m(y, x))) > 1e-10 * s) herm = false;
   if (!herm) c.prune();
   std::vector<double> e = eigen(m); dcomplex lo = o->Emin(), hi = o->Emax(); c.nontrivial(); c.outcome(mc::Hash().i(i).d(e[0]).h); std::string key = k.name.substr(0, k.name.find(" on "));
   bool pinned = false; if (k.known) { Range r = k.known(); pinned = std::fabs(lo._real - r.first) <= 1e-9 * s && std::fabs(hi._real - r.second) <= 1e-9 * s; } if (pinned) key = "pinned:" + key.substr(0, key.find(' ', key.compare(0, 7, "GridSum") ? 0 : 8));
   if (!(lo._real <= e[0] + 1e-9 * s)) c.fail(pinned ? key : "low:" + key, "%s: the lowest eigenvalue %.10g is below Emin %.10g", k.name.c_str(), e[0], lo._real);
   if (!(hi._real >= e.back() - 1e-9 * s)) c.fail(pinned ? key : "high:" + key, "%s: the highest eigenvalue %.10g is above Emax %.10g", k.name.c_str(), e.back(), hi._real);
   CollectorOp::Instance()->Delete(); DELETE_ALL_WF();
}
int main(int argc, char** argv) { GlobalParams::Instance().SetValue("fftwOptimize", false); mc::Options o; o.name = "O06"; o.maxViolExecs = 100000; /* the known findings are met very often */ return mc::Main(argc, argv, run, o); }
