// C01: every operation history on two clocks (one of them the global clock) against a reference clock.
#include "mc.h"
#include "tools/QDClock.h"
#include "tools/QDGlobalClock.h"
#include "tools/Exception.h"
#include <cmath>
using namespace QDLIB;
struct Ref { long step; int dtn, dtd; int steps; double dt() const { return dtd ? double(dtn) / dtd : 0; } };
// step lengths as rationals so that common multiples can be decided exactly
static const int DTN[] = { 1, 1, 1, 3, 7, 0 }, DTD[] = { 1, 10, 4, 10, 1, 1 };

static void check(mc::Ctx& c, const char* who, const QDClock& k, const Ref& r, const std::string& op) {
   if (k.TimeStep() != r.step) c.fail("step:" + op, "%s clock: step %d, expected %ld after %s", who, k.TimeStep(), r.step, op.c_str());
   if (k.Steps() != r.steps) c.fail("steps:" + op, "%s clock: number of steps %d, expected %d after %s", who, k.Steps(), r.steps, op.c_str());
   if (k.Dt() != r.dt()) c.fail("dt:" + op, "%s clock: dt %g, expected %g after %s", who, k.Dt(), r.dt(), op.c_str());
   double t = r.step * r.dt();
   if (!(fabs(k.Time() - t) <= 1e-12 * (1 + fabs(t)))) c.fail("time:" + op, "%s clock: time %.17g, expected %.17g after %s", who, k.Time(), t, op.c_str());
}

static void run(mc::Ctx& c) {
   QDGlobalClock::Destroy();
   QDClock* gk = QDGlobalClock::Instance();
   int s0 = c.pick(2, "steps0") ? 1 : 20, d0 = c.pick(2, "dt0") ? 2 : 1;
   QDClock own(s0, double(DTN[d0]) / DTD[d0]);
   Ref ro = { 0, DTN[d0], DTD[d0], s0 }, rg = { 0, 0, 1, 0 };
   check(c, "own", own, ro, "construction"); check(c, "global", *gk, rg, "construction");
   int depth = c.bound(4, 6);
   for (int i = 0; i < depth; i++) {
      int who = c.pick(2, "clock"); QDClock& k = who ? *gk : own; Ref& r = who ? rg : ro; QDClock& o = who ? own : *gk; Ref& q = who ? ro : rg;
      int op = c.pick(9, "op"); std::string name;
      switch (op) {
      case 0: { QDClock& b = ++k; r.step++; name = "increment"; if (&b != &k) c.fail("ref:++", "increment does not return the clock"); break; }
      case 1: { QDClock& b = --k; r.step--; name = "decrement"; if (&b != &k) c.fail("ref:--", "decrement does not return the clock"); break; }
      case 2: { static const int S[] = { 3, 0, 12, -6 }; int v = S[c.pick(4, "step")]; k.TimeStep(v); r.step = v; name = "set step"; break; }
      case 3: { int v = c.pick(6, "dt"); k.Dt(double(DTN[v]) / DTD[v]); r.dtn = DTN[v]; r.dtd = DTD[v]; name = "set dt"; break; }
      case 4: { static const int S[] = { 33, 1, 0 }; int v = S[c.pick(3, "steps")]; k.Steps(v); r.steps = v; name = "set steps"; break; }
      case 5: k.Begin(); r.step = 0; name = "begin"; break;
      case 6: k.End(); r.step = r.steps - 1; name = "end"; break;
      case 7: k = o; r = q; name = "assign"; break;
      case 8: {
         name = "sync";
         // q.step * q.dt == n * r.dt for an integer n?
         bool thrown = false;
         try { k.Sync(o); } catch (Exception&) { thrown = true; }
         if (r.dtn == 0) { if (!thrown && q.step * q.dtn != 0) c.fail("sync:zero", "sync without time step accepted"); if (!thrown) { r.step = k.TimeStep(); } break; }
         long num = q.step * q.dtn * r.dtd, den = (long)q.dtd * r.dtn;
         bool ok = num % den == 0;
         if (ok && thrown) c.fail("sync:refused", "clock with dt=%d/%d refused to sync to step %ld of dt=%d/%d", r.dtn, r.dtd, q.step, q.dtn, q.dtd);
         if (!ok && !thrown) c.fail("sync:accepted", "clock with dt=%d/%d accepted sync to step %ld of dt=%d/%d", r.dtn, r.dtd, q.step, q.dtn, q.dtd);
         if (ok) r.step = num / den;
         break; }
      }
      c.step(); c.log("%s clock: %s -> step %d dt %g steps %d", who ? "global" : "own", name.c_str(), k.TimeStep(), k.Dt(), k.Steps());
      check(c, "own", own, ro, name); check(c, "global", *gk, rg, name);
      if (QDGlobalClock::Instance() != gk) c.fail("instance", "the global clock changed identity");
      c.state(mc::Hash().i(ro.step).i(ro.dtn).i(ro.dtd).i(ro.steps).i(rg.step).i(rg.dtn).i(rg.dtd).i(rg.steps).h);
      if (r.step) c.nontrivial();
   }
   c.outcome(mc::Hash().i(ro.step).d(ro.dt()).i(rg.step).d(rg.dt()).h);
}
int main(int argc, char** argv) { return mc::Main(argc, argv, run); }
