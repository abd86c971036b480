#include "pgen.h"
using namespace zh;
SECTION(bayes, "getObsProbVector, getNextBelief, getReward, getIsTerminalState against dense Bayes' rule") {
  for (int t = 0; t < c.n(1500, 40000); t++) {
    RM m = rmodel(c.g, c.g.p(0.2) ? 14 : 6); if (c.g.p(0.4)) vary(c.g, m, 1e-8); Pomdp *p = mkpomdp(c.dir, m);
    for (int k = 0; k < 4; k++) {
      V b = rbelief(c.g, m); cvector cb = tocv(b); c.cur("b=%s %s", show(b).c_str(), m.show().c_str());
      // previous contents of the result arguments must not matter
      dvector opv; opv.resize(c.g.i(5)); for (auto &x : opv.data) x = 7; cvector nb = mkc(c.g, c.g.in(1, 5), 0.8);
      for (int a = 0; a < m.A; a++) {
        CK(&p->getObsProbVector(opv, cb, a) == &opv, "result reference"); CK((int)opv.size() == m.O, "observation vector has %d entries", (int)opv.size());
        dvector o2; p->getOutcomeProbVector(o2, cb, a); CK(same(opv, o2), "getOutcomeProbVector differs");
        double tot = 0; for (int o = 0; o < m.O; o++) { double e = pobs(m, b, a, o); tot += opv(o); CK(close(opv(o), e), "Pr(o=%d|b,a=%d)=%.17g expected %.17g", o, a, opv(o), e);
          if (e > 1e-9) { p->getNextBelief(nb, cb, a, o); CK(wf(nb) && (int)nb.size() == m.S, "successor malformed %s", show(nb).c_str()); V x = bnext(m, b, a, o); CK(eq(den(nb), x, 1e-9 + 1e-9 * m.S / e), /* products below the sparse threshold are dropped */ "successor a=%d o=%d %s expected %s", a, o, show(nb).c_str(), show(x).c_str());
            cvector n2; p->getNextState(n2, cb, a, o); CK(same(nb, n2), "getNextState differs"); double sm = 0; for (double v : den(nb)) { sm += v; CK(v >= 0, "negative belief"); } CK(close(sm, 1), "belief sums to %.17g", sm); } }
        CK(close(tot, 1), "observation probabilities sum to %.17g", tot);
        CK(close(p->getReward(cb, a), rew(m, b, a)), "reward a=%d %.17g expected %.17g", a, p->getReward(cb, a), rew(m, b, a));
      }
      CK((edgeterm(m, b) && t < 0) || p->getIsTerminalState(cb) == isterm(m, b), "terminal %d", (int)p->getIsTerminalState(cb)); CK(same(cb, tocv(b)), "belief argument modified");
      CK(same(p->getInitialState(), tocv(m.b0)) && same(p->getInitialBelief(), tocv(m.b0)), "initial belief");
    }
    CK(den(p->R) == m.R, "model reward table modified"); for (int a = 0; a < m.A; a++) CK(den(p->T[a]) == m.T[a] && den(p->O[a]) == m.Z[a], "model tables modified"); delete p;
  }
}
SECTION(chain, "belief updates along simulated histories stay exact") {
  for (int t = 0; t < c.n(400, 8000); t++) {
    RM m = rmodel(c.g); Pomdp *p = mkpomdp(c.dir, m); V b = m.b0; cvector cb = p->getInitialBelief(); c.cur("%s", m.show().c_str());
    for (int k = 0; k < 12; k++) { int a = c.g.i(m.A); dvector opv; p->getObsProbVector(opv, cb, a); int o = -1; for (int x = 0; x < m.O; x++) if (opv(x) > 1e-6 && (o < 0 || c.g.p(0.5))) o = x; if (o < 0) { c.fail("no observation possible"); break; }
      b = bnext(m, b, a, o); p->getNextBelief(cb, cvector(cb), a, o); CK(eq(den(cb), b, 1e-7), "after step %d: %s expected %s", k, show(cb).c_str(), show(b).c_str()); CK(edgeterm(m, b) || p->getIsTerminalState(cb) == isterm(m, b), "terminal after step %d", k); }
    delete p;
  }
}
