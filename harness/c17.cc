#include "rtgen.h"
#include "CacheMDP.h"
#include "CustomMDP.h"
using namespace zh;
SECTION(generic, "GenericDiscreteMDP: outcomes, successors, rewards, terminal states against the transition table") {
  for (int t = 0; t < c.n(2500, 50000); t++) {
    RM m = rmodel(c.g, c.g.p(0.2) ? 12 : 6); vary(c.g, m, 3e-10); GenericDiscreteMDP *p = mkmdp(c.dir, m); c.cur("%s", m.show().c_str()); CK((int)p->getInitialState()(0) == m.start, "initial state");
    for (int s = 0; s < m.S; s++) { cvector cs; cs.resize(1); cs.push_back(0, s); CK(p->getIsTerminalState(cs) == m.term[s], "terminal flag of %d", s);
      for (int a = 0; a < m.A; a++) { dvector opv; opv.resize(c.g.i(9)); p->getOutcomeProbVector(opv, cs, a); V got(m.S, 0); std::set<int> seen; double tot = 0; for (size_t o = 0; o < opv.size(); o++) { cvector ns = mkc(c.g, 3, 0.5); p->getNextState(ns, cs, a, o); CK(ns.size() == 1 && ns.data.size() == 1, "successor shape"); int q = (int)ns(0); CK(q >= 0 && q < m.S && seen.insert(q).second, "outcome %d leads to %d again", (int)o, q); if (q >= 0 && q < m.S) got[q] += opv(o); tot += opv(o); }
        CK(eq(got, m.T[a][s], 1e-12), "s=%d a=%d successors %s expected %s", s, a, show(got).c_str(), show(m.T[a][s]).c_str()); CK(close(tot, 1), "sum %.17g", tot); CK(close(p->getReward(cs, a), m.R[s][a], 1e-12), "reward s=%d a=%d", s, a);
        if (p->getIsTerminalState(cs)) CK(p->getReward(cs, a) == 0 && close(got[s], 1), "terminal state %d is not absorbing with zero reward", s); } }
    delete p;
  }
}
SECTION(terminals, "CassandraModel::checkForTerminalStates marks exactly the zero-reward absorbing states") {
  for (int t = 0; t < c.n(3000, 60000); t++) {
    RM m = rmodel(c.g); for (int s = 0; s < m.S; s++) if (c.g.p(0.4)) { int keep = c.g.i(4); for (int a = 0; a < m.A; a++) { if (keep != 0 || a) { m.T[a][s].assign(m.S, 0); m.T[a][s][s] = 1; } if (keep != 1 || a) m.R[s][a] = 0; } }
    GenericDiscreteMDP *p = mkmdp(c.dir, m); p->isTerminalState.clear(); c.cur("%s", m.show().c_str()); p->checkForTerminalStates(); CK((int)p->isTerminalState.size() == m.S, "size");
    for (int s = 0; s < m.S; s++) { bool e = true; for (int a = 0; a < m.A; a++) e = e && fabs(1 - m.T[a][s][s]) <= 1e-10 && m.R[s][a] == 0; CK(p->isTerminalState[s] == e, "state %d marked %d expected %d", s, (int)p->isTerminalState[s], e); } delete p;
  }
}
SECTION(custom, "CustomMDP: chain of every size, outcomes/successors/rewards") {
  for (int n = 2; n < c.n(60, 400); n++) {
    ZMDPConfig *cf = mkcfg(); cf->setInt("customMDPNumStates", n); CustomMDP p(*cf); c.cur("n=%d", n); CK((int)p.getInitialState()(0) == 0 && p.getNumActions() == 2, "initial state");
    for (int x = 0; x < n; x++) for (int a = 0; a < 2; a++) { cvector cs; cs.resize(1); cs.push_back(0, x); dvector opv; p.getOutcomeProbVector(opv, cs, a); std::map<int, double> got, e; for (size_t o = 0; o < opv.size(); o++) { CK(opv(o) >= 0, "negative"); cvector ns; p.getNextState(ns, cs, a, o); got[(int)ns(0)] += opv(o); }
      bool term = x == n - 1; if (term) e[x] = 1; else if (a == 0 && x == 0) e[0] = 1; else { e[x + (a ? 1 : -1)] += 0.9; e[x] += 0.1; } bool ok = e.size() == got.size(); for (auto &q : e) ok = ok && got.count(q.first) && close(got[q.first], q.second); CK(ok, "x=%d a=%d successors differ", x, a); CK(p.getIsTerminalState(cs) == term && p.getReward(cs, a) == (term ? 0 : -1), "x=%d terminal/reward", x); }
    delete cf;
  }
}
static void cmp(zh::Ctx &c, MDP *p, int limit) {   // walk the cached copy and the original side by side
  CacheMDP q(p); CK(q.getNumActions() == p->getNumActions() && q.getDiscount() == p->getDiscount(), "sizes"); std::map<int, cvector> st; std::set<std::string> seen; std::vector<int> todo; cvector s0 = q.getInitialState(); st[(int)s0(0)] = p->getInitialState(); todo.push_back((int)s0(0)); cvector tr; q.translateState(tr, s0); CK(same(tr, p->getInitialState()), "initial state");
  for (size_t k = 0; k < todo.size() && (int)k < limit; k++) { int i = todo[k]; cvector si; si.resize(1); si.push_back(0, i); cvector s = st[i]; CK(same(q.translateState(tr, si), s), "translateState %d: %s expected %s", i, show(tr).c_str(), show(s).c_str()); CK(q.getIsTerminalState(si) == p->getIsTerminalState(s), "terminal flag");
    int A = p->getNumActions(); for (int rep = 0; rep < 2; rep++) for (int aa = 0; aa < A; aa++) { int a = rep ? A - 1 - aa : aa; dvector x, y; p->getOutcomeProbVector(x, s, a); q.getOutcomeProbVector(y, si, a); CK(same(x, y), "outcome probabilities of state %s action %d: %s expected %s", show(s).c_str(), a, show(y).c_str(), show(x).c_str()); CK(p->getReward(s, a) == q.getReward(si, a), "reward of %s action %d", show(s).c_str(), a);
      for (size_t o = 0; o < x.size(); o++) if (x(o) > 1e-9) { cvector u, w; p->getNextState(u, s, a, o); q.getNextState(w, si, a, o); int j = (int)w(0); if (st.count(j)) { V du = den(u), ds = den(st[j]); CK(eq(du, ds, 1e-8), "state number %d stands for two states %s and %s", j, show(u).c_str(), show(st[j]).c_str()); } else { for (auto &z : st) CK(!same(z.second, u), "state %s has two numbers", show(u).c_str()); st[j] = u; todo.push_back(j); } } }
  }
}
SECTION(cached, "CacheMDP answers like the original on explicit MDPs, belief MDPs, racetracks and the custom MDP") {
  for (int t = 0; t < c.n(250, 5000); t++) {
    int k = c.g.i(4); if (k == 0) { RM m = rmodel(c.g); c.cur("mdp %s", m.show().c_str()); MDP *p = mkmdp(c.dir, m); cmp(c, p, 100); delete p; }
    else if (k == 1) { RM m = rmodel(c.g, 4, 3, 3); c.cur("pomdp %s", m.show().c_str()); MDP *p = mkpomdp(c.dir, m); cmp(c, p, 25); delete p; }
    else if (k == 2) { RT r = rtrack(c.g, c.dir, 6); c.cur("%s", r.show().c_str()); RaceTrack p(r.file); cmp(c, &p, 40); }
    else { ZMDPConfig *cf = mkcfg(); int n = c.g.in(2, 30); cf->setInt("customMDPNumStates", n); CustomMDP p(*cf); c.cur("custom n=%d", n); cmp(c, &p, 100); delete cf; }
  }
}
