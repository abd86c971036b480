#include "pgen.h"
using namespace zh;
struct Stub : public MDP { state_vector s; Stub(double d) { discount = d; numStateDimensions = 1; }
  const state_vector &getInitialState(void) { return s; } bool getIsTerminalState(const state_vector &) { return false; } outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &r, const state_vector &, int) { return r; }
  state_vector &getNextState(state_vector &r, const state_vector &, int, int) { return r; } double getReward(const state_vector &, int) { return 0; } AbstractBound *newLowerBound(const ZMDPConfig *) { return 0; } AbstractBound *newUpperBound(const ZMDPConfig *) { return 0; } };
struct G { std::vector<MDPNode *> n; };
static G graph(Rng &g, int A) {   // arbitrary node graph with arbitrary bounds, lb <= ub not required
  G r; int N = g.in(1, 5); bool big = g.p(0.1); for (int i = 0; i < N; i++) { MDPNode *x = new MDPNode; x->isTerminal = false; x->searchData = x->boundsData = 0; x->lbVal = g.r(-50, 50); x->ubVal = x->lbVal + (g.p(0.1) ? -g.r(0, 10) : g.r(0, 40)); if (big) { x->lbVal *= 1e5; x->ubVal *= 1e5; } if (g.p(0.2)) x->ubVal = x->lbVal = g.in(-3, 3); x->s = tocv({(double)i}); r.n.push_back(x); }
  for (auto x : r.n) { x->Q.resize(A); for (auto &q : x->Q) { q.immediateReward = (big ? 1e5 : 1) * (g.p(0.2) ? 0 : g.r(-10, 10)); q.ubVal = -99e+20; q.lbVal = 0; V w = row(g, g.in(1, 4), 0.6); q.outcomes.resize(w.size()); for (size_t o = 0; o < w.size(); o++) { q.outcomes[o] = 0; if (w[o] > 0) { q.outcomes[o] = new MDPEdge; q.outcomes[o]->obsProb = w[o]; q.outcomes[o]->nextState = r.n[g.i(N)]; } } } }
  return r;
}
static double qv(const MDPNode &n, int a, double d, bool up) { double t = 0; for (auto e : n.Q[a].outcomes) if (e) t += e->obsProb * (up ? e->nextState->ubVal : e->nextState->lbVal); return n.Q[a].immediateReward + d * t; }
static std::string gs(const G &g, int k) { std::string s = strf("node %d:", k); for (auto x : g.n) s += strf(" [lb=%.17g ub=%.17g]", x->lbVal, x->ubVal); for (auto &q : g.n[k]->Q) { s += strf(" {r=%.17g ub=%.17g", q.immediateReward, q.ubVal); for (auto e : q.outcomes) s += e ? strf(" %.17g->%d", e->obsProb, (int)(std::find(g.n.begin(), g.n.end(), e->nextState) - g.n.begin())) : " -"; s += "}"; } return s; }
SECTION(updates, "PointLowerBound::update, PointUpperBound::update/updateSimple, updateDualPointBounds on arbitrary nodes") {
  for (int t = 0; t < c.n(20000, 400000); t++) {
    int A = c.g.in(1, 5); double d = c.g.p(0.2) ? 1 : c.g.r(0.1, 1); Stub st(d); st.numActions = A; G g = graph(c.g, A); int k = c.g.i(g.n.size()); MDPNode &n = *g.n[k]; BoundPair bp(true, true, false, true); bp.problem = &st; PointLowerBound pl(&st, 0, &bp); PointUpperBound pu(&st, 0, &bp);
    c.cur("d=%.17g %s", d, gs(g, k).c_str()); V ql(A), qu(A); for (int a = 0; a < A; a++) { ql[a] = qv(n, a, d, false); qu[a] = qv(n, a, d, true); } double ml = *std::max_element(ql.begin(), ql.end()), mu = *std::max_element(qu.begin(), qu.end()); double l0 = n.lbVal, u0 = n.ubVal; int act = -7;
    V lb, ub; for (auto x : g.n) { lb.push_back(x->lbVal); ub.push_back(x->ubVal); }
    int mode = c.g.i(4); if (mode == 0) bp.updateDualPointBounds(n, &act); else if (mode == 1) { pl.update(n); pu.update(n, &act); } else if (mode == 2) pu.updateSimple(n, &act); else { bp.updateDualPointBounds(n, NULL); }
    if (mode != 2) { CK(close(n.lbVal, std::max(l0, ml)), "lower bound %.17g expected max(%.17g,%.17g)", n.lbVal, l0, ml); CK(n.lbVal >= l0, "lower bound lowered"); if (mode != 1) for (int a = 0; a < A; a++) CK(close(n.Q[a].lbVal, ql[a]), "Q lower %d", a); }
    CK(close(n.ubVal, std::min(u0, mu)), "upper bound %.17g expected min(%.17g,%.17g)", n.ubVal, u0, mu); CK(n.ubVal <= u0, "upper bound raised");
    // lower and upper updates ran one after the other: a self loop sees the state's own already updated lower bound only in the lower sum
    if (mode != 1) for (int a = 0; a < A; a++) CK(close(n.Q[a].ubVal, qu[a]), "Q upper %d is %.17g expected %.17g", a, n.Q[a].ubVal, qu[a]);
    if (mode != 3) { CK(act >= 0 && act < A, "action %d", act); CK(close(qu[act], mu), "reported action %d has value %.17g, best is %.17g", act, qu[act], mu); }
    if (mode != 1) { int m = BoundPair::getMaxUBAction(n); CK(m >= 0 && m < A && close(qu[m], mu), "getMaxUBAction %d", m); }
    for (size_t i = 0; i < g.n.size(); i++) if ((int)i != k) CK(g.n[i]->lbVal == lb[i] && g.n[i]->ubVal == ub[i], "another node changed");
  }
}
SECTION(cached, "PointUpperBound::updateUseCache over histories of backups: equals the full backup when successor bounds only decrease") {
  for (int t = 0; t < c.n(6000, 100000); t++) {
    int A = c.g.in(1, 6); double d = c.g.r(0.1, 1); Stub st(d); st.numActions = A; G g = graph(c.g, A); PointUpperBound pu(&st, 0, 0); for (auto n : g.n) n->ubVal += 60;
    for (int h = 0; h < 12; h++) {
      int k = c.g.i(g.n.size()); MDPNode &n = *g.n[k]; c.cur("step %d d=%.17g %s", h, d, gs(g, k).c_str()); V qu(A); for (int a = 0; a < A; a++) qu[a] = qv(n, a, d, true); double mu = *std::max_element(qu.begin(), qu.end()), u0 = n.ubVal; int act = -7;
      if (c.g.p(0.1)) pu.updateSimple(n, &act); else pu.update(n, &act);
      CK(close(n.ubVal, std::min(u0, mu)), "upper bound %.17g expected min(%.17g,%.17g)", n.ubVal, u0, mu); CK(n.ubVal <= u0, "upper bound raised"); CK(act >= 0 && act < A && close(qu[act], mu), "reported action %d", act);
      for (int a = 0; a < A; a++) CK(n.Q[a].ubVal >= qu[a] - 1e-6 * (1 + fabs(qu[a])), "cached value of action %d below its backup", a); CK(close(n.Q[act].ubVal, mu), "value of the reported action");
    }
  }
}
SECTION(search, "BoundPair::update on explicit MDPs and POMDPs with point bounds: Bellman value recomputed from the model") {
  for (int t = 0; t < c.n(150, 3000); t++) {
    RM m = rmodel(c.g, 5, 3, 3); bool po = c.g.p(0.4); vary(c.g, m, po ? 1e-3 : 3e-10); MDP *p = po ? (MDP *)mkpomdp(c.dir, m) : (MDP *)mkmdp(c.dir, m); int mode = po ? 1 : c.g.i(4); // 0 dual 1 upper only 2 separate
    RM mm = m; BoundPair bp(mode != 1, true, false, mode == 0); PointLowerBound *pl = new PointLowerBound(p, cfg0(), &bp); PointUpperBound *pu = new PointUpperBound(p, cfg0(), &bp); pl->initBound = mode == 1 ? 0 : p->newLowerBound(cfg0()); pu->initBound = p->newUpperBound(cfg0()); bp.lowerBound = pl; bp.upperBound = pu; c.cur("%s mode=%d pomdp=%d", m.show().c_str(), mode, po); bp.initialize(p, cfg0());
    std::vector<MDPNode *> nodes(1, bp.getRootNode());
    for (int h = 0; h < 25; h++) {
      MDPNode &n = *nodes[c.g.i(nodes.size())]; bool fr = n.isFringe(); if (nodes.size() > 40 && fr) continue; if (fr) bp.expand(n);
      V b = den(n.s); int s0 = po ? 0 : (int)b[0]; V qu(m.A), ql(m.A);
      for (int a = 0; a < m.A; a++) { double u = 0, l = 0; if (po) { for (int o = 0; o < m.O; o++) { double pr = pobs(m, b, a, o); if (pr > 1e-9) { MDPNode *x = bp.getNodeOrNull(tocv(bnext(m, b, a, o))); if (!x) x = n.Q[a].outcomes[o] ? n.Q[a].outcomes[o]->nextState : 0; if (!x) { c.fail("missing successor"); return; } u += pr * x->ubVal; } } u = rew(m, b, a) + m.disc * u; }
        else { for (int q = 0; q < m.S; q++) if (m.T[a][s0][q] > 0) { V sv(1, q); cvector k = cvector(); k.resize(1); k.push_back(0, q); MDPNode *x = bp.getNodeOrNull(k); if (!x) { c.fail("missing successor %d", q); return; } u += m.T[a][s0][q] * x->ubVal; l += m.T[a][s0][q] * x->lbVal; } u = m.R[s0][a] + m.disc * u; l = m.R[s0][a] + m.disc * l; } qu[a] = u; ql[a] = l; }
      double mu = *std::max_element(qu.begin(), qu.end()), ml = *std::max_element(ql.begin(), ql.end()), u0 = n.ubVal, l0 = n.lbVal; int act = -7, nb = bp.numBackups; double vt = 1e-9 * rmax(m) / (1 - m.disc) / (1 - m.disc); auto near = [&](double x, double y) { return close(x, y, 1e-6) || fabs(x - y) <= vt; }; bp.update(n, &act);
      CK(bp.numBackups == nb + 1, "backup count"); CK(near(n.ubVal, std::min(u0, mu)), "upper bound %.17g expected min(%.17g,%.17g)", n.ubVal, u0, mu); CK(n.ubVal <= u0, "upper bound raised"); CK(act >= 0 && act < m.A && near(qu[act], mu), "reported action %d", act);
      if (mode != 1) { CK(near(n.lbVal, std::max(l0, ml)), "lower bound"); CK(n.lbVal >= l0, "lower bound lowered"); }
      CK(close(bp.getValueAt(n.s).u, n.ubVal), "getValueAt");
      if (fr) for (auto &q : n.Q) for (auto e : q.outcomes) if (e && std::find(nodes.begin(), nodes.end(), e->nextState) == nodes.end()) nodes.push_back(e->nextState);
    }
  }
}
