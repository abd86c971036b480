#include "pgen.h"
#include "BoundPairExec.h"
#include "ValueFunction.h"
using namespace zh;
struct Obj { MDP *p; RM m; bool pomdp; BoundPair *bp; };
// successor state and probability by the oracle
static std::vector<std::pair<double, V>> succ(const RM &m, const V &b, int a, bool pomdp) { std::vector<std::pair<double, V>> r; if (pomdp) { for (int o = 0; o < m.O; o++) { double p = pobs(m, b, a, o); if (p > 1.01e-10) r.push_back({p, bnext(m, b, a, o)}); } } else { int s = (int)b[0]; for (int u = 0; u < m.S; u++) if (m.T[a][s][u] > 0) r.push_back({m.T[a][s][u], V(1, (double)u)}); } return r; }
static Obj mk(zh::Ctx &c, bool sel, bool planes) {
  Obj o; o.m = rmodel(c.g, 5, 4, 3); o.pomdp = planes || c.g.p(0.6); vary(c.g, o.m, o.pomdp ? 1e-3 : 3e-10); o.p = o.pomdp ? (MDP *)mkpomdp(c.dir, o.m) : (MDP *)mkmdp(c.dir, o.m); bool lo = !sel || c.g.p(0.5), up = sel || c.g.p(0.5);
  o.bp = mkbounds(o.p, cfg0(), lo, up, sel, planes, planes); o.bp->initialize(o.p, cfg0()); return o; }
static V first(const Obj &o) { return o.pomdp ? o.m.b0 : V(1, (double)o.m.start); }
SECTION(choose, "BoundPair::chooseAction, getQValue, getValueAt, BoundPairExec, ValueFunction after arbitrary histories of backups") {
  for (int t = 0; t < c.n(250, 5000); t++) {
    bool sel = c.g.p(0.5), planes = c.g.p(0.4); Obj o = mk(c, sel, planes); BoundPair &bp = *o.bp; c.cur("upper=%d planes=%d pomdp=%d %s", sel, planes, o.pomdp, o.m.show().c_str()); BoundPairExec ex; ex.init(o.p, &bp);
    std::vector<MDPNode *> ns(1, bp.getRootNode()); for (int k = 0, n = c.g.i(12); k < n; k++) { MDPNode *x = ns[c.g.i(ns.size())]; if (x->isTerminal) continue; bp.update(*x, 0); for (auto &q : x->Q) for (auto e : q.outcomes) if (e && std::find(ns.begin(), ns.end(), e->nextState) == ns.end()) ns.push_back(e->nextState); }
    double vt = 1e-9 * rmax(o.m) / (1 - o.m.disc) / (1 - o.m.disc); auto near = [&](double x, double y) { return close(x, y, 1e-6) || fabs(x - y) <= vt; }; V b = first(o); ex.setToInitialState();
    for (int k = 0; k < 4 && c.fails == 0; k++) {
      cvector s = o.pomdp ? tocv(b) : cvector(); if (!o.pomdp) { s.resize(1); s.push_back(0, b[0]); } if (o.p->getIsTerminalState(s)) break;
      V ql(o.m.A), qu(o.m.A), q(o.m.A); int touched = bp.numStatesTouched; for (int a = 0; a < o.m.A; a++) { double l = 0, u = 0; for (auto &e : succ(o.m, b, a, o.pomdp)) { cvector sp; if (o.pomdp) sp = tocv(e.second); else { sp.resize(1); sp.push_back(0, e.second[0]); } MDPNode *n = bp.getNodeOrNull(sp); if (bp.maintainLowerBound) l += e.first * bp.lowerBound->getValue(n ? n->s : sp, n); if (bp.maintainUpperBound) u += e.first * bp.upperBound->getValue(n ? n->s : sp, n); } double r = o.pomdp ? rew(o.m, b, a) : o.m.R[(int)b[0]][a]; ql[a] = r + o.m.disc * l; qu[a] = r + o.m.disc * u; q[a] = sel ? qu[a] : ql[a]; }
      MDPNode *n0 = bp.getNodeOrNull(s); double l0 = n0 ? n0->lbVal : 0, u0 = n0 ? n0->ubVal : 0; ValueInterval v0 = bp.getValueAt(s); ex.currentState = s; int act = ex.chooseAction(), act2 = bp.chooseAction(s); double best = *std::max_element(q.begin(), q.end());
      CK(act >= 0 && act < o.m.A, "action %d", act); if (act >= 0 && act < o.m.A) CK(near(q[act], best), "step %d: action %d has look-ahead value %.17g, the best is %.17g", k, act, q[act], best); CK(act == act2, "chooseAction is not repeatable: %d %d", act, act2); ValueInterval v1 = bp.getValueAt(s);
      CK(!bp.maintainLowerBound || v1.l >= v0.l - 1e-9, "choosing lowered the lower bound"); CK(!bp.maintainUpperBound || v1.u <= v0.u + 1e-9, "choosing raised the upper bound"); if (n0) CK(n0->lbVal >= l0 && n0->ubVal <= u0, "choosing loosened the node's bounds"); CK(bp.numStatesTouched == touched, "choosing created search nodes");
      for (int a = 0; a < o.m.A; a++) { ValueInterval v = bp.getQValue(s, a); CK(near(v.l, bp.maintainLowerBound ? ql[a] : -1), "getQValue(%d).l=%.17g expected %.17g", a, v.l, ql[a]); CK(near(v.u, bp.maintainUpperBound ? qu[a] : -1), "getQValue(%d).u=%.17g expected %.17g", a, v.u, qu[a]); }
      if (n0 && !planes) { ValueInterval v = bp.getValueAt(s); CK(!bp.maintainLowerBound || v.l == n0->lbVal, "getValueAt lower"); CK(!bp.maintainUpperBound || v.u == n0->ubVal, "getValueAt upper"); }
      auto es = succ(o.m, b, act, o.pomdp); // advance with a real outcome index
      outcome_prob_vector opv; o.p->getOutcomeProbVector(opv, s, act); std::vector<int> ok; for (int i = 0; i < (int)opv.size(); i++) if (opv(i) > 1.01e-10) ok.push_back(i); int w = c.g.i(ok.size()); ex.advanceToNextState(act, ok[w]); state_vector ns2; ex.getState(ns2); V nb = es[w].second; bool same = o.pomdp; if (o.pomdp) { V d(o.m.S, 0); for (auto &e : ns2.data) d[e.index] = e.value; for (int i = 0; i < o.m.S; i++) same = same && std::fabs(d[i] - nb[i]) < 1e-8; } else same = std::fabs((ns2.data.empty() ? 0 : ns2.data[0].value) - nb[0]) < 1e-9;
      CK(same, "advanceToNextState(%d,%d) is not the model's successor", act, ok[w]); CK(ex.getStateIsTerminal() == o.p->getIsTerminalState(ns2), "terminal flag of the executive"); if (o.pomdp) { b.assign(o.m.S, 0); for (auto &e : ns2.data) b[e.index] = e.value; } else b = nb; } }
}
SECTION(maxub, "BoundPairCore::getMaxUBAction") {
  for (int t = 0; t < c.n(20000, 200000); t++) { MDPNode n; n.isTerminal = false; int A = c.g.in(1, 6); n.Q.resize(A); V q(A); for (int a = 0; a < A; a++) { q[a] = c.g.p(0.3) ? c.g.in(-2, 2) : c.g.p(0.1) ? -1e15 : c.g.r(-100, 100); n.Q[a].ubVal = q[a]; n.Q[a].lbVal = c.g.r(-200, 200); } c.cur("Q=%s", zh::show(q).c_str()); int a = BoundPairCore::getMaxUBAction(n); CK(a >= 0 && a < A && q[a] == *std::max_element(q.begin(), q.end()), "returns %d", a); }
}
