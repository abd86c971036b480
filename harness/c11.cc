#include "pgen.h"
#include "rtgen.h"
using namespace zh;
struct Mod { MDP *p; std::string d; };
static Mod model(zh::Ctx &c) { Mod r; int k = c.g.i(3); if (k == 2) { RT t = rtrack(c.g, c.dir, 7); r.d = t.show(); r.p = new RaceTrack(t.file); } else { RM m = rmodel(c.g, 5, 3, 3); if (k) { if (c.g.p(0.3)) terms(c.g, m, c.g.p(0.5) ? 0.3 : 0.7); } else vary(c.g, m, 3e-10); r.d = m.show(); r.p = k ? (MDP *)mkpomdp(c.dir, m) : (MDP *)mkmdp(c.dir, m); } return r; }
static bool sameS(const cvector &a, const cvector &b) { auto f = [](const cvector &x) { std::map<int, double> r; for (auto &e : x.data) if (e.value != 0) r[e.index] = e.value; return r; }; auto x = f(a), y = f(b); for (auto &e : x) { auto i = y.find(e.first); if (std::fabs(e.second - (i == y.end() ? 0 : i->second)) > 1.1e-9) return false; } for (auto &e : y) if (!x.count(e.first) && std::fabs(e.second) > 1.1e-9) return false; return true; }
static std::vector<MDPNode *> handled; static void *hd; static void handler(MDPNode &n, void *d) { handled.push_back(&n); hd = d; }
SECTION(graph, "BoundPair::getRootNode/getNode/getNodeOrNull/expand/update on growing graphs of POMDPs, MDPs and racetracks") {
  for (int t = 0; t < c.n(150, 3000); t++) { Mod m = model(c); MDP &p = *m.p; c.cur("%s", m.d.c_str()); BoundPair bp(true, true, false, true); 
    // the initial bounds are not what is checked here: cheap constant ones
    struct K : public AbstractBound { double v; K(double x) : v(x) {} void initialize(double) {} double getValue(const state_vector &, const MDPNode *) const { return v; } };
    struct LB : public PointLowerBound { using PointLowerBound::PointLowerBound; void initialize(double) {} }; struct UB : public PointUpperBound { using PointUpperBound::PointUpperBound; void initialize(double) {} };
    LB *lb = new LB(&p, cfg0(), &bp); lb->initBound = new K(-50); UB *ub = new UB(&p, cfg0(), &bp); ub->initBound = new K(50); bp.lowerBound = lb; bp.upperBound = ub; bp.initialize(&p, cfg0()); handled.clear(); int tag; bp.addGetNodeHandler(handler, &tag);
    std::vector<MDPNode *> ns; auto seen = [&](MDPNode *n) { return std::find(ns.begin(), ns.end(), n) != ns.end(); };
    auto check = [&](MDPNode *n, const cvector &s, const char *w) { CK(n != 0, "%s: null node", w); if (!n) return; CK(sameS(n->s, s), "%s: node of another state: %s instead of %s", w, MatrixUtils::sparseRep(n->s).c_str(), MatrixUtils::sparseRep(s).c_str()); MDPNode *q = 0; for (auto x : ns) if (sameS(x->s, s)) q = x; if (q) CK(q == n, "%s: a second node for the same state", w);
      else { CK(handled.size() == ns.size() + 1 && handled.back() == n && hd == &tag, "%s: handler calls %zu for %zu nodes", w, handled.size(), ns.size() + 1); CK(n->isFringe(), "%s: a new node is not a fringe node", w); CK(n->isTerminal == p.getIsTerminalState(s), "%s: terminal flag", w); CK(n->lbVal == (n->isTerminal ? 0 : -50) && n->ubVal == (n->isTerminal ? 0 : 50), "%s: new node has bounds %g %g", w, n->lbVal, n->ubVal); ns.push_back(n); } };
    cvector s0 = p.getInitialState(); check(bp.getRootNode(), s0, "root"); CK(bp.getRootNode() == ns[0], "root changes");
    int exp = 0;
    for (int k = 0; k < 8 && c.fails == 0; k++) { MDPNode *n = ns[c.g.i(std::min((int)ns.size(), 12))]; bool fr = n->isFringe(); if (!fr) continue; int backups = bp.numBackups; std::vector<MDPNode *> before = ns; bool viaUpdate = c.g.p(0.5); double l0 = n->lbVal; (void)l0;
      handled.assign(ns.begin(), ns.end()); std::vector<cvector> keep; if (viaUpdate) { int a; bp.update(*n, &a); CK(bp.numBackups == backups + 1, "backups counted"); } else bp.expand(*n); exp++; CK(bp.numStatesExpanded == exp, "states expanded %d, expected %d", bp.numStatesExpanded, exp);
      std::vector<MDPNode *> order(handled.begin() + before.size(), handled.end()); for (auto x : order) { for (auto y : before) CK(!sameS(x->s, y->s), "a second node for %s", MatrixUtils::sparseRep(x->s).c_str()); before.push_back(x); } ns = before; CK(bp.numStatesTouched == (int)ns.size(), "states touched %d, nodes %zu", bp.numStatesTouched, ns.size());
      CK((int)n->Q.size() == p.getNumActions(), "%zu Q entries", n->Q.size());
      for (int a = 0; a < p.getNumActions() && a < (int)n->Q.size(); a++) { outcome_prob_vector opv; state_vector sp; CK(close(n->Q[a].immediateReward, p.getReward(n->s, a), 1e-12), "reward of action %d is %.17g, model %.17g", a, n->Q[a].immediateReward, p.getReward(n->s, a)); p.getOutcomeProbVector(opv, n->s, a); CK(n->Q[a].outcomes.size() == opv.size(), "action %d has %zu outcomes, model %zu", a, n->Q[a].outcomes.size(), (size_t)opv.size()); if (n->Q[a].outcomes.size() != opv.size()) continue;
        for (int o = 0; o < (int)opv.size(); o++) { MDPEdge *e = n->Q[a].outcomes[o]; if (opv(o) > 1.0001e-10) { CK(e != 0, "action %d outcome %d of probability %g has no edge", a, o, (double)opv(o)); if (!e) continue; CK(e->obsProb == opv(o), "action %d outcome %d edge probability %.17g, model %.17g", a, o, e->obsProb, (double)opv(o)); p.getNextState(sp, n->s, a, o); CK(sameS(e->nextState->s, sp), "action %d outcome %d leads to %s, model %s", a, o, MatrixUtils::sparseRep(e->nextState->s).c_str(), MatrixUtils::sparseRep(sp).c_str()); CK(seen(e->nextState) , "edge to a node that was never created"); CK(bp.getNodeOrNull(sp) == e->nextState, "the edge's node is not the one found for its state"); } else CK(e == 0 || opv(o) > 0.9999e-10, "action %d outcome %d of probability %g has an edge", a, o, (double)opv(o)); } }
      // lookups
      cvector q = ns[c.g.i(ns.size())]->s; size_t cnt = ns.size(); handled.assign(ns.begin(), ns.end()); CK(bp.getNodeOrNull(q) != 0, "an existing node is not found"); check(bp.getNode(q), q, "lookup"); CK(ns.size() == cnt && bp.numStatesTouched == (int)cnt, "a lookup of an existing state created a node"); }
    // a state never seen
    for (int k = 0; k < 3; k++) { cvector z = ns[c.g.i(ns.size())]->s; if (z.data.empty()) continue; if (c.g.p(0.5)) z.data[c.g.i(z.data.size())].value += c.g.p(0.5) ? 3e-9 : 1; else z.data.pop_back(); bool there = false; for (auto x : ns) there = there || sameS(x->s, z); if (there) continue; CK(bp.getNodeOrNull(z) == 0, "a node is found for a state that was never created: %s -> %s", MatrixUtils::denseRep(z).c_str(), MatrixUtils::denseRep(bp.getNodeOrNull(z) ? bp.getNodeOrNull(z)->s : z).c_str()); CK(bp.numStatesTouched == (int)ns.size(), "getNodeOrNull created a node"); }
  }
}
SECTION(keys, "hashable(cvector/dvector): equal keys exactly for equal vectors (to the printed precision)") {
  for (int t = 0; t < c.n(20000, 400000); t++) { int n = c.g.p(0.1) ? c.g.in(1, 200) : c.g.in(1, 8); auto mk = [&]() { V v(n, 0); double d = c.g.d(); for (double &x : v) if (c.g.p(d)) x = c.g.p(0.3) ? c.g.in(-9, 9) : c.g.p(0.2) ? c.g.r(-1e5, 1e5) : c.g.d(); return v; }; V a = mk(), b = a; bool eq = true; int how = c.g.i(3); if (how == 0) b = mk(); else if (how == 1) { int i = c.g.i(n); b[i] += c.g.p(0.5) ? 2e-9 : -1; } for (int i = 0; i < n; i++) { if (std::fabs(a[i] - b[i]) > 1.5e-9) eq = false; if (a[i] != b[i] && (a[i] == 0 || b[i] == 0)) eq = false; } c.cur("%s | %s", zh::show(a).c_str(), zh::show(b).c_str());
    std::string ka = MatrixUtils::hashable(tocv(a)), kb = MatrixUtils::hashable(tocv(b)), ka2 = MatrixUtils::hashable(tocv(a)); CK(ka == ka2, "the key of a vector changes between calls"); if (eq && a == b) CK(ka == kb, "equal vectors, different keys"); if (!eq) CK(ka != kb, "different vectors, same key '%s'", ka.c_str());
    std::string da = MatrixUtils::hashable(todv(a)), db = MatrixUtils::hashable(todv(b)); if (a == b) CK(da == db, "equal dense vectors, different keys"); if (!eq) CK(da != db, "different dense vectors, same key"); }
}
