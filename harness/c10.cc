#include "pgen.h"
#include "LRTDP.h"
#include "HDP.h"
using namespace zh;
SECTION(stack, "NodeStack push/pop/top/contains/size/empty/clear over random histories of distinct nodes") {
  for (int t = 0; t < c.n(4000, 60000); t++) { static MDPNode pool[12]; NodeStack s; std::vector<MDPNode *> r; std::string h; c.cur("start"); for (int k = 0; k < 40; k++) { int op = c.g.i(10); if (op < 5) { MDPNode *n = &pool[c.g.i(12)]; if (std::find(r.begin(), r.end(), n) != r.end()) continue; s.push(n); r.push_back(n); h += strf(" push%d", (int)(n - pool)); } else if (op < 9) { if (r.empty()) continue; MDPNode *n = s.pop(); h += " pop"; c.cur("%s", h.c_str()); CK(n == r.back(), "pop returns %d, pushed last %d", (int)(n - pool), (int)(r.back() - pool)); r.pop_back(); } else if (c.g.p(0.2)) { s.clear(); r.clear(); h += " clear"; } c.cur("%s", h.c_str());
      CK(s.size() == r.size() && s.empty() == r.empty(), "size %zu expected %zu", (size_t)s.size(), r.size()); if (r.size()) CK(s.top() == r.back(), "top"); for (int i = 0; i < 12; i++) CK(s.contains(&pool[i]) == (std::find(r.begin(), r.end(), &pool[i]) != r.end()), "contains(%d)=%d", i, s.contains(&pool[i])); } }
}
struct Set { RM m; MDP *p; BoundPair *bp; bool lo; };
static Set mk(zh::Ctx &c, double prec, bool strips) { Set s; s.m = rmodel(c.g, c.g.p(0.5) ? 8 : 5, 3, 1); if (s.m.disc > 0.96) s.m.disc = 0.9; if (strips) for (int a = 0; a < s.m.A; a++) for (int i = 0; i < s.m.S; i++) if (!s.m.term[i]) { V r(s.m.S, 0); r[std::min(s.m.S - 1, i + 1)] = c.g.p(0.5) ? 1 : 0.5; if (r[std::min(s.m.S - 1, i + 1)] < 1) r[c.g.i(s.m.S)] += 0.5; s.m.T[a][i] = r; }
  ZMDPConfig *cf = mkcfg(); cf->setDouble("terminateRegretBound", prec); cf->setInt("terminateNumBackups", -1); s.p = mkmdp(c.dir, s.m, cf); s.lo = c.g.p(0.5); s.bp = mkbounds(s.p, cf, s.lo, true, !s.lo, false, false); return s; }
static double q(const Set &s, const MDPNode &n, int a) { int i = (int)(n.s.data.empty() ? 0 : n.s.data[0].value); double t = 0; for (auto e : n.Q[a].outcomes) if (e) t += e->obsProb * e->nextState->ubVal; return s.m.R[i][a] + s.m.disc * t; }
// every solved non-terminal node has a small residual, and its greedy successors are solved
template <class X> static void inv(zh::Ctx &c, const Set &s, double prec, const char *when, bool solvedSet) {
  for (auto &e : *s.bp->lookup) { MDPNode &n = *e.second; if (n.isTerminal) { CK(X::getIsSolved(n), "%s: terminal node not solved", when); continue; } if (!X::getIsSolved(n)) continue; int i = (int)(n.s.data.empty() ? 0 : n.s.data[0].value); CK(!n.isFringe(), "%s: state %d is labelled solved but was never expanded", when, i); if (n.isFringe()) continue; double best = -1e300; V qs(s.m.A); for (int a = 0; a < s.m.A; a++) best = std::max(best, qs[a] = q(s, n, a)); CK(std::fabs(n.ubVal - best) <= prec + 1e-7 * (1 + std::fabs(best)), "%s: state %d is labelled solved with residual %.17g > %.17g", when, i, std::fabs(n.ubVal - best), prec);
    bool ok = false; std::string w; for (int a = 0; a < s.m.A; a++) if (qs[a] >= best - 1e-9 * (1 + std::fabs(best))) { bool all = true; for (auto o : n.Q[a].outcomes) if (o && !X::getIsSolved(*o->nextState)) all = false; ok = ok || all; } CK(ok, "%s: state %d is labelled solved but a greedy successor is not", when, i); }
}
SECTION(lrtdp, "LRTDP: after every trial and every checkSolved call each solved state has a small residual and solved greedy successors") {
  for (int t = 0; t < c.n(500, 8000); t++) { double prec = c.g.p(0.5) ? c.g.r(0.001, 0.1) : c.g.r(0.1, 5); Set s = mk(c, prec, c.g.p(0.4)); bool tm = false; for (bool x : s.m.term) tm = tm || x; if (!tm || s.p->getIsTerminalState(s.p->getInitialState())) continue; int z = std::find(s.m.term.begin(), s.m.term.end(), true) - s.m.term.begin(); for (int i = 0; i < s.m.S; i++) if (!s.m.term[i]) for (int a = 0; a < s.m.A; a++) if (s.m.T[a][i][z] < 0.1) { for (double &x : s.m.T[a][i]) x *= 0.9; s.m.T[a][i][z] += 0.1; } put(*(GenericDiscreteMDP *)s.p, s.m);
    c.cur("prec=%.17g lo=%d %s", prec, s.lo, s.m.show().c_str()); LRTDP h; h.setBounds(s.bp); ZMDPConfig *cf = mkcfg(); cf->setDouble("terminateRegretBound", prec); h.planInit(s.p, cf); if (!h.initialized) h.init(); cvector s0 = s.p->getInitialState(); bool done = false;
    for (int k = 0; k < 25 && !done && c.fails == 0; k++) { if (c.g.p(0.6)) { done = h.planFixedTime(s0, -1, prec); CK(done == LRTDP::getIsSolved(*s.bp->getRootNode()), "trial result %d, root solved %d", done, LRTDP::getIsSolved(*s.bp->getRootNode())); inv<LRTDP>(c, s, prec, "after a trial", true); }
      else { std::vector<MDPNode *> ns; s.bp->getRootNode(); for (auto &e : *s.bp->lookup) ns.push_back(e.second); std::sort(ns.begin(), ns.end(), [](MDPNode *a, MDPNode *b) { return std::string(MatrixUtils::hashable(a->s)) < std::string(MatrixUtils::hashable(b->s)); }); MDPNode *n = ns[c.g.i(ns.size())]; bool was = LRTDP::getIsSolved(*n); std::set<MDPNode *> bef; for (auto x : ns) if (LRTDP::getIsSolved(*x)) bef.insert(x); bool r = h.checkSolved(*n); CK(!r || LRTDP::getIsSolved(*n), "checkSolved reports true but the state is not labelled"); CK(r || !LRTDP::getIsSolved(*n), "checkSolved reports false but the state is labelled"); CK(!was || r, "checkSolved of a solved state is false"); for (auto x : bef) CK(LRTDP::getIsSolved(*x), "a label was taken away"); inv<LRTDP>(c, s, prec, "after checkSolved", true); } } }
}
SECTION(hdp, "HDP: after every trial each solved state has a small residual and solved greedy successors; indices are reset") {
  for (int t = 0; t < c.n(700, 12000); t++) { double prec = c.g.p(0.5) ? c.g.r(0.001, 0.1) : c.g.r(0.1, 5); Set s = mk(c, prec, c.g.p(0.5)); if (s.p->getIsTerminalState(s.p->getInitialState())) continue; c.cur("prec=%.17g lo=%d %s", prec, s.lo, s.m.show().c_str()); HDP h; h.setBounds(s.bp); ZMDPConfig *cf = mkcfg(); cf->setDouble("terminateRegretBound", prec); h.planInit(s.p, cf); if (!h.initialized) h.init(); cvector s0 = s.p->getInitialState(); bool done = false; int k;
    for (k = 0; k < 3000 && !done && c.fails == 0; k++) { bool pre = HDP::getIsSolved(*s.bp->getRootNode()); done = h.planFixedTime(s0, -1, prec); CK(done == pre, "trial result %d, root solved before it %d", done, pre); inv<HDP>(c, s, prec, "after a trial", true); for (auto &e : *s.bp->lookup) CK(HDP::getIdx(*e.second) == INT_MAX, "a depth-first index is left over after the trial"); CK(h.nodeStack.empty() && h.visited.empty(), "the work stacks are not empty after the trial"); } CK(done || c.fails, "the root is not solved after %d trials", k); }
}
SECTION(residual, "LRTDP/HDP cacheQ, residual, updateInternal") {
  for (int t = 0; t < c.n(500, 5000); t++) { Set s = mk(c, 0.1, false); c.cur("%s", s.m.show().c_str()); LRTDP h; h.setBounds(s.bp); ZMDPConfig *cf = mkcfg(); h.planInit(s.p, cf); if (!h.initialized) h.init(); HDP g; g.bounds = s.bp; g.problem = s.p; g.useLogBackups = false; MDPNode &n = *s.bp->getRootNode(); if (n.isTerminal) continue; for (int k = 0; k < 3; k++) { double u = n.ubVal; if (c.g.p(0.5)) h.cacheQ(n); else g.cacheQ(n); CK(n.ubVal == u, "cacheQ changed the bound"); double best = -1e300; V qs(s.m.A); for (int a = 0; a < s.m.A; a++) { best = std::max(best, qs[a] = q(s, n, a)); CK(n.Q[a].ubVal >= qs[a] - 1e-9 * (1 + std::fabs(qs[a])), "cached Q %d below its value", a); } { double m = -1e300; for (auto &e : n.Q) m = std::max(m, e.ubVal); CK(close(m, best, 1e-9), "largest cached Q %.17g, expected %.17g", m, best); } CK(close(h.residual(n), std::fabs(u - best), 1e-7) && close(g.residual(n), std::fabs(u - best), 1e-7), "residual %.17g / %.17g expected %.17g", h.residual(n), g.residual(n), std::fabs(u - best)); if (c.g.p(0.5)) h.updateInternal(n); else g.updateInternal(n); best = -1e300; CK(n.ubVal <= u + 1e-9, "updateInternal raised the bound"); } }
}
