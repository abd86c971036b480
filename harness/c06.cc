#include "pgen.h"
using namespace zh;
struct Opt { bool mask, supp, cache, extra; };
static Opt ropt(Rng &g, bool allowExtra) { Opt o; o.mask = g.p(0.7); o.supp = o.mask && g.p(0.6); o.cache = g.p(0.6); o.extra = allowExtra && o.cache && g.p(0.6); return o; }
static ZMDPConfig *ocfg(const Opt &o) { static std::map<int, ZMDPConfig *> m; int k = o.mask + 2 * o.supp + 4 * o.cache + 8 * o.extra; if (!m[k]) { ZMDPConfig *c = mkcfg(); c->setBool("useMaxPlanesMasking", o.mask); c->setBool("useMaxPlanesSupportList", o.supp); c->setBool("useMaxPlanesCache", o.cache); c->setBool("useMaxPlanesExtraPruning", o.extra); m[k] = c; } return m[k]; }
static std::string os(const Opt &o) { return strf("mask=%d supp=%d cache=%d extra=%d", o.mask, o.supp, o.cache, o.extra); }
struct Core : public BoundPairCore { void initialize(MDP *, const ZMDPConfig *) {} MDPNode *getRootNode() { return 0; } MDPNode *getNode(const state_vector &) { return 0; } void expand(MDPNode &) {} void update(MDPNode &, int *) {} int chooseAction(const state_vector &) const { return 0; } ValueInterval getValueAt(const state_vector &) const { return ValueInterval(0, 0); } ValueInterval getQValue(const state_vector &, int) const { return ValueInterval(0, 0); } };
struct PL { V a; std::vector<char> m; int act; };
static bool app(const PL &p, const V &b, bool masking) { if (!masking) return true; for (size_t i = 0; i < b.size(); i++) if (b[i] != 0 && !p.m[i]) return false; return true; }
static double dot(const V &a, const V &b) { double t = 0; for (size_t i = 0; i < a.size(); i++) t += a[i] * b[i]; return t; }
static double best(const std::vector<PL> &ps, const V &b, bool masking) { double v = -1e300; for (auto &p : ps) if (app(p, b, masking)) v = std::max(v, dot(p.a, b)); return v; }
static PL rplane(Rng &g, int n, bool full) { PL p; p.a.assign(n, 0); p.m.assign(n, 0); p.act = g.i(5); double d = g.p(0.4) ? 1 : 0.6; for (int i = 0; i < n; i++) { p.m[i] = full || g.p(d); if (p.m[i]) p.a[i] = g.p(0.3) ? 0 : g.r(-10, 10); } bool any = false; for (char x : p.m) any |= x; if (!any) { p.m[g.i(n)] = 1; } return p; }
static PL nearp(Rng &g, PL p) { for (size_t i = 0; i < p.a.size(); i++) { if (p.m[i] && g.p(0.3)) p.a[i] += g.p(0.5) ? -g.r(0, 1) : g.r(-1, 1) * 1e-11; else if (g.p(0.1)) { p.m[i] = !p.m[i]; p.a[i] = p.m[i] ? g.r(-1, 1) : 0; } } bool any = false; for (char x : p.m) any |= x; if (!any) p.m[0] = 1; p.act = g.i(5); return p; }
static LBPlane *mk(const PL &p, bool masking, int age) { cvector al, m; al.resize(p.a.size()); m.resize(p.a.size()); for (size_t i = 0; i < p.a.size(); i++) { if (p.a[i] != 0) al.push_back(i, p.a[i]); if (p.m[i] && masking) m.push_back(i, 1); } LBPlane *l = new LBPlane(al, p.act, m); l->numBackupsAtCreation = age; return l; }
static std::string sp(const std::vector<PL> &ps) { std::string s; for (auto &p : ps) { s += " {"; for (size_t i = 0; i < p.a.size(); i++) s += p.m[i] ? strf("%.17g ", p.a[i]) : "- "; s += strf("a%d}", p.act); } if (s.size() > 2500) s.resize(2500); return s; }
static std::vector<PL> rd(const MaxPlanesLowerBound &lb, int n, bool masking) { std::vector<PL> r; for (auto p : lb.planes) { PL q; q.a = den(p->alpha); q.a.resize(n); q.m.assign(n, masking ? 0 : 1); for (auto &e : p->mask.data) q.m[e.index] = 1; q.act = p->action; r.push_back(q); } return r; }
static bool lists(const MaxPlanesLowerBound &lb, int n) { if (!lb.useMaxPlanesSupportList) return true; size_t tot = 0, want = 0; for (auto p : lb.planes) { want += p->mask.data.size(); for (auto &e : p->mask.data) { auto &l = lb.supportList[e.index]; if (std::count(l.begin(), l.end(), p) != 1) return false; } } for (int i = 0; i < n; i++) tot += lb.supportList[i].size(); return tot == want; }
static RM dummy(int n) { RM m; m.S = n; m.A = 5; m.O = 1; m.disc = 0.9; m.b0.assign(n, 1.0 / n); m.term.assign(n, false); m.start = 0; m.R = M(n, V(5, 0)); for (int a = 0; a < 5; a++) { M t(n, V(n, 0)); for (int i = 0; i < n; i++) t[i][i] = 1; m.T.push_back(t); m.Z.push_back(M(n, V(1, 1))); } return m; }
static V rb(Rng &g, int n) { V b(n, 0); double d = g.p(0.3) ? 1 : 0.5; for (int i = 0; i < n; i++) if (g.p(d)) b[i] = g.r(0.01, 1); bool any = false; for (double x : b) any |= x != 0; if (!any) b[g.i(n)] = 1; double s = 0; for (double x : b) s += x; for (double &x : b) x /= s; return b; }
SECTION(query, "getBestLBPlaneConst/getBestLBPlane/getValue/chooseAction, with and without masking and support lists; addLBPlane") {
  for (int t = 0; t < c.n(4000, 80000); t++) {
    int n = c.g.in(1, 8); Opt o = ropt(c.g, true); RM m = dummy(n); static std::map<int, Pomdp *> pm; Pomdp *&p = pm[n]; if (!p) p = mkpomdp(c.dir, m); Core core; core.numBackups = 0; MaxPlanesLowerBound lb(p, ocfg(o)); lb.core = &core;
    std::vector<PL> ps(1, rplane(c.g, n, true)); int N = c.g.in(0, 7); for (int i = 0; i < N; i++) ps.push_back(c.g.p(0.3) ? nearp(c.g, ps[c.g.i(ps.size())]) : rplane(c.g, n, !o.mask)); std::random_shuffle(ps.begin(), ps.end()); if (!o.mask) for (auto &q : ps) q.m.assign(n, 1);
    if (c.g.p(0.3)) for (auto &q : ps) for (int i = 0; i < n; i++) if (q.m[i]) q.a[i] -= 30; for (auto &q : ps) lb.addLBPlane(mk(q, o.mask, c.g.i(3))); c.cur("%s planes:%s", os(o).c_str(), sp(ps).c_str()); CK(lists(lb, n), "support lists do not match the planes' masks");
    for (int k = 0; k < 5; k++) { V b = rb(c.g, n); cvector cb = tocv(b); double e = best(ps, b, o.mask); CK(close(lb.getValue(cb, NULL), e), "value at %s is %.17g, best applicable plane gives %.17g", show(b).c_str(), lb.getValue(cb, NULL), e);
      const LBPlane &q = lb.getBestLBPlaneConst(cb); PL qq; bool found = false; for (auto &x : ps) if (x.act == q.action && close(dot(x.a, b), e) && app(x, b, o.mask) && x.a == den(q.alpha)) found = true; CK(found, "plane returned for %s is not the best applicable one", show(b).c_str()); CK(lb.chooseAction(cb) == q.action, "chooseAction");
      LBPlane *cur = &lb.getBestLBPlane(cb); CK(close(inner_prod(lb.getBestLBPlaneWithCache(cb, cur, 0).alpha, cb), e), "cached query"); LBPlane *other = 0; for (auto x : lb.planes) if (mask_subset(cb, x->mask) || !o.mask) if (!other || c.g.p(0.5)) other = x; CK(close(inner_prod(lb.getBestLBPlaneWithCache(cb, other, -1).alpha, cb), e), "query starting from another plane"); }
  }
}
SECTION(prune, "prunePlanes/maybePrune/deleteAndForward without extra pruning: no value lost at any belief, repeated pruning with planes added in between") {
  for (int t = 0; t < c.n(3000, 60000); t++) {
    int n = c.g.in(1, 6); Opt o = ropt(c.g, false); RM m = dummy(n); static std::map<int, Pomdp *> pm; Pomdp *&p = pm[n]; if (!p) p = mkpomdp(c.dir, m); Core core; core.numBackups = 0; MaxPlanesLowerBound lb(p, ocfg(o)); lb.core = &core;
    std::vector<PL> hist(1, rplane(c.g, n, true)); if (!o.mask) hist[0].m.assign(n, 1); lb.addLBPlane(mk(hist[0], o.mask, 0));
    for (int round = 1; round <= 4; round++) {
      int add = c.g.in(0, 6); for (int i = 0; i < add; i++) { PL q = c.g.p(0.6) ? nearp(c.g, hist[c.g.i(hist.size())]) : rplane(c.g, n, !o.mask); if (!o.mask) q.m.assign(n, 1); hist.push_back(q); lb.addLBPlane(mk(q, o.mask, core.numBackups)); core.numBackups++; }
      std::vector<PL> before = rd(lb, n, o.mask); c.cur("round %d %s planes before:%s", round, os(o).c_str(), sp(before).c_str());
      if (c.g.p(0.8)) lb.prunePlanes(core.numBackups); else lb.maybePrune(core.numBackups); core.numBackups += c.g.i(2);
      std::vector<PL> after = rd(lb, n, o.mask); CK(lists(lb, n), "support lists do not match the planes after pruning"); CK(after.size() >= 1 && after.size() <= before.size(), "%d planes left of %d", (int)after.size(), (int)before.size());
      for (auto &q : after) { bool f = false; for (auto &x : before) f |= x.a == q.a && x.m == q.m && x.act == q.act; CK(f, "pruning changed a plane"); }
      for (auto &x : before) { bool f = false; for (auto &q : after) { bool d = true; for (int i = 0; i < n; i++) if (x.m[i]) d = d && q.m[i] && q.a[i] >= x.a[i] - 1e-9; f |= d; } CK(f, "a removed plane is not covered by a remaining one: %s", sp({x}).c_str()); }
      for (int k = 0; k < 4; k++) { V b = rb(c.g, n); cvector cb = tocv(b); double e = best(before, b, o.mask); CK(lb.getValue(cb, NULL) >= e - 1e-8, "value at %s fell from %.17g to %.17g", show(b).c_str(), e, lb.getValue(cb, NULL)); }
    }
  }
}
SECTION(backup, "getNewLBPlane/update on real POMDPs: exact alpha-vector backup, value at every belief never falls, planes never above the fully observable value") {
  for (int t = 0; t < c.n(150, 3000); t++) {
    RM m = rmodel(c.g, 5, 3, 3); if (c.g.p(0.3)) m.b0 = rb(c.g, m.S); Opt o = ropt(c.g, true); Pomdp *p = mkpomdp(c.dir, m, ocfg(o)); BoundPair bp(true, false, false, false); MaxPlanesLowerBound *lb = new MaxPlanesLowerBound(p, ocfg(o)); lb->core = &bp; bp.lowerBound = lb; c.cur("%s %s", os(o).c_str(), m.show().c_str()); bp.initialize(p, ocfg(o)); V up = mdpv(m);
    std::vector<MDPNode *> nodes(1, bp.getRootNode()); double tol = 1e-6 * (1 + rmax(m)) / (1 - m.disc);
    for (auto pl : lb->planes) for (int s = 0; s < m.S; s++) CK(pl->alpha(s) <= up[s] + tol, "initial plane above the optimal value");
    for (int h = 0; h < 30; h++) {
      MDPNode &n = *nodes[c.g.i(nodes.size())]; if (n.isFringe()) { if (nodes.size() > 40) continue; bp.expand(n); for (auto &q : n.Q) for (auto e : q.outcomes) if (e && std::find(nodes.begin(), nodes.end(), e->nextState) == nodes.end()) nodes.push_back(e->nextState); }
      V b = den(n.s); bool tinyp = false; std::vector<V> exp; V q(m.A); std::vector<V> beliefs; if (!o.extra) for (int k = 0; k < 3; k++) beliefs.push_back(rb(c.g, m.S)); beliefs.push_back(b); V bv; for (auto &x : beliefs) bv.push_back(lb->getValue(tocv(x), NULL));
      V nb, qo(m.A); for (auto x : nodes) nb.push_back(x->lbVal);
      for (int a = 0; a < m.A; a++) { V al(m.S); double v = 0; for (int ob = 0; ob < m.O; ob++) { double pr = pobs(m, b, a, ob); if (pr > 0 && pr < 1e-7) tinyp = true; auto e = n.Q[a].outcomes[ob]; V beta = den((e ? lb->getPlaneForNode(*e->nextState) : lb->getPlaneForNode(n)).alpha); if (e) v += pr * lb->getValue(e->nextState->s, NULL); for (int s = 0; s < m.S; s++) for (int u = 0; u < m.S; u++) al[s] += m.T[a][s][u] * m.Z[a][u][ob] * beta[u]; } for (int s = 0; s < m.S; s++) al[s] = m.R[s][a] + m.disc * al[s]; qo[a] = rew(m, b, a) + m.disc * v; exp.push_back(al); q[a] = dot(al, b); }
      for (double x : b) if (x > 0 && x < 1e-6) tinyp = true; double mx = *std::max_element(q.begin(), q.end()), l0 = n.lbVal; c.cur("%s backup %d at %s %s", os(o).c_str(), h, show(b).c_str(), m.show().c_str()); if (tinyp) { bp.update(n, NULL); continue; }
      LBPlane np; lb->getNewLBPlane(np, n); CK(close(inner_prod(np.alpha, n.s), mx, 1e-7), "new plane has value %.17g at its belief, expected %.17g", inner_prod(np.alpha, n.s), mx); CK(close(q[np.action], mx, 1e-7), "action %d", np.action);
      for (int s = 0; s < m.S; s++) { if (o.mask ? b[s] != 0 : true) { CK(close(np.alpha(s), exp[np.action][s], 1e-7), "entry %d of the new plane is %.17g expected %.17g", s, np.alpha(s), exp[np.action][s]); } else CK(np.alpha(s) == 0, "entry outside the mask"); if (o.mask) CK((np.mask(s) != 0) == (b[s] != 0), "mask differs from the belief's support at %d", s); }
      for (int a = 0; a < m.A; a++) CK(close(n.Q[a].lbVal, q[a], 1e-7), "Q value of action %d", a);
      double be = *std::max_element(qo.begin(), qo.end()); CK(o.extra ? mx <= be + 1e-7 * (1 + fabs(be)) : close(mx, be, 1e-7), "backup value %.17g differs from the Bellman backup %.17g", mx, be);
      if (c.g.p(0.2)) { LBPlane *x = new LBPlane(np); for (auto &e : x->alpha.data) e.value -= c.g.r(0, 3); x->numBackupsAtCreation = bp.numBackups; double was = n.lbVal; double xv = inner_prod(x->alpha, n.s), cv = lb->getValue(n.s, NULL); lb->addLBPlane(x); if (!o.cache || xv < was - 1e-8 || xv >= cv) lb->setPlaneForNode(n, x); if (o.cache) CK(n.lbVal >= was - 1.1e-10, "setting a worse plane lowered the node's bound from %.17g to %.17g", was, n.lbVal); }
      bp.update(n, NULL); if (c.g.p(0.15)) lb->prunePlanes(bp.numBackups - 1); CK(lists(*lb, m.S), "support lists do not match the planes");
      for (auto pl : lb->planes) for (auto &e : pl->alpha.data) if (!o.mask || pl->mask(e.index) != 0) CK(e.value <= up[e.index] + tol, "a plane is above the optimal value at state %u", e.index);
      CK(n.lbVal >= l0 - 1e-4 * (1 + fabs(l0)), "node bound fell from %.17g to %.17g", l0, n.lbVal); CK(lb->getValue(n.s, NULL) >= n.lbVal - 1e-8, "stored bound %.17g is above what the planes give", n.lbVal);
      for (size_t k = 0; k < beliefs.size(); k++) if (!o.extra) CK(lb->getValue(tocv(beliefs[k]), NULL) >= bv[k] - 1e-8 * (1 + fabs(bv[k])), "bound at %s fell from %.17g to %.17g", show(beliefs[k]).c_str(), bv[k], lb->getValue(tocv(beliefs[k]), NULL));
      for (size_t k = 0; k < nb.size(); k++) { CK(nodes[k]->lbVal >= nb[k] - 1e-4 * (1 + fabs(nb[k])), "another node bound fell from %.17g to %.17g", nb[k], nodes[k]->lbVal); CK(lb->getValue(nodes[k]->s, NULL) >= nodes[k]->lbVal - 1e-7, "planes give %.17g at a node whose bound is %.17g", lb->getValue(nodes[k]->s, NULL), nodes[k]->lbVal); }
    }
  }
}
