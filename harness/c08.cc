// C08: initial bounds bracket the optimal value
#include "rtgen.h"
#include "BlindLBInitializer.h"
#include "FullObsUBInitializer.h"
#include "FastInfUBInitializer.h"
#include "RelaxUBInitializer.h"
#include "CustomMDP.h"
using namespace zh;
static double dotv(const cvector &a, const V &b) { double t = 0; for (size_t i = 0; i < b.size(); i++) t += a((int)i) * b[i]; return t; }
static RM cgen(Ctx &c, int mS = 5, int mA = 4, int mO = 3) { RM m = rmodel(c.g, mS, mA, mO); if (m.disc > 0.96) m.disc = 0.9; if (c.g.p(0.2)) terms(c.g, m, 0.5); if (c.g.p(0.15)) { double k = std::pow(10, c.g.in(-4, 3)); for (auto &r : m.R) for (double &x : r) x *= k; } if (c.g.p(0.2)) rare(c.g, m, 1e-5); return m; }
static double wmm(const RM &m) { double w = -1e300; for (int a = 0; a < m.A; a++) { double x = 1e300; for (int s = 0; s < m.S; s++) x = std::min(x, m.R[s][a]); w = std::max(w, x); } return w; }
static double mx(const RM &m) { double w = -1e300; for (auto &r : m.R) for (double x : r) w = std::max(w, x); return w; }
struct BI : public BlindLBInitializer { BI(const MDP *p, MaxPlanesLowerBound *b) : BlindLBInitializer(p, b) {} using BlindLBInitializer::initBlindWorstCase; };
// trivial bounds of explicit MDPs
SECTION(generic, "GenericDiscreteMDP newLowerBound/newUpperBound: longTermFactor * max_a min_s R, longTermFactor * max R; bracket V*; finite horizon") {
  for (int t = 0; t < c.n(400, 4000); t++) {
    c.cases++; RM m = cgen(c); bool fin = c.g.p(0.35); int h = fin ? c.g.in(1, 12) : -1;
    if (fin) { // layered model: every state moves to a higher one; the last is absorbing with zero reward, so that at most h steps have a reward
      m.S = h + 1; m.term.assign(m.S, false); m.term[m.S - 1] = true; m.R.assign(m.S, V(m.A, 0)); for (int a = 0; a < m.A; a++) { m.T[a].assign(m.S, V(m.S, 0)); for (int s = 0; s < h; s++) { V r = row(c.g, h - s, 0.5); for (int u = s + 1; u < m.S; u++) m.T[a][s][u] = r[u - s - 1]; m.R[s][a] = c.g.r(-10, 10); } m.T[a][h][h] = 1; m.Z[a].assign(m.S, row(c.g, m.O, 0.5)); }
      m.start = 0; m.b0.assign(m.S, 0); m.b0[0] = 1; if (c.g.p(0.4)) m.disc = 1; }
    c.cur("%s maxHorizon=%d", m.show().c_str(), h); ZMDPConfig *cf = mkcfg(); cf->setInt("maxHorizon", h);
    GenericDiscreteMDP *p = mkmdp(c.dir, m, cf); AbstractBound *l = p->newLowerBound(cf), *u = p->newUpperBound(cf); l->initialize(1e-3); u->initialize(1e-3);
    double f = 1 / (1 - m.disc); if (fin) { f = 0; double g = 1; for (int k = 0; k <= h; k++) { f += g; g *= m.disc; } f = std::min(f, (double)h); }
    V v = mdpv(m);
    for (int s = 0; s < m.S; s++) { cvector x; x.resize(1); x.push_back(0, s); double lo = l->getValue(x, NULL), up = u->getValue(x, NULL);
      CK(close(lo, f * wmm(m)), "lower bound %.12g, longTermFactor*max_a min_s R = %.12g", lo, f * wmm(m)); CK(close(up, f * mx(m)), "upper bound %.12g, longTermFactor*max R = %.12g", up, f * mx(m));
      CK(lo <= v[s] + 1e-7 * (1 + fabs(v[s])), "state %d: initial lower bound %.12g above V* %.12g", s, lo, v[s]); CK(up >= v[s] - 1e-7 * (1 + fabs(v[s])), "state %d: initial upper bound %.12g below V* %.12g", s, up, v[s]); }
    delete cf; delete p;
  }
}
SECTION(noBound, "an undiscounted explicit MDP without a horizon is refused") {
  for (int t = 0; t < 6; t++) { c.cases++; RM m = cgen(c); m.disc = 1; c.cur("%s", m.show().c_str()); GenericDiscreteMDP *p = mkmdp(c.dir, m); int r = child([&] { freopen("/dev/null", "w", stderr); AbstractBound *l = p->newLowerBound(cfg0()); l->initialize(1e-3); }); CK(r != 200 && r != 0, "no error for an undiscounted model without horizon (exit %d)", r); }
}
// fully observable bound: Bellman fixed point
SECTION(fullobs, "FullObsUBInitializer: valueIteration reaches the fully observable optimal value; nextAlphaAction is one Bellman backup of that action") {
  for (int t = 0; t < c.n(300, 3000); t++) {
    c.cases++; RM m = cgen(c); c.cur("%s", m.show().c_str()); Pomdp *p = mkpomdp(c.dir, m); FullObsUBInitializer f; f.valueIteration(p, 1e-10); V v = mdpv(m); double tol = 1e-10 / (1 - m.disc) + 1e-9 * (1 + rmax(m) / (1 - m.disc));
    for (int s = 0; s < m.S; s++) CK(fabs(f.alpha(s) - v[s]) <= tol, "state %d: %.14g, fully observable value %.14g", s, f.alpha(s), v[s]);
    FullObsUBInitializer q; q.pomdp = p; V a0(m.S); for (double &x : a0) x = c.g.p(0.2) ? 0 : c.g.r(-20, 20); q.alpha = todv(a0);
    for (int a = 0; a < m.A; a++) { dvector r; q.nextAlphaAction(r, a); for (int s = 0; s < m.S; s++) { double e = m.R[s][a]; for (int u = 0; u < m.S; u++) e += m.disc * m.T[a][s][u] * a0[u]; CK(close(r(s), e), "nextAlphaAction: state %d action %d: %.14g, backup %.14g", s, a, r(s), e); } }
    double res = q.valueIterationOneStep(), er = 0; for (int s = 0; s < m.S; s++) { double e = -1e300; for (int a = 0; a < m.A; a++) { double x = m.R[s][a]; for (int u = 0; u < m.S; u++) x += m.disc * m.T[a][s][u] * a0[u]; e = std::max(e, x); } CK(close(q.alpha(s), e), "valueIterationOneStep: state %d: %.14g, Bellman backup %.14g", s, q.alpha(s), e); er = std::max(er, fabs(e - a0[s])); }
    CK(close(res, er), "valueIterationOneStep: residual %.14g, largest change %.14g", res, er); delete p;
  }
}
// fast informed bound, independently
static std::vector<V> fib(const RM &m, int it) {
  V v = mdpv(m); std::vector<V> q(m.A, V(m.S)); for (int a = 0; a < m.A; a++) for (int s = 0; s < m.S; s++) { double e = m.R[s][a]; for (int u = 0; u < m.S; u++) e += m.disc * m.T[a][s][u] * v[u]; q[a][s] = e; }
  for (int k = 0; k < it; k++) { std::vector<V> n(m.A, V(m.S)); double d = 0; for (int a = 0; a < m.A; a++) for (int s = 0; s < m.S; s++) { double e = 0; for (int o = 0; o < m.O; o++) { double b = -1e300; for (int i = 0; i < m.A; i++) { double x = 0; for (int u = 0; u < m.S; u++) x += m.T[a][s][u] * m.Z[a][u][o] * q[i][u]; b = std::max(b, x); } e += b; } n[a][s] = m.R[s][a] + m.disc * e; d = std::max(d, fabs(n[a][s] - q[a][s])); } q = n; if (d < 1e-12) break; }
  return q;
}
SECTION(fib_, "FastInfUBInitializer: between the converged fast informed bound and the fully observable value; never below the best value found by finite lookahead; 0 at terminal states") {
  for (int t = 0; t < c.n(150, 2000); t++) {
    c.cases++; RM m = cgen(c); double prec = c.g.p(0.3) ? 1e-9 : pow(10, -c.g.r(0, 4)); c.cur("%s precision=%g", m.show().c_str(), prec);
    Pomdp *p = mkpomdp(c.dir, m); BoundPair *b = mkbounds(p, cfg0(), true, true, false, true, true); SawtoothUpperBound *u = (SawtoothUpperBound *)b->upperBound; u->initialize(prec); V v = mdpv(m); std::vector<V> q = fib(m, 2000);
    double tol = 1e-8 * (1 + rmax(m) / (1 - m.disc)); CK(u->pts.size() == 0, "%zu points besides the corners", u->pts.size());
    for (int s = 0; s < m.S; s++) { double e = -1e300; for (int a = 0; a < m.A; a++) e = std::max(e, q[a][s]); if (m.term[s]) e = 0; double x = u->cornerPts((int)s);
      CK(x >= e - tol, "state %d: initial upper bound %.14g below the fast informed bound %.14g", s, x, e); CK(x <= v[s] + tol, "state %d: initial upper bound %.14g above the fully observable value %.14g", s, x, v[s]);
      if (m.term[s]) CK(x == 0, "terminal state %d has initial upper bound %g", s, x); if (prec <= 1e-9) CK(x <= e + prec / (1 - m.disc) + tol, "state %d: initial upper bound %.14g, converged fast informed bound %.14g", s, x, e); }
    for (int k = 0; k < 4; k++) { V bb = rbelief(c.g, m); int h = m.A * m.O <= 4 ? 4 : m.A * m.O <= 6 ? 3 : 2; double w = vh(m, bb, h) - pow(m.disc, h) * (mx(m) > 0 || 1 ? rmax(m) : 0) / (1 - m.disc); double x = u->getValue(tocv(bb), NULL); CK(x >= w - tol, "belief %s: initial upper bound %.12g below an attainable value %.12g", zh::show(bb).c_str(), x, w); }
    // not below any achievable plane: blind policies
    delete p;
  }
}
SECTION(blind, "BlindLBInitializer: worst-case start vector; each plane is what 'always action a' (then the safest action) attains, within the precision of its own fixed point; below the fully observable value; 0 at terminal states") {
  for (int t = 0; t < c.n(300, 3000); t++) {
    c.cases++; RM m = cgen(c); double prec = c.g.p(0.3) ? 1e-9 : pow(10, -c.g.r(0, 4)); c.cur("%s precision=%g", m.show().c_str(), prec);
    Pomdp *p = mkpomdp(c.dir, m); BoundPair *b = mkbounds(p, cfg0(), true, true, false, true, true); MaxPlanesLowerBound *l = (MaxPlanesLowerBound *)b->lowerBound; BI bi(p, l); alpha_vector w; bi.initBlindWorstCase(w);
    double tol = 1e-8 * (1 + rmax(m) / (1 - m.disc)); CK((int)w.size() == m.S, "worst-case vector has size %d", (int)w.size());
    for (int s = 0; s < m.S; s++) { double e = m.term[s] ? 0 : wmm(m) / (1 - m.disc); CK(fabs(w(s) - e) <= tol, "worst-case vector, state %d: %.12g instead of %.12g", s, w(s), e); }
    l->initialize(prec); V v = mdpv(m); int n = 0; CK((int)l->planes.size() >= 1 && (int)l->planes.size() <= m.A, "%d planes for %d actions", (int)l->planes.size(), m.A);
    // value of every blind policy, and of k steps of it followed by the safest one
    V best(m.S, -1e300); std::vector<V> bl(m.A, V(m.S)); for (int a = 0; a < m.A; a++) { V x(m.S, 0); for (int k = 0; k < 5000; k++) { V y(m.S); double d = 0; for (int s = 0; s < m.S; s++) { double e = m.R[s][a]; for (int u = 0; u < m.S; u++) e += m.disc * m.T[a][s][u] * x[u]; y[s] = e; d = std::max(d, fabs(e - x[s])); } x = y; if (d < 1e-13) break; } bl[a] = x; }
    for (typeof(l->planes.begin()) pi = l->planes.begin(); pi != l->planes.end(); pi++) { n++; alpha_vector &al = (*pi)->alpha; int a = (*pi)->action; CK(a >= 0 && a < m.A, "plane action %d", a); CK((int)al.size() == m.S, "plane of size %d", (int)al.size()); if (a < 0 || a >= m.A) continue;
      for (int s = 0; s < m.S; s++) { CK(al(s) <= v[s] + tol, "plane of action %d, state %d: %.12g above the fully observable value %.12g", a, s, al(s), v[s]); CK(fabs(al(s) - bl[a][s]) <= prec / (1 - m.disc) + tol, "plane of action %d, state %d: %.12g, blind policy %.12g (precision %g)", a, s, al(s), bl[a][s], prec); if (m.term[s]) CK(fabs(al(s)) <= 1e-9, "plane of action %d: terminal state %d has value %g", a, s, al(s)); } }
    // no action's plane is lost: the bound at any belief is at least what each blind policy's plane gives, within the precision
    for (int k = 0; k < 5; k++) { V bb = rbelief(c.g, m); double x = l->getValue(tocv(bb), NULL), e = -1e300; for (int a = 0; a < m.A; a++) { double y = 0; for (int s = 0; s < m.S; s++) y += bb[s] * bl[a][s]; e = std::max(e, y); } CK(x >= e - prec / (1 - m.disc) - tol, "belief %s: initial lower bound %.12g, best blind policy %.12g", zh::show(bb).c_str(), x, e);
      SawtoothUpperBound *u = (SawtoothUpperBound *)b->upperBound; if (k == 0) u->initialize(prec); double y = u->getValue(tocv(bb), NULL); CK(x <= y + tol, "belief %s: initial lower bound %.12g above the initial upper bound %.12g", zh::show(bb).c_str(), x, y); }
    delete p;
  }
}
SECTION(blindHorizon, "BlindLBInitializer with a horizon: long-term factor min((1-d^(h+1))/(1-d), h)") {
  for (int t = 0; t < c.n(200, 2000); t++) {
    c.cases++; RM m = cgen(c); int h = c.g.in(1, 30); if (c.g.p(0.3)) m.disc = 1; c.cur("%s maxHorizon=%d", m.show().c_str(), h); ZMDPConfig *cf = mkcfg(); cf->setInt("maxHorizon", h);
    Pomdp *p = mkpomdp(c.dir, m, cf); BoundPair *b = mkbounds(p, cf, true, false, false, true, false); BI bi(p, (MaxPlanesLowerBound *)b->lowerBound); alpha_vector w; bi.initBlindWorstCase(w);
    double f = 0, g = 1; for (int k = 0; k <= h; k++) { f += g; g *= m.disc; } f = std::min(f, (double)h);
    for (int s = 0; s < m.S; s++) { double e = m.term[s] ? 0 : wmm(m) * f; CK(close(w(s), e), "worst-case vector, state %d: %.12g instead of %.12g", s, w(s), e); }
    delete cf; delete p;
  }
}
// the racetrack: cost 1 per step
static std::map<std::vector<int>, double> rtv(const RT &r) {
  std::map<std::vector<int>, std::vector<Succ>> g; std::vector<std::vector<int>> st = {{-1, 0, 0, 0}}; g[st[0]]; for (size_t i = 0; i < st.size() && st.size() < 4000; i++) { auto s = st[i]; std::vector<Succ> v; for (int a = 0; a < 9; a++) { v.push_back(osucc(r, s, a)); for (auto &k : v.back()) if (!g.count(k.first)) { g[k.first]; st.push_back(k.first); } } g[s] = v; }
  std::map<std::vector<int>, double> V0; for (auto &s : st) V0[s] = 0; double d = 1; for (int k = 0; k < 300 && d > 1e-10; k++) { d = 0; for (auto &s : st) { if (s[0] == -2 || g[s].empty()) continue; double b = -1e300; for (auto &sc : g[s]) { double q = s[0] == -1 ? 0 : -1; q = -1; for (auto &x : sc) q += r.disc * x.second * V0[x.first]; b = std::max(b, q); } d = std::max(d, fabs(b - V0[s])); V0[s] = b; } }
  return V0;
}
SECTION(racetrack, "RaceTrack: lower bound -1/(1-discount) (or -maxCost), 0 at terminal states; upper bound 0; relaxed upper bounds at every node never below V*") {
  for (int t = 0; t < c.n(25, 250); t++) {
    c.cases++; RT r = rtrack(c.g, c.dir, 6); if (r.disc >= 0.96 && !r.useMax) { } c.cur("%s", r.show().c_str()); RaceTrack *p = new RaceTrack(r.file); AbstractBound *l = p->newLowerBound(cfg0()), *u = p->newUpperBound(cfg0()); l->initialize(1e-3); u->initialize(1e-3);
    auto v = rtv(r); int k = 0; for (auto &x : v) { if (k++ > 200) break; cvector s = rst(x.first[0], x.first[1], x.first[2], x.first[3]); double lo = l->getValue(s, NULL), up = u->getValue(s, NULL); bool tm = x.first[0] == -2;
      double e = tm ? 0 : r.useMax ? -r.maxCost : -1 / (1 - r.disc); CK(close(lo, e), "state %s: lower bound %.12g instead of %.12g", MatrixUtils::sparseRep(s).c_str(), lo, e); CK(up >= x.second - 1e-7, "state %s: upper bound %.12g below V* %.12g", MatrixUtils::sparseRep(s).c_str(), up, x.second);
      if (!r.useMax) CK(lo <= x.second + 1e-7, "state %s: lower bound %.12g above V* %.12g", MatrixUtils::sparseRep(s).c_str(), lo, x.second); }
    delete p;
  }
}
SECTION(relaxed, "RelaxUBInitializer (racetrack): the upper bound it hands to new nodes is never below V*") {
  for (int t = 0; t < c.n(40, 400); t++) {
    c.cases++; RM m = cgen(c); for (auto &r : m.R) for (double &x : r) x = -fabs(x) - 0.1; for (int s = 0; s < m.S; s++) if (m.term[s]) for (double &x : m.R[s]) x = 0; c.cur("%s", m.show().c_str()); GenericDiscreteMDP *p = mkmdp(c.dir, m); RelaxUBInitializer x(p, cfg0()); x.setup(1e-3); V v = mdpv(m);
    for (int s = 0; s < m.S; s++) { cvector y; y.resize(1); y.push_back(0, s); double u = x.getValue(y, NULL); CK(u >= v[s] - 1e-7 * (1 + fabs(v[s])), "state %d: upper bound %.12g below V* %.12g", s, u, v[s]); MDPNode *n = x.getNode(y); CK(n->ubVal >= v[s] - 1e-7 * (1 + fabs(v[s])) && n->lbVal <= v[s] + 1e-7 * (1 + fabs(v[s])), "state %d: new relaxed node [%.12g,%.12g], V* %.12g", s, n->lbVal, n->ubVal, v[s]); }
    delete p;
  }
}
SECTION(custom, "CustomMDP: the example's bounds bracket V* at every state") {
  for (int t = 0; t < c.n(12, 40); t++) {
    c.cases++; int n = c.g.in(2, 25); c.cur("customMDPNumStates=%d", n); ZMDPConfig *cf = mkcfg(); cf->setInt("customMDPNumStates", n); CustomMDP *p = new CustomMDP(*cf); AbstractBound *l = p->newLowerBound(cf), *u = p->newUpperBound(cf); l->initialize(1e-3); u->initialize(1e-3);
    V v(n, 0); for (int k = 0; k < 4000; k++) for (int s = 0; s + 1 < n; s++) { double b = -1e300; for (int a = 0; a < 2; a++) { int d = a == 0 ? std::max(0, s - 1) : s + 1; double pr = a == 0 && s == 0 ? 1 : 0.9; cvector x; x.resize(1); x.push_back(0, s); double q = p->getReward(x, a) + pr * v[d] + (1 - pr) * v[s]; b = std::max(b, q); } v[s] = b; }
    for (int s = 0; s < n; s++) { cvector x; x.resize(1); x.push_back(0, s); double lo = l->getValue(x, NULL), up = u->getValue(x, NULL); CK(lo <= v[s] + 1e-7, "state %d: lower bound %g above V* %g", s, lo, v[s]); CK(up >= v[s] - 1e-7, "state %d: upper bound %g below V* %g", s, up, v[s]); }
    delete p; delete cf;
  }
}
// nodes get the initial bound
SECTION(nodes, "initNodeBound: a new node holds the initial bound of its state or belief; terminal nodes hold 0") {
  for (int t = 0; t < c.n(150, 1500); t++) {
    c.cases++; bool po = c.g.p(0.5); RM m = cgen(c); c.cur("%s %s", po ? "pomdp" : "mdp", m.show().c_str()); MDP *p = po ? (MDP *)mkpomdp(c.dir, m) : (MDP *)mkmdp(c.dir, m); BoundPair *b = mkbounds(p, cfg0(), true, true, false, po, po); b->initialize(p, cfg0()); V v = mdpv(m); double tol = 1e-7 * (1 + rmax(m) / (1 - m.disc));
    for (int k = 0; k < 5; k++) { cvector s; bool tm; double cap = 1e300; if (po) { V bb = rbelief(c.g, m); tm = isterm(m, bb); s = tocv(bb); cap = 0; for (int i = 0; i < m.S; i++) cap += bb[i] * v[i]; } else { int i = c.g.i(m.S); s.resize(1); s.push_back(0, i); tm = m.term[i]; cap = v[i]; }
      MDPNode *n = b->getNode(s); CK(n->isTerminal == tm, "terminal flag %d instead of %d", n->isTerminal, tm); if (tm) { CK(n->lbVal == 0 && n->ubVal == 0, "terminal node with bounds [%g,%g]", n->lbVal, n->ubVal); continue; }
      double lo = b->lowerBound->getValue(s, NULL), up = b->upperBound->getValue(s, NULL); CK(close(n->lbVal, lo) && close(n->ubVal, up), "node [%.12g,%.12g], bound functions [%.12g,%.12g]", n->lbVal, n->ubVal, lo, up); CK(n->lbVal <= cap + tol, "initial lower bound %.12g above the fully observable value %.12g", n->lbVal, cap); CK(n->lbVal <= n->ubVal + tol, "initial bounds cross: [%.12g,%.12g]", n->lbVal, n->ubVal); if (!po) CK(n->ubVal >= cap - tol, "initial upper bound %.12g below V* %.12g", n->ubVal, cap); }
    delete p;
  }
}
