#include "pgen.h"
using namespace zh;
static ZMDPConfig *ocfg(bool supp) { static ZMDPConfig *m[2]; if (!m[supp]) { m[supp] = mkcfg(); m[supp]->setBool("useSawtoothSupportList", supp); } return m[supp]; }
struct Core : public BoundPairCore { void initialize(MDP *, const ZMDPConfig *) {} MDPNode *getRootNode() { return 0; } MDPNode *getNode(const state_vector &) { return 0; } void expand(MDPNode &) {} void update(MDPNode &, int *) {} int chooseAction(const state_vector &) const { return 0; } ValueInterval getValueAt(const state_vector &) const { return ValueInterval(0, 0); } ValueInterval getQValue(const state_vector &, int) const { return ValueInterval(0, 0); } };
struct PT { V b; double v; };
static double dot(const V &a, const V &b) { double t = 0; for (size_t i = 0; i < a.size(); i++) t += a[i] * b[i]; return t; }
static int first(const V &b) { for (size_t i = 0; i < b.size(); i++) if (b[i] != 0) return i; return -1; }
static double cut(const V &cp, const PT &c, const V &b) { double r = 1e300; for (size_t i = 0; i < b.size(); i++) if (c.b[i] != 0) r = std::min(r, b[i] / c.b[i]); r = std::min(r, 1.0); double d = c.v - dot(cp, c.b); return d >= 0 ? 1e300 : dot(cp, b) + r * d; }
static bool applies(const PT &c, const V &b, bool supp) { for (size_t i = 0; i < b.size(); i++) if (c.b[i] != 0 && b[i] == 0) return false; return !supp || c.b[first(b)] != 0; }
static double saw(const V &cp, const std::vector<PT> &ps, const V &b, bool supp) { double v = dot(cp, b); for (auto &p : ps) if (applies(p, b, supp)) v = std::min(v, cut(cp, p, b)); return v; }
static V rb(Rng &g, int n, bool corner = true) { V b(n, 0); double d = g.p(0.3) ? 1 : 0.5; for (int i = 0; i < n; i++) if (g.p(d)) b[i] = g.p(0.1) ? std::pow(10, -g.r(2, 5)) : g.r(0.01, 1); if (!corner || g.p(0.8)) { if (n > 1) while (std::count_if(b.begin(), b.end(), [](double x) { return x != 0; }) < 2) b[g.i(n)] = g.r(0.1, 1); } if (first(b) < 0) b[g.i(n)] = 1; double s = 0; for (double x : b) s += x; for (double &x : b) x /= s; return b; }
static std::vector<PT> rd(const SawtoothUpperBound &u) { std::vector<PT> r; for (auto p : u.pts) r.push_back({den(p->b), p->v}); return r; }
static std::string sp(const V &cp, const std::vector<PT> &ps) { std::string s = "corners " + show(cp); for (auto &p : ps) s += strf(" (%s=>%.17g)", show(p.b).c_str(), p.v); if (s.size() > 3000) s.resize(3000); return s; }
static bool lists(const SawtoothUpperBound &u, int n) { if (!u.useSawtoothSupportList) return true; size_t tot = 0, want = 0; for (auto p : u.pts) { want += p->b.data.size(); for (auto &e : p->b.data) { auto &l = u.supportList[e.index]; if (std::count(l.begin(), l.end(), p) != 1) return false; } } for (int i = 0; i < n; i++) tot += u.supportList[i].size(); return want == tot; }
static RM dummy(int n) { RM m; m.S = n; m.A = 1; m.O = 1; m.disc = 0.9; m.b0.assign(n, 1.0 / n); m.term.assign(n, false); m.start = 0; m.R = M(n, V(1, 0)); M t(n, V(n, 0)); for (int i = 0; i < n; i++) t[i][i] = 1; m.T.push_back(t); m.Z.push_back(M(n, V(1, 1))); return m; }
SECTION(points, "getBVValue, getValue, addPoint, whichCornerPoint, prune on arbitrary point sets") {
  for (int t = 0; t < c.n(4000, 80000); t++) {
    int n = c.g.in(1, 7); bool supp = c.g.p(0.5); RM m = dummy(n); static std::map<int, Pomdp *> pm; Pomdp *&p = pm[n]; if (!p) p = mkpomdp(c.dir, m); Core core; core.numBackups = 0; SawtoothUpperBound u(p, ocfg(supp)); u.core = &core; V cp(n); for (auto &x : cp) x = c.g.p(0.2) ? 0 : c.g.r(-10, 10); u.cornerPts = todv(cp); std::vector<PT> ps;
    for (int step = 0; step < 12; step++) {
      V b = rb(c.g, n); double v = saw(cp, ps, b, c.g.p(0.5)) - (c.g.p(0.3) ? 0 : c.g.p(0.5) ? c.g.r(0, 3) : c.g.r(-1, 1) * 1e-10); if (c.g.p(0.1)) v += c.g.r(0, 1); if (ps.size() && c.g.p(0.3)) { PT q = ps[c.g.i(ps.size())]; b = q.b; v = q.v - c.g.r(-0.2, 1); }
      int k = 0, wc = -1; for (int i = 0; i < n; i++) if (fabs(b[i]) > 1e-6) { k++; wc = i; } if (k > 1) wc = -1;
      std::vector<V> q; V old; for (int j = 0; j < 4; j++) { q.push_back(j ? rb(c.g, n) : b); old.push_back(u.getValue(tocv(q[j]), NULL)); }
      c.cur("supp=%d %s add %s=>%.17g", supp, sp(cp, ps).c_str(), show(b).c_str(), v); CK(u.whichCornerPoint(tocv(b)) == wc, "whichCornerPoint %d expected %d", u.whichCornerPoint(tocv(b)), wc);
      if (c.g.p(0.5)) u.addPoint(tocv(b), v); else { BVPair *bv = new BVPair(tocv(b), v); bv->numBackupsAtCreation = core.numBackups; u.addPoint(bv); } if (wc < 0) u.pts.back()->numBackupsAtCreation = core.numBackups; core.numBackups++;
      if (wc >= 0) cp[wc] = std::min(cp[wc], v); else ps.push_back({b, v}); CK(eq(den(u.cornerPts), cp), "corner values %s expected %s", show(u.cornerPts).c_str(), show(cp).c_str()); CK(lists(u, n), "support lists do not match the points");
      for (int j = 0; j < 4; j++) { double e = saw(cp, ps, q[j], supp), g = u.getValue(tocv(q[j]), NULL); CK(close(g, e, 1e-8), "value at %s is %.17g expected %.17g", show(q[j]).c_str(), g, e); CK(g <= dot(cp, q[j]) + 1e-9 * (1 + fabs(g)), "above the corner interpolation"); CK(g <= old[j] + 1e-9 * (1 + fabs(g)), "adding a point raised the bound at %s from %.17g to %.17g", show(q[j]).c_str(), old[j], g); }
      if (c.g.p(0.25)) { std::vector<PT> before = ps; if (c.g.p(0.7)) u.prune(core.numBackups - (c.g.p(0.5) ? 0 : 1)); else u.maybePrune(core.numBackups); ps = rd(u); CK(lists(u, n), "support lists do not match the points after pruning"); for (auto &x : ps) { bool f = false; for (auto &y : before) f |= eq(x.b, y.b, 1e-14) && x.v == y.v; CK(f, "pruning changed a point"); }
        q.push_back(b); for (auto &x : before) q.push_back(x.b); for (auto &x : q) { double e = saw(cp, before, x, supp), g = u.getValue(tocv(x), NULL); CK(g <= e + 1e-8 * (1 + fabs(e)) && g >= e - 1e-8 * (1 + fabs(e)), "pruning changed the bound at %s from %.17g to %.17g", show(x).c_str(), e, g); } }
    }
  }
}
SECTION(cuts, "getBVValue alone, including stored zero entries and points that do not apply") {
  for (int t = 0; t < c.n(60000, 1000000); t++) {
    int n = c.g.in(1, 8); V cp(n); for (auto &x : cp) x = c.g.r(-5, 5); V b = rb(c.g, n), cb = rb(c.g, n); if (c.g.p(0.5)) for (int i = 0; i < n; i++) if (b[i] == 0) cb[i] = 0; if (first(cb) < 0) cb[first(b)] = 1; double s = 0; for (double x : cb) s += x; for (double &x : cb) x /= s;
    PT pt = {cb, dot(cp, cb) - c.g.r(-0.3, 3)}; cvector x = tocv(cb); if (c.g.p(0.3)) { x = cvector(); x.resize(n); for (int i = 0; i < n; i++) if (cb[i] != 0 || c.g.p(0.5)) x.push_back(i, cb[i]); } BVPair bv(x, pt.v);
    c.cur("corners=%s b=%s c=%s v=%.17g", show(cp).c_str(), show(b).c_str(), show(x).c_str(), pt.v); double g = SawtoothUpperBound::getBVValue(tocv(b), &bv, dot(cp, b), dot(cp, cb)); bool a = applies(pt, b, false) && pt.v < dot(cp, cb); double e = a ? cut(cp, pt, b) : 99e20; CK(close(g, e, 1e-9), "getBVValue %.17g expected %.17g", g, e);
  }
}
SECTION(backup, "SawtoothUpperBound::update on real POMDPs: exact Bellman value, bound at every belief never rises, never below the best k-step value") {
  for (int t = 0; t < c.n(120, 2500); t++) {
    RM m = rmodel(c.g, 5, 3, 3); if (c.g.p(0.4)) { m.b0.assign(m.S, 0); double d = std::pow(10, -c.g.r(1, 3.5)); int i = c.g.i(m.S), j = c.g.i(m.S); m.b0[i] = 1 - d; m.b0[j] += d; } bool supp = c.g.p(0.5); Pomdp *p = mkpomdp(c.dir, m, ocfg(supp)); BoundPair bp(false, true, true, false); SawtoothUpperBound *u = new SawtoothUpperBound(p, ocfg(supp)); u->core = &bp; bp.upperBound = u; c.cur("supp=%d %s", supp, m.show().c_str()); bp.initialize(p, ocfg(supp)); double R = rmax(m) / (1 - m.disc), tol = 1e-6 * (1 + R);
    std::vector<MDPNode *> nodes(1, bp.getRootNode());
    for (int h = 0; h < 30; h++) {
      MDPNode &n = *nodes[c.g.i(nodes.size())]; if (n.isFringe()) { if (nodes.size() > 40) continue; bp.expand(n); for (auto &q : n.Q) for (auto e : q.outcomes) if (e && std::find(nodes.begin(), nodes.end(), e->nextState) == nodes.end()) nodes.push_back(e->nextState); }
      V b = den(n.s); V q(m.A); for (int a = 0; a < m.A; a++) { double v = 0; for (int o = 0; o < m.O; o++) { auto e = n.Q[a].outcomes[o]; if (e) v += pobs(m, b, a, o) * u->getValue(e->nextState->s, NULL); } q[a] = rew(m, b, a) + m.disc * v; } double mx = *std::max_element(q.begin(), q.end()); std::vector<V> bs(1, b); for (int k = 0; k < 4; k++) bs.push_back(rb(c.g, m.S)); V old; for (auto &x : bs) old.push_back(u->getValue(tocv(x), NULL)); int act = -7; double oldu = u->getValue(n.s, NULL), nub = n.ubVal;
      c.cur("supp=%d backup %d at %s %s", supp, h, show(b).c_str(), m.show().c_str()); bp.update(n, &act); CK(act >= 0 && act < m.A && close(q[act], mx, 1e-6), "reported action %d", act); double nv = u->getValue(n.s, NULL); CK(close(nv, std::min(oldu, mx), 1e-5), "bound after the backup is %.17g, expected min(%.17g, %.17g)", nv, oldu, mx);
      CK(n.ubVal <= nub + 1e-9 * (1 + fabs(nub)), "the node's bound rose from %.17g to %.17g", nub, n.ubVal); CK(lists(*u, m.S), "support lists do not match the points"); for (size_t k = 0; k < bs.size(); k++) CK(u->getValue(tocv(bs[k]), NULL) <= old[k] + tol * 1e-2, "backup raised the bound at %s from %.17g to %.17g", show(bs[k]).c_str(), old[k], u->getValue(tocv(bs[k]), NULL));
    }
    for (int k = 0; k < 3; k++) { V b = k ? rb(c.g, m.S) : m.b0; int H = 4; double low = vh(m, b, H) - pow(m.disc, H) * R; CK(u->getValue(tocv(b), NULL) >= low - tol, "upper bound %.17g at %s is below %.17g, which a policy achieves", u->getValue(tocv(b), NULL), show(b).c_str(), low); }
  }
}
