#include "pgen.h"
#include <fstream>
using namespace zh;
struct PL { int a; V v; std::vector<bool> m; };
static double pval(Rng &g) { switch (g.i(6)) { case 0: return 0; case 1: return g.in(-5, 5); case 2: return g.r(-1e6, 1e6); case 3: return g.r(-1e-4, 1e-4); default: return g.r(-50, 50); } }
static double near(double a, double b) { return std::fabs(a - b) <= 6e-6 * std::fabs(b) + 1e-300; }
static ZMDPConfig *cfg(zh::Ctx &c, bool mask, bool sup, bool cache) { ZMDPConfig *f = mkcfg(); f->setBool("useMaxPlanesMasking", mask); f->setBool("useMaxPlanesSupportList", sup); f->setBool("useMaxPlanesCache", cache); return f; }
static std::string sp(const std::vector<PL> &p) { std::string s; for (auto &x : p) { s += strf(" {a=%d", x.a); for (size_t i = 0; i < x.v.size(); i++) s += x.m[i] ? strf(" %zu:%.9g", i, x.v[i]) : std::string(); s += "}"; } return s; }
static std::vector<PL> gen(Rng &g, int S, int n, bool masked) { std::vector<PL> r; for (int k = 0; k < n; k++) { PL p; p.a = g.p(0.1) ? 100 + g.i(1000) : g.i(8); p.v.assign(S, 0); p.m.assign(S, true); double d = g.d(); bool any = false; for (int i = 0; i < S; i++) { if (masked) p.m[i] = g.p(d); any = any || p.m[i]; } if (!any) p.m[g.i(S)] = true; for (int i = 0; i < S; i++) if (p.m[i]) p.v[i] = pval(g); r.push_back(p); } return r; }
static void load(MaxPlanesLowerBound &b, const std::vector<PL> &ps, int S) { for (auto &p : ps) { LBPlane *l = new LBPlane; l->action = p.a; l->numBackupsAtCreation = 0; l->alpha.resize(S); l->mask.resize(S); for (int i = 0; i < S; i++) { if (p.v[i] != 0) l->alpha.push_back(i, p.v[i]); if (p.m[i]) l->mask.push_back(i, 1); } b.addLBPlane(l); } }
static void compare(zh::Ctx &c, MaxPlanesLowerBound &b, const std::vector<PL> &ps, int S) { CK(b.planes.size() == ps.size(), "%zu planes read, %zu in the file", b.planes.size(), ps.size()); size_t k = 0; for (auto l : b.planes) { if (k >= ps.size()) break; const PL &p = ps[k]; CK(l->action == p.a, "plane %zu has action %d, written %d", k, l->action, p.a); CK((int)l->alpha.size() == S && (int)l->mask.size() == S, "plane %zu has dimension %d %d, expected %d", k, (int)l->alpha.size(), (int)l->mask.size(), S); V v(S, 0); std::vector<bool> m(S, false); int prev = -1; for (auto &e : l->alpha.data) { CK((int)e.index > prev && (int)e.index < S, "plane %zu: index %d after %d", k, e.index, prev); prev = e.index; if ((int)e.index < S) v[e.index] += e.value; } for (auto &e : l->mask.data) if ((int)e.index < S) { m[e.index] = true; CK(e.value == 1, "mask value"); } for (int i = 0; i < S; i++) { CK(m[i] == p.m[i], "plane %zu: state %d %s the mask", k, i, m[i] ? "wrongly in" : "missing from"); CK(near(v[i], p.v[i]), "plane %zu: entry %d is %.17g, written %.17g", k, i, v[i], p.v[i]); } k++; } CK(b.initialized, "not marked as initialised"); }
SECTION(policy, "MaxPlanesLowerBound::writeToFile then readFromFile; the planes answer the same queries; the file is stable under a second round trip") {
  for (int t = 0; t < c.n(1500, 20000); t++) { RM m = rmodel(c.g, c.g.p(0.1) ? 30 : 8, 2, 2); bool mask = c.g.p(0.7), sup = mask && c.g.p(0.5); ZMDPConfig *f = cfg(c, mask, sup, false); static Pomdp *p = 0; p = mkpomdp(c.dir, m, f); auto ps = gen(c.g, m.S, c.g.p(0.1) ? c.g.i(2) : c.g.in(1, 9), mask); c.cur("S=%d mask=%d%s", m.S, mask, sp(ps).c_str()); MaxPlanesLowerBound b(p, f); load(b, ps, m.S); std::string fn = c.dir + "/x.policy"; b.writeToFile(fn); MaxPlanesLowerBound r(p, f); r.readFromFile(fn); compare(c, r, ps, m.S);
    if (ps.size()) { for (int k = 0; k < 4; k++) { V be = rbelief(c.g, m); bool ok = false; double best = -1e300; for (auto &x : ps) { bool ap = true; double v = 0; for (int i = 0; i < m.S; i++) { if (be[i] > 0 && !x.m[i]) ap = false; v += be[i] * x.v[i]; } if (ap) { ok = true; best = std::max(best, v); } } if (!ok) continue; cvector cb = tocv(be); const LBPlane &bp = r.getBestLBPlaneConst(cb); double y = inner_prod(bp.alpha, cb); double sc = 1e-300; for (auto &x : ps) for (double v : x.v) sc = std::max(sc, std::fabs(v)); CK(std::fabs(y - best) < 1e-5 * sc, "value at a belief after reading is %.17g, before writing %.17g", y, best); } }
    std::string fn2 = c.dir + "/y.policy"; r.writeToFile(fn2); std::ifstream a(fn), d(fn2); std::string sa((std::istreambuf_iterator<char>(a)), {}), sd((std::istreambuf_iterator<char>(d)), {}); CK(sa == sd, "writing the planes that were read gives another file"); }
}
SECTION(alpha, "MaxPlanesLowerBound::readFromCassandraAlphaFile") {
  for (int t = 0; t < c.n(1500, 20000); t++) { RM m = rmodel(c.g, 8, 2, 2); ZMDPConfig *f = cfg(c, true, c.g.p(0.5), false); Pomdp *p = mkpomdp(c.dir, m, f); auto ps = gen(c.g, m.S, c.g.in(0, 8), false); int tail = c.g.i(4); c.cur("S=%d trailing=%d%s", m.S, tail, sp(ps).c_str()); std::string fn = c.dir + "/x.alpha"; { std::ofstream o(fn); o.precision(17); for (size_t k = 0; k < ps.size(); k++) { if (k) o << (c.g.p(0.5) ? "\n\n" : "\n"); o << ps[k].a << "\n"; for (int i = 0; i < m.S; i++) o << (i ? (c.g.p(0.9) ? " " : "\n") : "") << ps[k].v[i]; } o << (tail == 0 ? "" : tail == 1 ? "\n" : tail == 2 ? "\n\n" : " \n \t\n"); } MaxPlanesLowerBound r(p, f); r.readFromCassandraAlphaFile(fn); compare(c, r, ps, m.S); }
}
SECTION(solved, "BoundPair::writePolicy of a policy grown by backups reads back with the same value at random beliefs") {
  for (int t = 0; t < c.n(40, 600); t++) { RM m = rmodel(c.g, 5, 3, 3); ZMDPConfig *f = mkcfg(); Pomdp *p = mkpomdp(c.dir, m, f); BoundPair *bp = mkbounds(p, f, true, true, false, true, true); bp->initialize(p, f); c.cur("%s", m.show().c_str()); std::vector<MDPNode *> ns(1, bp->getRootNode()); for (int k = 0; k < 6; k++) { MDPNode *x = ns[c.g.i(ns.size())]; if (x->isTerminal) continue; bp->update(*x, 0); for (auto &q : x->Q) for (auto e : q.outcomes) if (e) ns.push_back(e->nextState); } std::string fn = c.dir + "/z.policy"; bp->writePolicy(fn, c.g.p(0.5)); MaxPlanesLowerBound &l = *(MaxPlanesLowerBound *)bp->lowerBound; MaxPlanesLowerBound r(p, f); r.readFromFile(fn); CK(r.planes.size() == l.planes.size(), "planes %zu %zu", r.planes.size(), l.planes.size()); double sc = 1 + 20 * rmax(m) / (1 - m.disc); auto i = l.planes.begin(); for (auto x : r.planes) { CK(x->action == (*i)->action, "action"); i++; } for (auto x : ns) { double a = r.getValue(x->s, NULL), b = l.getValue(x->s, NULL); CK(std::fabs(a - b) < 1e-5 * sc, "value %.17g, before writing %.17g", a, b); } }
}
