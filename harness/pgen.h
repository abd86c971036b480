// random POMDPs / MDPs: dense tables (the oracle's view) and the library objects loaded with the same tables
#ifndef PGEN_H
#define PGEN_H
#include "slagen.h"
#include <unistd.h>
#include "zmdpConfig.h"
#include "Pomdp.h"
#include "GenericDiscreteMDP.h"
#include "BoundPair.h"
#include "PointLowerBound.h"
#include "PointUpperBound.h"
#include "MaxPlanesLowerBound.h"
#include "SawtoothUpperBound.h"
namespace zh {
using namespace zmdp;
struct RM { int S, A, O; double disc; V b0; std::vector<M> T, Z; M R; std::vector<bool> term; int start;
  std::string show() const { std::string s = strf("S=%d A=%d O=%d disc=%g b0=%s", S, A, O, disc, zh::show(b0).c_str()); for (int i = 0; i < S; i++) if (term[i]) s += strf(" term%d", i);
    for (int a = 0; a < A; a++) { s += strf(" T%d=", a); for (auto &r : T[a]) s += zh::show(r); if (Z.size()) { s += strf(" Z%d=", a); for (auto &r : Z[a]) s += zh::show(r); } } s += " R="; for (auto &r : R) s += zh::show(r); if (s.size() > 2500) s.resize(2500); return s; } };
// a row of probabilities; each positive entry at least about 0.02; multiples of 1/64 when exact (so sums are exact)
inline V row(Rng &g, int n, double dens) {
  V w(n, 0); int k = 0; for (int i = 0; i < n; i++) if (g.p(dens)) { w[i] = 1 + g.i(8); k++; } if (!k) w[g.i(n)] = 1;
  double s = 0; for (double x : w) s += x; for (double &x : w) x /= s; return w;
}
inline RM rmodel(Rng &g, int maxS = 6, int maxA = 4, int maxO = 4) {
  RM m; m.S = g.in(1, maxS); m.A = g.in(1, maxA); m.O = g.in(1, maxO); static const double ds[] = {0.95, 0.5, 0.75, 0.9, 0.99}; m.disc = ds[g.i(5)];
  m.b0 = row(g, m.S, g.p(0.3) ? 0.01 : 0.7); m.start = g.i(m.S); m.term.assign(m.S, false); if (m.S > 1) for (int s = 0; s < m.S; s++) m.term[s] = g.p(0.15);
  int rs = g.i(4); m.R = M(m.S, V(m.A, 0)); double td = g.p(0.3) ? 1 : g.p(0.4) ? 0.01 : 0.5, zd = g.p(0.3) ? 1 : g.p(0.4) ? 0.01 : 0.5;
  for (int a = 0; a < m.A; a++) { M t, z; for (int s = 0; s < m.S; s++) { if (m.term[s]) { V r(m.S, 0); r[s] = 1; t.push_back(r); } else t.push_back(row(g, m.S, td));
      z.push_back(row(g, m.O, zd)); m.R[s][a] = m.term[s] || g.p(0.2) ? 0 : rs == 0 ? -g.r(0, 10) : rs == 1 ? g.r(0, 10) : rs == 2 ? g.r(-10, 10) : g.in(-2, 2); } m.T.push_back(t); m.Z.push_back(z); }
  return m;
}
// variations: rare outcomes down to the given probability, large or strongly negative rewards, many terminal states
inline void rare(Rng &g, RM &m, double lo) { auto f = [&](M &t) { for (int s = 0; s < (int)t.size(); s++) { std::vector<int> k; for (int j = 0; j < (int)t[s].size(); j++) if (t[s][j] > 0) k.push_back(j); if (k.size() < 2 || g.p(0.4)) continue; int a = g.i(k.size()), b = (a + 1 + g.i(k.size() - 1)) % k.size(); double d = lo * std::pow(10, g.d() * std::log10(0.01 / lo)); if (d >= t[s][k[a]]) continue; t[s][k[b]] += t[s][k[a]] - d; t[s][k[a]] = d; } }; for (auto &t : m.T) f(t); for (auto &t : m.Z) f(t); }
inline void bigr(Rng &g, RM &m) { bool sh = g.p(0.5); double k = std::pow(10, g.in(1, 5)); for (int s = 0; s < m.S; s++) if (!m.term[s]) for (double &x : m.R[s]) x = sh ? x - k : x * k; }
inline void terms(Rng &g, RM &m, double p) { if (m.S > 2) for (int s = 0; s < m.S; s++) if (g.p(p)) { m.term[s] = true; for (int a = 0; a < m.A; a++) { m.T[a][s].assign(m.S, 0); m.T[a][s][s] = 1; m.R[s][a] = 0; } } }
inline void vary(Rng &g, RM &m, double lo) { if (g.p(0.25)) terms(g, m, g.p(0.5) ? 0.3 : 0.7); if (g.p(0.25)) bigr(g, m); if (g.p(0.3)) rare(g, m, lo); }
inline cmatrix tocm(const M &m, int r, int cc) { cmatrix A; A.size1_ = r; A.size2_ = cc; A.col_starts.assign(1, 0); for (int c = 0; c < cc; c++) { for (int i = 0; i < r; i++) if (m[i][c] != 0) A.data.push_back(cvector_entry(i, m[i][c])); A.col_starts.push_back(A.data.size()); } return A; }
inline M tr(const M &m, int r, int c) { M t(c, V(r, 0)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t[j][i] = m[i][j]; return t; }
inline cvector tocv(const V &v) { cvector x; x.resize(v.size()); for (size_t i = 0; i < v.size(); i++) if (v[i] != 0) x.push_back(i, v[i]); return x; }
inline dvector todv(const V &v) { dvector x; x.resize(v.size()); x.data.assign(v.begin(), v.end()); return x; }
inline ZMDPConfig *mkcfg() { ZMDPConfig *c = new ZMDPConfig(); c->readFromFile(std::string(getenv("ZH_REPO")) + "/src/main/zmdp.config"); c->setString("binaryName", "x"); return c; }
inline ZMDPConfig *cfg0() { static ZMDPConfig *c = mkcfg(); return c; }
inline void put(CassandraModel &p, const RM &m) {
  p.numStates = m.S; p.numObservations = m.O; p.numActions = m.A; p.discount = m.disc; p.R = tocm(m.R, m.S, m.A); p.T.clear(); p.Ttr.clear(); p.O.clear();
  for (int a = 0; a < m.A; a++) { p.T.push_back(tocm(m.T[a], m.S, m.S)); p.Ttr.push_back(tocm(tr(m.T[a], m.S, m.S), m.S, m.S)); p.O.push_back(tocm(m.Z[a], m.S, m.O)); }
  p.isTerminalState = m.term; p.initialBelief = tocv(m.b0); p.initialState = cvector(); p.initialState.resize(1); p.initialState.push_back(0, m.start);
}
inline std::string tiny(const std::string &dir, bool pomdp) {
  std::string f = dir + (pomdp ? "/tiny.pomdp" : "/tiny.mdp"); if (access(f.c_str(), 0) == 0) return f; std::ofstream o(f);
  o << "discount: 0.95\nvalues: reward\nstates: 2\nactions: 2\n" << (pomdp ? "observations: 2\n" : "") << (pomdp ? "start: 1.0 0.0\n" : "start: 0\n") << "T: *\nuniform\n" << (pomdp ? "O: *\nuniform\nR: * : 0 : * : * 1\n" : "R: * : 0 : * 1\n"); o.close(); return f;
}
inline Pomdp *mkpomdp(const std::string &dir, const RM &m, const ZMDPConfig *cf = 0) { Pomdp *p = new Pomdp(tiny(dir, true), cf ? cf : cfg0()); put(*p, m); p->numStateDimensions = m.S; return p; }
inline GenericDiscreteMDP *mkmdp(const std::string &dir, const RM &m, const ZMDPConfig *cf = 0) { GenericDiscreteMDP *p = new GenericDiscreteMDP(tiny(dir, false), cf ? cf : cfg0()); put(*p, m); p->numStateDimensions = 1; return p; }
inline V rbelief(Rng &g, const RM &m) { if (g.p(0.2)) { V b(m.S, 0); b[g.i(m.S)] = 1; return b; } return row(g, m.S, g.p(0.3) ? 1 : 0.5); }
// ---- oracle
inline double pobs(const RM &m, const V &b, int a, int o) { double t = 0; for (int s = 0; s < m.S; s++) if (b[s]) for (int u = 0; u < m.S; u++) t += b[s] * m.T[a][s][u] * m.Z[a][u][o]; return t; }
inline V bnext(const RM &m, const V &b, int a, int o) { V r(m.S, 0); double t = pobs(m, b, a, o); for (int u = 0; u < m.S; u++) { double q = 0; for (int s = 0; s < m.S; s++) q += b[s] * m.T[a][s][u]; r[u] = q * m.Z[a][u][o] / t; } return r; }
inline double rew(const RM &m, const V &b, int a) { double t = 0; for (int s = 0; s < m.S; s++) t += b[s] * m.R[s][a]; return t; }
// the mass is too near the threshold to tell
inline bool edgeterm(const RM &m, const V &b) { double t = 0; for (int s = 0; s < m.S; s++) if (!m.term[s]) t += b[s]; return t > 1e-11 && t < 1e-8; }
inline bool isterm(const RM &m, const V &b) { double t = 0; for (int s = 0; s < m.S; s++) if (!m.term[s]) t += b[s]; return t < 1e-10; }
// value of the best policy that acts for h steps (exact, exponential): lower/upper estimates of the infinite-horizon value follow
inline double vh(const RM &m, const V &b, int h) { if (h == 0) return 0; double best = -1e300; for (int a = 0; a < m.A; a++) { double q = rew(m, b, a); for (int o = 0; o < m.O; o++) { double p = pobs(m, b, a, o); if (p > 1e-12) q += m.disc * p * vh(m, bnext(m, b, a, o), h - 1); } best = std::max(best, q); } return best; }
inline V mdpv(const RM &m, int it = 4000) { V v(m.S, 0); for (int k = 0; k < it; k++) { V w(m.S); double d = 0; for (int s = 0; s < m.S; s++) { double b = -1e300; for (int a = 0; a < m.A; a++) { double q = 0; for (int u = 0; u < m.S; u++) q += m.T[a][s][u] * v[u]; b = std::max(b, m.R[s][a] + m.disc * q); } w[s] = b; d = std::max(d, std::fabs(b - v[s])); } v = w; if (d < 1e-12) break; } return v; }
inline double rmax(const RM &m) { double x = 0; for (auto &r : m.R) for (double v : r) x = std::max(x, std::fabs(v)); return x; }
// a bound pair wired the way constructSolverObjects wires it
inline BoundPair *mkbounds(MDP *p, const ZMDPConfig *cf, bool lo, bool up, bool sel, bool planes, bool saw) {
  BoundPair *b = new BoundPair(lo, up, sel, lo && up && !planes && !saw);
  if (lo) { if (planes) { MaxPlanesLowerBound *l = new MaxPlanesLowerBound(p, cf); l->core = b; b->lowerBound = l; } else { PointLowerBound *l = new PointLowerBound(p, cf, b); l->initBound = p->newLowerBound(cf); b->lowerBound = l; } }
  if (up) { if (saw) { SawtoothUpperBound *l = new SawtoothUpperBound(p, cf); l->core = b; b->upperBound = l; } else { PointUpperBound *l = new PointUpperBound(p, cf, b); l->initBound = p->newUpperBound(cf); b->upperBound = l; } }
  return b;
}
}
#define CK(ok, ...) do { if (!(ok)) c.fail(__VA_ARGS__); } while (0)
#endif
