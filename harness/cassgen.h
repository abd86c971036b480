// random model files in Cassandra's format, with the tables the file specifies (computed here, cell by cell, last specification wins)
#ifndef CASSGEN_H
#define CASSGEN_H
#include "pgen.h"
namespace zh {
struct CF { bool po; int S, A, O; double disc; std::vector<M> T, Z; std::vector<std::vector<std::vector<V>>> R; V b0; int start; std::string txt; std::vector<std::string> sn, an, on; 
  M er() const { M r(S, V(A, 0)); for (int a = 0; a < A; a++) for (int s = 0; s < S; s++) { double e = 0; for (int u = 0; u < S; u++) for (int o = 0; o < (po ? O : 1); o++) e += T[a][s][u] * (po ? Z[a][u][o] : 1) * R[a][s][u][o]; r[s][a] = e; } return r; } };
// moves a small probability from one entry to another
inline void tiny(Rng &g, V &v) { int n = v.size(), i = g.i(n), j = g.i(n); double e = pow(10, -g.in(2, 8)) * g.r(0.2, 1); if (i != j && v[i] > 2 * e && v[j] == 0) { v[i] -= e; v[j] = e; double s = 0; for (double x : v) s += x; v[i] += 1 - s; } }
struct CGen {
  Rng &g; CF f; std::string t;
  explicit CGen(Rng &r) : g(r) {}
  std::string num(double v) { return v < 0 ? (g.p(0.15) ? strf("- %.17g", -v) : strf("%.17g", v)) : g.p(0.05) ? strf("+%.17g", v) : strf("%.17g", v); }
  std::string pr(double v) { if (v == 1 && g.p(0.3)) return "1.0"; if (v == 0 && g.p(0.3)) return "0.0"; if (v > 0 && v < 1 && g.p(0.1)) return strf("%.17e", v); return strf("%.17g", v); }
  std::string sep() { return g.p(0.7) ? " : " : g.p(0.5) ? ":" : "\t: "; }
  std::string nl() { return g.p(0.15) ? "  # a comment: T: 0 : 0 1\n" : g.p(0.1) ? " \r\n\n" : "\n"; }
  std::string sp() { return g.p(0.8) ? " " : g.p(0.5) ? "\n" : "\t  "; }
  std::string nm(int i, const std::vector<std::string> &n) { return i < 0 ? "*" : n.size() && g.p(0.6) ? n[i] : strf("%d", i); }
  int pick(int n) { return g.p(0.25) ? -1 : g.i(n); }
  void names(std::vector<std::string> &n, int k, const char *pre, const char *kw) { t += std::string(kw) + (g.p(0.5) ? ": " : " : "); if (g.p(0.5)) { t += strf("%d", k); n.clear(); } else { n.clear(); static const char *st[] = {"%s%d", "%s-%d", "%s_x%d", "a%s%d", "Q%sz%d", "ba%s%d"}; const char *fm = st[g.i(6)]; for (int i = 0; i < k; i++) { n.push_back(g.p(0.2) ? strf("%s%d%s", pre, i, std::string(g.i(30), 'k').c_str()) : strf(fm, pre, i)); t += n.back() + sp(); } } t += nl(); }
  V dist(int n) { V v = row(g, n, g.p(0.3) ? 0.01 : 0.6); if (g.p(0.2)) tiny(g, v); return v; }
  void fixrow(V &v) { }
  template <class F> void each(int x, int n, F fn) { if (x < 0) for (int i = 0; i < n; i++) fn(i); else fn(x); }
  double pval() { int k = g.i(6); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 0.5 : k == 3 ? (g.p(0.3) ? pow(10, -g.in(3, 8)) : 0.25) : g.d(); }
  // MDP rows a reset may follow: nothing but the start state set so far (a reset of any other row is the recorded C14 finding)
  bool fresh(int a, int i) { bool r = true; each(a, f.A, [&](int x) { each(i, f.S, [&](int y) { for (int z = 0; z < f.S; z++) if (z != f.start && f.T[x][y][z] != 0) r = false; }); }); return r; }
  void specT() {
    int k = g.i(7), a = pick(f.A), i = pick(f.S), j = pick(f.S);
    if (k <= 2) { double p = pval(); t += "T" + sep() + nm(a, f.an) + sep() + nm(i, f.sn) + sep() + nm(j, f.sn) + sp() + pr(p) + nl(); each(a, f.A, [&](int x) { each(i, f.S, [&](int y) { each(j, f.S, [&](int z) { f.T[x][y][z] = p; }); }); }); }
    else if (k <= 4) { int w = g.i(4); t += "T" + sep() + nm(a, f.an) + sep() + nm(i, f.sn) + sp(); V v(f.S); if (w == 0) { t += "uniform"; v.assign(f.S, 1.0 / f.S); } else if (w == 1 && (f.po || (f.start >= 0 && fresh(a, i)))) { t += "reset"; if (f.po) v = f.b0; else { v.assign(f.S, 0); v[f.start] = 1; } } else { for (double &x : v) { x = pval(); t += pr(x) + sp(); } } t += nl(); each(a, f.A, [&](int x) { each(i, f.S, [&](int y) { f.T[x][y] = v; }); }); }
    else { int w = g.i(4); t += "T" + sep() + nm(a, f.an) + sp(); M m(f.S, V(f.S, 0)); if (w == 0) { t += "uniform"; m.assign(f.S, V(f.S, 1.0 / f.S)); } else if (w == 1) { t += "identity"; for (int s = 0; s < f.S; s++) m[s][s] = 1; } else for (auto &r : m) { for (double &x : r) { x = pval(); t += pr(x) + " "; } if (g.p(0.7)) t += "\n"; } t += nl(); each(a, f.A, [&](int x) { f.T[x] = m; }); }
  }
  void specO() {
    int k = g.i(7), a = pick(f.A), j = pick(f.S), o = pick(f.O);
    if (k <= 2) { double p = pval(); t += "O" + sep() + nm(a, f.an) + sep() + nm(j, f.sn) + sep() + nm(o, f.on) + sp() + pr(p) + nl(); each(a, f.A, [&](int x) { each(j, f.S, [&](int y) { each(o, f.O, [&](int z) { f.Z[x][y][z] = p; }); }); }); }
    else if (k <= 4) { t += "O" + sep() + nm(a, f.an) + sep() + nm(j, f.sn) + sp(); V v(f.O); if (g.p(0.3)) { t += "uniform"; v.assign(f.O, 1.0 / f.O); } else for (double &x : v) { x = pval(); t += pr(x) + sp(); } t += nl(); each(a, f.A, [&](int x) { each(j, f.S, [&](int y) { f.Z[x][y] = v; }); }); }
    else { t += "O" + sep() + nm(a, f.an) + sp(); M m(f.S, V(f.O, 0)); if (g.p(0.3)) { t += "uniform"; m.assign(f.S, V(f.O, 1.0 / f.O)); } else for (auto &r : m) { for (double &x : r) { x = pval(); t += pr(x) + " "; } if (g.p(0.7)) t += "\n"; } t += nl(); each(a, f.A, [&](int x) { f.Z[x] = m; }); }
  }
  double rsc = 1; double rval() { int k = g.i(5); return k == 0 ? 0 : (k == 1 ? g.in(-9, 9) : k == 2 ? g.in(-1, 1) : g.r(-20, 20)) * (g.p(0.05) ? 1e5 : 1) * rsc; }
  void specR() {
    int a = pick(f.A), i = pick(f.S), j = pick(f.S), O = f.po ? f.O : 1, o = pick(O), k = g.i(4);
    auto set = [&](int a, int i, int j, int o, double v) { each(a, f.A, [&](int x) { each(i, f.S, [&](int y) { each(j, f.S, [&](int z) { each(o, O, [&](int w) { f.R[x][y][z][w] = v; }); }); }); }); };
    t += "R" + sep() + nm(a, f.an);
    if (f.po) {
      if (k <= 1) { double v = rval(); t += sep() + nm(i, f.sn) + sep() + nm(j, f.sn) + sep() + nm(o, f.on) + sp() + num(v); set(a, i, j, o, v); }
      else if (k == 2) { t += sep() + nm(i, f.sn) + sep() + nm(j, f.sn) + sp(); for (int w = 0; w < O; w++) { double v = rval(); t += num(v) + sp(); set(a, i, j, w, v); } }
      else { t += sep() + nm(i, f.sn) + "\n"; for (int z = 0; z < f.S; z++) { for (int w = 0; w < O; w++) { double v = rval(); t += num(v) + " "; set(a, i, z, w, v); } t += sp(); } }
    } else {
      if (k <= 1) { double v = rval(); t += sep() + nm(i, f.sn) + sep() + nm(j, f.sn) + sp() + num(v); set(a, i, j, -1, v); }
      else if (k == 2) { t += sep() + nm(i, f.sn) + sp(); for (int z = 0; z < f.S; z++) { double v = rval(); t += num(v) + sp(); set(a, i, z, -1, v); } }
      else { t += "\n"; for (int y = 0; y < f.S; y++) { for (int z = 0; z < f.S; z++) { double v = rval(); t += num(v) + " "; set(a, y, z, -1, v); } t += sp(); } }
    }
    t += nl();
  }
  // the rows that do not sum to one are specified once more
  void close(std::vector<M> &X, int n, bool obs) {
    for (int a = 0; a < f.A; a++) for (int i = 0; i < f.S; i++) { double s = 0; for (double v : X[a][i]) s += v; if (fabs(s - 1) < 1e-9) continue; V v = dist(n); std::string h = std::string(obs ? "O" : "T") + sep() + nm(a, f.an) + sep() + nm(i, f.sn);
      if (g.p(0.4)) { t += h + sp(); for (double x : v) t += pr(x) + sp(); t += nl(); } else for (int j = 0; j < n; j++) if (X[a][i][j] != v[j] || g.p(0.1)) t += h + sep() + nm(j, obs ? f.on : f.sn) + sp() + pr(v[j]) + nl(); X[a][i] = v; }
  }
  CF make(bool po, int nT, int nR) {
    rsc = g.p(0.1) ? 1e-7 : 1; f.po = po; f.S = g.p(0.05) ? g.in(7, 14) : g.in(1, 6); f.A = g.in(1, 4); f.O = g.p(0.05) ? g.in(5, 12) : g.in(1, 4); static const double ds[] = {0.95, 0.5, 0.999, 0.1, 0.75, 0.99999}; f.disc = ds[g.i(6)]; f.T.assign(f.A, M(f.S, V(f.S, 0))); f.Z.assign(f.A, M(f.S, V(f.O, 0))); f.R.assign(f.A, std::vector<std::vector<V>>(f.S, std::vector<V>(f.S, V(f.O, 0)))); f.start = -1; t = g.p(0.3) ? "# model\n\n" : "";
    int ord[5] = {0, 1, 2, 3, 4}; for (int i = 4; i > 0; i--) std::swap(ord[i], ord[g.i(i + 1)]);
    for (int q : ord) switch (q) { case 0: t += "discount: " + strf("%.17g", f.disc) + nl(); break; case 1: t += "values: reward" + nl(); break; case 2: names(f.sn, f.S, "s", "states"); break; case 3: names(f.an, f.A, "a", "actions"); break; case 4: if (po) names(f.on, f.O, "o", "observations"); }
    f.b0.assign(f.S, 0);
    if (po) { int k = g.i(6); if (k == 0) { f.b0.assign(f.S, 1.0 / f.S); } else if (k == 1) { t += "start: uniform" + nl(); f.b0.assign(f.S, 1.0 / f.S); } else if (k == 2 && f.sn.size()) { int s = g.i(f.S); t += "start: " + f.sn[s] + nl(); f.b0[s] = 1; }
      else if (k == 3 || k == 4) { bool inc = k == 3; V m(f.S, inc ? 0 : 1); t += inc ? "start include:" : "start exclude:"; int c = 0; for (int s = 0; s < f.S; s++) if (g.p(0.5) && c + 1 < f.S) { m[s] = inc ? 1 : 0; t += " " + nm(s, f.sn); c++; } if (c == 0) { if (f.S == 1) { if (inc) { t += " " + nm(0, f.sn); m[0] = 1; } else { t.resize(t.size() - 14); t += "start: uniform"; } } else { t += " " + nm(0, f.sn); m[0] = inc ? 1 : 0; } } t += nl(); double s = 0; for (double x : m) s += x; for (double &x : m) x /= s; f.b0 = m; }
      else { f.b0 = dist(f.S); t += "start:"; for (double x : f.b0) t += " " + pr(x); t += nl(); } }
    else { f.start = g.i(f.S); t += "start: " + (f.sn.size() && g.p(0.5) ? f.sn[f.start] : strf("%d", f.start)) + nl(); f.b0[f.start] = 1; }
    for (int i = 0; i < nT + nR; i++) { int k = g.i(nT + nR); if (k < nR) specR(); else if (po && g.p(0.5)) specO(); else specT(); }
    if (g.p(0.15)) { int i = g.i(f.S); for (int a = 0; a < f.A; a++) { V v(f.S, 0); v[i] = 1; if (g.p(0.5)) tiny(g, v); t += "T" + sep() + nm(a, f.an) + sep() + nm(i, f.sn) + sp(); for (double x : v) t += pr(x) + sp(); t += nl(); f.T[a][i] = v; } }
    close(f.T, f.S, false); if (po) close(f.Z, f.O, true);
    for (int i = 0; i < nR / 2; i++) specR();
    if (g.p(0.1)) { int i = g.i(f.S); t += "R" + sep() + "*" + sep() + nm(i, f.sn) + sep() + "*" + (f.po ? sep() + "* 0" : " 0") + nl(); for (auto &x : f.R) for (auto &y : x[i]) for (double &z : y) z = 0; }
    f.txt = t; return f;
  }
};
inline double rtol(const CF &f) { double m = 0; for (auto &x : f.R) for (auto &y : x) for (auto &z : y) for (double v : z) m = std::max(m, fabs(v)); return 1.1e-10 + 1e-11 * m; }
inline std::string showf(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c; } return r; }
inline CassandraModel *cload(const std::string &file, const std::string &txt, bool po, bool fast) { { std::ofstream o(file); o << txt; } ZMDPConfig *cf = mkcfg(); cf->setInt("useFastModelParser", fast); CassandraModel *m = po ? (CassandraModel *)new Pomdp(file, cf) : (CassandraModel *)new GenericDiscreteMDP(file, cf); delete cf; return m; }
// every table in compressed form: strictly increasing rows in every column, no zeros
inline std::string cmok(const cmatrix &m, int r, int c) { if ((int)m.size1_ != r || (int)m.size2_ != c) return strf("size %ux%u instead of %dx%d", m.size1_, m.size2_, r, c); if ((int)m.col_starts.size() != c + 1 || m.col_starts[0] != 0 || m.col_starts[c] != m.data.size()) return "column starts do not cover the entries"; for (int j = 0; j < c; j++) for (unsigned k = m.col_starts[j]; k < m.col_starts[j + 1]; k++) { if ((int)m.data[k].index >= r) return strf("row index %u", (unsigned)m.data[k].index); if (k > m.col_starts[j] && m.data[k].index <= m.data[k - 1].index) return strf("column %d holds row %u after row %u", j, (unsigned)m.data[k].index, (unsigned)m.data[k - 1].index); if (m.data[k].value == 0) return "a stored zero"; } return ""; }
inline double at(const cmatrix &m, int i, int j) { for (unsigned k = m.col_starts[j]; k < m.col_starts[j + 1]; k++) if ((int)m.data[k].index == i) return m.data[k].value; return 0; }
inline double cut(double v) { return fabs(v) <= 1e-10 ? 0 : v; }
}
#endif
