// C22: the fast parser and the full parser load the same model
#include "cassgen.h"
using namespace zh;
static std::string fastfile(Rng &g, CF &f) {
  f.po = g.p(0.6); f.S = g.p(0.08) ? g.in(8, 14) : g.in(1, 7); f.A = g.p(0.05) ? g.in(5, 9) : g.in(1, 4); f.O = g.p(0.08) ? g.in(5, 12) : g.in(1, 4); static const double ds[] = {0.95, 0.5, 0.999, 0.1, 0.75, 0.99999, 1.0 / 3}; f.disc = ds[g.i(7)]; double rsc = g.p(0.1) ? 1e-7 : 1; f.T.assign(f.A, M(f.S, V(f.S, 0))); f.Z.assign(f.A, M(f.S, V(f.O, 0))); f.R.assign(f.A, std::vector<std::vector<V>>(f.S, std::vector<V>(f.S, V(f.O, 0)))); f.b0 = row(g, f.S, g.p(0.3) ? 0.01 : 0.7); if (g.p(0.3)) tiny(g, f.b0); f.start = g.i(f.S);
  std::string t; auto nl = [&] { return g.p(0.1) ? "  \n" : g.p(0.1) ? "\t\r\n\n" : g.p(0.1) ? "\n# comment\n" : g.p(0.1) ? "\n \t \n" : "\n"; };
  std::vector<std::string> pre = {strf("discount: %.17g", f.disc), "values: reward", strf("states: %d", f.S), strf("actions: %d", f.A)}; if (f.po) pre.push_back(strf("observations: %d", f.O)); for (size_t i = pre.size() - 1; i > 0; i--) std::swap(pre[i], pre[g.i(i + 1)]); for (auto &x : pre) t += x + nl();
  t += "start:"; if (f.po) for (double x : f.b0) t += x == (int)x ? strf(" %d.0", (int)x) : strf(" %.17g", x); else t += strf(" %d", f.start); t += nl();
  std::vector<std::string> body; auto co = [&] { return g.p(0.7) ? " : " : ":"; };
  // overridden values first, so that the last value of every cell is the one below
  auto num = [&](double v) { if (v == (int)v && g.p(0.5)) return strf("%d", (int)v); if (g.p(0.1)) return strf("%.17e", v); return strf("%.17g", v); };
  std::vector<std::string> first;
  for (int a = 0; a < f.A; a++) { for (int s = 0; s < f.S; s++) { V r = g.p(0.2) ? V(f.S, 0) : row(g, f.S, 0.5); double q = 0; for (double x : r) q += x; if (q == 0) r[s] = 1; if (g.p(0.2)) tiny(g, r); f.T[a][s] = r;
      for (int u = 0; u < f.S; u++) { bool ov = g.p(0.06); if (r[u] != 0 || g.p(0.1) || ov) body.push_back(strf("T: %d%s%d%s%d ", a, co(), s, co(), u) + num(r[u])); if (ov) first.push_back(strf("T: %d : %d : %d %s", a, s, u, num(g.i(3) * 0.5).c_str())); }
      if (f.po) { V z = row(g, f.O, g.p(0.3) ? 0.01 : 0.6); if (g.p(0.2)) tiny(g, z); f.Z[a][s] = z; for (int o = 0; o < f.O; o++) { bool ov = g.p(0.06); if (z[o] != 0 || g.p(0.1) || ov) body.push_back(strf("O: %d%s%d%s%d ", a, co(), s, co(), o) + num(z[o])); if (ov) first.push_back(strf("O: %d : %d : %d %s", a, s, o, num(g.i(3) * 0.5).c_str())); } }
      if (g.p(0.7)) { double v = (g.p(0.3) ? g.in(-3, 3) : g.r(-30, 30)) * rsc * (g.p(0.05) ? 1e5 : 1); for (int u = 0; u < f.S; u++) for (int o = 0; o < f.O; o++) f.R[a][s][u][o] = v; auto sg = [&](double x) { return num(x); }; body.push_back(strf("R: %d%s%d : %s ", a, co(), s, f.po ? "* : *" : "*") + sg(v)); if (g.p(0.2)) first.push_back(strf("R: %d : %d : %s %s", a, s, f.po ? "* : *" : "*", sg(g.in(-5, 5)).c_str())); } } }
  for (int i = (int)body.size() - 1; i > 0; i--) std::swap(body[i], body[g.i(i + 1)]); for (int i = (int)first.size() - 1; i > 0; i--) std::swap(first[i], first[g.i(i + 1)]);
  for (auto &x : first) t += x + nl(); for (auto &x : body) t += x + nl(); if (g.p(0.2)) while (t.size() && isspace(t.back())) t.pop_back(); return t;
}
SECTION(both, "random files in the fast parser's syntax, statements in any order, overridden and zero entries: every table equal, and equal to what the file says") {
  for (int t = 0; t < c.n(800, 10000); t++) { c.cases++; CF f; std::string s = fastfile(c.g, f); c.cur("file: %s", showf(s).c_str()); std::string n = c.dir + (f.po ? "/f.pomdp" : "/f.mdp"); CassandraModel *a = cload(n, s, f.po, false), *b = cload(n, s, f.po, true);
    CK(a->numStates == b->numStates && a->numActions == b->numActions && (!f.po || a->numObservations == b->numObservations) && a->discount == b->discount && a->getNumStateDimensions() == b->getNumStateDimensions() && a->getNumActions() == b->getNumActions() && a->getDiscount() == b->getDiscount(), "full parser %d/%d/%d %g, fast parser %d/%d/%d %g", a->numStates, a->numActions, a->numObservations, a->discount, b->numStates, b->numActions, b->numObservations, b->discount);
    CK(b->numStates == f.S && b->numActions == f.A, "fast parser: %d states %d actions", b->numStates, b->numActions); if (b->numStates != f.S || b->numActions != f.A || a->numStates != f.S || a->numActions != f.A) continue; M r = f.er(); double tl = rtol(f);
    std::string e = cmok(b->R, f.S, f.A); CK(e.empty(), "fast parser R: %s", e.c_str());
    for (int x = 0; x < f.A; x++) { e = cmok(b->T[x], f.S, f.S) + cmok(b->Ttr[x], f.S, f.S) + (f.po ? cmok(b->O[x], f.S, f.O) : ""); CK(e.empty(), "fast parser, action %d: %s", x, e.c_str());
      for (int i = 0; i < f.S; i++) { for (int j = 0; j < f.S; j++) { CK(at(a->T[x], i, j) == at(b->T[x], i, j), "T(action %d, %d -> %d): full parser %.17g, fast parser %.17g", x, i, j, at(a->T[x], i, j), at(b->T[x], i, j)); CK(at(a->Ttr[x], j, i) == at(a->T[x], i, j), "full parser: transposed T(action %d, %d -> %d) %.17g, T %.17g", x, i, j, at(a->Ttr[x], j, i), at(a->T[x], i, j)); CK(at(b->Ttr[x], j, i) == at(b->T[x], i, j), "fast parser: transposed T(action %d, %d -> %d) %.17g, T %.17g", x, i, j, at(b->Ttr[x], j, i), at(b->T[x], i, j)); CK(at(b->T[x], i, j) == cut(f.T[x][i][j]), "fast parser: T(action %d, %d -> %d) %.17g, the file says %.17g", x, i, j, at(b->T[x], i, j), f.T[x][i][j]); }
        if (f.po) for (int o = 0; o < f.O; o++) { CK(at(a->O[x], i, o) == at(b->O[x], i, o), "O(action %d, %d, %d): full parser %.17g, fast parser %.17g", x, i, o, at(a->O[x], i, o), at(b->O[x], i, o)); CK(at(b->O[x], i, o) == cut(f.Z[x][i][o]), "fast parser: O(action %d, %d, %d) %.17g, the file says %.17g", x, i, o, at(b->O[x], i, o), f.Z[x][i][o]); }
        CK(fabs(at(a->R, i, x) - at(b->R, i, x)) <= tl, "R(%d, action %d): full parser %.14g, fast parser %.14g", i, x, at(a->R, i, x), at(b->R, i, x)); CK(fabs(at(b->R, i, x) - r[i][x]) <= tl, "fast parser: R(%d, action %d) %.14g, the file says %.14g", i, x, at(b->R, i, x), r[i][x]); } }
    for (int i = 0; i < f.S; i++) { CK(a->isTerminalState[i] == b->isTerminalState[i], "state %d: terminal %d for the full parser, %d for the fast one", i, (int)a->isTerminalState[i], (int)b->isTerminalState[i]); if (f.po) { CK((double)a->initialBelief(i) == (double)b->initialBelief(i), "initial belief of %d: full parser %.17g, fast parser %.17g", i, (double)a->initialBelief(i), (double)b->initialBelief(i)); CK((double)b->initialBelief(i) == cut(f.b0[i]), "fast parser: initial belief of %d is %.17g, the file says %.17g", i, (double)b->initialBelief(i), f.b0[i]); } }
    if (!f.po) CK(a->initialState(0) == b->initialState(0) && (int)b->initialState(0) == f.start, "initial state: full parser %g, fast parser %g, file %d", (double)a->initialState(0), (double)b->initialState(0), f.start); else CK(a->initialBelief.size() == b->initialBelief.size() && a->initialBelief.data.size() == b->initialBelief.data.size(), "initial belief: %d and %d entries", (int)a->initialBelief.data.size(), (int)b->initialBelief.data.size());
    delete a; delete b; }
}
SECTION(missing, "the fast parser refuses a file without one of the preamble statements, an unknown statement, or a row that does not sum to one") {
  for (int t = 0; t < c.n(25, 150); t++) { c.cases++; CF f; std::string s = fastfile(c.g, f); int k = c.g.i(3); static const char *kw[] = {"discount:", "values:", "states:", "actions:", "start:", "observations:"};
    if (k == 0) { const char *w = kw[c.g.i(f.po ? 6 : 5)]; size_t p = s.find(w); s.erase(p, s.find('\n', p) - p); } else if (k == 1) s += "\nQ: 0 : 0 1\n"; else { int a = c.g.i(f.A), i = c.g.i(f.S), j = c.g.i(f.S); s += strf("\nT: %d : %d : %d %.17g\n", a, i, j, f.T[a][i][j] > 0.5 ? f.T[a][i][j] - 0.3 : f.T[a][i][j] + 0.3); }
    c.cur("file: %s", showf(s).c_str()); int r = child([&] { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); cload(c.dir + "/bad", s, f.po, true); }); CK(r != 200 && r != 0, "accepted (exit %d)", r); }
}
