// C14: transition and observation tables hold the last value specified
#include "cassgen.h"
#include "sparse-matrix.h"
using namespace zh;
static void cmp(Ctx &c, const CF &f, CassandraModel *m) {
  CK(m->numStates == f.S && m->numActions == f.A && (!f.po || m->numObservations == f.O), "dimensions %d states %d actions %d observations instead of %d %d %d", m->numStates, m->numActions, m->numObservations, f.S, f.A, f.O);
  CK(m->discount == f.disc, "discount %.17g instead of %.17g", m->discount, f.disc); if (m->numStates != f.S || m->numActions != f.A) return;
  for (int a = 0; a < f.A; a++) { std::string e = cmok(m->T[a], f.S, f.S); CK(e.empty(), "T[%d]: %s", a, e.c_str()); e = cmok(m->Ttr[a], f.S, f.S); CK(e.empty(), "Ttr[%d]: %s", a, e.c_str()); if (f.po) { e = cmok(m->O[a], f.S, f.O); CK(e.empty(), "O[%d]: %s", a, e.c_str()); }
    for (int i = 0; i < f.S; i++) for (int j = 0; j < f.S; j++) { double w = cut(f.T[a][i][j]); CK(fabs(at(m->T[a], i, j) - w) <= 1e-15, "T(action %d, %d -> %d) = %.17g, the file says %.17g", a, i, j, at(m->T[a], i, j), w); CK(at(m->Ttr[a], j, i) == at(m->T[a], i, j), "transposed T(action %d, %d -> %d) = %.17g, not %.17g", a, i, j, at(m->Ttr[a], j, i), at(m->T[a], i, j)); }
    if (f.po) for (int i = 0; i < f.S; i++) for (int o = 0; o < f.O; o++) { double w = cut(f.Z[a][i][o]); CK(fabs(at(m->O[a], i, o) - w) <= 1e-15, "O(action %d, state %d, observation %d) = %.17g, the file says %.17g", a, i, o, at(m->O[a], i, o), w); } }
  if (f.po) for (int s = 0; s < f.S; s++) CK(fabs(m->initialBelief(s) - cut(f.b0[s])) <= 1e-15, "initial belief of state %d is %.17g, the file says %.17g", s, (double)m->initialBelief(s), f.b0[s]); else CK((int)m->initialState(0) == f.start, "initial state %d instead of %d", (int)m->initialState(0), f.start);
}
SECTION(files, "random POMDP and MDP files: single, row, matrix, uniform, identity and reset specifications, names, wildcards, overrides, all forms of start") {
  for (int t = 0; t < c.n(1500, 20000); t++) { c.cases++; CGen G(c.g); CF f = G.make(c.g.p(0.6), c.g.in(0, 14), c.g.i(4)); c.cur("file: %s", showf(f.txt).c_str()); CassandraModel *m = cload(c.dir + (f.po ? "/m.pomdp" : "/m.mdp"), f.txt, f.po, false); cmp(c, f, m); delete m; }
}
SECTION(mdpreset, "an MDP transition row that is set and then reset leads to the start state only") {
  std::string txt = "discount: 0.9\nvalues: reward\nstates: 2\nactions: 1\nstart: 0\nT: 0\nuniform\nT: 0 : 1\nreset\nR: 0 : * : * 1\n"; c.cur("file: %s", showf(txt).c_str()); c.cases++; double v[4] = {9, 9, 9, 9}; int r = child([&] { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); CassandraModel *m = cload(c.dir + "/reset.mdp", txt, false, false); exit(at(m->T[0], 0, 0) == 0.5 && at(m->T[0], 0, 1) == 0.5 && at(m->T[0], 1, 0) == 1 && at(m->T[0], 1, 1) == 0 ? 7 : 8); }); (void)v; CK(r == 7, "the row of state 1 is not just the start state, or the model is refused (code %d)", r);
}
SECTION(badrows, "a model with a transition or observation row that does not sum to one is refused") {
  for (int t = 0; t < c.n(25, 120); t++) { c.cases++; CGen G(c.g); CF f = G.make(c.g.p(0.6), c.g.in(0, 5), 0); int a = c.g.i(f.A), i = c.g.i(f.S); bool ob = f.po && c.g.p(0.5); int n = ob ? f.O : f.S; V v = ob ? f.Z[a][i] : f.T[a][i]; int j = c.g.i(n); v[j] = v[j] > 0.5 ? v[j] - 0.3 : v[j] + 0.3; f.txt += strf("\n%s: %d : %d : %d %.17g\n", ob ? "O" : "T", a, i, j, v[j]); c.cur("file: %s", showf(f.txt).c_str());
    int r = child([&] { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); cload(c.dir + "/bad", f.txt, f.po, false); }); CK(r != 200 && r != 0, "accepted (exit %d)", r); }
}
// the row lists and the compressed matrix, against a map
SECTION(sparse, "addEntryToIMatrix/accumulateEntryInIMatrix/transformIMatrix/getEntryMatrix/sumRowValues: any sequence of entries") {
  for (int t = 0; t < c.n(3000, 40000); t++) { c.cases++; int R = c.g.in(1, 5), C = c.g.in(1, 7), n = c.g.i(30); std::map<std::pair<int, int>, double> w; std::string ops; I_Matrix m = newIMatrix(R);
    for (int k = 0; k < n; k++) { int r = c.g.i(R), q = c.g.i(C); double v = c.g.p(0.3) ? 0 : c.g.p(0.1) ? 1e-11 : c.g.in(-3, 3) * 0.5; bool ac = c.g.p(0.25); ops += strf("%s(%d,%d,%g) ", ac ? "acc" : "set", r, q, v); c.cur("rows=%d %s", R, ops.c_str()); bool z = fabs(v) < 1e-10; if (ac) { accumulateEntryInIMatrix(m, r, q, v); if (!z) { if (w.count({r, q})) w[{r, q}] += v; else w[{r, q}] = v; } } else { addEntryToIMatrix(m, r, q, v); if (z) w.erase({r, q}); else w[{r, q}] = v; }
      for (int i = 0; i < R; i++) { int len = 0, last = -1; for (I_Matrix_Row_Node x = m->row[i]; x; x = x->next) { CK(x->column > last, "row %d holds column %d after column %d", i, x->column, last); last = x->column; len++; CK(w.count({i, x->column}) && fabs(w[{i, x->column}] - x->value) < 1e-12, "cell (%d,%d) holds %g", i, x->column, x->value); } int e = 0; for (auto &y : w) e += y.first.first == i; CK(len == e && m->row_length[i] == e, "row %d has %d entries, recorded length %d, expected %d", i, len, m->row_length[i], e); } }
    Matrix s = transformIMatrix(m); CK(s->num_non_zero == (int)w.size() && s->num_rows == R, "compressed: %d entries in %d rows", s->num_non_zero, s->num_rows); for (int i = 0; i < R; i++) { double e = 0; for (int q = 0; q < C; q++) { double x = w.count({i, q}) ? w[{i, q}] : 0; e += x; CK(fabs(getEntryMatrix(s, i, q) - x) < 1e-12, "compressed (%d,%d) = %g instead of %g", i, q, getEntryMatrix(s, i, q), x); } CK(fabs(sumRowValues(s, i) - e) < 1e-9 && fabs(sumIMatrixRowValues(m, i) - e) < 1e-9, "row %d sums to %g and %g instead of %g", i, sumRowValues(s, i), sumIMatrixRowValues(m, i), e); for (int k = s->row_start[i] + 1; k < s->row_start[i] + s->row_length[i]; k++) CK(s->col[k] > s->col[k - 1], "compressed row %d: column %d after %d", i, s->col[k], s->col[k - 1]); }
    destroyMatrix(s); destroyIMatrix(m); }
}
