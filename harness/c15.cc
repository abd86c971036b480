// C15: rewards follow the last matching specification and are averaged correctly
#include "cassgen.h"
extern "C" {
#include "decision-tree.h"
}
using namespace zh;
SECTION(files, "random POMDP and MDP files with single, vector and matrix reward specifications, wildcards and overrides: R(s,a) is the expectation of the last matching value") {
  for (int t = 0; t < c.n(1500, 20000); t++) { c.cases++; CGen G(c.g); CF f = G.make(c.g.p(0.6), c.g.in(0, 5), c.g.in(0, 14)); c.cur("file: %s", showf(f.txt).c_str()); CassandraModel *m = cload(c.dir + (f.po ? "/m.pomdp" : "/m.mdp"), f.txt, f.po, false); M r = f.er(); double tl = rtol(f);
    std::string e = cmok(m->R, f.S, f.A); CK(e.empty(), "R: %s", e.c_str());
    for (int s = 0; s < f.S; s++) { bool tm = true; for (int a = 0; a < f.A; a++) { CK(fabs(at(m->R, s, a) - r[s][a]) <= tl, "R(state %d, action %d) = %.14g, the file says %.14g", s, a, at(m->R, s, a), r[s][a]); if (fabs(f.T[a][s][s] - 1) > 1e-10 || at(m->R, s, a) != 0) tm = false; } CK((bool)m->isTerminalState[s] == tm, "state %d: terminal flag %d, zero-reward absorbing %d", s, (int)m->isTerminalState[s], tm); }
    delete m; }
}
SECTION(tree, "dtAdd/dtGet: any sequence of specifications with wildcards in any position, against a table") {
  for (int t = 0; t < c.n(4000, 50000); t++) { c.cases++; int d[4] = {c.g.in(1, 4), c.g.in(1, 4), 0, c.g.in(1, 4)}; d[2] = d[1]; std::vector<double> w(d[0] * d[1] * d[2] * d[3], 0); std::string ops = strf("dims %d,%d,%d:", d[0], d[1], d[3]); dtInit(d[0], d[1], d[3]); int n = c.g.i(16); double pw = c.g.d();
    for (int k = 0; k < n; k++) { int v[4]; for (int i = 0; i < 4; i++) v[i] = c.g.p(pw) ? -1 : c.g.i(d[i]); double x = k + 1; ops += strf(" (%d,%d,%d,%d)=%g", v[0], v[1], v[2], v[3], x); c.cur("%s", ops.c_str()); dtAdd(v[0], v[1], v[2], v[3], x); size_t q = 0; for (int a = 0; a < d[0]; a++) for (int i = 0; i < d[1]; i++) for (int j = 0; j < d[2]; j++) for (int o = 0; o < d[3]; o++, q++) { int y[4] = {a, i, j, o}; bool m = true; for (int z = 0; z < 4; z++) if (v[z] >= 0 && v[z] != y[z]) m = false; if (m) w[q] = x; }
      q = 0; for (int a = 0; a < d[0]; a++) for (int i = 0; i < d[1]; i++) for (int j = 0; j < d[2]; j++) for (int o = 0; o < d[3]; o++, q++) { double r = dtGet(a, i, j, o); if (r != w[q]) { c.fail("reward of (%d,%d,%d,%d) is %g, the last matching specification is %g", a, i, j, o, r, w[q]); break; } } }
    dtDeallocate(); }
}
