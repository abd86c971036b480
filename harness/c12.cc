#include "pgen.h"
using namespace zh;
// every draw of the code under test goes through rand(): the harness decides its value
static bool own = false; static long nextv = 0; static Rng *rg = 0;
extern "C" int rand(void) noexcept { return own ? (int)nextv : (int)(rg ? rg->u() >> 33 : 0); }
extern "C" void srand(unsigned) noexcept {}
static V dist(Rng &g, int n) { V w(n, 0); double s = 0; int k = 0; for (int i = 0; i < n; i++) if (g.p(0.5)) { w[i] = g.p(0.1) ? 1e-9 : g.p(0.1) ? 1e-12 : g.p(0.5) ? 1 + g.i(8) : g.r(0.01, 1); k++; } if (!k) w[g.i(n)] = 1; for (double x : w) s += x; for (double &x : w) x /= s; return w; }
static long draw(Rng &g, const V &p) { double M = RAND_MAX; switch (g.i(4)) { case 0: return 0; case 1: return RAND_MAX; case 2: { double c = 0; int k = g.i(p.size()); for (int i = 0; i <= k; i++) c += p[i]; double x = c * M + g.in(-1, 1); return (long)std::max(0.0, std::min(M, x)); } default: return (long)(g.u() >> 33); } }
static std::string why(const V &p, double r, int o, double eps) {   // "" if o is a legitimate outcome for the draw r
  if (o < 0 || o >= (int)p.size()) return strf("index %d out of range", o); if (!(p[o] > 0)) return strf("outcome %d has probability %g", o, p[o]);
  double c = 0; for (int i = 0; i < o; i++) c += p[i]; int last = -1; for (size_t i = 0; i < p.size(); i++) if (p[i] > eps) last = i;
  if (r < c - 1e-9) return strf("draw %.17g below the interval (%.17g,%.17g] of outcome %d", r, c, c + p[o], o); if (r > c + p[o] + 1e-9 && o != last) return strf("draw %.17g above the interval (%.17g,%.17g] of outcome %d", r, c, c + p[o], o); return ""; }
SECTION(choose, "chooseFromDistribution(dvector), chooseFromDistribution(cvector)") {
  own = true;
  for (int t = 0; t < c.n(60000, 2000000); t++) { V p = dist(c.g, c.g.in(1, 8)); nextv = draw(c.g, p); double r = (double)nextv / RAND_MAX; c.cur("p=%s draw=%ld r=%.17g", zh::show(p).c_str(), nextv, r);
    std::string w = why(p, r, MatrixUtils::chooseFromDistribution(todv(p)), 0); CK(w.empty(), "dense: %s", w.c_str()); cvector cv = tocv(p); w = why(p, r, MatrixUtils::chooseFromDistribution(cv), 0); CK(w.empty(), "sparse: %s", w.c_str());
    if (c.g.p(0.3)) { cvector z; z.resize(p.size()); for (size_t i = 0; i < p.size(); i++) if (p[i] != 0 || c.g.p(0.5)) z.push_back(i, p[i]); w = why(p, r, MatrixUtils::chooseFromDistribution(z), 0); CK(w.empty(), "sparse with stored zeros: %s", w.c_str()); }
    // round-off: the probabilities sum to slightly less than one and the draw is the largest possible
    V q = p; for (double &x : q) x *= 1 - 5e-11; nextv = RAND_MAX; w = why(q, 1, MatrixUtils::chooseFromDistribution(todv(q)), 0); CK(w.empty(), "dense, round-off: %s", w.c_str()); cvector cq = tocv(q); w = why(q, 1, MatrixUtils::chooseFromDistribution(cq), 0); CK(w.empty(), "sparse, round-off: %s", w.c_str()); }
}
SECTION(simulated, "BoundPairCore::getSimulatedOutcome") {
  own = true;
  for (int t = 0; t < c.n(40000, 1000000); t++) { V p = dist(c.g, c.g.in(1, 8)); for (double &x : p) if (x <= 1e-10) x = 0; if (c.g.p(0.2)) for (double &x : p) x *= 1 - 1e-9; nextv = draw(c.g, p); double r = (double)nextv / RAND_MAX;
    MDPNode n; n.isTerminal = false; n.Q.resize(2); MDPNode s; int a = c.g.i(2); for (int k = 0; k < 2; k++) { V w = k == a ? p : dist(c.g, 3); n.Q[k].outcomes.resize(w.size()); for (size_t o = 0; o < w.size(); o++) { n.Q[k].outcomes[o] = 0; if (w[o] > 1e-10) { n.Q[k].outcomes[o] = new MDPEdge; n.Q[k].outcomes[o]->obsProb = w[o]; n.Q[k].outcomes[o]->nextState = &s; } } }
    bool any = false; for (double x : p) any = any || x > 1e-10; if (!any) continue; c.cur("p=%s a=%d draw=%ld r=%.17g", zh::show(p).c_str(), a, nextv, r); std::string w = why(p, r, BoundPairCore::getSimulatedOutcome(n, a), 1e-10); CK(w.empty(), "%s", w.c_str());
    for (auto &q : n.Q) for (auto e : q.outcomes) delete e; }
}
SECTION(frequency, "chooseFromDistribution and getSimulatedOutcome: frequencies over a uniform stream of draws equal the distribution") {
  own = true;
  for (int t = 0; t < c.n(40, 400); t++) { V p = dist(c.g, c.g.in(1, 6)); c.cur("p=%s", zh::show(p).c_str()); const int N = 20000; V f(p.size(), 0), h(p.size(), 0); cvector cv = tocv(p); dvector dv = todv(p);
    for (int k = 0; k < N; k++) { nextv = (long)((k + 0.5) / N * RAND_MAX); int i = MatrixUtils::chooseFromDistribution(dv), j = MatrixUtils::chooseFromDistribution(cv); f[i] += 1.0 / N; h[j] += 1.0 / N; }
    for (size_t i = 0; i < p.size(); i++) { CK(std::fabs(f[i] - p[i]) < 3e-4, "dense outcome %zu: frequency %g, probability %g", i, f[i], p[i]); CK(std::fabs(h[i] - p[i]) < 3e-4, "sparse outcome %zu: frequency %g, probability %g", i, h[i], p[i]); } }
}
