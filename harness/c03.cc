#include "slagen.h"
using namespace zh;
using namespace sla;
#define CK(ok, ...) do { if (!(ok)) c.fail(__VA_ARGS__); } while (0)
static cvector near(Rng &g, const cvector &x, double eps) {   // differs from x in few places, by amounts around eps
  cvector y; y.resize(x.size_); V d = den(x); std::vector<char> st(d.size(), 0); for (auto &e : x.data) st[e.index] = 1;
  for (size_t i = 0; i < d.size(); i++) { bool keep = st[i]; double v = d[i]; if (g.p(0.25)) { keep = !keep; if (keep && g.p(0.7)) v = g.r(-2, 1) * eps; } if (g.p(0.3)) v += g.p(0.5) ? -g.r(0, 2) * eps : g.r(0, 1.5) * eps; if (g.p(0.04)) v -= 1; if (keep) y.push_back(i, v); }
  return y;
}
SECTION(domination, "dominates (sparse and dense), mask_dominates: soundness") {
  for (int t = 0; t < c.n(40000, 600000); t++) {
    int n = rsize(c.g); double eps = c.g.p(0.3) ? 0 : c.g.p(0.5) ? 1e-6 : 0.5; cvector x = mkc(c.g, n, rdens(c.g)); cvector y = c.g.p(0.8) ? near(c.g, x, eps ? eps : 0.1) : mkc(c.g, n, rdens(c.g)); if (c.g.p(0.5)) std::swap(x, y);
    mvector xm = mkc(c.g, n, rdens(c.g)), ym = c.g.p(0.5) ? near(c.g, xm, 1) : mkc(c.g, n, rdens(c.g)); for (auto &e : xm.data) e.value = 1; for (auto &e : ym.data) e.value = 1;
    c.cur("x=%s y=%s eps=%g xm=%s ym=%s", show(x).c_str(), show(y).c_str(), eps, show(xm).c_str(), show(ym).c_str());
    V dx = den(x), dy = den(y); bool truth = true; for (int i = 0; i < n; i++) truth = truth && dx[i] >= dy[i] - eps;
    CK(!dominates(x, y, eps) || truth, "dominates(sparse) reported, but a component is smaller");
    dvector u, w; u.data = dx; w.data = dy; CK(!dominates(u, w, eps) || truth, "dominates(dense) reported, but a component is smaller");
    std::set<unsigned> S; for (auto &e : xm.data) S.insert(e.index); bool sub = true; for (auto &e : ym.data) sub = sub && S.count(e.index);
    CK(!mask_subset(ym, xm) || sub, "mask_subset reported, but an index is missing");
    CK(!mask_dominates(x, y, eps, xm, ym) || (sub && truth), "mask_dominates reported wrongly");
    // a vector always dominates itself, and containment of a set in itself is never denied (pruning relies on both)
    CK(dominates(x, x, eps), "x does not dominate itself"); CK(mask_subset(xm, xm), "mask not contained in itself");
    mvector all; mask_set_all(all, n); CK(mask_subset(xm, all), "mask not contained in the full mask");
  }
}
SECTION(masked, "domination of masked planes on the components the mask requires") {
  for (int t = 0; t < c.n(20000, 300000); t++) {
    int n = rsize(c.g); double eps = c.g.p(0.5) ? 0 : 1e-6; mvector xm = mkc(c.g, n, rdens(c.g)), ym; ym.resize(n); for (auto &e : xm.data) { e.value = 1; if (c.g.p(0.7)) ym.push_back(e.index, 1); } if (c.g.p(0.2)) { ym = mkc(c.g, n, rdens(c.g)); for (auto &e : ym.data) e.value = 1; }
    // planes have entries only inside their masks
    cvector x, y; x.resize(n); y.resize(n); V base(n); for (auto &v : base) v = val(c.g); V mx = den(xm), my = den(ym);
    for (int i = 0; i < n; i++) { if (mx[i] && c.g.p(0.9)) x.push_back(i, base[i] + (c.g.p(0.1) ? c.g.r(-1, 1) : 0)); if (my[i] && c.g.p(0.9)) y.push_back(i, base[i] - (c.g.p(0.2) ? c.g.r(-.2, 1) : 0)); }
    c.cur("x=%s y=%s eps=%g xm=%s ym=%s", show(x).c_str(), show(y).c_str(), eps, show(xm).c_str(), show(ym).c_str());
    V dx = den(x), dy = den(y); bool truth = true, sub = true; for (int i = 0; i < n; i++) { if (my[i]) { truth = truth && dx[i] >= dy[i] - eps; sub = sub && mx[i]; } }
    CK(!mask_dominates(x, y, eps, xm, ym) || (truth && sub), "mask_dominates reported, but a required component is smaller or not covered");
  }
}
