#include "pgen.h"
#include "zmdpCommonTime.h"
using namespace zh;
static bool own = false; static int ownv = 0; static Rng *rg = 0;
extern "C" int rand(void) noexcept { return own ? ownv : (int)(rg->u() >> 33); }
typedef long long ll; static timeval tv(ll us) { timeval t; t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; return t; } static ll us(const timeval &t) { return (ll)t.tv_sec * 1000000 + t.tv_usec; }
SECTION(times, "operator+, operator-, operator<, timevalToSeconds on normalised times") {
  for (int t = 0; t < c.n(200000, 4000000); t++) { auto pick = [&]() { ll s = c.g.p(0.3) ? c.g.i(3) : (ll)c.g.i(2000000000), u = c.g.p(0.2) ? 0 : c.g.p(0.2) ? 999999 : c.g.p(0.2) ? 500000 : c.g.i(1000000); return s * 1000000 + u; }; ll a = pick(), b = pick(); if (c.g.p(0.1)) b = (a / 1000000) * 1000000 + (1000000 - a % 1000000) % 1000000;
    c.cur("a=%lldus b=%lldus", a, b); timeval s = tv(a) + tv(b); CK(us(s) == a + b, "a+b = %lld.%06lld, exact sum %lld us", (ll)s.tv_sec, (ll)s.tv_usec, a + b); CK(s.tv_usec >= 0 && s.tv_usec < 1000000, "a+b has %lld microseconds", (ll)s.tv_usec);
    if (a < b && c.g.p(0.8)) std::swap(a, b); timeval d = tv(a) - tv(b); CK(us(d) == a - b, "a-b = %lld s %lld us, exact %lld us", (ll)d.tv_sec, (ll)d.tv_usec, a - b); CK(d.tv_usec >= 0 && d.tv_usec < 1000000, "a-b has %lld microseconds", (ll)d.tv_usec);
    CK((tv(a) < tv(b)) == (a < b), "a<b"); CK(!(tv(a) < tv(a)), "a<a"); CK(std::fabs(timevalToSeconds(tv(a)) - a * 1e-6) < 1e-6 * (1 + a * 1e-15), "seconds of %lld us: %.17g", a, timevalToSeconds(tv(a))); }
}
SECTION(toTimeval, "secondsToTimeval") {
  for (int t = 0; t < c.n(50000, 1000000); t++) { double d = c.g.p(0.2) ? c.g.i(100) : c.g.r(0, c.g.p(0.5) ? 10 : 1e6); c.cur("%.17g s", d); timeval x = secondsToTimeval(d); CK(std::fabs((double)x.tv_sec + x.tv_usec * 1e-6 - d) < 2e-6 && x.tv_usec >= 0 && x.tv_usec < 1000000, "gives %ld s %ld us", (long)x.tv_sec, (long)x.tv_usec); }
}
SECTION(meanstdev, "calc_avg_stdev_collection") {
  for (int t = 0; t < c.n(20000, 300000); t++) { int n = c.g.in(1, 40); std::vector<double> v(n); double off = c.g.p(0.5) ? 0 : c.g.r(-50, 50); for (double &x : v) x = off + c.g.r(-10, 10); c.cur("%s", zh::show(v).c_str()); double m = 0, s = 0, av = -7, sd = -7; for (double x : v) m += x; m /= n; for (double x : v) s += (x - m) * (x - m); MatrixUtils::calc_avg_stdev_collection(v.begin(), v.end(), av, sd);
    CK(close(av, m, 1e-9), "mean %.17g expected %.17g", av, m); if (n > 1) CK(std::fabs(sd - std::sqrt(s / (n - 1))) < 1e-5, "standard deviation %.17g expected %.17g", sd, std::sqrt(s / (n - 1))); }
}
SECTION(quantile, "getQuantile: weighted average between the two order statistics around p*n-1/2") {
  for (int t = 0; t < c.n(40000, 400000); t++) { int n = c.g.in(2, 60); V v(n); for (double &x : v) x = c.g.p(0.1) ? 0 : c.g.r(-10, 10); std::sort(v.begin(), v.end()); double p = c.g.p(0.3) ? (c.g.in(0, n - 2) + 0.5) / n : c.g.r(0.5 / n, (n - 0.5) / n); double x = p * n - 0.5; int i = (int)std::floor(x); if (i < 0 || i + 1 >= n) continue; c.cur("n=%d p=%.17g %s", n, p, zh::show(v).c_str());
    double q = MatrixUtils::getQuantile(todv(v), p), e = v[i] + (x - i) * (v[i + 1] - v[i]); CK(close(q, e, 1e-9), "quantile %.17g expected %.17g", q, e); double p2 = c.g.r(p, (n - 0.5) / n); if (std::floor(p2 * n - 0.5) + 1 < n) CK(q <= MatrixUtils::getQuantile(todv(v), p2) + 1e-12, "quantile at %g above the one at %g", p, p2); }
}
SECTION(bootstrap, "calc_bootstrap_mean_quantile") {
  rg = &c.g;
  for (int t = 0; t < c.n(60, 600); t++) { int n = c.g.in(1, 40); V v(n); double off = c.g.p(0.3) ? 0 : c.g.r(-20, 20), sc = c.g.p(0.1) ? 0 : c.g.r(0.1, 10); for (double &x : v) x = off + sc * (c.g.d() - 0.5); own = c.g.p(0.15); ownv = c.g.p(0.5) ? RAND_MAX : 0; double al = c.g.p(0.5) ? 0.05 : c.g.r(0.02, 0.6); c.cur("alpha=%.17g rand=%s %s", al, own ? (ownv ? "RAND_MAX" : "0") : "uniform", zh::show(v).c_str());
    double m = -7e9, q1 = -7e9, q2 = -7e9; MatrixUtils::calc_bootstrap_mean_quantile(todv(v), al, m, q1, q2); double e = 0, s2 = 0, lo = 1e300, hi = -1e300; for (double x : v) { e += x; lo = std::min(lo, x); hi = std::max(hi, x); } e /= n; for (double x : v) s2 += (x - e) * (x - e); double sd = std::sqrt(s2 / n / n);
    CK(close(m, e, 1e-9), "mean %.17g expected %.17g", m, e); CK(q1 <= q2, "lower quantile %.17g above upper %.17g", q1, q2); CK(q1 >= lo - 1e-9 && q2 <= hi + 1e-9, "quantiles [%g,%g] outside the sample's range [%g,%g]", q1, q2, lo, hi);
    if (own) { double x = v[ownv ? n - 1 : 0]; CK(close(q1, x, 1e-9) && close(q2, x, 1e-9), "with rand()=%d every resample is the constant %g, got [%g,%g]", ownv, x, q1, q2); }
    else if (n >= 20 && al < 0.5) { double z = al < 0.04 ? 2.2 : al < 0.06 ? 1.96 : al < 0.3 ? 1.3 : 0.8; (void)z; CK(q1 <= e + 1e-9 && q2 >= e - 1e-9 && q2 - q1 < 8 * sd + 1e-9 && q2 - q1 > 0.3 * sd - 1e-9, "interval [%g,%g] around mean %g, standard error %g", q1, q2, e, sd); } }
}
