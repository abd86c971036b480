// random racetracks, written to a file and read back by the library; independent view of the map
#ifndef RTGEN_H
#define RTGEN_H
#include "pgen.h"
#include "RaceTrack.h"
namespace zh {
struct RT { std::vector<std::string> map; double disc, err; bool wind, useMax; double maxCost; std::string file; int W() const { return map[0].size(); } int H() const { return map.size(); }
  std::string show() const { std::string s = strf("disc=%g err=%g wind=%d useMax=%d maxCost=%g map=", disc, err, wind, useMax, maxCost); for (auto &r : map) s += r + "/"; return s; } };
inline RT rtrack(Rng &g, const std::string &dir, int mx = 9) {
  RT r; int w = g.in(4, mx), h = g.in(3, mx); double d = g.p(0.3) ? 0 : g.r(0, 0.35); r.map.assign(h, std::string(w, '@')); int st = 0, fi = 0;
  for (int y = 1; y + 1 < h; y++) for (int x = 1; x + 1 < w; x++) { r.map[y][x] = g.p(d) ? '@' : g.p(0.08) ? 'f' : g.p(0.08) ? 's' : ' '; if (r.map[y][x] == ' ') r.map[y][x] = g.p(0.5) ? ' ' : '.'; }
  for (auto &s : r.map) for (char ch : s) { st += ch == 's'; fi += ch == 'f'; } if (!st) { r.map[g.in(1, h - 2)][1] = 's'; } fi = 0; for (auto &s : r.map) for (char ch : s) fi += ch == 'f'; if (!fi) r.map[g.in(1, h - 2)][w - 2] = 'f'; st = 0; for (auto &s : r.map) for (char ch : s) st += ch == 's'; if (!st) { if (w > 3) r.map[1][1] = 's'; }
  r.disc = g.p(0.2) ? 1 : g.p(0.2) ? 1 - std::pow(10, -g.r(2, 5)) : g.r(0.5, 0.99); r.err = g.p(0.3) ? 0 : g.r(0, 0.5); r.wind = g.p(0.4); r.useMax = g.p(0.3); r.maxCost = g.r(10, 500); static int k = 0; r.file = dir + strf("/t%d.racetrack", k++ % 8);
  std::ofstream o(r.file); o.precision(17); if (g.p(0.5)) o << "# comment line\n"; o << "discount " << r.disc << "\nerrorProbability " << r.err << "\nuseMaxCost " << (r.useMax ? 1 : 0) << "\nmaxCost " << r.maxCost << "\nuseErrorIsWind " << (r.wind ? 1 : 0) << "\n---\n"; for (auto &s : r.map) { if (g.p(0.05)) o << "# " << s << "\n"; o << s << "\n"; } o.close(); return r;
}
enum { LN, LF, LC };
// the line between the centres of (x,y) and (x+dx,y+dy): first non-open cell whose interior it passes through, exact rational arithmetic
inline int oline(const RT &r, int x, int y, int dx, int dy) {
  struct Hit { long num, den; int k; }; std::vector<Hit> hs; auto kind = [&](int a, int b) { if (a < 0 || b < 0 || a >= r.W() || b >= r.H()) return LC; char ch = r.map[b][a]; return ch == 'f' ? LF : ch == '@' ? LC : LN; };
  for (int cy = std::min(y, y + dy); cy <= std::max(y, y + dy); cy++) for (int cx = std::min(x, x + dx); cx <= std::max(x, x + dx); cx++) {
    int k = kind(cx, cy); if (k == LN) continue;
    // parameters t in (lo,hi) with both coordinates inside the open cell; all numbers over the denominator D = 2*|dx|*|dy| (or the non-zero one)
    long D = 2L * (dx ? std::abs(dx) : 1) * (dy ? std::abs(dy) : 1), lo = 0, hi = D; bool in = true;
    auto clip = [&](long d, long c) { if (d == 0) { if (c != 0) in = false; return; } long f = D / (2 * std::abs(d)); long a = (2 * (d > 0 ? c : -c) - 1) * f, b = (2 * (d > 0 ? c : -c) + 1) * f; lo = std::max(lo, a); hi = std::min(hi, b); };
    clip(dx, cx - x); clip(dy, cy - y); if (dx == 0 && dy == 0) in = cx == x && cy == y; if (in && (lo < hi)) hs.push_back({lo, D, k});
  }
  int k = LN; long best = 1L << 60; for (auto &h : hs) if (h.num < best) { best = h.num; k = h.k; } return k;
}
inline cvector rst(int x, int y, int vx, int vy) { dvector t(4); t(0) = x; t(1) = y; t(2) = vx; t(3) = vy; cvector s; copy(s, t); return s; }
typedef std::map<std::vector<int>, double> Succ;   // successor -> probability, {-1} initial, {-2} terminal
inline Succ osucc(const RT &r, const std::vector<int> &s, int a) {
  Succ m; if (s[0] == -1) { std::vector<std::vector<int>> st; for (int y = 0; y < r.H(); y++) for (int x = 0; x < r.W(); x++) if (r.map[y][x] == 's') st.push_back({x, y, 0, 0}); for (auto &q : st) m[q] += 1.0 / st.size(); return m; }
  if (s[0] == -2) { m[{-2, 0, 0, 0}] = 1; return m; }
  auto go = [&](int ax, int ay, double p) { if (p <= 0) return; int k = oline(r, s[0], s[1], s[2] + ax, s[3] + ay); if (k == LF) m[{-2, 0, 0, 0}] += p; else if (k == LC) m[{-1, 0, 0, 0}] += p; else m[{s[0] + s[2] + ax, s[1] + s[3] + ay, s[2] + ax, s[3] + ay}] += p; };
  int ax = a / 3 - 1, ay = a % 3 - 1; go(ax, ay, 1 - r.err); if (r.wind) { for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) if (i || j) go(ax + i, ay + j, r.err / 8); } else go(0, 0, r.err); return m;
}
inline std::vector<int> sv(const cvector &s) { return {(int)s(0), (int)s(1), (int)s(2), (int)s(3)}; }
}
#endif
