#include "rtgen.h"
using namespace zh;
static void one(zh::Ctx &c, const RT &r, RaceTrack &t, const std::vector<int> &s, const cvector &cs, int a, std::set<std::vector<int>> *next) {
  c.cur("s=%d,%d,%d,%d a=%d %s", s[0], s[1], s[2], s[3], a, r.show().c_str()); Succ e = osucc(r, s, a), got; dvector opv; opv.resize(c.g.i(13)); for (auto &x : opv.data) x = 3; t.getOutcomeProbVector(opv, cs, a); double tot = 0; bool norm = s[0] >= 0;
  for (size_t o = 0; o < opv.size(); o++) { CK(opv(o) >= 0, "outcome %d has probability %.17g", (int)o, opv(o)); tot += opv(o); if (opv(o) > 0) { cvector ns = mkc(c.g, 4, 0.5); cvector &ref = t.getNextState(ns, cs, a, o); CK(&ref == &ns, "result reference"); got[sv(ns)] += opv(o); if (next) next->insert(sv(ns)); } }
  CK(close(tot, 1), "outcome probabilities sum to %.17g", tot); std::string d; for (auto &x : e) if (!close(x.second, got.count(x.first) ? got[x.first] : 0)) d += strf(" expected (%d,%d,%d,%d):%.17g", x.first[0], x.first[1], x.first[2], x.first[3], x.second); for (auto &x : got) if (!close(x.second, e.count(x.first) ? e[x.first] : 0)) d += strf(" got (%d,%d,%d,%d):%.17g", x.first[0], x.first[1], x.first[2], x.first[3], x.second); CK(d.empty(), "successor distribution differs:%s", d.c_str());
  double rw = s[0] == -2 ? 0 : (s[0] == -1 && r.disc == 1) ? 0 : -1; CK(t.getReward(cs, a) == rw, "reward %g expected %g", t.getReward(cs, a), rw); CK(t.getIsTerminalState(cs) == (s[0] == -2), "terminal flag"); (void)norm;
}
SECTION(moves, "RaceTrack getOutcomeProbVector/getNextState/getReward against the geometry of the map, states with arbitrary velocity") {
  for (int t = 0; t < c.n(600, 12000); t++) {
    RT r = rtrack(c.g, c.dir, t % 4 ? 9 : 16); c.cur("%s", r.show().c_str()); RaceTrack rt(r.file); CK(close(rt.getDiscount(), r.disc, 1e-12) && rt.getNumActions() == 9, "parameters");
    for (int k = 0; k < 60; k++) { int x = c.g.i(r.W()), y = c.g.i(r.H()); if (r.map[y][x] == '@' || r.map[y][x] == 'f') continue;
      int vx, vy; for (int z = 0;; z++) { vx = c.g.in(-7, 7); vy = c.g.in(-7, 7); if (x + vx >= 1 && x + vx < r.W() - 1 && y + vy >= 1 && y + vy < r.H() - 1) break; if (z > 20) { vx = vy = 0; break; } }   // one more unit of acceleration keeps the far end on the map or beyond its closed border
      if (r.wind && (x + vx < 2 || x + vx > r.W() - 3 || y + vy < 2 || y + vy > r.H() - 3)) { /* still inside after two units only if the border stops the line first, which it does */ }
      cvector cs = rst(x, y, vx, vy); one(c, r, rt, {x, y, vx, vy}, cs, c.g.i(9), 0); }
  }
}
SECTION(reach, "all states reachable from the start, every action") {
  for (int t = 0; t < c.n(60, 1500); t++) {
    RT r = rtrack(c.g, c.dir, 7); c.cur("%s", r.show().c_str()); RaceTrack rt(r.file); std::set<std::vector<int>> seen, todo; std::map<std::vector<int>, cvector> rep; std::vector<int> s0 = sv(rt.getInitialState()); CK(s0[0] == -1, "initial state"); todo.insert(s0); int n = 0;
    while (!todo.empty() && n++ < 150) { auto s = *todo.begin(); todo.erase(todo.begin()); seen.insert(s); cvector cs = s[0] == -1 ? rt.getInitialState() : s[0] == -2 ? rt.terminalState : rst(s[0], s[1], s[2], s[3]); std::set<std::vector<int>> nx; for (int a = 0; a < 9; a++) one(c, r, rt, s, cs, a, &nx); for (auto &q : nx) if (!seen.count(q)) todo.insert(q); }
  }
}
