#include "pgen.h"
#include "RTDP.h"
#include "LRTDP.h"
#include "HDP.h"
#include "FRTDP.h"
#include "HSVI.h"
using namespace zh;
struct Obs : public BoundPair { std::vector<MDPNode *> seq; std::function<void(MDPNode &, int)> after; Obs(bool l, bool u, bool d) : BoundPair(l, u, !l, d) {} void update(MDPNode &n, int *a) { int b = -1; BoundPair::update(n, &b); if (a) *a = b; seq.push_back(&n); if (after) after(n, b); } };
struct Set { RM m; MDP *p; Obs *bp; bool pomdp; ZMDPConfig *cf; };
static Set mk(zh::Ctx &c, bool lo, double prec, int nb, const char *strat) {
  Set s; s.m = rmodel(c.g, 5, 3, 3); if (s.m.disc > 0.96) s.m.disc = 0.9; s.pomdp = c.g.p(0.5); s.cf = mkcfg(); s.cf->setDouble("terminateRegretBound", prec); s.cf->setInt("terminateNumBackups", nb); s.cf->setString("searchStrategy", strat); s.p = s.pomdp ? (MDP *)mkpomdp(c.dir, s.m, s.cf) : (MDP *)mkmdp(c.dir, s.m, s.cf); bool planes = s.pomdp && c.g.p(0.5), saw = s.pomdp && c.g.p(0.5); Obs *b = new Obs(lo, true, lo && !planes && !saw); BoundPair *t = mkbounds(s.p, s.cf, lo, true, !lo, planes, saw); b->lowerBound = t->lowerBound; b->upperBound = t->upperBound;
  if (lo) { if (planes) ((MaxPlanesLowerBound *)b->lowerBound)->core = b; else ((PointLowerBound *)b->lowerBound)->core = b; } if (saw) ((SawtoothUpperBound *)b->upperBound)->core = b; else ((PointUpperBound *)b->upperBound)->core = b; s.bp = b; return s; }
struct G { std::vector<MDPNode *> n; };
static G graph(Rng &g, int A) { G r; int N = g.in(1, 6); for (int i = 0; i < N; i++) { MDPNode *x = new MDPNode; x->isTerminal = g.p(0.1); x->searchData = x->boundsData = 0; x->lbVal = g.r(-50, 50); x->ubVal = x->lbVal + (g.p(0.2) ? 0 : g.r(0, 40)); x->s = tocv({(double)i}); r.n.push_back(x); } for (auto x : r.n) { x->Q.resize(A); for (auto &q : x->Q) { q.immediateReward = g.r(-10, 10); q.ubVal = g.r(-50, 50); q.lbVal = 0; V w = row(g, g.in(1, 6), 0.6); q.outcomes.resize(w.size()); for (size_t o = 0; o < w.size(); o++) { q.outcomes[o] = 0; if (w[o] > 0) { q.outcomes[o] = new MDPEdge; q.outcomes[o]->obsProb = w[o]; q.outcomes[o]->nextState = r.n[g.i(N)]; } } } } return r; }
static std::string gs(const MDPNode &n, int a) { std::string s; for (auto e : n.Q[a].outcomes) s += e ? strf(" (p=%.17g lb=%.17g ub=%.17g)", e->obsProb, e->nextState->lbVal, e->nextState->ubVal) : std::string(" -"); return s; }
static double ex(const MDPNode &s, double prec, double d, int depth) { return s.ubVal - s.lbVal - prec * std::pow(d, -depth); }
static double fprio(const MDPNode &s, double prec) { double w = s.ubVal - s.lbVal - 0.5 * prec; return w <= 0 ? -99e20 : std::log(w); }
SECTION(hsviSelect, "HSVI::getMaxExcessUncOutcome on arbitrary nodes") {
  for (int t = 0; t < c.n(20000, 300000); t++) { RM m; m.S = 1; m.A = c.g.in(1, 3); m.disc = c.g.r(0.3, 1); struct Stub : public MDP { state_vector s; const state_vector &getInitialState(void) { return s; } bool getIsTerminalState(const state_vector &) { return false; } outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &r, const state_vector &, int) { return r; } state_vector &getNextState(state_vector &r, const state_vector &, int, int) { return r; } double getReward(const state_vector &, int) { return 0; } AbstractBound *newLowerBound(const ZMDPConfig *) { return 0; } AbstractBound *newUpperBound(const ZMDPConfig *) { return 0; } } st; st.discount = m.disc; st.numActions = m.A;
    G g = graph(c.g, m.A); MDPNode &n = *g.n[c.g.i(g.n.size())]; HSVI h; h.problem = &st; h.trialTargetPrecision = c.g.p(0.2) ? 0 : c.g.r(0, 60); int depth = c.g.i(12); HSVIUpdateResult r; r.maxUBAction = c.g.i(m.A); c.cur("disc=%.17g prec=%.17g depth=%d%s", m.disc, h.trialTargetPrecision, depth, gs(n, r.maxUBAction).c_str()); h.getMaxExcessUncOutcome(n, depth, r); double best = -1e300; for (auto e : n.Q[r.maxUBAction].outcomes) if (e) best = std::max(best, e->obsProb * ex(*e->nextState, h.trialTargetPrecision, m.disc, depth + 1));
    auto &oc = n.Q[r.maxUBAction].outcomes; int o = r.maxExcessUncOutcome; CK(o >= 0 && o < (int)oc.size() && oc[o], "outcome %d has no edge", o); if (o >= 0 && o < (int)oc.size() && oc[o]) { CK(oc[o]->obsProb > 0, "outcome of zero probability"); double v = oc[o]->obsProb * ex(*oc[o]->nextState, h.trialTargetPrecision, m.disc, depth + 1); CK(close(v, best, 1e-9), "outcome %d has weighted excess %.17g, the best is %.17g", o, v, best); CK(close(r.maxExcessUnc, best, 1e-9), "reported excess %.17g, best %.17g", r.maxExcessUnc, best); } }
}
SECTION(hsvi, "HSVI: result of every trial, descent of every trial, planFixedTime, final bracket of the optimal value") {
  for (int t = 0; t < c.n(120, 2000); t++) { double prec = c.g.p(0.5) ? c.g.r(0.01, 0.5) : c.g.r(0.5, 5); int nb = c.g.p(0.3) ? c.g.in(1, 40) : -1; Set s = mk(c, true, prec, nb, "hsvi"); c.cur("prec=%.17g nb=%d pomdp=%d %s", prec, nb, s.pomdp, s.m.show().c_str()); HSVI h; h.setBounds(s.bp); h.planInit(s.p, s.cf); if (c.g.p(0.5)) h.init(); Obs &b = *s.bp; bool done = false; cvector s0 = s.p->getInitialState();
    for (int k = 0; k < 40 && !done && c.fails == 0; k++) { if (!h.initialized) { done = h.planFixedTime(s0, -1, prec); } else { MDPNode &root = *b.getRootNode(); double w = root.ubVal - root.lbVal, tp = 0.95 * w; b.seq.clear(); std::vector<std::pair<MDPNode *, MDPNode *>> want; int depth = 0; bool down = true; MDPNode *next = &root;
        b.after = [&](MDPNode &n, int a) { if (!down) return; if (&n != next) { down = false; return; } CK(ex(n, 0, 1, 0) >= -1e-6, "bounds cross"); double best = -1e300; for (auto e : n.Q[a].outcomes) if (e) best = std::max(best, e->obsProb * ex(*e->nextState, tp, s.m.disc, depth + 1)); std::vector<MDPNode *> cand; for (auto e : n.Q[a].outcomes) if (e && e->obsProb * ex(*e->nextState, tp, s.m.disc, depth + 1) >= best - 1e-9 * (1 + std::fabs(best))) cand.push_back(e->nextState); depth++; if (cand.size() != 1 || best <= 1e-9) { down = false; return; } next = cand[0]; };
        double lastd = 0; (void)lastd; done = h.planFixedTime(s0, -1, prec); b.after = nullptr; CK(b.seq.empty() || b.seq[0] == &root, "the trial does not start at the root"); if (w > 1e-9) { CK(!b.seq.empty(), "a trial with a root gap of %g made no backup", w); }
        // the updates on the way down mirror those on the way up
        for (size_t i = 0, j = b.seq.size(); i < j--; i++) CK(b.seq[i] == b.seq[j], "the backups on the way up do not revisit the descent"); if (down && b.seq.size() && depth > 0) CK(false, "the descent stopped although the designated successor had positive excess uncertainty"); else if (!down) { } }
      MDPNode &r = *b.getRootNode(); bool byWidth = r.ubVal - r.lbVal < prec, byNum = nb >= 0 && b.numBackups >= nb; CK(done == (byWidth || byNum), "done=%d with gap %.17g, precision %.17g, %d backups of %d", done, r.ubVal - r.lbVal, prec, b.numBackups, nb); }
    if (done && nb < 0) { ValueInterval v = h.getValueAt(s0); CK(v.u - v.l < prec + 1e-9, "reported success with interval [%.17g,%.17g]", v.l, v.u); if (!s.pomdp) { double x = mdpv(s.m)[s.m.start]; CK(v.l <= x + 1e-4 * (1 + std::fabs(x)) && v.u >= x - 1e-4 * (1 + std::fabs(x)), "optimal value %.17g outside the reported interval [%.17g,%.17g]", x, v.l, v.u); } } }
}
SECTION(frtdpSelect, "FRTDP::getMaxPrioOutcome, getNodeHandler on arbitrary nodes") {
  for (int t = 0; t < c.n(20000, 300000); t++) { struct Stub : public MDP { state_vector s; const state_vector &getInitialState(void) { return s; } bool getIsTerminalState(const state_vector &) { return false; } outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &r, const state_vector &, int) { return r; } state_vector &getNextState(state_vector &r, const state_vector &, int, int) { return r; } double getReward(const state_vector &, int) { return 0; } AbstractBound *newLowerBound(const ZMDPConfig *) { return 0; } AbstractBound *newUpperBound(const ZMDPConfig *) { return 0; } } st; int A = c.g.in(1, 3); st.discount = c.g.r(0.3, 1); st.numActions = A; G g = graph(c.g, A); FRTDP f; f.problem = &st; f.targetPrecision = c.g.r(0.01, 10);
    for (auto x : g.n) { f.getNodeHandler(*x); CK(close(FRTDP::getPrio(*x), fprio(*x, f.targetPrecision), 1e-9), "initial priority %.17g expected %.17g", FRTDP::getPrio(*x), fprio(*x, f.targetPrecision)); } if (c.g.p(0.5)) for (auto x : g.n) FRTDP::getPrio(*x) = c.g.p(0.2) ? -99e20 : c.g.r(-10, 10);
    MDPNode &n = *g.n[c.g.i(g.n.size())]; int a = c.g.i(A); FRTDPUpdateResult r; c.cur("disc=%.17g prec=%.17g%s", st.discount, f.targetPrecision, gs(n, a).c_str()); f.getMaxPrioOutcome(n, a, r); double best = -1e300; for (auto e : n.Q[a].outcomes) if (e) best = std::max(best, std::log(st.discount * e->obsProb) + FRTDP::getPrio(*e->nextState)); auto &oc = n.Q[a].outcomes; int o = r.maxPrioOutcome;
    if (best > -90e20) { CK(o >= 0 && o < (int)oc.size() && oc[o] && oc[o]->obsProb > 0, "outcome %d has no edge", o); if (o >= 0 && o < (int)oc.size() && oc[o]) { double v = std::log(st.discount * oc[o]->obsProb) + FRTDP::getPrio(*oc[o]->nextState); CK(close(v, best, 1e-9), "outcome %d has priority %.17g, the best is %.17g", o, v, best); CK(close(r.maxPrio, best, 1e-9), "reported priority %.17g, best %.17g", r.maxPrio, best); } } else CK(o < (int)oc.size() && (o < 0 || oc[o]), "outcome %d has no edge", o); }
}
SECTION(frtdp, "FRTDP: result of every trial, descent of every trial, priorities after every update, final bracket of the optimal value") {
  for (int t = 0; t < c.n(120, 2000); t++) { double prec = c.g.p(0.5) ? c.g.r(0.01, 0.5) : c.g.r(0.5, 5); int nb = c.g.p(0.3) ? c.g.in(1, 60) : -1; Set s = mk(c, true, prec, nb, "frtdp"); if (s.p->getIsTerminalState(s.p->getInitialState())) continue; c.cur("prec=%.17g nb=%d pomdp=%d %s", prec, nb, s.pomdp, s.m.show().c_str()); FRTDP h; h.setBounds(s.bp); h.planInit(s.p, s.cf); if (!h.initialized) h.init(); Obs &b = *s.bp; bool done = false; cvector s0 = s.p->getInitialState();
    MDPNode &root = *b.getRootNode(); if (root.ubVal - root.lbVal < 0.5 * prec + 1e-9) { done = h.planFixedTime(s0, -1, prec); CK(done, "not done with gap %g", root.ubVal - root.lbVal); continue; }
    for (int k = 0; k < 60 && !done && c.fails == 0; k++) { b.seq.clear(); bool down = true, ended = false; MDPNode *next = &root; int n0 = b.numBackups; (void)n0;
      b.after = [&](MDPNode &n, int a) { if (!down) return; if (&n != next) { down = false; if (!ended) c.fail("the descent visits a node its selection rule does not designate"); return; } double best = -1e300; for (auto e : n.Q[a].outcomes) if (e) best = std::max(best, std::log(s.m.disc * e->obsProb) + FRTDP::getPrio(*e->nextState)); std::vector<MDPNode *> cand; for (auto e : n.Q[a].outcomes) if (e && std::log(s.m.disc * e->obsProb) + FRTDP::getPrio(*e->nextState) >= best - 1e-9) cand.push_back(e->nextState); std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end()); ended = n.ubVal - n.lbVal - 0.5 * prec <= 1e-9; if (cand.size() != 1 || ended || b.seq.size() > 9) { down = false; return; } next = cand[0]; };
      done = h.planFixedTime(s0, -1, prec); b.after = nullptr; CK(!b.seq.empty() && b.seq[0] == &root, "the trial does not start at the root"); for (size_t i = 0, j = b.seq.size(); i < j--; i++) CK(b.seq[i] == b.seq[j], "the backups on the way up do not revisit the descent");
      { size_t n = b.seq.size() / 2 + 1; for (size_t i = 0; i < n && i < b.seq.size(); i++) { MDPNode &x = *b.seq[b.seq.size() - 1 - i]; bool ok = true; for (size_t j = b.seq.size() - i; j < b.seq.size() && ok; j++) if (b.seq[j] == &x) ok = false; std::set<MDPNode *> later(b.seq.end() - i - 1, b.seq.end()); int a = -1; double ub = -1e300; for (int q = 0; q < (int)x.Q.size(); q++) if (x.Q[q].ubVal > ub) ub = x.Q[q].ubVal, a = q; int ties = 0; for (auto &q : x.Q) if (q.ubVal >= ub - 1e-9 * (1 + std::fabs(ub))) ties++; if (ties != 1) ok = false; double best = -99e20; if (ok) for (auto e : x.Q[a].outcomes) if (e) { if (later.count(e->nextState)) ok = false; best = std::max(best, std::log(s.m.disc * e->obsProb) + FRTDP::getPrio(*e->nextState)); } if (!ok) continue; double want = std::min(best, fprio(x, prec)); CK(want < -1e9 ? FRTDP::getPrio(x) < -1e9 : close(FRTDP::getPrio(x), want, 1e-6), "priority %.17g of an updated node, expected %.17g", FRTDP::getPrio(x), want); } }
      { ValueInterval v = h.getValueAt(s0); CK(close(v.l, root.lbVal, 1e-9) && v.u <= root.ubVal + 1e-9 * (1 + std::fabs(root.ubVal)), "value interval [%.17g,%.17g], root bounds [%.17g,%.17g]", v.l, v.u, root.lbVal, root.ubVal); }
      bool byWidth = root.ubVal - root.lbVal < prec, byNum = nb >= 0 && b.numBackups >= nb; CK(done == (byWidth || byNum), "done=%d with gap %.17g, precision %.17g, %d backups of %d", done, root.ubVal - root.lbVal, prec, b.numBackups, nb); if (!done && root.ubVal - root.lbVal < 0.5 * prec + 1e-9) break; }
    if (done && nb < 0) { ValueInterval v = h.getValueAt(s0); CK(v.u - v.l < prec + 1e-9, "reported success with interval [%.17g,%.17g]", v.l, v.u); if (!s.pomdp) { double x = mdpv(s.m)[s.m.start]; CK(v.l <= x + 1e-4 * (1 + std::fabs(x)) && v.u >= x - 1e-4 * (1 + std::fabs(x)), "optimal value %.17g outside the reported interval [%.17g,%.17g]", x, v.l, v.u); } } }
}
SECTION(stop, "HSVI, FRTDP: the result of a trial that ends with a root gap just below or just above the precision") {
  for (int t = 0; t < c.n(200, 3000); t++) { double prec = c.g.r(0.01, 5); bool hs = c.g.p(0.5); Set s = mk(c, true, prec, -1, hs ? "hsvi" : "frtdp"); if (s.p->getIsTerminalState(s.p->getInitialState())) continue; c.cur("%s prec=%.17g pomdp=%d %s", hs ? "hsvi" : "frtdp", prec, s.pomdp, s.m.show().c_str()); RTDPCore *h = hs ? (RTDPCore *)new HSVI : (RTDPCore *)new FRTDP; h->setBounds(s.bp); h->planInit(s.p, s.cf); if (!h->initialized) h->init(); Obs &b = *s.bp; MDPNode &root = *b.getRootNode(); cvector s0 = s.p->getInitialState(); double f = 1;
    for (int k = 0; k < 4 && !c.fails; k++) { static const double F[] = {1 - 1e-3, 1 + 1e-3, 0.6, 1.01, 0.99, 1.5}; f = F[c.g.i(6)]; double w0 = root.ubVal - root.lbVal; if (!hs && w0 < 0.6 * prec) break; b.after = [&](MDPNode &n, int) { if (&n == &root) { double u = n.lbVal + prec * f; n.ubVal = hs ? u : std::min(n.ubVal, u); } }; bool done = h->planFixedTime(s0, -1, prec); b.after = nullptr; double w = root.ubVal - root.lbVal; CK(done == (w < prec), "trial result %d with gap %.17g, precision %.17g", done, w, prec); } }
}
SECTION(rtdp, "RTDP, LRTDP, HDP: planFixedTime reports success only through the backup limit or a solved root; trials follow positive-probability outcomes") {
  for (int t = 0; t < c.n(150, 2000); t++) { double prec = c.g.r(0.01, 1); int nb = c.g.p(0.6) ? c.g.in(1, 60) : -1, w = c.g.i(3); bool lo = c.g.p(0.5); static const char *nm[] = {"rtdp", "lrtdp", "hdp"}; Set s = mk(c, lo, prec, nb, nm[w]); bool tm = false; for (bool x : s.m.term) tm = tm || x; if (s.p->getIsTerminalState(s.p->getInitialState())) continue; if (w == 0 && !tm) continue; if (s.pomdp) continue; if (w < 2) { // trials must be able to end
        s.m.disc = 0.9; for (int q = 0; q < s.m.S; q++) if (!s.m.term[q]) for (int a = 0; a < s.m.A; a++) { int z = std::find(s.m.term.begin(), s.m.term.end(), true) - s.m.term.begin(); if (z < s.m.S && s.m.T[a][q][z] < 0.2) { for (double &x : s.m.T[a][q]) x *= 0.75; s.m.T[a][q][z] += 0.25; } } put(*(CassandraModel *)(s.pomdp ? (CassandraModel *)(Pomdp *)s.p : (CassandraModel *)(GenericDiscreteMDP *)s.p), s.m); if (!tm) continue; if (s.pomdp) continue; }
    c.cur("%s prec=%.17g nb=%d lo=%d pomdp=%d %s", nm[w], prec, nb, lo, s.pomdp, s.m.show().c_str()); RTDPCore *h = w == 0 ? (RTDPCore *)new RTDP : w == 1 ? (RTDPCore *)new LRTDP : (RTDPCore *)new HDP; h->setBounds(s.bp); h->planInit(s.p, s.cf); Obs &b = *s.bp; bool done = false; cvector s0 = s.p->getInitialState();
    for (int k = 0; k < 30 && !done && c.fails == 0; k++) { bool pre = k > 0 && w > 0 && (w == 1 ? LRTDP::getIsSolved(*b.getRootNode()) : HDP::getIsSolved(*b.getRootNode())); done = h->planFixedTime(s0, -1, prec); MDPNode &r = *b.getRootNode(); bool byNum = nb >= 0 && b.numBackups >= nb, solved = w == 1 ? LRTDP::getIsSolved(r) : w == 2 ? HDP::getIsSolved(r) : false; CK(!done || byNum || solved, "success reported with %d backups of %d and an unsolved root", b.numBackups, nb); CK(done || !byNum, "not done after %d backups of %d", b.numBackups, nb); CK(done || !pre, "not done although the root was already solved"); } }
}
