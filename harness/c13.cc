#include "pgen.h"
#include "rtgen.h"
#include "MDPSim.h"
#include "PolicyEvaluator.h"
#include "BoundPairExec.h"
using namespace zh;
// the simulated model: hands every query to the real one and writes down the steps the simulator takes
struct Step { cvector s; int a, o; };
struct Spy : public MDP { MDP *p; std::vector<std::vector<Step>> tr; bool on = true;
  Spy(MDP *q) : p(q) { numStateDimensions = q->numStateDimensions; numActions = q->numActions; discount = q->discount; }
  const state_vector &getInitialState(void) { if (on) tr.push_back({}); return p->getInitialState(); } bool getIsTerminalState(const state_vector &s) { return p->getIsTerminalState(s); }
  outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &r, const state_vector &s, int a) { return p->getOutcomeProbVector(r, s, a); }
  state_vector &getNextState(state_vector &r, const state_vector &s, int a, int o) { if (on && tr.size()) tr.back().push_back({s, a, o}); return p->getNextState(r, s, a, o); }
  double getReward(const state_vector &s, int a) { return p->getReward(s, a); } AbstractBound *newLowerBound(const ZMDPConfig *c) { return p->newLowerBound(c); } AbstractBound *newUpperBound(const ZMDPConfig *c) { return p->newUpperBound(c); } };
struct RandExec : public MDPExec { Rng g; RandExec(MDP *m, int s) : g(s) { mdp = m; } void setToInitialState(void) { currentState = mdp->getInitialState(); } int chooseAction(void) { return g.i(mdp->numActions); } void advanceToNextState(int a, int o) { cvector n; mdp->getNextState(n, currentState, a, o); currentState = n; } };
struct FixExec : public RandExec { using RandExec::RandExec; int chooseAction(void) { unsigned h = 7; for (const char *p = MatrixUtils::hashable(currentState); *p; p++) h = h * 31 + *p; return h % mdp->numActions; } };
static MDP *model(zh::Ctx &c, std::string &d, bool det) { int k = c.g.i(3); if (k == 2 && !det) { RT t = rtrack(c.g, c.dir, 6); d = t.show(); return new RaceTrack(t.file); } RM m = rmodel(c.g, 5, 3, 3); if (!k) vary(c.g, m, 3e-10); else if (c.g.p(0.3)) terms(c.g, m, 0.5); if (c.g.p(0.2)) m.disc = 0.999; if (det) for (auto &T : m.T) for (auto &r : T) { int b = std::max_element(r.begin(), r.end()) - r.begin(); r.assign(m.S, 0); r[b] = 1; } if (det) k = 0; d = m.show(); return k ? (MDP *)mkpomdp(c.dir, m) : (MDP *)mkmdp(c.dir, m); }
// replay a recorded trial from the initial state by the model alone
static double replay(MDP &p, const std::vector<Step> &tr, bool &term, std::string &bad) { cvector s = p.getInitialState(); double r = 0, w = 1; term = false; for (size_t k = 0; k < tr.size(); k++) { if (term) bad = "the trial goes on after a terminal state"; if (std::string(MatrixUtils::hashable(tr[k].s)) != std::string(MatrixUtils::hashable(s))) bad = strf("step %zu is taken from another state than the one reached", k); r += w * p.getReward(s, tr[k].a); w *= p.getDiscount(); outcome_prob_vector opv; p.getOutcomeProbVector(opv, s, tr[k].a); if (tr[k].o < 0 || tr[k].o >= (int)opv.size() || opv(tr[k].o) <= 0) { bad = strf("step %zu draws outcome %d", k, tr[k].o); return r; } cvector n; p.getNextState(n, s, tr[k].a, tr[k].o); s = n; term = p.getIsTerminalState(s); } return r; }
SECTION(sim, "MDPSim::restart, performAction: reward, clock, state, termination; several trials on one simulator") {
  for (int t = 0; t < c.n(600, 10000); t++) { std::string d; MDP *p = model(c, d, false); c.cur("%s", d.c_str()); Spy spy(p); MDPSim sim(&spy); CK(sim.getModel() == &spy, "model");
    for (int k = 0; k < 3; k++) { if (k || c.g.p(0.5)) sim.restart(); CK(sim.elapsedTime == 0 && sim.rewardSoFar == 0 && !sim.terminated && sim.lastOutcomeIndex == -1, "restart leaves time %d reward %g", sim.elapsedTime, sim.rewardSoFar); double r = 0, w = 1; cvector s = p->getInitialState(); CK(std::string(MatrixUtils::hashable(sim.state)) == std::string(MatrixUtils::hashable(s)), "restart state");
      for (int j = 0, J = c.g.p(0.1) ? 300 : 12; j < J && !sim.terminated; j++) { int a = c.g.i(p->numActions); r += w * p->getReward(s, a); w *= p->discount; sim.performAction(a); CK(close(sim.rewardSoFar, r, 1e-9), "step %d: reward so far %.17g expected %.17g", j, sim.rewardSoFar, r); CK(sim.elapsedTime == j + 1, "clock %d after %d steps", sim.elapsedTime, j + 1); cvector n; outcome_prob_vector opv; p->getOutcomeProbVector(opv, s, a); int o = sim.lastOutcomeIndex; CK(o >= 0 && o < (int)opv.size() && opv(o) > 0, "outcome %d", o); p->getNextState(n, s, a, o); s = n; CK(std::string(MatrixUtils::hashable(sim.state)) == std::string(MatrixUtils::hashable(s)), "step %d: state is not the successor", j); CK(sim.terminated == p->getIsTerminalState(s), "step %d: terminated=%d", j, sim.terminated); }
      if (sim.terminated) CK(child([&] { sim.performAction(0); }) == 1, "an action after termination is accepted"); }
  }
}
static ZMDPConfig *ecfg(zh::Ctx &c, bool cache, int trials, int steps, int log) { ZMDPConfig *f = mkcfg(); f->setBool("useEvaluationCache", cache); f->setInt("evaluationTrialsPerEpoch", trials); f->setInt("evaluationMaxStepsPerTrial", steps); f->setString("scoresOutputFile", c.dir + "/scores"); f->setString("simulationTraceOutputFile", c.dir + "/trace"); f->setInt("simulationTracesToLogPerEpoch", log); return f; }
SECTION(evaluate, "PolicyEvaluator::getRewardSamples without the evaluation cache: every trial replayed by the model") {
  for (int t = 0; t < c.n(300, 4000); t++) { std::string d; MDP *p = model(c, d, false); int trials = c.g.p(0.5) ? c.g.in(1, 29) : c.g.in(30, 130), steps = c.g.p(0.07) ? c.g.in(60, 150) : c.g.in(1, 15), log = c.g.in(-1, 5); bool ident = c.g.p(0.5), verb = c.g.p(0.5); c.cur("trials=%d steps=%d log=%d ident=%d verbose=%d %s", trials, steps, log, ident, verb, d.c_str()); Spy spy(p); RandExec ex(p, c.g.i(1 << 30)); PolicyEvaluator ev(&spy, &ex, ecfg(c, false, trials, steps, log), ident); dvector rw; double sr = -7; ev.getRewardSamples(rw, sr, verb);
    int nb = std::min(trials, 30), per = trials / nb; std::vector<std::vector<Step>> tr; for (auto &x : spy.tr) if (x.size()) tr.push_back(x); CK((int)rw.size() == nb, "%zu samples, expected %d", (size_t)rw.size(), nb); CK((int)tr.size() == nb * per, "%zu trials simulated, expected %d", tr.size(), nb * per); if ((int)tr.size() != nb * per) continue; double ok = 0; std::ifstream sc(c.dir + "/scores");
    for (int i = 0; i < nb; i++) { double sum = 0; for (int j = 0; j < per; j++) { auto &x = tr[i * per + j]; bool term; std::string bad; double r = replay(*p, x, term, bad); CK(bad.empty(), "trial %d: %s", i * per + j, bad.c_str()); CK(term || (int)x.size() == steps, "trial %d stops after %zu of %d steps without a terminal state", i * per + j, x.size(), steps); CK((int)x.size() <= steps, "trial %d has %zu steps", i * per + j, x.size()); sum += r; ok += term; if (verb) { double y = 1e300; sc >> y; CK(std::fabs(y - r) < 1e-4 * (1 + std::fabs(r)), "score file: trial %d has %g expected %g", i * per + j, y, r); } } CK(close(rw(i), sum / per, 1e-9), "sample %d is %.17g expected %.17g", i, (double)rw(i), sum / per); }
    CK(close(sr, ok / (nb * per), 1e-9), "success rate %.17g expected %.17g", sr, ok / (nb * per)); }
}
SECTION(cached, "PolicyEvaluator::getRewardSamples with the evaluation cache on deterministic models (no reweighting): equals the plain discounted sum") {
  for (int t = 0; t < c.n(300, 4000); t++) { std::string d; MDP *p = model(c, d, true); int trials = c.g.in(1, 60), steps = c.g.p(0.1) ? c.g.in(60, 200) : c.g.in(1, 15); bool ident = c.g.p(0.5); c.cur("trials=%d steps=%d ident=%d %s", trials, steps, ident, d.c_str()); FixExec ex(p, 1); double r = 0, w = 1; bool term = false; cvector s = p->getInitialState(); for (int j = 0; j < steps && !term; j++) { ex.currentState = s; int a = ex.chooseAction(); r += w * p->getReward(s, a); w *= p->discount; outcome_prob_vector opv; p->getOutcomeProbVector(opv, s, a); int o = 0; while (opv(o) <= 0) o++; cvector n; p->getNextState(n, s, a, o); s = n; term = p->getIsTerminalState(s); }
    PolicyEvaluator ev(p, &ex, ecfg(c, true, trials, steps, 2), ident); dvector rw; double sr = -7; ev.getRewardSamples(rw, sr, c.g.p(0.5)); for (int i = 0; i < (int)rw.size(); i++) CK(close(rw(i), r, 1e-9), "sample %d is %.17g expected %.17g", i, (double)rw(i), r); CK(sr == (term ? 1 : 0), "success rate %g, the trial %s", sr, term ? "reaches a terminal state" : "does not reach a terminal state"); }
}
SECTION(cachedStochastic, "PolicyEvaluator::getRewardSamples with the evaluation cache on stochastic models: mean of reweighted trials against the exact policy value") {
  for (int t = 0; t < c.n(25, 300); t++) { RM m = rmodel(c.g, 4, 2, 2); m.disc = 0.5; MDP *p = mkmdp(c.dir, m); FixExec ex(p, 1); int steps = 14; V v(m.S, 0), pol(m.S); for (int s = 0; s < m.S; s++) { cvector x; x.resize(1); x.push_back(0, s); ex.currentState = x; pol[s] = ex.chooseAction(); } V ok(m.S, 0); for (int s = 0; s < m.S; s++) ok[s] = 0; for (int k = 0; k < steps; k++) { V w(m.S, 0), g(m.S, 0); for (int s = 0; s < m.S; s++) { if (m.term[s]) { w[s] = 0; g[s] = 1; continue; } w[s] = m.R[s][(int)pol[s]]; for (int u = 0; u < m.S; u++) { double q = m.T[(int)pol[s]][s][u]; w[s] += m.disc * q * v[u]; g[s] += q * (m.term[u] ? 1 : ok[u]); } } v = w; ok = g; }
    if (m.term[m.start]) continue; c.cur("%s", m.show().c_str()); PolicyEvaluator ev(p, &ex, ecfg(c, true, 6000, steps, 0), c.g.p(0.5)); dvector rw; double sr = -7; ev.getRewardSamples(rw, sr, false); double mean = 0; for (int i = 0; i < (int)rw.size(); i++) mean += rw(i) / rw.size(); double sc = 2 * rmax(m) + 1e-9; CK(std::fabs(mean - v[m.start]) < 0.12 * sc + 1e-6, "mean reward %g, exact policy value %g (scale %g)", mean, v[m.start], sc); CK(std::fabs(sr - ok[m.start]) < 0.06, "success rate %g, exact probability %g", sr, ok[m.start]); }
}
