#include "pgen.h"
#include "solverUtils.h"
#include "zmdpCommonTime.h"
#define main zmdp_main
#include "zmdp.cc"
#undef main
using namespace zh;
static std::string word(Rng &g) { static const char *cs = "abcdefghijklmnopqrstuvwxyzABC0123456789._-/+"; std::string s; int n = g.in(1, 9); for (int i = 0; i < n; i++) s += cs[g.i(44)]; if (s[0] == '#' || s[0] == '-') s[0] = 'x'; return s; }
static std::string num(Rng &g) { switch (g.i(5)) { case 0: return strf("%d", g.in(-1000, 1000)); case 1: return strf("%g", g.r(-10, 10)); case 2: return strf("%.17g", g.r(-1e6, 1e6)); case 3: return strf("%de%d", g.in(1, 9), g.in(-8, 8)); default: return g.p(0.5) ? "0" : "1"; } }
static std::string ws(Rng &g) { static const char *w[] = {" ", "\t", "   ", " \t "}; return w[g.i(4)]; }
typedef std::map<std::string, std::string> KV;
// a configuration text setting the given fields in order
static std::string text(Rng &g, const std::vector<std::pair<std::string, std::string>> &kv) { std::string s; for (size_t i = 0; i < kv.size(); i++) { if (g.p(0.15)) s += "# a comment with words\n"; if (g.p(0.1)) s += g.p(0.5) ? "\n" : "  \t \n"; s += (g.p(0.1) ? ws(g) : "") + kv[i].first + ws(g) + kv[i].second + (g.p(0.2) ? ws(g) : ""); if (i + 1 < kv.size() || g.p(0.7)) s += "\n"; } return s; }
static void same(zh::Ctx &c, const ZMDPConfig &f, const KV &want, const char *w) { for (auto &e : want) { CK(f.defined(e.first), "%s: field %s is lost", w, e.first.c_str()); if (f.defined(e.first)) { CK(f.getString(e.first) == e.second, "%s: field %s is '%s', last set to '%s'", w, e.first.c_str(), f.getString(e.first).c_str(), e.second.c_str()); CK(f.getInt(e.first) == atoi(e.second.c_str()), "%s: field %s as integer", w, e.first.c_str()); { double gd = f.getDouble(e.first), wd = atof(e.second.c_str()); CK(gd == wd || (gd != gd && wd != wd), "%s: field %s as number", w, e.first.c_str()); } CK(f.getBool(e.first) == (atoi(e.second.c_str()) != 0), "%s: field %s as boolean", w, e.first.c_str()); } } }
SECTION(layers, "ZMDPConfig: defaults, config file and arguments, later settings win; typed setters and getters; writeToStream; readFromConfig") {
  for (int t = 0; t < c.n(4000, 60000); t++) { std::vector<std::string> fs; for (int i = 0, n = c.g.in(1, 8); i < n; i++) { std::string w = word(c.g); if (w.substr(0, 5) != "alias" && std::find(fs.begin(), fs.end(), w) == fs.end()) fs.push_back(w); } KV want; auto gen = [&](int n) { std::vector<std::pair<std::string, std::string>> r; for (int i = 0; i < n; i++) r.push_back({fs[c.g.i(fs.size())], c.g.p(0.6) ? num(c.g) : word(c.g)}); return r; };
    std::vector<std::pair<std::string, std::string>> d; for (auto &f : fs) d.push_back({f, num(c.g)}); auto d2 = gen(c.g.i(4)); d.insert(d.end(), d2.begin(), d2.end()); auto fl = gen(c.g.i(5)), ar = gen(c.g.i(5)); std::string td = text(c.g, d), tf = text(c.g, fl), ta; std::vector<std::string> rest; for (size_t i = 0; i < ar.size(); i++) { if (c.g.p(0.2) && rest.size() < 3) { std::string w = "m" + word(c.g); rest.push_back(w); ta += w + ws(c.g); } ta += "--" + ar[i].first + ws(c.g) + ar[i].second + ws(c.g); }
    if (c.g.p(0.15)) { ta += "-- "; std::string w = "--" + word(c.g); ta += w; rest.push_back(w); } c.cur("defaults '%s' file '%s' args '%s'", td.c_str(), tf.c_str(), ta.c_str()); ZMDPConfig f; f.readFromString("<d>", td.c_str()); for (auto &e : d) want[e.first] = e.second; same(c, f, want, "defaults"); f.setNoNewFieldsAllowed(true); { std::ofstream o(c.dir + "/a.config"); o << tf; } f.readFromFile(c.dir + "/a.config"); for (auto &e : fl) want[e.first] = e.second; same(c, f, want, "after the file"); auto un = f.processArgs(ta); for (auto &e : ar) want[e.first] = e.second; same(c, f, want, "after the arguments"); CK(un == rest, "%zu non-option arguments returned, expected %zu", un.size(), rest.size());
    ZMDPConfig r; std::ostringstream o; f.writeToStream(o); r.readFromString("<r>", o.str().c_str()); same(c, r, want, "written and read again"); ZMDPConfig q; q.readFromConfig(f); same(c, q, want, "copied"); CK(!q.defined("zz" + fs[0]), "an unknown field is defined");
    int k = c.g.i(fs.size()); double x = c.g.r(-1e5, 1e5); f.setDouble(fs[k], x); CK(f.getDouble(fs[k]) == x, "setDouble %.17g reads back %.17g", x, f.getDouble(fs[k])); int n = c.g.in(-2000000, 2000000); f.setInt(fs[k], n); CK(f.getInt(fs[k]) == n, "setInt %d reads back %d", n, f.getInt(fs[k])); bool b = c.g.p(0.5); f.setBool(fs[k], b); CK(f.getBool(fs[k]) == b, "setBool"); }
}
SECTION(rejected, "unknown fields, missing values, fields never set: error exit from the file, the arguments, setString and getString") {
  for (int t = 0; t < c.n(60, 400); t++) { std::string u = "u" + word(c.g); int k = c.g.i(8); c.cur("field %s kind %d", u.c_str(), k); int r = child([&] { ZMDPConfig f; f.readFromString("<d>", "known 1\nother 2\n"); f.setNoNewFieldsAllowed(true); switch (k) { case 0: f.setString(u, "3"); break; case 1: f.readFromString("<f>", ("known 2\n" + u + " 3\nother 1\n").c_str()); break; case 2: f.processArgs("--known 3 --" + u + " 4"); break; case 3: f.getString(u); break; case 4: f.processArgs("x --known"); break; case 5: f.readFromString("<f>", "known\n"); break; case 6: f.setDouble(u, 1); break; default: f.readFromString("<f>", (u + " 3").c_str()); } }); CK(r == 1, "accepted (exit %d)", r);
    r = child([&] { ZMDPConfig f; f.readFromString("<d>", "known 1\n"); f.setNoNewFieldsAllowed(true); f.setString("known", u); f.processArgs("--known 4"); f.setNoNewFieldsAllowed(false); f.setString(u, "1"); if (f.getString(u) != "1" || f.getString("known") != "4") _exit(3); }); CK(r == 200, "a defined field is rejected (exit %d)", r); }
}
static const struct { const char *field, *val; int num; } en[] = {{"searchStrategy", "frtdp", S_FRTDP}, {"searchStrategy", "hsvi", S_HSVI}, {"searchStrategy", "rtdp", S_RTDP}, {"searchStrategy", "lrtdp", S_LRTDP}, {"searchStrategy", "hdp", S_HDP}, {"searchStrategy", "script", S_SCRIPT}, {"modelType", "pomdp", T_POMDP}, {"modelType", "mdp", T_MDP}, {"modelType", "racetrack", T_RACETRACK}, {"modelType", "custom", T_CUSTOM}, {"lowerBoundRepresentation", "point", V_POINT}, {"lowerBoundRepresentation", "convex", V_MAXPLANES}, {"upperBoundRepresentation", "point", V_POINT}, {"upperBoundRepresentation", "sawtooth", V_SAWTOOTH}, {"maintainLowerBound", "0", 0}, {"maintainLowerBound", "1", 1}, {"maintainLowerBound", "-", -1}, {"runTimeActionSelection", "lower", 0}, {"runTimeActionSelection", "upper", 1}, {"runTimeActionSelection", "-", -1}};
static int field(const SolverParams &p, const std::string &f) { return f == "searchStrategy" ? p.searchStrategy : f == "modelType" ? p.modelType : f == "lowerBoundRepresentation" ? p.lowerBoundRepresentation : f == "upperBoundRepresentation" ? p.upperBoundRepresentation : f == "maintainLowerBound" ? p.maintainLowerBound : p.useUpperBoundRunTimeActionSelection; }
SECTION(enums, "SolverParams::setValues: enumerated options, inferred model type and bound representations") {
  auto base = [&]() { ZMDPConfig *f = mkcfg(); f->setString("simulatorModel", "x.pomdp"); f->setNoNewFieldsAllowed(true); return f; };
  for (auto &e : en) { c.cur("%s=%s", e.field, e.val); int r = child([&] { ZMDPConfig *f = base(); f->setString(e.field, e.val); SolverParams p; p.setValues(*f); if (field(p, e.field) != e.num) _exit(3); }); bool mdpWithPlanes = false; (void)mdpWithPlanes; if (std::string(e.field) == "modelType" && std::string(e.val) != "pomdp") CK(r == 200, "rejected or mapped wrongly (exit %d)", r); else CK(r == 200, "%s (exit %d)", r == 3 ? "maps to another value" : "is rejected", r);
    for (int k = 0; k < 12; k++) { std::string v = k == 0 ? "" : k == 1 ? std::string(e.val) + "x" : k == 2 ? std::string(e.val).substr(0, strlen(e.val) - 1) : k == 3 ? " " + std::string(e.val) : k == 4 ? "FRTDP" : k == 5 ? "2" : word(c.g); bool listed = v == "-" && std::string(e.field) != "searchStrategy"; for (auto &g : en) listed = listed || (std::string(g.field) == e.field && v == g.val); if (listed) continue; c.cur("%s='%s'", e.field, v.c_str()); r = child([&] { ZMDPConfig *f = base(); f->setString(e.field, v); SolverParams p; p.setValues(*f); }); CK(r == 1, "a value that is not listed is accepted (exit %d)", r); } }
  struct { const char *name; int type; } nm[] = {{"a.pomdp", T_POMDP}, {"dir.mdp/b.pomdp", T_POMDP}, {"a.mdp", T_MDP}, {"a.pomdp.mdp", T_MDP}, {"x.racetrack", T_RACETRACK}, {"custom", T_CUSTOM}, {"a.custom", -9}, {"pomdp", -9}, {"a.pomdpx", -9}, {"mdp", -9}, {"", -9}};
  for (auto &n : nm) { c.cur("model name '%s'", n.name); int r = child([&] { ZMDPConfig *f = base(); f->setString("simulatorModel", n.name); SolverParams p; p.setValues(*f); if (p.modelType != n.type) _exit(3); if (p.lowerBoundRepresentation != (n.type == T_POMDP ? V_MAXPLANES : V_POINT) || p.upperBoundRepresentation != (n.type == T_POMDP ? V_SAWTOOTH : V_POINT)) _exit(4); }); CK(r == (n.type == -9 ? 1 : 200), "%s (exit %d)", r == 3 ? "another model type is inferred" : r == 4 ? "another representation is inferred" : "unexpected outcome", r); }
  for (auto &n : nm) if (n.type >= 0 && n.type != T_POMDP) for (int k = 0; k < 2; k++) { c.cur("%s for %s", k ? "sawtooth" : "convex", n.name); int r = child([&] { ZMDPConfig *f = base(); f->setString("simulatorModel", n.name); f->setString(k ? "upperBoundRepresentation" : "lowerBoundRepresentation", k ? "sawtooth" : "convex"); SolverParams p; p.setValues(*f); }); CK(r == 1, "accepted (exit %d)", r); }
  for (int t = 0; t < c.n(300, 3000); t++) { ZMDPConfig *f = base(); double x = c.g.r(1e-4, 10), w = c.g.p(0.3) ? -c.g.d() : c.g.r(0.1, 100); int mh = c.g.in(-1, 50), ne = c.g.in(1, 999), ms = c.g.in(0, 999); bool fp = c.g.p(0.5), wk = c.g.p(0.5), mu = c.g.p(0.5); f->setDouble("terminateRegretBound", x); f->setDouble("terminateWallclockSeconds", w); f->setInt("maxHorizon", mh); f->setInt("evaluationTrialsPerEpoch", ne); f->setInt("evaluationMaxStepsPerTrial", ms); f->setBool("useFastModelParser", fp); f->setBool("useWeakUpperBoundHeuristic", wk); f->setBool("maintainUpperBound", mu); f->setDouble("evaluationFirstEpochWallclockSeconds", x + 1); f->setDouble("evaluationEpochsPerMagnitude", x + 2); c.cur("%.17g %.17g", x, w); SolverParams p; p.setValues(*f); CK(p.terminateRegretBound == x && p.terminateWallclockSeconds == (w <= 0 ? 99e+20 : w) && p.maxHorizon == mh && p.evaluationTrialsPerEpoch == ne && p.evaluationMaxStepsPerTrial == ms && p.useFastModelParser == fp && p.useWeakUpperBoundHeuristic == wk && p.maintainUpperBound == mu && p.evaluationFirstEpochWallclockSeconds == x + 1 && p.evaluationEpochsPerMagnitude == x + 2, "a solver parameter is not the configured value"); }
}
SECTION(strategies, "constructSolverObjects: solver and bounds built for each strategy and representation") {
  std::string md = c.dir + "/k.mdp"; { std::ofstream o(md); o << "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nstart: 0\nT: *\nuniform\nR: * : 0 : * 1\n"; } std::string pd = c.dir + "/k.pomdp"; { std::ofstream o(pd); o << "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.5 0.5\nT: *\nuniform\nO: *\nuniform\nR: * : 0 : * : * 1\n"; }
  const char *st[] = {"frtdp", "hsvi", "rtdp", "lrtdp", "hdp"}; for (int s = 0; s < 5; s++) for (int ml = -1; ml < 2; ml++) for (int mu = 0; mu < 2; mu++) for (int rt = -1; rt < 2; rt++) for (int po = 0; po < 2; po++) { bool needL = s < 2, needU = true; int L = ml < 0 ? needL : ml, R = rt < 0 ? !L : rt; bool ok = !(needL && ml == 0) && !(needU && !mu) && (L || mu) && !(rt == 0 && !L) && !(rt == 1 && !mu); c.cur("%s maintainLower=%d maintainUpper=%d runTime=%d pomdp=%d", st[s], ml, mu, rt, po);
      int r = child([&] { ZMDPConfig *f = mkcfg(); f->setString("simulatorModel", po ? pd : md); f->setString("searchStrategy", st[s]); f->setString("maintainLowerBound", ml < 0 ? "-" : ml ? "1" : "0"); f->setBool("maintainUpperBound", mu); f->setString("runTimeActionSelection", rt < 0 ? "-" : rt ? "upper" : "lower"); f->setString("policyOutputFile", "none"); SolverParams p; p.setValues(*f); SolverObjects o; constructSolverObjects(o, p, *f); RTDPCore *k = (RTDPCore *)o.solver; bool kind = s == 0 ? !!dynamic_cast<FRTDP *>(k) : s == 1 ? !!dynamic_cast<HSVI *>(k) : s == 2 ? !!dynamic_cast<RTDP *>(k) : s == 3 ? !!dynamic_cast<LRTDP *>(k) : !!dynamic_cast<HDP *>(k); if (!kind) _exit(3); if (k->bounds != o.bounds || o.sim->getModel() != o.problem) _exit(4); if (o.bounds->maintainLowerBound != (L != 0) || o.bounds->maintainUpperBound != (mu != 0) || o.bounds->useUpperBoundRunTimeActionSelection != (R != 0)) _exit(5); if (L && (po ? !dynamic_cast<MaxPlanesLowerBound *>(o.bounds->lowerBound) : !dynamic_cast<PointLowerBound *>(o.bounds->lowerBound))) _exit(6); if (mu && (po ? !dynamic_cast<SawtoothUpperBound *>(o.bounds->upperBound) : !dynamic_cast<PointUpperBound *>(o.bounds->upperBound))) _exit(7); }, 30); CK(r == (ok ? 200 : 1), "%s (exit %d)", ok ? "rejected or built differently" : "accepted", r); }
}
SECTION(cli, "the zmdp program's main(): values in force after defaults, config file (-c) and command line") {
  std::string md = c.dir + "/k.mdp"; { std::ofstream o(md); o << "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nstart: 0\nT: *\nuniform\nR: * : 0 : * 1\n"; }
  static const char *fs[] = {"terminateUpperBoundValue", "evaluationTrialsPerEpoch", "evaluationMaxStepsPerTrial", "evaluationOutputFile", "boundsOutputFile", "scoresOutputFile", "customMDPNumStates", "policyInputFile", "evaluationEpochsPerMagnitude", "simulationTracesToLogPerEpoch", "plannerModel", "policyType"};
  for (int t = 0; t < c.n(60, 600); t++) { KV want; { std::ifstream d(std::string(getenv("ZH_REPO")) + "/src/main/zmdp.config"); std::string l; while (std::getline(d, l)) { std::istringstream i(l); std::string a, b; if (i >> a >> b && a[0] != '#' && a != "alias") want[a] = b; } } std::vector<std::pair<std::string, std::string>> fl, ar; for (int i = c.g.i(5); i--;) fl.push_back({fs[c.g.i(12)], num(c.g)}); for (int i = c.g.i(5); i--;) ar.push_back({fs[c.g.i(12)], num(c.g)}); bool useF = c.g.p(0.7); std::vector<std::string> av = {"zmdp", "solve"}; std::string cf = c.dir + "/u.config"; { std::ofstream o(cf); o << text(c.g, fl); } if (useF && c.g.p(0.5)) { av.push_back("-c"); av.push_back(cf); useF = false; for (auto &e : fl) want[e.first] = e.second; }
    bool al = c.g.p(0.5); if (al) { av.push_back("-p"); av.push_back("0.5"); want["terminateRegretBound"] = "0.5"; av.push_back("-f"); want["useFastModelParser"] = "0"; ar.push_back({"useFastModelParser", "0"}); } for (auto &e : ar) { av.push_back("--" + e.first); av.push_back(e.second); } av.push_back(md); if (useF) { av.push_back("--config"); av.push_back(cf); for (auto &e : fl) want[e.first] = e.second; } for (auto &e : ar) want[e.first] = e.second; av.push_back("-d"); want["debugLevel"] = "1"; av.push_back("--policyOutputFile"); av.push_back("none"); want["policyOutputFile"] = "none"; av.push_back("--terminateNumBackups"); av.push_back("1"); want["terminateNumBackups"] = "1"; want["command"] = "solve"; want["simulatorModel"] = md; std::string sh; for (auto &a : av) sh += a + " "; c.cur("%s file='%s'", sh.c_str(), text(c.g, fl).c_str());
    std::string out = c.dir + "/cli.out"; int r = child([&] { freopen(out.c_str(), "w", stdout); std::vector<char *> p; for (auto &a : av) p.push_back((char *)a.c_str()); p.push_back(0); int q = zmdp_main(av.size(), p.data()); std::cout.flush(); fflush(stdout); _exit(q == 0 ? 200 : 9); }, 30); CK(r == 200, "exit %d", r); std::ifstream in(out); std::string l; KV got; bool on = false; while (std::getline(in, l)) { if (l == "[params begin]") on = true; else if (l == "[params end]") on = false; else if (on) { std::istringstream i(l); std::string a, b; i >> a >> b; if (a != "alias") got[a] = b; } } got.erase("binaryName"); for (auto &e : want) CK(got.count(e.first) && got[e.first] == e.second, "field %s is '%s', expected '%s'", e.first.c_str(), got[e.first].c_str(), e.second.c_str()); CK(got.size() == want.size(), "%zu fields in force, expected %zu", got.size(), want.size());
    if (t % 4 == 0) { std::string u = "x" + word(c.g); c.cur("unknown field %s", u.c_str()); r = child([&] { const char *p[] = {"zmdp", "solve", (u = "--" + u).c_str(), "1", md.c_str(), 0}; zmdp_main(5, (char **)p); }, 30); CK(r == 1, "an unknown option is accepted (exit %d)", r); { std::ofstream o(cf); o << u.substr(2) << " 7\n"; } r = child([&] { const char *p[] = {"zmdp", "solve", "-c", cf.c_str(), md.c_str(), 0}; zmdp_main(5, (char **)p); }, 30); CK(r == 1, "an unknown field in the config file is accepted (exit %d)", r); } }
}
