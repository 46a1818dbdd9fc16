// Chains of saving and restoring groups, binary and text, across sessions.
#include "search.hpp"
#include <memory>
#include <unistd.h>
using namespace vh;

// distances of answers that do not depend on ties between groups
static string answers(Ctx& c, genex::GenexAPI& api, const GroupFile& g, int metric, uint64_t seed) {
  if (!sortable(metric)) return "";
  Rng r(seed);
  std::ostringstream os;
  Table t = currentTable(api, "d");
  for (int it = 0; it < 6; it++) {
    Query q = pickQuery(r, api, {"d"}, 2);
    double ratio = pickRatio(r, t.maxLen());
    int ke = r.range(1, 12), k = r.range(1, ke);
    if (q.index < 0) continue;
    vector<double> rd;
    long pop = 0;
    for (auto& x : g.groups) if (lengthsFit(x.length, q.v.size(), ratio)) { rd.push_back(refDTW(metric, x.centroid, q.v, ratio)); pop += x.members.size(); }
    std::sort(rd.begin(), rd.end());
    bool tie = false;
    for (size_t i = 1; i < rd.size(); i++) tie = tie || rd[i] - rd[i - 1] < 1e-7 * unit;
    api.setWarpingBandRatio(ratio);
    char b[40];
    if (rd.empty()) {
      Outcome o = attempt([&] { api.getBestMatch("d", "d", q.index, q.start, q.end); });
      os << "best " << (o.threw ? "refused" : "answered") << "\n";
      continue;
    }
    if (rd.size() == 1 || rd[1] - rd[0] > 1e-7 * unit) {
      snprintf(b, 40, "%.7f", api.getBestMatch("d", "d", q.index, q.start, q.end).dist / unit + 1e-9);
      os << "best " << b << "\n";
      c.count("best_matches_compared");
    }
    if (tie) ke = k = pop;
    os << "kbest " << k << "/" << ke;
    for (auto& x : api.getKBestMatches(k, ke, "d", "d", q.index, q.start, q.end)) { snprintf(b, 40, " %.7f", x.dist / unit + 1e-9); os << b; }
    os << "\n";
    c.count("kbest_compared");
  }
  return os.str();
}
// like ==, but numbers may differ in their last printed digit
static bool sameAnswers(const string& a, const string& b) {
  std::istringstream x(a), y(b);
  string s, t;
  for (;;) {
    bool p = (bool)(x >> s), q = (bool)(y >> t);
    if (p != q) return false;
    if (!p) return true;
    if (s == t) continue;
    char *e, *f;
    double u = strtod(s.c_str(), &e), v = strtod(t.c_str(), &f);
    if (*e || *f || !(std::fabs(u - v) <= 1e-6 + 1e-9 * std::fabs(u))) return false;
  }
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 6; sp.minLen = 1; sp.maxLen = r.chance(0.15) ? 20 : 9; sp.unevenChance = 0.5; sp.allowEmptyRows = r.chance(0.2);
  if (opt.large()) {
    // many short series, so that groups and positions outgrow small integers
    static const vector<int> sizes = {300, 5000, 33000, 66000};
    sp.minRows = sp.maxRows = r.pick(sizes) + r.range(0, 40); sp.minLen = sp.maxLen = sp.minRows > 9999 ? 2 : r.range(2, 5); sp.allowEmptyRows = false;
  }
  Table t = genTable(r, sp);
  if (t.maxLen() < 2) t.rows[0] = {0.5, 1.5, 1};
  rescale(r, {&t});
  std::unique_ptr<genex::GenexAPI> cur(new genex::GenexAPI);
  loadTable(c, *cur, "d", t);
  bool norm = r.chance(0.3);
  if (norm) { cur->normalizeDataset("d"); t = currentTable(*cur, "d"); unit = 1; }
  int metric = r.chance(0.7) ? r.range(0, CHE) : r.range(COS, SOR);
  if (opt.large() && metric == COS) metric = EUC;   // NaN distances make one group per series
  bool whole = r.chance(0.3);
  double T = r.chance(0.1) ? 0 : r.chance(0.1) ? 1e6 : r.range(1, 99) / 64.0;
  if (r.chance(0.3)) T = r.range(1, 99999) / 100000.0;
  if (r.chance(0.4)) T = r.real(0, 2);
  if (r.chance(0.05)) T = r.real() * 1e-12;
  if (opt.large()) T = r.chance(0.4) ? 1e6 : r.range(2, 9);
  T *= unit;
  int count = cur->groupDataset("d", T, kMetricName[metric], r.chance(0.7) ? 1 : 3, whole);
  GroupFile g0 = observeGroups(c, *cur, "d");
  string want = canonical(g0);
  uint64_t aseed = r.next();
  string ans = answers(c, *cur, g0, metric, aseed);
  string chain;
  string f = c.file("groups");
  auto regroup = [&](genex::GenexAPI& a) {
    if (opt.large()) a.groupDataset("d", 1e7, kMetricName[r.range(0, CHE)], 1, r.chance(0.5));
    else a.groupDataset("d", r.range(0, 99) / 64.0, kMetricName[r.range(0, METRICS - 1)], 1, r.chance(0.5));
  };
  int gens = opt.large() ? r.range(1, 2) : r.range(1, 4);
  for (int gen = 0; gen < gens; gen++) {
    bool text = r.chance(0.4);
    string state = datasetState(c, *cur, "d");
    if (r.chance(0.2)) writeFile(f, string(20000, 'x'));   // an older file is replaced
    if (text) cur->saveGroupsOld("d", f, false); else cur->saveGroups("d", f);
    REQ(c, datasetState(c, *cur, "d") == state, "save-changes", "saving groups changed the dataset: " << firstDiff(state, datasetState(c, *cur, "d")));
    int where = r.range(0, 4);
    static const char* names[] = {" over itself", " over other groups", " into a new session", " into a new session with other groups", " into an ungrouped copy"};
    chain += string(text ? " text" : " binary") + names[where];
    if (where == 1) regroup(*cur);
    if (where >= 2) {
      std::unique_ptr<genex::GenexAPI> next(new genex::GenexAPI);
      if (r.chance(0.5)) { Table dummy; dummy.rows = {{1, 2}, {3}}; loadTable(c, *next, "other", dummy); }
      loadTable(c, *next, "d", t);
      if (where == 3) regroup(*next);
      cur = std::move(next);
      norm = false;
    }
    std::ostringstream cs;
    cs << kMetricName[metric] << " T=" << T << (whole ? " whole" : "") << ", chain:" << chain << "; " << describe(t);
    string ctx = cs.str();
    int back = text ? cur->loadGroupsOld("d", f) : cur->loadGroups("d", f);
    unlink(f.c_str());
    REQ(c, back == count, "restore-count", "restored " << back << " groups instead of " << count << "; " << ctx);
    auto info = cur->getDatasetInfo("d");
    REQ(c, info.isGrouped && info.distance == kMetricName[metric] && info.threshold == T, "restore-info", "restored dataset reports grouped=" << info.isGrouped << " " << info.distance << " " << num(info.threshold) << "; " << ctx);
    GroupFile g = observeGroups(c, *cur, "d");
    string got = canonical(g);
    REQ(c, got == want, "restore-groups", "restored groups differ: " << firstDiff(want, got) << "; " << ctx);
    string a2 = answers(c, *cur, g0, metric, aseed);
    REQ(c, sameAnswers(ans, a2), "restore-answers", "restored groups answer differently: " << firstDiff(ans, a2) << "; " << ctx);
    c.count(text ? "text_generations" : "binary_generations");
    c.input(mix(hashTable(t), hashStr(ctx)), count > 1);
    if (gen + 1 == gens) c.sample(ctx);
  }
}
