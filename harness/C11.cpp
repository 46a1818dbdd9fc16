// Groups as a partition of the subsequences, and agreement of all counts.
#include "common.hpp"
#include <algorithm>
#include <unistd.h>
using namespace vh;

static void judge(Ctx& c, genex::GenexAPI& api, const Table& t, int ret, double T, int metric, bool whole, const string& ctx) {
  int maxLen = t.maxLen();
  GroupFile g = observeGroups(c, api, "d");
  int from = whole ? maxLen : 2;
  map<pair<int, pair<int, int>>, int> seen;
  for (auto& o : g.groups) {
    REQ(c, !o.members.empty(), "part-empty", "a group of length " << o.length << " has no members; " << ctx);
    REQ(c, (int)o.centroid.size() == o.length, "part-length", "representative of wrong length; " << ctx);
    for (auto& m : o.members) {
      REQ(c, m.first >= 0 && m.first < (int)t.rows.size() && m.second >= 0 && m.second + o.length <= (int)t.rows[m.first].size(), "part-foreign",
          "group of length " << o.length << " lists the non-existing subsequence " << m.first << "," << m.second << "; " << ctx);
      int times = ++seen[{o.length, m}];
      REQ(c, times == 1, "part-twice", "subsequence " << m.first << "," << m.second << " of length " << o.length << " is listed twice; " << ctx);
    }
  }
  long expected = 0;
  for (int len = from; len <= maxLen; len++)
    for (size_t i = 0; i < t.rows.size(); i++)
      for (int s = 0; s + len <= (int)t.rows[i].size(); s++) {
        expected++;
        bool there = seen.count({len, {(int)i, s}});
        REQ(c, there, "part-missing", "subsequence " << i << "," << s << " of length " << len << " is in no group; " << ctx);
      }
  REQ(c, (long)seen.size() == expected, "part-extra", seen.size() << " members instead of " << expected << "; " << ctx);
  REQ(c, ret == (int)g.groups.size(), "part-count", "grouping returned " << ret << ", there are " << g.groups.size() << " groups; " << ctx);
  REQ(c, g.itemCount == (int)t.rows.size() && g.itemLength == maxLen && g.distance == kMetricName[metric] && std::fabs(g.threshold - T) <= 1e-5 * std::fabs(T), "part-header",
      "group file describes " << g.itemCount << "x" << g.itemLength << " " << g.distance << " " << g.threshold << "; " << ctx);
  auto info = api.getDatasetInfo("d");
  REQ(c, info.isGrouped && info.distance == kMetricName[metric] && info.threshold == T, "part-info", "dataset reports grouped=" << info.isGrouped << " " << info.distance << " " << num(info.threshold) << "; " << ctx);
  // sizes-only file
  string f = c.file("sizes.txt");
  api.saveGroupsOld("d", f, true);
  std::istringstream in(readFile(f));
  unlink(f.c_str());
  int ver, n, l, a, b; double th; string dn;
  REQ(c, (in >> ver >> th >> n >> l >> a >> b >> dn) && n == g.itemCount && l == g.itemLength && a == g.lenFrom && b == g.lenTo && dn == g.distance, "part-sizes-header", "sizes file has another header; " << ctx);
  size_t at = 0;
  for (int len = a; len < b; len++) {
    int k;
    REQ(c, (in >> k) && k == g.perLength[len - a], "part-sizes-count", "sizes file has another number of groups for length " << len << "; " << ctx);
    for (int q = 0; q < k; q++) {
      long m;
      REQ(c, (in >> m) && m == (long)g.groups[at].members.size(), "part-sizes-members", "sizes file has another member count for group " << q << " of length " << len << "; " << ctx);
      at++;
    }
  }
  string rest;
  REQ(c, !(in >> rest), "part-sizes-tail", "sizes file has trailing text; " << ctx);
  c.count("subsequences_located", expected);
  c.count("groups_observed", g.groups.size());
}

// More groups of one length, and more members of one group, than two bytes count.
static void manyGroups(Ctx& c) {
  Rng& r = c.rng;
  bool apart = c.caseNo % 2;
  int n = apart ? r.range(33000, 34500) : r.range(66000, 68000);
  if (apart && !opt.quick() && r.chance(0.3)) n = r.range(66000, 67000);
  Table t;
  for (int i = 0; i < n; i++) t.rows.push_back({(double)(i % 181), (double)(i / 181)});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  double T = apart ? 0.5 : 1e6;
  int metric = r.range(0, CHE);
  int ret = api.groupDataset("d", T, kMetricName[metric], r.range(1, 3));
  std::ostringstream ctx;
  ctx << n << " different series of two values, " << kMetricName[metric] << " T=" << T;
  REQ(c, ret == (apart ? n : 1), "part-many", "grouping returned " << ret << "; " << ctx.str());
  judge(c, api, t, ret, T, metric, false, ctx.str());
  c.input(mix(hashStr(ctx.str()), n), true);
  c.count("very_many_groups_or_members");
  c.sample(ctx.str());
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  if (opt.large() && c.caseNo % 50 < 2) return manyGroups(c);
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 7; sp.minLen = r.chance(0.3) ? 0 : 1; sp.maxLen = r.chance(0.1) ? 24 : 9; sp.allowEmptyRows = true;
  sp.unevenChance = 0.7;
  if (opt.large()) { sp.maxRows = r.chance(0.3) ? 300 : 40; sp.maxLen = sp.maxRows > 40 ? 12 : 60; }
  Table t = genTable(r, sp);
  if (t.values() == 0) t.rows[0].push_back(1);
  int maxLen = t.maxLen();
  rescale(r, {&t});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  if (r.chance(0.2)) { api.normalizeDataset("d"); t = currentTable(api, "d"); }
  int rounds = r.range(1, 3);
  int metric = 0;
  bool whole = false;
  double T = 0;
  for (int k = 0; k < rounds; k++) {
    if (k && r.chance(0.2)) { api.normalizeDataset("d"); t = currentTable(api, "d"); unit = 1; }
    if (!k || !r.chance(0.3)) {   // otherwise the same settings again
      metric = r.range(0, METRICS - 1);
      whole = maxLen >= 2 && r.chance(0.3);
      T = r.chance(0.15) ? 0.0 : r.chance(0.1) ? 1e6 : r.chance(0.05) ? -1.0 : unit * r.range(1, 64) / 32.0;
    }
    int threads = r.chance(0.5) ? 1 : r.chance(0.2) ? r.range(9, 40) : r.range(2, 8);
    static const vector<long> steps = {0, 0, 1, 3, 11, 100, -7, -100, 4000};
    gClockStepSeconds = r.pick(steps);
    gClockOffsetSeconds += r.range(-1, 1) * r.range(0, 100000);
    std::ostringstream ctx;
    ctx << kMetricName[metric] << " T=" << T << " threads=" << threads << (whole ? " whole" : "") << " round " << k << " clock step " << gClockStepSeconds << ": " << describe(t);
    int ret;
    if (whole || r.chance(0.5)) ret = api.groupDataset("d", T, kMetricName[metric], threads, whole);
    else {   // trailing arguments that have their documented defaults may be left out
      c.count("groupings_with_defaults");
      if (threads != 1) ret = api.groupDataset("d", T, kMetricName[metric], threads);
      else if (metric != EUC) ret = api.groupDataset("d", T, kMetricName[metric]);
      else ret = api.groupDataset("d", T);
    }
    gClockStepSeconds = 0;
    judge(c, api, t, ret, T, metric, whole, ctx.str());
    if (r.chance(0.25)) {
      string f = c.file("g.bin");
      api.saveGroups("d", f);
      genex::GenexAPI other;
      loadTable(c, other, "d", t);
      int back = other.loadGroups("d", f);
      unlink(f.c_str());
      REQ(c, back == ret, "part-saved-count", "saved file restores " << back << " groups, grouping reported " << ret << "; " << ctx.str());
    }
    c.input(mix(hashTable(t), hashStr(ctx.str())), maxLen >= 2);
    c.count(whole ? "whole_series_groupings" : "full_groupings");
    if (threads > 1) c.count("multithreaded_groupings");
    if (k == 0) c.sample(ctx.str());
  }
}
