// Best match against an exhaustive look at the observed groups.
#include "search.hpp"
#include <unistd.h>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 7; sp.minLen = 2; sp.maxLen = r.chance(0.15) ? 30 : 12; sp.unevenChance = 0.5;
  if (opt.large()) { sp.maxRows = 20; sp.maxLen = 60; }
  bool longRows = opt.large() && r.chance(0.3);   // grouped as whole series only
  if (longRows) { sp.maxRows = 40; sp.minLen = 150; sp.maxLen = 400; sp.unevenChance = 0.2; }
  Table t = genTable(r, sp);
  TableSpec sq = sp;
  sq.maxLen += r.range(0, 6);
  Table o = genTable(r, sq);
  if (r.chance(0.4)) for (auto& row : o.rows) { auto& src = t.rows[r.range(0, t.rows.size() - 1)]; for (size_t k = 0; k < row.size() && k < src.size(); k++) row[k] = src[k] + r.real(-0.05, 0.05); }
  rescale(r, {&t, &o});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  loadTable(c, api, "q", o);
  int metric = r.chance(0.6) ? EUC : r.range(MAN, CHE);
  bool whole = longRows || r.chance(0.2);
  double T = r.chance(0.1) ? 0 : r.chance(0.1) ? 1e6 : unit * r.range(1, 48) / 32.0;
  int threads = r.chance(0.8) ? 1 : 3;
  string how = "grouped";
  api.groupDataset("d", T, kMetricName[metric], threads, whole);
  int history = r.range(0, 5);
  if (history == 1) { api.normalizeDataset("d"); how = "normalized after grouping"; }
  if (history == 2 && longRows) history = 5;
  if (history == 2) {
    string f = c.file("g");
    api.saveGroups("d", f);
    api.groupDataset("d", 0.1, "chebyshev");
    api.loadGroups("d", f);
    unlink(f.c_str());
    how = "restored";
  }
  if (history == 3) {
    // queries before a normalization fill the caches
    for (double ratio : {0.1, 0.4, 1.0}) { api.setWarpingBandRatio(ratio); attempt([&] { api.getBestMatch("d", "q", 0); }); }
    api.normalizeDataset("d");
    if (r.chance(0.5)) api.normalizeDataset("q");
    how = "queried, then normalized";
  }
  if (history == 4) {
    string f = c.file("g");
    api.saveGroupsOld("d", f, false);
    api.loadGroupsOld("d", f);
    unlink(f.c_str());
    how = "restored from text";
  }
  if (api.getDatasetInfo("d").isNormalized) unit = std::max(unit, 1.0);
  t = currentTable(api, "d");
  GroupFile g = observeGroups(c, api, "d");
  for (int k = 0; k < 10; k++) {
    Query q = pickQuery(r, api, {"d", "q"}, 2);
    if (q.index < 0) continue;
    double ratio = pickRatio(r, std::max<int>(q.v.size(), t.maxLen()));
    api.setWarpingBandRatio(ratio);
    std::ostringstream cs;
    cs << kMetricName[metric] << " T=" << T << (whole ? " whole" : "") << " " << how << ", ratio " << num(ratio) << ", query " << q.from << " " << q.index << "[" << q.start << "," << q.end << "), " << describe(t);
    string ctx = cs.str();
    double best = kInf;
    vector<double> rd;
    for (auto& x : g.groups) {
      double d = lengthsFit(x.length, q.v.size(), ratio) ? refDTW(metric, x.centroid, q.v, ratio) : kInf;
      rd.push_back(d);
      best = std::min(best, d);
    }
    genex::candidate_time_series_t m(genex::TimeSeries(1), 0);
    Outcome oc = attempt([&] { m = q.start < 0 && q.index % 2 ? api.getBestMatch("d", q.from, q.index) : api.getBestMatch("d", q.from, q.index, q.start, q.end); });
    if (std::isinf(best)) {
      REQ(c, oc.threw, "best-none", "no group of an admissible length exists, but a match is reported: " << show(m) << "; " << ctx);
      c.count("queries_without_admissible_group");
    } else {
      REQ(c, !oc.threw, "best-refused", "query was refused (" << oc.what << ") although groups of admissible length exist; " << ctx);
      auto measure = [&](const Row& v) { return refDTW(metric, q.v, v, ratio); };
      judgeList(c, {m}, t, measure, ctx);
      int at = -1;
      for (size_t x = 0; x < g.groups.size(); x++)
        if (g.groups[x].length == m.data.getLength())
          for (auto& mm : g.groups[x].members)
            if (mm.first == m.data.getIndex() && mm.second == m.data.getStart()) at = x;
      REQ(c, at >= 0, "best-ungrouped", "match " << show(m) << " is in no group; " << ctx);
      REQ(c, rd[at] <= best + 1e-9 * best + 1e-12 * unit, "best-group", "match " << show(m) << " is from a group whose representative is at " << num(rd[at]) << ", the closest is at " << num(best) << "; " << ctx);
      for (auto& mm : g.groups[at].members) {
        double d = measure(slice(t.rows[mm.first], mm.second, mm.second + g.groups[at].length));
        REQ(c, m.dist <= d + 1e-9 * d + 1e-12 * unit, "best-member", "match " << show(m) << " although member " << mm.first << "," << mm.second << " of its group is at " << num(d) << "; " << ctx);
      }
      c.count("matches_judged");
      if (m.data.getLength() != (int)q.v.size()) c.count("matches_of_other_length");
      if (g.groups[at].members.size() > 1) c.count("matches_in_larger_groups");
    }
    c.input(mix(hashTable(t), hashStr(ctx)), g.groups.size() > 1);
    if (k == 0) c.sample(ctx);
  }
}
