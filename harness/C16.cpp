// Exhaustive search against the reference over all subsequences.
#include "search.hpp"
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 5; sp.minLen = r.chance(0.3) ? 1 : 2; sp.maxLen = r.chance(0.15) ? 18 : 9; sp.unevenChance = 0.6; sp.allowEmptyRows = r.chance(0.2);
  if (opt.large()) { sp.maxRows = 12; sp.maxLen = 40; }
  Table t = genTable(r, sp);
  TableSpec sq = sp;
  sq.minLen = 1; sq.maxLen += r.range(0, 5); sq.allowEmptyRows = false;
  Table o = genTable(r, sq);
  if (r.chance(0.3)) for (auto& row : o.rows) { auto& src = t.rows[r.range(0, t.rows.size() - 1)]; for (size_t k = 0; k < row.size() && k < src.size(); k++) row[k] = src[k] + r.real(-0.05, 0.05); }
  if (t.values() == 0) t.rows[0].push_back(1);
  rescale(r, {&t, &o});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  loadTable(c, api, "q", o);
  if (r.chance(0.2)) { api.normalizeDataset("d"); unit = std::max(unit, 1.0); }
  t = currentTable(api, "d");
  vector<Row> subs;
  for (auto& row : t.rows) for (int s = 0; s < (int)row.size(); s++) for (int e = s + 2; e <= (int)row.size(); e++) subs.push_back(slice(row, s, e));
  for (int it = 0; it < 5; it++) {
    Query q = pickQuery(r, api, {"d", "q"}, 1);
    if (q.index < 0) continue;
    int metric = r.range(0, CHE);
    double ratio = pickRatio(r, std::max<int>(q.v.size(), t.maxLen()));
    api.setWarpingBandRatio(ratio);
    int k = r.chance(0.02) ? r.range(1000000, 2000000000) : r.chance(0.1) ? subs.size() + r.range(0, 4) : r.chance(0.5) ? r.range(1, 6) : r.range(1, subs.size());
    k = std::max(k, 1);
    std::ostringstream cs;
    cs << kMetricName[metric] << " k=" << k << " ratio " << num(ratio) << ", query " << q.from << " " << q.index << "[" << q.start << "," << q.end << "), " << describe(t);
    string ctx = cs.str();
    auto measure = [&](const Row& v) { return refDTW(metric, q.v, v, ratio); };
    Cands got;
    // trailing arguments that have their documented defaults may be left out
    if (metric != EUC || r.chance(0.3)) got = api.getKBestMatchesBruteForce(k, "d", q.from, q.index, q.start, q.end, kMetricName[metric]);
    else if (q.start >= 0) got = api.getKBestMatchesBruteForce(k, "d", q.from, q.index, q.start, q.end);
    else got = api.getKBestMatchesBruteForce(k, "d", q.from, q.index);
    REQ(c, got.size() == std::min<size_t>(k, subs.size()), "brute-count", got.size() << " results out of " << subs.size() << "; " << ctx);
    judgeList(c, got, t, measure, ctx);
    vector<double> all;
    for (auto& v : subs) all.push_back(measure(v));
    judgeSmallest(c, got, all, ctx);
    for (auto& g : got) REQ(c, g.data.getLength() >= 2, "brute-short", "result of length 1: " << show(g) << "; " << ctx);
    // independent of grouping
    if (r.chance(0.5) && t.maxLen() >= 2) {
      int gm = r.range(0, METRICS - 1);
      api.groupDataset("d", unit * r.range(0, 32) / 32.0, kMetricName[gm], 1, r.chance(0.3));
      Cands again = api.getKBestMatchesBruteForce(k, "d", q.from, q.index, q.start, q.end, kMetricName[metric]);
      REQ(c, show(got) == show(again), "brute-grouping", "grouping changed the answer from " << show(got) << " to " << show(again) << "; " << ctx);
      c.count("compared_with_grouped");
    }
    if (!all.empty() && k < (int)all.size()) c.count("selective_searches");
    c.input(mix(hashTable(t), hashStr(ctx)), subs.size() > 1);
    if (it == 0) c.sample(ctx);
  }
}
