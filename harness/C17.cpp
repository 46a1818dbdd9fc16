// Reduced search against block means computed from the current values.
#include "search.hpp"
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 5; sp.minLen = r.chance(0.3) ? 1 : 2; sp.maxLen = r.chance(0.15) ? 20 : 10; sp.unevenChance = 0.6; sp.allowEmptyRows = r.chance(0.15);
  if (opt.large()) { sp.maxRows = 12; sp.maxLen = 45; }
  Table t = genTable(r, sp);
  TableSpec sq = sp;
  sq.minLen = 1; sq.maxLen += r.range(0, 6); sq.allowEmptyRows = false;
  Table o = genTable(r, sq);
  if (t.values() == 0) t.rows[0].push_back(1);
  rescale(r, {&t, &o});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  loadTable(c, api, "q", o);
  int steps = r.range(2, 5);
  int B = 0, done = 0;
  bool prepared = false;
  for (int step = 0; step < steps; step++) {
    t = currentTable(api, "d");
    int maxLen = t.maxLen();
    switch (prepared ? r.range(0, 6) : 0) {
      case 1: api.normalizeDataset("d"); unit = std::max(unit, 1.0); break;
      case 2: api.normalizeDataset("q"); unit = std::max(unit, 1.0); break;
      case 3: { Outcome x = attempt([&] { api.preparePAA("d", -r.range(0, 3)); }); REQ(c, x.threw, "reduced-block", "a block size below 1 was accepted"); break; }
      case 4: if (maxLen >= 2) api.groupDataset("d", 0.3); break;
      case 5: {   // other values of the same shape under the same name, with the block size of before
        api.unloadDataset("d");
        Outcome x = attempt([&] { api.getKBestMatchesPAA(1, "d", "q", 0); });
        REQ(c, x.threw, "reduced-unloaded", "the reduced search of an unloaded dataset was answered");
        double shift = r.real(-2, 2) * unit;
        for (auto& row : t.rows) for (auto& v : row) v = r.chance(0.5) ? -v : v + shift;
        loadTable(c, api, "d", t);
        api.preparePAA("d", B);
        c.count("prepared_again_for_other_values");
        break;
      }
      default: B = r.chance(0.15) ? maxLen + r.range(0, 5) : B && r.chance(0.2) ? B : r.chance(0.1) ? 1000000 : r.range(1, std::max(1, maxLen)); api.preparePAA("d", B); prepared = true;
    }
    t = currentTable(api, "d");
    int block = std::max(1, std::min(B, maxLen));
    vector<Row> subs;
    for (auto& row : t.rows) for (int s = 0; s < (int)row.size(); s++) for (int e = s + 2; e <= (int)row.size(); e++) subs.push_back(slice(row, s, e));
    for (int it = 0; it < 3; it++) {
      Query q = pickQuery(r, api, {"d", "q"}, 1);
      if (q.index < 0) continue;
      int metric = r.range(0, CHE);
      double ratio = pickRatio(r, std::max<int>(q.v.size(), maxLen));
      api.setWarpingBandRatio(ratio);
      int k = r.chance(0.02) ? r.range(100000, 1000000) : r.chance(0.1) ? subs.size() + r.range(0, 4) : r.chance(0.5) ? r.range(1, 6) : r.range(1, subs.size());
      k = std::max(k, 1);
      std::ostringstream cs;
      cs << kMetricName[metric] << " block " << B << " k=" << k << " ratio " << num(ratio) << ", query " << q.from << " " << q.index << "[" << q.start << "," << q.end << "), step " << step << ", " << describe(t);
      string ctx = cs.str();
      Row rq = refPAA(q.v, block);
      auto measure = [&](const Row& v) { return refDTW(metric, rq, refPAA(v, block), ratio); };
      Cands got;
      // trailing arguments that have their documented defaults may be left out
      if (metric != EUC || r.chance(0.3)) got = api.getKBestMatchesPAA(k, "d", q.from, q.index, q.start, q.end, kMetricName[metric]);
      else if (q.start >= 0) got = api.getKBestMatchesPAA(k, "d", q.from, q.index, q.start, q.end);
      else got = api.getKBestMatchesPAA(k, "d", q.from, q.index);
      REQ(c, got.size() == std::min<size_t>(k, subs.size()), "reduced-count", got.size() << " results out of " << subs.size() << "; " << ctx);
      judgeList(c, got, t, measure, ctx);
      vector<double> all;
      for (auto& v : subs) all.push_back(measure(v));
      judgeSmallest(c, got, all, ctx);
      c.count("reduced_searches");
      done++;
      c.input(mix(hashTable(t), hashStr(ctx)), subs.size() > 1);
      if (it == 0) c.sample(ctx);
    }
  }
  if (!done) c.input(hashTable(t), false);
}
