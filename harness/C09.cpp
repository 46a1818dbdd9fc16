// Alignments: structure, band and cost, and independence of the distance.
#include "common.hpp"
#include "distance/Distance.hpp"
#include <algorithm>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 2; sp.maxRows = 4; sp.minLen = 1; sp.maxLen = opt.large() ? 600 : r.chance(0.1) ? 60 : r.chance(0.4) ? 4 : 16;
  if (opt.large()) sp.minLen = 150;
  sp.unevenChance = 0.7;
  Table t = genTable(r, sp);
  rescale(r, {&t});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  loadTable(c, api, "e", t);
  for (int k = 0; k < (opt.large() ? 1 : 5); k++) {
    int i = r.range(0, t.rows.size() - 1), j = r.range(0, t.rows.size() - 1);
    int si = 0, ei = t.rows[i].size(), sj = 0, ej = t.rows[j].size();
    if (r.chance(opt.large() ? 0.2 : 0.6)) { si = r.range(0, ei - 1); ei = r.range(si + 1, ei); sj = r.range(0, ej - 1); ej = r.range(sj + 1, ej); }
    // both may come from the same dataset, even be the same or overlapping stretches of one series
    const string second = r.chance(0.5) ? "d" : "e";
    if (r.chance(0.2)) { j = i; sj = si; ej = ei; }
    Row a = slice(t.rows[i], si, ei), b = slice(t.rows[j], sj, ej);
    int m = a.size(), n = b.size(), L = std::max(m, n);
    vector<double> ratios = {0.0, 0.1, 0.3, 1.0, r.real(), (r.range(0, L) + 0.5) / L};
    for (double ratio : ratios) {
      api.setWarpingBandRatio(ratio);
      for (int metric = 0; metric < METRICS; metric++) {
        string dn = string(kMetricName[metric]) + "_dtw";
        auto ctx = [&] { return string(" for ") + dn + " ratio " + num(ratio) + (second == "d" ? " in one dataset" : "") + " of " + show(a) + " and " + show(b); };
        double d = api.distanceBetween("d", i, si, ei, second, j, sj, ej, dn);
        auto p = api.matchingBetween("d", i, si, ei, second, j, sj, ej, dn);
        auto path = [&] { string s; for (auto& x : p) s += "(" + std::to_string(x.first) + "," + std::to_string(x.second) + ")"; return s; };
        REQ(c, !p.empty() && p.front() == genex::coord_t(0, 0), "align-start", "alignment does not start at the first pair: " << path() << ctx());
        REQ(c, p.back() == genex::coord_t(m - 1, n - 1), "align-end", "alignment does not end at the last pair: " << path() << ctx());
        for (size_t q = 1; q < p.size(); q++) {
          int dx = p[q].first - p[q - 1].first, dy = p[q].second - p[q - 1].second;
          REQ(c, dx >= 0 && dx <= 1 && dy >= 0 && dy <= 1 && dx + dy >= 1, "align-step", "illegal step " << q << " in " << path() << ctx());
        }
        if (std::isfinite(d)) {
          int band = refBand(m, n, ratio);
          if (metric <= CHE || std::abs(m - n) <= band)
            for (auto& x : p)
              REQ(c, std::abs(x.first - x.second) <= band, "align-band", "pair " << x.first << "," << x.second << " leaves the band of " << band << ": " << path() << ctx());
          if (metric <= CHE) {
            double cost = refPathCost(metric, a, b, p);
            REQ(c, close(cost, d, 1e-9), "align-cost", "alignment " << path() << " costs " << num(cost) << ", reported distance " << num(d) << ctx());
          }
          c.count("finite_alignments");
        }
        // with and without asking for the alignment, directly
        genex::TimeSeries x(a.data(), m), y(b.data(), n);
        auto f = genex::getDistanceFromName(dn);
        genex::matching_t mt;
        double with = f(x, y, kInf, mt), without = f(x, y, kInf, genex::gNoMatching);
        REQ(c, sameBits(with, without) || close(with, without, 1e-9) || (std::isnan(with) && std::isnan(without)), "align-influence", "distance is " << num(with) << " with and " << num(without) << " without an alignment" << ctx());
        REQ(c, mt == p, "align-repeat", "the same alignment request gives another alignment" << ctx());
        c.input(mix(hashStr(show(a) + show(b)), mix(metric, (uint64_t)(ratio * 1e6))), m > 1 || n > 1);
        if (k == 0 && metric == 0) c.sample(path() + ctx());
      }
    }
  }
}
