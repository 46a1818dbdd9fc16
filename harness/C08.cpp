// Warped distances against an independent dynamic program and, for small sizes,
// against the enumeration of all alignments.
#include "common.hpp"
#include <algorithm>
using namespace vh;

static void enumerate(const Row& a, const Row& b, int r, vector<pair<int, int>>& path,
                      const std::function<void(const vector<pair<int, int>>&)>& f) {
  int i = path.back().first, j = path.back().second, m = a.size(), n = b.size();
  if (i == m - 1 && j == n - 1) { f(path); return; }
  static const int di[3] = {1, 0, 1}, dj[3] = {0, 1, 1};
  for (int k = 0; k < 3; k++) {
    int x = i + di[k], y = j + dj[k];
    if (x >= m || y >= n || std::abs(x - y) > r) continue;
    path.push_back({x, y});
    enumerate(a, b, r, path, f);
    path.pop_back();
  }
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  bool tiny = !opt.large() && r.chance(0.5);
  TableSpec sp;
  sp.minRows = 2; sp.maxRows = 4; sp.minLen = 1; sp.maxLen = tiny ? 5 : opt.large() ? 700 : r.chance(0.1) ? 70 : 20;
  if (opt.large()) sp.minLen = 150;
  sp.unevenChance = 0.8;
  Table t = genTable(r, sp);
  rescale(r, {&t});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  Table pos = t;
  for (auto& row : pos.rows) for (auto& v : row) v = std::fabs(v) + 0.25 * unit;
  loadTable(c, api, "p", pos);
  for (int k = 0; k < (opt.large() ? 1 : 4); k++) {
    int i = r.range(0, t.rows.size() - 1), j = r.range(0, t.rows.size() - 1);
    int si = 0, ei = t.rows[i].size(), sj = 0, ej = t.rows[j].size();
    if (r.chance(opt.large() ? 0.2 : 0.6)) { si = r.range(0, ei - 1); ei = r.range(si + 1, ei); sj = r.range(0, ej - 1); ej = r.range(sj + 1, ej); }
    int m = ei - si, n = ej - sj, L = std::max(m, n);
    vector<double> ratios = {0.0, 0.1, 0.25, 0.5, 1.0, 1.5, 1e9, r.real(), (r.range(0, L) + 0.5) / L};
    std::sort(ratios.begin(), ratios.end());
    // until a ratio is set it is 0.1
    static bool set = false;
    if (!set) {
      set = true;
      double u = unit;
      unit = 1;
      Row x, y;
      Rng o(mix(opt.seed, c.caseNo));   // own choices: the case is the same wherever it runs
      int lx = o.range(10, 45), ly = lx + o.range(0, 4);
      x = genRow(o, lx, WALK); y = genRow(o, ly, WALK);
      Table xy; xy.rows = {x, y};
      loadTable(c, api, "initial", xy);
      for (int metric = 0; metric <= CHE; metric++) {
        double d = api.distanceBetween("initial", 0, -1, -1, "initial", 1, -1, -1, string(kMetricName[metric]) + "_dtw"), want = refDTW(metric, x, y, 0.1);
        REQ(c, close(d, want, 1e-9), "dtw-initial", kMetricName[metric] << " warped distance before any ratio is set is " << num(d) << ", with the documented ratio 0.1 it is " << num(want) << " of " << show(x) << " and " << show(y));
      }
      unit = u;
      c.count("initial_ratio");
    }
    Row a = slice(t.rows[i], si, ei), b = slice(t.rows[j], sj, ej);
    Row pa = slice(pos.rows[i], si, ei), pb = slice(pos.rows[j], sj, ej);
    for (int metric = 0; metric < METRICS; metric++) {
      string dn = string(kMetricName[metric]) + "_dtw";
      double last = kInf;
      for (double ratio : ratios) {
        api.setWarpingBandRatio(ratio);
        auto ctx = [&] { return string(" for ") + dn + " ratio " + num(ratio) + " of " + show(metric <= CHE ? a : pa) + " and " + show(metric <= CHE ? b : pb); };
        if (metric <= CHE) {
          double want = refDTW(metric, a, b, ratio);
          double d = api.distanceBetween("d", i, si, ei, "d", j, sj, ej, dn);
          REQ(c, close(d, want, 1e-9), "dtw-value", "warped distance is " << num(d) << " instead of " << num(want) << ctx());
          double e = api.distanceBetween("d", j, sj, ej, "d", i, si, ei, dn);
          REQ(c, close(d, e, 1e-9), "dtw-symmetry", "warped distance is " << num(d) << " one way and " << num(e) << " the other" << ctx());
          REQ(c, std::isinf(last) || d <= last * (1 + 1e-12) + 1e-15 * unit, "dtw-monotone", "warped distance grew from " << num(last) << " to " << num(d) << " with a wider band" << ctx());
          last = d;
          if (a == b) REQ(c, d == 0, "dtw-identity", "warped distance of identical series is " << num(d) << ctx());
          if (std::isinf(want)) c.count("no_alignment_in_band"); else c.count("finite_distances");
          if (m <= 4 && n <= 4 && !std::isinf(want)) {
            double best = kInf;
            vector<pair<int, int>> path = {{0, 0}};
            enumerate(a, b, refBand(m, n, ratio), path, [&](const vector<pair<int, int>>& p) { best = std::min(best, refPathCost(metric, a, b, p)); c.count("alignments_enumerated"); });
            REQ(c, close(d, best, 1e-9), "dtw-enumeration", "warped distance is " << num(d) << ", cheapest of all alignments " << num(best) << ctx());
          }
        } else if (m <= 5 && n <= 5) {
          double d = api.distanceBetween("p", i, si, ei, "p", j, sj, ej, dn);
          int band = refBand(m, n, ratio);
          if (std::abs(m - n) > band) continue;   // no alignment inside the band
          bool hit = false;
          vector<pair<int, int>> path = {{0, 0}};
          enumerate(pa, pb, band, path, [&](const vector<pair<int, int>>& p) { hit = hit || close(d, refPathCost(metric, pa, pb, p), 1e-9); c.count("alignments_enumerated"); });
          REQ(c, hit, "dtw-unachieved", "warped distance " << num(d) << " is not the value of any alignment in the band" << ctx());
        }
        c.input(mix(hashStr(show(a) + show(b)), mix(metric, (uint64_t)(ratio * 1e6))), m > 1 && n > 1);
      }
    }
    if (k == 0) c.sample(show(a) + " vs " + show(b));
  }
}
