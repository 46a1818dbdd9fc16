// Normalization against an independent min-max computation.
#include "common.hpp"
#include <algorithm>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.maxRows = r.chance(0.1) ? 60 : 7; sp.minLen = 0; sp.maxLen = r.chance(0.1) ? 60 : 10; sp.allowEmptyRows = true;
  if (opt.large()) {
    bool tall = r.chance(0.5);
    sp.minRows = tall ? 65500 : 1; sp.maxRows = tall ? 70000 : 3;
    sp.minLen = tall ? 0 : 65500; sp.maxLen = tall ? 3 : 70000;
    sp.unevenChance = 0.3;
  }
  Table t = genTable(r, sp);
  if (t.values() == 0) t.rows[0].push_back(3);
  // shifts keep zero (the padding of short rows) away from the value range
  int shift = r.range(0, 4);
  double off = shift == 0 ? 0 : shift == 1 ? 50 : shift == 2 ? -50 : shift == 3 ? r.real(-5000, 5000) : 0;
  double scale = shift == 4 ? std::pow(10, r.range(-8, 12)) : 1;
  for (auto& row : t.rows) for (auto& v : row) v = v * scale + off;
  if (r.chance(0.15)) { double k = r.range(-3, 3); for (auto& row : t.rows) for (auto& v : row) v = k; }
  // put an extreme value at a chosen place
  if (r.chance(0.5)) {
    vector<pair<int, int>> cells;
    for (size_t i = 0; i < t.rows.size(); i++) for (size_t j = 0; j < t.rows[i].size(); j++) cells.push_back({i, j});
    auto p = cells[r.chance(0.5) ? cells.size() - 1 : r.range(0, cells.size() - 1)];
    t.rows[p.first][p.second] += (r.chance(0.5) ? 1 : -1) * scale * r.real(1, 300);
  }
  if (r.chance(0.4)) for (size_t i = 0; i < t.rows.size(); i++) t.names.push_back("n" + std::to_string(i * 3));
  TableSpec os; os.minLen = 2;
  Table other = genTable(r, os);
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  loadTable(c, api, "o", other);
  if (r.chance(0.3)) api.groupDataset("o", 0.3);
  if (r.chance(0.3) && t.maxLen() >= 2 && !opt.large()) api.groupDataset("d", 0.3, "euclidean", 1, t.values() > 400);
  if (r.chance(0.3)) api.preparePAA("d", 2);
  string where = describe(t);
  string otherBefore = datasetState(c, api, "o") + datasetAnswers(c, api, "o");
  Table cur = t;
  int rounds = r.chance(0.3) ? 3 : 1;
  for (int k = 0; k < rounds; k++) {
    double lo = kInf, hi = -kInf;
    for (auto& row : cur.rows) for (double v : row) { lo = std::min(lo, v); hi = std::max(hi, v); }
    auto mm = api.normalizeDataset("d");
    REQ(c, mm.first == lo && mm.second == hi, "norm-minmax", "returned min/max " << num(mm.first) << "/" << num(mm.second) << " instead of " << num(lo) << "/" << num(hi) << " in round " << k << "; " << where);
    Table now = currentTable(api, "d");
    REQ(c, now.rows.size() == cur.rows.size(), "norm-count", "series count changed; " << where);
    double nlo = kInf, nhi = -kInf;
    vector<pair<double, double>> byOld;
    for (size_t i = 0; i < cur.rows.size(); i++) {
      REQ(c, now.rows[i].size() == cur.rows[i].size(), "norm-length", "length of series " << i << " changed; " << where);
      string nm = t.names.empty() ? std::to_string(i) : t.names[i];
      REQ(c, api.getTimeSeriesName("d", i) == nm, "norm-name", "name of series " << i << " changed; " << where);
      for (size_t j = 0; j < cur.rows[i].size(); j++) {
        double v = cur.rows[i][j], w = hi == lo ? 0 : (v - lo) / (hi - lo), g = now.rows[i][j];
        REQ(c, std::fabs(g - w) <= 1e-9, "norm-value", "value " << i << "," << j << " " << num(v) << " became " << num(g) << " instead of " << num(w) << " in round " << k << "; " << where);
        nlo = std::min(nlo, g); nhi = std::max(nhi, g);
        byOld.push_back({v, g});
      }
    }
    REQ(c, nlo >= -1e-12 && nhi <= 1 + 1e-12, "norm-range", "values leave [0,1]: " << num(nlo) << ".." << num(nhi) << "; " << where);
    std::sort(byOld.begin(), byOld.end());
    for (size_t i = 1; i < byOld.size(); i++)
      REQ(c, byOld[i - 1].second <= byOld[i].second + 1e-15, "norm-order", "order of " << num(byOld[i - 1].first) << " and " << num(byOld[i].first) << " is reversed; " << where);
    auto info = api.getDatasetInfo("d");
    REQ(c, info.isNormalized && info.itemCount == (int)t.rows.size() && info.itemLength == t.maxLen(), "norm-info", "attributes after normalizing are wrong; " << where);
    cur = now;
  }
  string otherAfter = datasetState(c, api, "o") + datasetAnswers(c, api, "o");
  REQ(c, otherBefore == otherAfter, "norm-crosstalk", "normalizing changed another dataset: " << firstDiff(otherBefore, otherAfter));
  REQ(c, !api.getDatasetInfo("o").isNormalized, "norm-flag", "another dataset reports itself normalized");
  c.count("values_compared", t.values() * rounds);
  c.input(hashTable(t), t.values() > 1);
  c.sample(where);
}
