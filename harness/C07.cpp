// Lockstep distances against their textbook definitions.
#include "common.hpp"
#include "distance/Distance.hpp"
#include <algorithm>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 4; sp.minLen = 1; sp.maxLen = opt.large() ? 6000 : r.chance(0.1) ? 80 : 14;
  if (opt.large()) sp.minLen = 500;
  Table a = genTable(r, sp), b = genTable(r, sp);
  rescale(r, {&a, &b}, 0.1);
  if (r.chance(0.15)) { double f = std::pow(10, r.chance(0.4) ? r.range(-6, 6) : r.range(-30, 30)); unit *= f; for (auto& row : a.rows) for (auto& v : row) v *= f; for (auto& row : b.rows) for (auto& v : row) v *= f; }
  genex::GenexAPI api;
  loadTable(c, api, "a", a);
  loadTable(c, api, "b", b);
  api.setWarpingBandRatio(r.real());   // must not matter here
  if (c.caseNo % 64 == 0) {
    // every distance is listed once, under the name it is requested by
    std::vector<std::string> listed;
    for (auto& d : api.getAllDistanceInfo()) listed.push_back(d.name);
    for (int m = 0; m < METRICS; m++)
      for (const char* suffix : {"", "_dtw"}) {
        std::string name = std::string(kMetricName[m]) + suffix;
        REQ(c, std::count(listed.begin(), listed.end(), name) == 1, "distance-listing", "distance " << name << " is listed " << std::count(listed.begin(), listed.end(), name) << " times");
      }
    for (auto& name : listed) {
      Outcome o = attempt([&] { api.distanceBetween("a", 0, 0, 1, "a", 0, 0, 1, name); });
      REQ(c, !o.threw, "distance-listing", "listed distance " << name << " is refused: " << o.what);
    }
    c.count("listings_of_distances");
  }
  for (int k = 0; k < (opt.large() ? 3 : 24); k++) {
    bool same = r.chance(0.3);
    const Table& u = a;
    const Table& v = same ? a : b;
    const char* vn = same ? "a" : "b";
    int i = r.range(0, u.rows.size() - 1), j = r.range(0, v.rows.size() - 1);
    if (same && r.chance(0.3)) j = i;
    int L = std::min(u.rows[i].size(), v.rows[j].size());
    int len = r.range(opt.large() ? L / 2 : 1, L);
    int s = r.range(0, u.rows[i].size() - len), q = r.range(0, v.rows[j].size() - len);
    Row x = slice(u.rows[i], s, s + len), y = slice(v.rows[j], q, q + len);
    for (int m = 0; m < METRICS; m++) {
      if (m == COS) {
        double p = 0, w = 0;
        for (double d : x) p += d * d;
        for (double d : y) w += d * d;
        if (p < 1e-100 || w < 1e-100) continue;
      }
      double want = refPairwise(m, x, y);
      double d1 = api.distanceBetween("a", i, s, s + len, vn, j, q, q + len, kMetricName[m]);
      double d2 = api.distanceBetween(vn, j, q, q + len, "a", i, s, s + len, kMetricName[m]);
      auto rel = [&](double g) { return close(g, want, 1e-9) && (std::isinf(want) || std::fabs(g - want) <= 1e-9 * std::fabs(want) + 1e-12 * unit || m == COS); };
      REQ(c, rel(d1), "lockstep-value", kMetricName[m] << " distance of " << show(x) << " and " << show(y) << " is " << num(d1) << " instead of " << num(want));
      REQ(c, rel(d2), "lockstep-symmetry", kMetricName[m] << " distance of " << show(y) << " and " << show(x) << " is " << num(d2) << " instead of " << num(want));
      if (m != COS && x == y) REQ(c, d1 == 0, "lockstep-identity", kMetricName[m] << " distance of identical series is " << num(d1));
      // the same values elsewhere in memory
      Row xs(3, 777.0), ys(1, -777.0);
      xs.insert(xs.end(), x.begin(), x.end()); xs.push_back(5e5);
      ys.insert(ys.end(), y.begin(), y.end()); ys.push_back(-5e5);
      genex::TimeSeries tx(xs.data(), 4, 3, 3 + len), ty(ys.data(), 9, 1, 1 + len);
      double d3 = genex::getDistanceFromName(kMetricName[m])(tx, ty, kInf, genex::gNoMatching);
      REQ(c, close(d3, d1, 1e-12), "lockstep-placement", kMetricName[m] << " distance depends on where the series are stored: " << num(d1) << " vs " << num(d3));
      c.input(mix(hashStr(show(x) + show(y)), m), len > 1);
    }
    if (len > 1) {
      int m = r.range(0, METRICS - 1);
      Outcome o = attempt([&] { api.distanceBetween("a", i, s, s + len, vn, j, q, q + len - 1, kMetricName[m]); });
      REQ(c, o.threw, "lockstep-length", kMetricName[m] << " distance of lengths " << len << " and " << len - 1 << " was computed");
      o = attempt([&] { api.distanceBetween("a", i, s + 1, s + len, vn, j, q, q + len, kMetricName[m]); });
      REQ(c, o.threw, "lockstep-length", kMetricName[m] << " distance of lengths " << len - 1 << " and " << len << " was computed");
      c.count("length_mismatches_refused", 2);
    }
    if (k == 0) c.sample(show(x) + " vs " + show(y));
  }
}
