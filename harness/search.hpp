// Judging of search results against references.
#pragma once
#include "common.hpp"
#include <algorithm>

namespace vh {

// the largest error of a correctly computed distance
inline double slack(double d) { return 1e-9 * (unit + std::fabs(d)); }

// a query: where it comes from and its values
struct Query {
  string from;
  int index, start, end;
  Row v;
};
inline Query pickQuery(Rng& r, genex::GenexAPI& api, const vector<string>& names, int minLen) {
  Query q;
  for (int tries = 0; tries < 200; tries++) {
    q.from = r.pick(names);
    q.index = r.range(0, api.getDatasetInfo(q.from).itemCount - 1);
    Row row = values(api.getTimeSeries(q.from, q.index, -1, -1));
    int n = row.size();
    if (n < minLen) continue;
    if (r.chance(0.2)) { q.start = q.end = -1; q.v = row; return q; }
    int len = r.range(minLen, n);
    q.start = r.range(0, n - len);
    q.end = q.start + len;
    q.v = slice(row, q.start, q.end);
    return q;
  }
  q.index = -1;
  return q;
}
inline double pickRatio(Rng& r, int len) {
  switch (r.range(0, 5)) {
    case 0: return 0.1;
    case 1: return 0;
    case 2: return 1;
    case 3: return (r.range(0, len) + 0.5) / len;
    default: return r.real();
  }
}
inline bool lengthsFit(int l, int q, double ratio) { return std::abs(l - q) <= refBand(l, q, ratio); }

// identity, values, true distances, order and distinctness of a result list;
// measure gives the exact distance of a subsequence of the target
inline void judgeList(Ctx& c, const Cands& got, const Table& t, const std::function<double(const Row&)>& measure, const string& ctx) {
  set<string> ids;
  double last = -kInf;
  for (auto& g : got) {
    int i = g.data.getIndex(), s = g.data.getStart(), e = g.data.getEnd();
    REQ(c, i >= 0 && i < (int)t.rows.size() && s >= 0 && s < e && e <= (int)t.rows[i].size(), "invented", "result " << show(g) << " does not exist; " << ctx);
    Row v = slice(t.rows[i], s, e);
    REQ(c, values(g.data) == v, "result-values", "result " << show(g) << " carries other values than its position; " << ctx);
    bool fresh = ids.insert(std::to_string(i) + "," + std::to_string(s) + "," + std::to_string(e)).second;
    REQ(c, fresh, "duplicate", "result " << show(g) << " appears twice; " << ctx);
    double d = measure(v);
    REQ(c, close(d, g.dist, 1e-9), "result-distance", "result " << show(g) << " really has distance " << num(d) << "; " << ctx);
    REQ(c, g.dist >= last - 1e-12 * (unit + std::fabs(last)) || std::isinf(g.dist), "result-order", "results are not sorted: " << show(got) << "; " << ctx);
    last = g.dist;
  }
}
// the distances of the results are the smallest of those given
inline void judgeSmallest(Ctx& c, const Cands& got, vector<double> all, const string& ctx) {
  std::sort(all.begin(), all.end());
  for (size_t k = 0; k < got.size(); k++)
    REQ(c, got[k].dist == all[k] || std::fabs(got[k].dist - all[k]) <= slack(all[k]), "not-closest",
        "result " << k << " is " << show(got[k]) << " but the distance at this rank is " << num(all[k]) << "; " << ctx);
}

}  // namespace vh
