// Replays the placement of every subsequence against the observed groups.
#include "common.hpp"
#include <algorithm>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 2; sp.maxRows = 8; sp.minLen = 2; sp.maxLen = r.chance(0.1) ? 20 : 8; sp.unevenChance = 0.5;
  if (opt.large()) { sp.maxRows = r.chance(0.3) ? 120 : 16; sp.maxLen = sp.maxRows > 16 ? 8 : 45; }
  int style;
  Table t = genTable(r, sp, &style);
  rescale(r, {&t});
  bool exactData = style == INTS || style == DYADIC || style == ZEROISH || style == CONSTANT;
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  t = currentTable(api, "d");
  if (r.chance(0.2)) { api.normalizeDataset("d"); t = currentTable(api, "d"); unit = 1; }
  int lastMetric = 0;
  bool lastWhole = false;
  double lastT = 0;
  for (int round = 0; round < 2; round++) {
    int metric = r.chance(0.8) ? r.range(0, CHE) : r.range(COS, SOR);
    bool whole = r.chance(0.2);
    // the same settings again, also for other values
    bool again = round > 0 && r.chance(0.4);
    if (again) { metric = lastMetric; whole = lastWhole; }
    if (round > 0 && r.chance(0.3)) {
      if (r.chance(0.5)) { api.normalizeDataset("d"); unit = 1; }
      else {
        api.unloadDataset("d");
        t = genTable(r, sp, &style);
        rescale(r, {&t});
        exactData = style == INTS || style == DYADIC || style == ZEROISH || style == CONSTANT;
        loadTable(c, api, "d", t);
      }
      t = currentTable(api, "d");
      if (again) c.count("same_settings_for_other_values");
    }
    // often exactly twice some distance
    double T;
    int i = r.range(0, t.rows.size() - 1), j = r.range(0, t.rows.size() - 1);
    int len = r.range(2, std::min(t.rows[i].size(), t.rows[j].size()));
    if (whole) len = std::min(t.rows[i].size(), t.rows[j].size());
    double d = refPairwise(metric, slice(t.rows[i], 0, len), slice(t.rows[j], t.rows[j].size() - len, t.rows[j].size()));
    switch (r.range(0, 4)) {
      case 0: T = 0; break;
      case 1: T = std::isfinite(d) ? 2 * d : unit; break;
      case 2: T = std::isfinite(d) ? 2 * d * r.real(0.5, 1.5) : unit; break;
      default: T = unit * r.range(1, 40) / 32.0;
    }
    if (again) T = lastT;
    lastMetric = metric; lastWhole = whole; lastT = T;
    int threads = r.chance(0.7) ? 1 : r.range(2, 6);
    api.groupDataset("d", T, kMetricName[metric], threads, whole);
    GroupFile g = observeGroups(c, api, "d");
    std::ostringstream cs;
    cs << kMetricName[metric] << " T=" << num(T) << (whole ? " whole" : "") << " threads=" << threads << ": " << describe(t);
    string ctx = cs.str();
    double half = T / 2;
    map<int, vector<const GroupObs*>> byLen;
    for (auto& o : g.groups) byLen[o.length].push_back(&o);
    for (auto& bl : byLen) {
      int L = bl.first;
      auto& gs = bl.second;
      int n = gs.size();
      auto key = [](pair<int, int> m) { return std::make_pair(m.second, m.first); };   // start, then series
      vector<pair<int, int>> founder(n);
      vector<Row> rep(n);
      map<pair<int, int>, int> groupOf;   // (start,series) -> group
      for (int q = 0; q < n; q++) {
        pair<int, int> first = gs[q]->members[0];
        bool repIsMember = false;
        for (auto& m : gs[q]->members) {
          if (key(m) < key(first)) first = m;
          groupOf[key(m)] = q;
          Row v = slice(t.rows[m.first], m.second, m.second + L);
          bool same = true;
          for (int k = 0; k < L; k++) same = same && std::fabs(v[k] - gs[q]->centroid[k]) <= 1e-12 * std::fabs(v[k]) + 1e-300;
          if (same) repIsMember = true;
        }
        REQ(c, repIsMember, "place-rep", "the representative of group " << q << " of length " << L << " is no member; " << ctx);
        founder[q] = key(first);
        rep[q] = slice(t.rows[first.first], first.second, first.second + L);
        if (sortable(metric)) {
          bool same = true;
          for (int k = 0; k < L; k++) same = same && std::fabs(rep[q][k] - gs[q]->centroid[k]) <= 1e-12 * std::fabs(rep[q][k]) + 1e-300;
          REQ(c, same, "place-founder", "group " << q << " of length " << L << " is represented by " << show(gs[q]->centroid) << ", its first member is " << show(rep[q]) << "; " << ctx);
        } else {
          rep[q] = gs[q]->centroid;
        }
      }
      auto tolAt = [&](double x) { return 1e-9 * std::fabs(x) + 1e-12 * unit; };
      auto exact = [&](double x, const Row& a, const Row& b) {
        if (!exactData || style == CONSTANT) return false;
        if (metric == CHE) return true;
        if (metric == MAN) return (L & (L - 1)) == 0;
        if (metric == EUC) { double s = 0; for (int k = 0; k < L; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return (L & (L - 1)) == 0 && x * x * L == s && std::floor(x / unit * 4096) == x / unit * 4096; }
        return false;
      };
      for (auto& e : groupOf) {
        int start = e.first.first, idx = e.first.second, mine = e.second;
        Row x = slice(t.rows[idx], start, start + L);
        string who = "subsequence " + std::to_string(idx) + "," + std::to_string(start) + " of length " + std::to_string(L);
        bool founds = founder[mine] == e.first;
        if (!sortable(metric)) {
          if (x == rep[mine]) continue;
          double dm = refPairwise(metric, x, rep[mine]);
          bool isRep = true;
          for (int k = 0; k < L; k++) isRep = isRep && std::fabs(x[k] - rep[mine][k]) <= 1e-12 * std::fabs(x[k]) + 1e-300;
          if (!isRep) REQ(c, dm <= half + tolAt(half) + 1e-9, "place-radius", who << " is " << num(dm) << " from its representative, limit " << num(half) << "; " << ctx);
          continue;
        }
        double dm = refPairwise(metric, x, rep[mine]);
        if (!founds) {
          REQ(c, dm <= half + tolAt(half), "place-radius", who << " is " << num(dm) << " from its representative, limit " << num(half) << "; " << ctx);
          if (dm == half) c.count("joined_exactly_at_limit");
          c.count("joined");
        } else c.count("founded");
        for (int q = 0; q < n; q++) {
          if (q == mine || !(founder[q] < e.first)) continue;
          double dq = refPairwise(metric, x, rep[q]);
          if (founds) {
            bool near = exact(dq, x, rep[q]) ? dq <= half : dq < half - tolAt(half);
            REQ(c, !near, "place-needless", who << " founds a group although representative " << show(rep[q]) << " is at " << num(dq) << ", limit " << num(half) << "; " << ctx);
          } else {
            REQ(c, dq >= dm - tolAt(dm), "place-nearest", who << " joined a group at " << num(dm) << " although representative " << show(rep[q]) << " is at " << num(dq) << "; " << ctx);
          }
        }
        c.evals();
      }
      c.input(mix(hashTable(t), mix(hashStr(ctx), L)), groupOf.size() > 1);
    }
    if (round == 0) c.sample(ctx);
  }
}
