// k-best search against the rule that selects what is examined.
#include "search.hpp"
#include <unistd.h>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 6; sp.minLen = 2; sp.maxLen = r.chance(0.15) ? 20 : 9; sp.unevenChance = 0.5;
  if (opt.large()) { sp.maxRows = 16; sp.maxLen = 45; }
  bool longRows = opt.large() && r.chance(0.3);   // grouped as whole series only
  if (longRows) { sp.maxRows = 40; sp.minLen = 150; sp.maxLen = 400; sp.unevenChance = 0.2; }
  Table t = genTable(r, sp);
  TableSpec sq = sp;
  sq.minLen = longRows ? 150 : 1; sq.maxLen += r.range(0, 5);
  Table o = genTable(r, sq);
  rescale(r, {&t, &o});
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  loadTable(c, api, "q", o);
  int metric = r.chance(0.6) ? EUC : r.range(MAN, CHE);
  bool whole = longRows || r.chance(0.15);
  double T = r.chance(0.1) ? 0 : r.chance(0.1) ? 1e6 : unit * r.range(1, 48) / 32.0;
  api.groupDataset("d", T, kMetricName[metric], r.chance(0.8) ? 1 : 3, whole);
  int history = r.range(0, 4);
  if (history == 1) {
    for (double ratio : {0.1, 0.4, 1.0}) { api.setWarpingBandRatio(ratio); attempt([&] { api.getKBestMatches(2, 3, "d", "q", 0, -1, -1); }); }
    api.normalizeDataset("d");
  }
  if (history == 2) { string f = c.file("g"); api.saveGroups("d", f); api.loadGroups("d", f); unlink(f.c_str()); }
  if (api.getDatasetInfo("d").isNormalized) unit = std::max(unit, 1.0);
  t = currentTable(api, "d");
  GroupFile g = observeGroups(c, api, "d");
  for (int it = 0; it < 10; it++) {
    Query q = pickQuery(r, api, {"d", "q"}, 1);
    if (q.index < 0) continue;
    double ratio = pickRatio(r, std::max<int>(q.v.size(), t.maxLen()));
    api.setWarpingBandRatio(ratio);
    struct G { double d; size_t i; };
    vector<G> gs;
    long pop = 0;
    for (size_t x = 0; x < g.groups.size(); x++)
      if (lengthsFit(g.groups[x].length, q.v.size(), ratio)) { gs.push_back({refDTW(metric, g.groups[x].centroid, q.v, ratio), x}); pop += g.groups[x].members.size(); }
    std::sort(gs.begin(), gs.end(), [](const G& a, const G& b) { return a.d < b.d; });
    int ke = r.chance(0.02) ? r.range(100000, 1000000) : r.chance(0.1) ? pop + r.range(0, 5) : r.chance(0.4) ? r.range(1, 6) : r.range(1, (int)std::max<long>(1, pop));
    if (r.chance(0.3) && !gs.empty()) {   // exactly at, just before or after a group boundary
      long cum = 0; int stop = r.range(0, gs.size() - 1);
      for (int x = 0; x <= stop; x++) cum += g.groups[gs[x].i].members.size();
      ke = cum + r.range(-1, 1);
    }
    ke = std::max(ke, 1);
    int k = r.chance(0.3) ? ke : r.range(1, ke);
    std::ostringstream cs;
    cs << kMetricName[metric] << " T=" << T << (whole ? " whole" : "") << " history " << history << ", k=" << k << " ke=" << ke << " ratio " << num(ratio) << ", query " << q.from << " " << q.index << "[" << q.start << "," << q.end << "), population " << pop << ", " << describe(t);
    string ctx = cs.str();
    auto measure = [&](const Row& v) { return refDTW(metric, q.v, v, ratio); };
    Cands got;
    Outcome oc = attempt([&] { got = q.start < 0 && q.index % 2 ? api.getKBestMatches(k, ke, "d", q.from, q.index) : api.getKBestMatches(k, ke, "d", q.from, q.index, q.start, q.end); });
    REQ(c, !oc.threw, "kbest-refused", "query was refused (" << oc.what << "); " << ctx);
    REQ(c, (long)got.size() == std::min<long>(k, pop), "kbest-count", got.size() << " results; " << ctx);
    judgeList(c, got, t, measure, ctx);
    // examined set
    vector<double> all;
    long cum = 0;
    size_t x = 0;
    bool tie = false;
    for (; x < gs.size() && cum < ke; x++) {
      vector<double> ds;
      for (auto& m : g.groups[gs[x].i].members) ds.push_back(measure(slice(t.rows[m.first], m.second, m.second + g.groups[gs[x].i].length)));
      std::sort(ds.begin(), ds.end());
      if (cum + (long)ds.size() >= ke && pop > ke) {
        ds.resize(ke - cum);
        for (size_t y = 0; y < gs.size(); y++) if (y != x && std::fabs(gs[y].d - gs[x].d) <= slack(gs[x].d)) tie = true;
        cum = ke;
      } else cum += ds.size();
      all.insert(all.end(), ds.begin(), ds.end());
    }
    if (!tie) {
      judgeSmallest(c, got, all, ctx);
      c.count("selections_judged");
      if (ke < pop) c.count("partial_examinations_judged");
    } else c.count("ties_between_groups");
    if (pop < k) c.count("more_requested_than_exist");
    c.input(mix(hashTable(t), hashStr(ctx)), pop > 1);
    if (it == 0) c.sample(ctx);
  }
}
