// Model-based histories: random call sequences over a few dataset names against
// a small model of the session. After every call the listing and attributes must
// be the model's, all other datasets must be exactly as before, and the touched
// dataset must answer like a fresh session brought to the same state.
#include "common.hpp"
#include <algorithm>
#include <memory>
#include <unistd.h>
using namespace vh;

struct Model {
  Table t;               // current values and names
  bool normalized = false, grouped = false, prepared = false;
  bool groupsOld = false;  // values changed after the groups were made
  int metric = 0, block = 0;
  double threshold = 0;
  bool whole = false;
};

static void normalizeModel(Model& m) {
  double lo = kInf, hi = -kInf;
  for (auto& r : m.t.rows) for (double d : r) { lo = std::min(lo, d); hi = std::max(hi, d); }
  for (auto& r : m.t.rows) for (double& d : r) d = hi == lo ? 0 : (d - lo) / (hi - lo);
}

// Now and then a dataset whose rows hold no values at all.
static Table someTable(Rng& r, const TableSpec& sp) {
  Table t = genTable(r, sp);
  if (r.chance(0.05)) for (auto& row : t.rows) row.clear();
  return t;
}

// Hundreds of datasets with unusual names in one session.
static void manyDatasets(Ctx& c) {
  Rng& r = c.rng;
  genex::GenexAPI api;
  map<string, Model> model;
  int n = r.range(150, 500);
  auto name = [&](int k) -> string {
    switch (r.range(0, 9)) {
      case 0: return string(k % 3, ' ');
      case 1: return string(r.range(1, 3000), 'n') + std::to_string(k);
      case 2: return string("z\0", 2) + std::to_string(k);
      case 3: return "\xc3\xa9" + std::to_string(k) + "\n";
      case 4: return std::to_string(k);
      case 5: return "SET" + std::to_string(k);
      case 6: return "set" + std::to_string(k);
      default: return "set " + std::to_string(k);
    }
  };
  uint64_t h = 0;
  auto compare = [&](const string& when) {
    REQ(c, api.getDatasetCount() == (int)model.size(), "many-count", api.getDatasetCount() << " datasets instead of " << model.size() << " " << when);
    auto list = api.getAllDatasetInfo();
    set<string> seen;
    for (auto& i : list) {
      REQ(c, model.count(i.name) && seen.insert(i.name).second, "many-listing", "the listing shows '" << i.name.substr(0, 60) << "' " << when);
      const Model& m = model[i.name];
      REQ(c, i.itemCount == (int)m.t.rows.size() && i.itemLength == m.t.maxLen() && i.isGrouped == m.grouped && i.isNormalized == m.normalized, "many-attributes", "wrong attributes of '" << i.name.substr(0, 60) << "' " << when);
    }
    REQ(c, seen.size() == model.size(), "many-listing", "the listing has " << seen.size() << " entries instead of " << model.size() << " " << when);
    for (auto& kv : model)
      REQ(c, currentTable(api, kv.first).rows == kv.second.t.rows, "many-values", "values of '" << kv.first.substr(0, 60) << "' changed " << when);
  };
  for (int k = 0; k < n; k++) {
    string s = name(k);
    TableSpec sp; sp.maxRows = 3; sp.minLen = 2; sp.maxLen = 5;
    Table t = someTable(r, sp);
    if (model.count(s)) {
      Outcome o = attempt([&] { loadTable(c, api, s, t); });
      REQ(c, o.threw, "many-twice", "'" << s.substr(0, 60) << "' was loaded twice");
      continue;
    }
    loadTable(c, api, s, t);
    Model m; m.t = t;
    if (t.values() == 0) { model[s] = m; c.count("datasets_without_values"); continue; }
    if (r.chance(0.3)) { api.normalizeDataset(s); m.normalized = true; m.t.rows = currentTable(api, s).rows; }
    if (r.chance(0.3)) { api.groupDataset(s, 0.25); m.grouped = true; }
    if (r.chance(0.2)) api.preparePAA(s, 2);
    model[s] = m;
    h = mix(h, hashTable(t));
    if (k % 100 == 99) compare("after loading " + std::to_string(k + 1));
  }
  compare("after loading all");
  while (model.size() > 20) {
    auto it = std::next(model.begin(), r.range(0, (int)model.size() - 1));
    string s = it->first;
    api.unloadDataset(s);
    model.erase(it);
    Outcome o = attempt([&] { api.unloadDataset(s); });
    REQ(c, o.threw, "many-gone", "'" << s.substr(0, 60) << "' can be unloaded twice");
    if (model.size() % 50 == 0) compare("after unloading down to " + std::to_string(model.size()));
  }
  compare("after unloading most");
  c.count("datasets_in_one_session", n);
  c.input(h, true);
  c.sample(std::to_string(n) + " datasets");
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  if (r.chance(0.0015)) return manyDatasets(c);
  genex::GenexAPI api;
  vector<string> pool = {"a", "b", "ab", "set 2"};
  map<string, Model> model;
  map<string, string> saved;   // group file -> state of the groups it holds
  string history;
  string gfile = c.file("g.bin"), gtext = c.file("g.txt"), dfile = c.file("d.txt");
  string savedFor[2];          // model key of the saved group files
  struct SavedGroups { bool valid = false; Table t; int metric = 0; double threshold = 0; string canon; } sg[2];
  int steps = r.range(6, 18);
  double ratio = 0.1;
  api.setWarpingBandRatio(ratio);
  uint64_t h = 0;
  // a second session in the same process that uses the same names for other data
  std::unique_ptr<genex::GenexAPI> neighbour;
  string nbState;
  vector<string> nbNames;
  auto neighbourState = [&] { string s; for (auto& k : nbNames) s += datasetState(c, *neighbour, k) + datasetAnswers(c, *neighbour, k); return s; };
  if (r.chance(0.25)) {
    neighbour.reset(new genex::GenexAPI());
    for (auto& k : pool) {
      if (r.chance(0.5)) continue;
      TableSpec sp; sp.maxRows = 5; sp.minLen = 2; sp.maxLen = 8;
      loadTable(c, *neighbour, k, genTable(r, sp));
      if (r.chance(0.3)) neighbour->normalizeDataset(k);
      if (r.chance(0.6)) neighbour->groupDataset(k, r.range(1, 40) / 32.0, kMetricName[r.range(0, 2)]);
      if (r.chance(0.5)) neighbour->preparePAA(k, r.range(1, 4));
      nbNames.push_back(k);
    }
    nbState = neighbourState();
    c.count("histories_beside_another_session");
  }
  for (int s = 0; s < steps; s++) {
    map<string, string> before;
    for (auto& kv : model) before[kv.first] = datasetState(c, api, kv.first) + datasetAnswers(c, api, kv.first);
    string n = pool[r.range(0, 3)];
    int op = r.range(0, 11);
    if (model.empty()) op = 0;
    bool have = model.count(n) > 0;
    if (op != 0 && !have) { n = std::next(model.begin(), r.range(0, (int)model.size() - 1))->first; have = true; }
    if (op >= 2 && op <= 8 && model[n].t.values() == 0) op = 11;   // nothing to normalize or group
    string did, touched = n;
    if (op <= 1) {
      if (have) {
        api.unloadDataset(n);
        model.erase(n);
        did = "unload " + n;
        if (r.chance(0.5)) {
          // same name again at once: everything derived must be gone
          TableSpec sp; sp.maxRows = 5; sp.minLen = 2; sp.maxLen = 8;
          Model m; m.t = someTable(r, sp);
          loadTable(c, api, n, m.t);
          model[n] = m;
          did += " and load again";
          Outcome o = attempt([&] { api.getKBestMatchesPAA(1, n, n, 0); });
          REQ(c, o.threw, "stale-reduced", "after unload and reload the dataset still answers reduced queries; history:" << history << did);
        }
      } else {
        TableSpec sp; sp.maxRows = 5; sp.minLen = 2; sp.maxLen = 8;
        Model m; m.t = someTable(r, sp);
        if (r.chance(0.3)) for (size_t k = 0; k < m.t.rows.size(); k++) m.t.names.push_back("x" + std::to_string(r.range(0, 99)));
        loadTable(c, api, n, m.t);
        model[n] = m;
        did = "load " + n;
        if (m.t.values() == 0) { did += " without values"; c.count("datasets_without_values"); }
      }
    } else if (op == 2) {
      Model& m = model[n];
      api.normalizeDataset(n);
      normalizeModel(m);
      m.normalized = true;
      if (m.grouped) m.groupsOld = true;
      did = "normalize " + n;
    } else if (op <= 5) {
      Model& m = model[n];
      if (!m.grouped || !r.chance(0.3)) {   // otherwise the same settings again
        m.metric = r.range(0, METRICS - 1);
        if (m.metric == COS) m.metric = EUC;
        m.threshold = r.chance(0.2) ? 0 : r.range(1, 40) / 32.0;
        m.whole = r.chance(0.2);
      }
      int th = r.range(1, 3);
      int cnt = api.groupDataset(n, m.threshold, kMetricName[m.metric], th, m.whole);
      m.grouped = true; m.groupsOld = false;
      did = "group " + n + " " + kMetricName[m.metric] + " threads " + std::to_string(th);
      REQ(c, cnt == (int)observeGroups(c, api, n).groups.size(), "group-count", "returned group count differs from the groups; history:" << history << did);
    } else if (op == 6) {
      Model& m = model[n];
      if (!m.prepared || !r.chance(0.3)) m.block = r.range(1, 4);
      m.prepared = true;
      api.preparePAA(n, m.block);
      did = "prepare " + n + " " + std::to_string(m.block);
    } else if (op == 7) {
      Model& m = model[n];
      int txt = r.range(0, 1);
      if (m.grouped && !m.groupsOld) {
        txt ? api.saveGroupsOld(n, gtext, false) : api.saveGroups(n, gfile);
        sg[txt].valid = true; sg[txt].t = m.t; sg[txt].metric = m.metric; sg[txt].threshold = m.threshold;
        sg[txt].canon = canonical(observeGroups(c, api, n), false);
        did = string("save groups of ") + n + (txt ? " as text" : "");
      } else { api.saveDataset(n, dfile, ' '); did = "save dataset " + n; }
    } else if (op == 8) {
      int txt = r.range(0, 1);
      // restore into a dataset with the same values, if there is one
      did = "skip";
      if (sg[txt].valid)
        for (auto& kv : model)
          if (kv.second.t.rows == sg[txt].t.rows) {
            n = touched = kv.first;
            int cnt = txt ? api.loadGroupsOld(n, gtext) : api.loadGroups(n, gfile);
            Model& m = kv.second;
            m.grouped = true; m.groupsOld = false; m.metric = sg[txt].metric; m.threshold = sg[txt].threshold;
            did = string("restore groups of ") + n + (txt ? " from text" : "");
            auto g = observeGroups(c, api, n);
            REQ(c, canonical(g, false) == sg[txt].canon, "restore", "restored groups differ from the saved ones: " << firstDiff(sg[txt].canon, canonical(g, false)) << "; history:" << history << did);
            REQ(c, cnt == (int)g.groups.size(), "restore-count", "restored group count is wrong; history:" << history << did);
            break;
          }
    } else if (op == 9) {
      // queries across datasets
      Model& m = model[n];
      string q = std::next(model.begin(), r.range(0, (int)model.size() - 1))->first;
      attempt([&] { api.getBestMatch(n, q, 0); });
      attempt([&] { api.getKBestMatches(2, 4, n, q, 0); });
      attempt([&] { api.getKBestMatchesBruteForce(2, n, q, 0); });
      attempt([&] { api.matchingBetween(n, 0, -1, -1, q, 0, -1, -1, "euclidean_dtw"); });
      api.getAllDistanceInfo();
      did = "query " + n + " with " + q;
      (void)m;
    } else if (op == 10) {
      attempt([&] { api.loadDataset(n, c.file("missing")); });
      attempt([&] { api.groupDataset(n, 0.2, "nonsense"); });
      did = "refused calls on " + n;
    } else {
      if (r.chance(0.15)) {
        api.unloadAllDataset();
        model.clear();
        did = "unload all";
      } else did = "nothing";
    }
    history += " " + did + ";";
    h = mix(h, hashStr(did));
    if (neighbour && r.chance(0.3)) {
      REQ(c, neighbour->getDatasetCount() == (int)nbNames.size(), "session-count", "another session has " << neighbour->getDatasetCount() << " datasets instead of " << nbNames.size() << "; history:" << history);
      string now = neighbourState();
      REQ(c, now == nbState, "session-cross-talk", "another session changed: " << firstDiff(nbState, now) << "; history:" << history);
      if (r.chance(0.2)) { neighbour.reset(); history += " end of the other session;"; }
    }
    // listing
    REQ(c, api.getDatasetCount() == (int)model.size(), "count", "dataset count is " << api.getDatasetCount() << " instead of " << model.size() << "; history:" << history);
    auto list = api.getAllDatasetInfo();
    REQ(c, list.size() == model.size(), "listing", "listing has " << list.size() << " entries instead of " << model.size() << "; history:" << history);
    set<string> seen;
    for (auto& i : list) {
      REQ(c, model.count(i.name) && seen.insert(i.name).second, "listing-name", "listing shows '" << i.name << "'; history:" << history);
      const Model& m = model[i.name];
      auto j = api.getDatasetInfo(i.name);
      for (auto& x : {i, j}) {
        REQ(c, x.name == i.name && x.itemCount == (int)m.t.rows.size() && x.itemLength == m.t.maxLen(), "attr-shape", "wrong shape reported for " << i.name << "; history:" << history);
        REQ(c, x.isNormalized == m.normalized, "attr-normalized", "wrong normalized flag for " << i.name << ": " << x.isNormalized << "; history:" << history);
        REQ(c, x.isGrouped == m.grouped, "attr-grouped", "wrong grouped flag for " << i.name << "; history:" << history);
        REQ(c, x.distance == (m.grouped ? kMetricName[m.metric] : ""), "attr-distance", "wrong distance '" << x.distance << "' for " << i.name << "; history:" << history);
        REQ(c, x.threshold == (m.grouped ? m.threshold : 0), "attr-threshold", "wrong threshold " << num(x.threshold) << " instead of " << num(m.threshold) << " for " << i.name << "; history:" << history);
      }
    }
    // other datasets are untouched, bit by bit
    for (auto& kv : before) {
      if (kv.first == touched && op != 9 && op != 10 && op != 7) continue;
      if (!model.count(kv.first)) continue;
      string now = datasetState(c, api, kv.first) + datasetAnswers(c, api, kv.first);
      REQ(c, now == kv.second, "cross-talk", "'" << did << "' changed dataset " << kv.first << ": " << firstDiff(kv.second, now) << "; history:" << history);
    }
    // values and names of the touched dataset
    if (model.count(touched)) {
      const Model& m = model[touched];
      for (size_t i = 0; i < m.t.rows.size(); i++) {
        Row v = values(api.getTimeSeries(touched, i, -1, -1));
        REQ(c, v.size() == m.t.rows[i].size(), "values", "series " << i << " of " << touched << " has another length; history:" << history);
        for (size_t j = 0; j < v.size(); j++)
          REQ(c, close(v[j], m.t.rows[i][j], 1e-9), "values", "value " << i << "," << j << " of " << touched << " is " << num(v[j]) << " instead of " << num(m.t.rows[i][j]) << "; history:" << history);
        string nm = m.t.names.empty() ? std::to_string(i) : m.t.names[i];
        REQ(c, api.getTimeSeriesName(touched, i) == nm, "names", "series " << i << " of " << touched << " is named " << api.getTimeSeriesName(touched, i) << "; history:" << history);
      }
      model[touched].t.rows = currentTable(api, touched).rows;   // same bits from here on
    }
  }
  // each dataset must behave like one brought to the same state in a new session
  for (auto& kv : model) {
    const Model& m = kv.second;
    if (m.grouped && m.groupsOld) continue;
    if (m.grouped && !sortable(m.metric)) continue;
    genex::GenexAPI fresh;
    loadTable(c, fresh, kv.first, m.t);
    if (m.grouped) fresh.groupDataset(kv.first, m.threshold, kMetricName[m.metric], 1, false);
    if (m.prepared) fresh.preparePAA(kv.first, m.block);
    if (m.grouped) {
      auto a = observeGroups(c, api, kv.first);
      if (a.lenFrom + 1 == a.lenTo && a.lenFrom != 2) fresh.groupDataset(kv.first, m.threshold, kMetricName[m.metric], 1, true);
      string x = canonical(observeGroups(c, fresh, kv.first)), y = canonical(a);
      REQ(c, x == y, "history-dependent-groups", "groups of " << kv.first << " differ from those made in a new session: " << firstDiff(x, y) << "; history:" << history);
    }
    for (size_t q = 0; q < m.t.rows.size(); q++) {
      if (m.t.rows[q].size() < 2) continue;
      auto dists = [&](genex::GenexAPI& a) {
        string s;
        Outcome o = attempt([&] { s += num(a.getBestMatch(kv.first, kv.first, q).dist) + " "; });
        if (o.threw) s += "refused ";
        o = attempt([&] { for (auto& x : a.getKBestMatchesPAA(3, kv.first, kv.first, q)) s += num(x.dist) + " "; });
        if (o.threw) s += "refused ";
        for (auto& x : a.getKBestMatchesBruteForce(3, kv.first, kv.first, q)) s += num(x.dist) + " ";
        return s;
      };
      string x = dists(fresh), y = dists(api);
      REQ(c, x == y, "history-dependent-answers", "answers about " << kv.first << " series " << q << " are " << y << "; in a new session " << x << "; history:" << history);
    }
  }
  api.unloadAllDataset();
  REQ(c, api.getDatasetCount() == 0 && api.getAllDatasetInfo().empty(), "unload-all", "datasets remain after unloading all");
  for (auto& f : {gfile, gtext, dfile}) unlink(f.c_str());
  c.count("calls", steps);
  c.input(h, steps > 2);
  c.sample(history);
}
