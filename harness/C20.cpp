// Repeated questions in changing surroundings; memory over many repetitions.
#include "search.hpp"
#include <unistd.h>
using namespace vh;

struct Question {
  string what;
  double ratio;
  std::function<string()> ask;
};

static string showPath(const genex::matching_t& p) {
  string s;
  for (auto& x : p) s += "(" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
  return s;
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  bool memory = opt.mode.find("memory") != string::npos;
  TableSpec sp;
  sp.minRows = 2; sp.maxRows = opt.mode == "often" ? 3 : 5; sp.minLen = 2; sp.maxLen = memory ? 8 : opt.mode == "often" ? 4 : r.chance(0.2) ? 16 : 9; sp.unevenChance = 0.5;
  genex::GenexAPI api;
  Table a = genTable(r, sp), b = genTable(r, sp), o = genTable(r, sp);
  rescale(r, {&a, &b, &o}, 0.1);
  loadTable(c, api, "a", a);
  loadTable(c, api, "b", b);
  loadTable(c, api, "other", o);
  int metric = r.chance(0.5) ? EUC : r.range(0, METRICS - 1);
  api.groupDataset("a", r.range(0, 40) / 32.0, kMetricName[metric], r.chance(0.7) ? 1 : 3, r.chance(0.2));
  bool bGrouped = r.chance(0.5);
  if (bGrouped) api.groupDataset("b", r.range(0, 40) / 32.0, kMetricName[r.range(0, METRICS - 1)]);
  api.preparePAA("a", r.range(1, 4));
  vector<Question> qs;
  auto ratio = [&] { return pickRatio(r, 10); };
  for (int k = 0; k < (memory || opt.mode == "often" ? 1 : 2); k++) {
    Query q1 = pickQuery(r, api, {"a", "b"}, 2), q2 = pickQuery(r, api, {"a", "b"}, 2), q3 = pickQuery(r, api, {"a", "b"}, 2);
    int k1 = r.range(1, 5), ke = k1 + r.range(0, 6), mq = r.range(0, METRICS - 1), mb = r.range(0, METRICS - 1);
    auto in = [&](const char* w, std::function<string()> f) {
      qs.push_back({w, ratio(), [f] { string s; Outcome oc = attempt([&] { s = f(); }); return oc.threw ? "refused: " + oc.what : s; }});
    };
    in("best match", [=, &api] { return show(api.getBestMatch("a", q1.from, q1.index, q1.start, q1.end)); });
    in("best match in b", [=, &api] { return show(api.getBestMatch("b", q2.from, q2.index, q2.start, q2.end)); });
    in("k best", [=, &api] { return show(api.getKBestMatches(k1, ke, "a", q2.from, q2.index, q2.start, q2.end)); });
    in("exhaustive", [=, &api] { return show(api.getKBestMatchesBruteForce(k1, "a", q1.from, q1.index, q1.start, q1.end, kMetricName[mb])); });
    in("exhaustive in b", [=, &api] { return show(api.getKBestMatchesBruteForce(k1, "b", q3.from, q3.index, q3.start, q3.end, kMetricName[mq])); });
    in("reduced", [=, &api] { return show(api.getKBestMatchesPAA(k1, "a", q3.from, q3.index, q3.start, q3.end, kMetricName[mb])); });
    in("distance", [=, &api] { return num(api.distanceBetween(q1.from, q1.index, q1.start, q1.end, q2.from, q2.index, q2.start, q2.end, string(kMetricName[mq]) + "_dtw")); });
    in("lockstep distance", [=, &api] { return num(api.distanceBetween(q1.from, q1.index, 0, 2, q2.from, q2.index, 0, 2, kMetricName[mq])); });
    in("alignment", [=, &api] { return showPath(api.matchingBetween(q3.from, q3.index, q3.start, q3.end, q2.from, q2.index, q2.start, q2.end, string(kMetricName[mq]) + "_dtw")); });
    in("series", [=, &api] { return show(values(api.getTimeSeries(q1.from, q1.index, q1.start, q1.end))) + api.getTimeSeriesName(q1.from, q1.index) + std::to_string(api.getTimeSeriesLength(q1.from, q1.index)); });
    in("listing", [=, &api] {
      string s;
      for (auto& d : api.getAllDatasetInfo()) if (d.name == "a" || d.name == "b") s += d.name + std::to_string(d.itemCount) + "x" + std::to_string(d.itemLength) + d.distance + num(d.threshold) + (d.isGrouped ? "g" : "") + (d.isNormalized ? "n" : "");
      for (auto& d : api.getAllDistanceInfo()) s += d.name + " ";
      return s;
    });
  }
  if (opt.mode.find("often") != string::npos) {
    // more often than a two-byte counter counts, every answer compared
    Question& q = qs[c.caseNo % qs.size()];
    Question& p = qs[r.range(0, qs.size() - 1)];
    api.setWarpingBandRatio(p.ratio);
    string other = p.ask();
    api.setWarpingBandRatio(q.ratio);
    string first = q.ask();
    const int times = 66000;
    time_t began = time(nullptr);
    for (int k = 0; k < times; k++) {
      if (k % 1000 == 0 && time(nullptr) - began > 40) { c.count("questions_stopped_early"); break; }
      if (k % 1000 == 999) {
        api.setWarpingBandRatio(p.ratio);
        string s = p.ask();
        REQ(c, s == other, "answer-changed", p.what << " first gave " << other << ", now " << s << " after asking " << q.what << " " << k << " times");
        api.setWarpingBandRatio(q.ratio);
      }
      string s = q.ask();
      REQ(c, s == first, "answer-changed", q.what << " first gave " << first << ", after " << k << " repetitions " << s);
    }
    c.count("questions_repeated_66000_times");
    c.input(mix(hashTable(a), hashStr(q.what)), true);
    c.sample(q.what + " asked 66000 times");
    return;
  }
  if (memory) {
    Question& q = qs[c.caseNo % qs.size()];
    for (auto& x : qs) { api.setWarpingBandRatio(x.ratio); x.ask(); }
    double other = ratio();
    auto repeat = [&](int n) {
      for (int k = 0; k < n; k++) {
        api.setWarpingBandRatio(k % 3 == 2 ? other : q.ratio);
        string s = q.ask();
      }
    };
    repeat(64);
    size_t h[4];
    int n[3] = {64, 128, 256};
    h[0] = heapInUse();
    int grew = 0;
    for (int k = 0; k < 3; k++) { repeat(n[k]); h[k + 1] = heapInUse(); if (h[k + 1] > h[k]) grew++; }
    long total = (long)h[3] - (long)h[0];
    REQ(c, !(grew >= 2 && total >= 448 * 4), "growth", "asking " << q.what << " 448 times made the heap grow by " << total << " bytes (" << h[0] << "," << h[1] << "," << h[2] << "," << h[3] << ")");
    c.count("repetitions", 448);
    c.input(mix(hashTable(a), hashStr(q.what)), true);
    c.sample(q.what + " asked 448 times: heap " + std::to_string(h[0]) + " then " + std::to_string(h[3]));
    return;
  }
  vector<string> first;
  for (auto& q : qs) { api.setWarpingBandRatio(q.ratio); first.push_back(q.ask()); }
  string sa = datasetState(c, api, "a"), sb = datasetState(c, api, "b");
  string history;
  uint64_t h = hashTable(a);
  int steps = r.range(10, 40);
  int others = 0;
  for (int s = 0; s < steps; s++) {
    string did;
    switch (r.range(0, 11)) {
      case 0: { double x = ratio(); api.setWarpingBandRatio(x); did = "ratio " + num(x); break; }
      case 1: { string f = c.file("o"); api.saveGroups("a", f); unlink(f.c_str()); did = "save groups of a"; break; }
      case 2: { string f = c.file("o"); api.saveGroupsOld("a", f, r.chance(0.5)); unlink(f.c_str()); did = "save text groups of a"; break; }
      case 3: { string f = c.file("o"); api.saveDataset("b", f, ' '); unlink(f.c_str()); did = "save b"; break; }
      case 4: { int m = r.range(0, METRICS - 1); api.groupDataset("other", r.range(0, 40) / 32.0, kMetricName[m], r.range(1, 3), r.chance(0.3)); did = "group other"; break; }
      case 5: api.normalizeDataset("other"); did = "normalize other"; break;
      case 6: { string n = "x" + std::to_string(others++); Table z = genTable(r, sp); loadTable(c, api, n, z); api.groupDataset(n, 0.5); attempt([&] { api.getBestMatch(n, "a", 0); }); if (r.chance(0.7)) api.unloadDataset(n); did = "load and use " + n; break; }
      case 7: api.preparePAA("other", r.range(1, 5)); attempt([&] { api.getKBestMatchesPAA(2, "other", "a", 0); }); did = "reduce other"; break;
      case 8: attempt([&] { api.getBestMatch("nowhere", "a", 0); }); attempt([&] { api.getBestMatch("a", "a", 99); }); attempt([&] { api.setWarpingBandRatio(-1); }); attempt([&] { api.getKBestMatches(0, 1, "a", "a", 0, -1, -1); }); did = "refused requests"; break;
      default: {
        int k = r.range(0, qs.size() - 1);
        if (r.chance(0.4)) { double x = ratio(); api.setWarpingBandRatio(x); qs[k].ask(); did = qs[k].what + " with ratio " + num(x); break; }
        api.setWarpingBandRatio(qs[k].ratio);
        string again = qs[k].ask();
        did = qs[k].what;
        REQ(c, again == first[k], "answer-changed", qs[k].what << " with ratio " << num(qs[k].ratio) << " first gave " << first[k] << ", now " << again << " after:" << history);
        c.count("answers_repeated");
      }
    }
    history += " " + did + ";";
    h = mix(h, hashStr(did));
  }
  for (size_t k = 0; k < qs.size(); k++) {
    api.setWarpingBandRatio(qs[k].ratio);
    string again = qs[k].ask();
    REQ(c, again == first[k], "answer-changed", qs[k].what << " with ratio " << num(qs[k].ratio) << " first gave " << first[k] << ", now " << again << " after:" << history);
    c.count("answers_repeated");
  }
  REQ(c, datasetState(c, api, "a") == sa, "queries-write", "queries changed a dataset: " << firstDiff(sa, datasetState(c, api, "a")) << " after:" << history);
  REQ(c, datasetState(c, api, "b") == sb, "queries-write", "queries changed a dataset: " << firstDiff(sb, datasetState(c, api, "b")) << " after:" << history);
  c.input(h, true);
  c.sample(history);
}
