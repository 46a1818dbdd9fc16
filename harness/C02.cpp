// Refused requests: a random session is built, then invalid requests of every
// kind are issued; each must be refused and leave the whole observable state of
// the session (values, names, flags, groups, reduced data, answers) untouched.
#include "common.hpp"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;

struct Bad { string what; std::function<void(genex::GenexAPI&)> call; };

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  genex::GenexAPI api;
  vector<string> names = {"alpha", "beta", "gamma"};
  vector<Table> tabs;
  int n = r.range(1, 3);
  static const vector<double> ratios = {0.0, 0.1, 0.3, 0.5, 1.0};
  api.setWarpingBandRatio(r.pick(ratios));
  string setup;
  for (int i = 0; i < n; i++) {
    TableSpec sp;
    sp.minRows = 1; sp.maxRows = 5; sp.minLen = 1; sp.maxLen = 8;
    Table t = genTable(r, sp);
    if (r.chance(0.3)) for (size_t k = 0; k < t.rows.size(); k++) t.names.push_back("n" + std::to_string(k * 7));
    loadTable(c, api, names[i], t);
    if (r.chance(0.4)) { api.normalizeDataset(names[i]); setup += " normalized"; }
    if (r.chance(0.6)) {
      api.groupDataset(names[i], r.real(0, 1), kMetricName[r.range(0, 2)], r.range(1, 3), r.chance(0.2));
      setup += " grouped";
    }
    if (r.chance(0.5)) { api.preparePAA(names[i], r.range(1, 4)); setup += " prepared"; }
    if (r.chance(0.2)) { api.normalizeDataset(names[i]); setup += " normalized"; }
    setup += ";";
    tabs.push_back(t);
  }
  // a dataset that is neither grouped nor prepared, and one without any values
  bool hollowRows = r.chance(0.5);
  {
    TableSpec sp;
    sp.minRows = 1; sp.maxRows = 4; sp.minLen = 2; sp.maxLen = 6;
    loadTable(c, api, "plain", genTable(r, sp));
    if (r.chance(0.4)) api.normalizeDataset("plain");
    writeFile(c.file("hollow.txt"), hollowRows ? string(r.range(1, 3), '\n') : "");
    api.loadDataset("hollow", c.file("hollow.txt"));
    unlink(c.file("hollow.txt").c_str());
    if (r.chance(0.3)) api.preparePAA("hollow", r.range(1, 3));
  }
  // files used by the invalid requests
  string good = c.file("good.txt"), junk = c.file("junk.txt"), range = c.file("range.txt"), dir = c.file("adir"),
         missing = c.file("no/such/file"), grp = c.file("g.bin"), gtx = c.file("g.txt"), junkgrp = c.file("junk.grp"), spare = c.file("spare.grp");
  writeFile(good, "1 2 3\n4 5 6\n");
  {
    // one bad token somewhere in an otherwise fine table
    static const vector<string> badTok = {"abc", "x", "--3", "#", "e5", "?", "_", "ten"};
    for (int kind = 0; kind < 2; kind++) {
      int rows = r.range(1, 6), cols = r.range(1, 6), br = r.range(0, rows - 1), bc = r.range(0, cols - 1);
      string s;
      for (int i = 0; i < rows; i++) {
        for (int j = 0; j < cols; j++) {
          if (j) s += " ";
          s += (i == br && j == bc) ? (kind ? (r.chance(0.5) ? "1e999" : "-1e400") : r.pick(badTok)) : std::to_string(r.range(-9, 9));
        }
        s += "\n";
      }
      writeFile(kind ? range : junk, s);
    }
  }
  mkdir(dir.c_str(), 0700);
  {
    // group files of a dataset with another shape than any of the loaded ones
    genex::GenexAPI other;
    Table t;
    for (int i = 0; i < 9; i++) t.rows.push_back(genRow(r, 11, REALS));
    loadTable(c, other, "o", t);
    other.groupDataset("o", 0.4, "euclidean");
    other.saveGroups("o", grp);
    other.saveGroupsOld("o", gtx, false);
    string s;
    for (int i = 0; i < 200; i++) s += (char)r.range(0, 255);
    writeFile(junkgrp, r.chance(0.3) ? "" : s);
  }

  auto name = [&] { return names[r.range(0, n - 1)]; };
  static const vector<string> badDist = {"euclid", "", "foo", "Euclidean", "cosine ", "manhattan_", "_dtw"};
  auto unknown = [&] { static const vector<string> u = {"nope", "", "Alpha", "alpha ", "delta"}; return r.pick(u); };
  auto badIndex = [&](const string& d) {
    int k = tabs[std::find(names.begin(), names.end(), d) - names.begin()].rows.size();
    static const vector<int> o = {0, 1, 100, 1 << 30};
    return r.chance(0.5) ? -1 - r.pick(o) : k + r.pick(o);
  };
  auto rowLen = [&](const string& d, int i) { return (int)tabs[std::find(names.begin(), names.end(), d) - names.begin()].rows[i].size(); };
  auto anyRow = [&](const string& d) { return r.range(0, (int)tabs[std::find(names.begin(), names.end(), d) - names.begin()].rows.size() - 1); };

  string before = sessionState(c, api);
  int tries = 14;
  for (int t = 0; t < tries; t++) {
    Bad b;
    string d = name(), d2 = name(), u = unknown();
    int i = anyRow(d), len = rowLen(d, i);
    int bi = badIndex(d);
    // a range that no row admits
    int s, e;
    switch (r.range(0, 6)) {
      case 0: s = 0; e = len + r.range(1, 4); break;
      case 1: s = len; e = len + 1; break;
      case 2: s = 2; e = 1; break;
      case 3: s = 0; e = 0; break;
      case 4: s = -1; e = 1; break;
      case 5: s = 0; e = -1; break;
      default: s = 5; e = 2000000000; break;
    }
    int kind = r.range(0, 43);
    bool wasLoad = false, mayDo = false;
    int k = r.range(1, 4);
    string bd = r.pick(badDist);
    switch (kind) {
      case 0: b = {"load under a used name", [=](genex::GenexAPI& a) { a.loadDataset(d, good); }}; break;
      case 1: wasLoad = true; b = {"load a missing file", [=](genex::GenexAPI& a) { a.loadDataset("fresh", missing); }}; break;
      case 2: wasLoad = true; b = {"load a directory", [=](genex::GenexAPI& a) { a.loadDataset("fresh", dir); }}; break;
      case 3: wasLoad = true; b = {"load unparsable text", [=](genex::GenexAPI& a) { a.loadDataset("fresh", junk); }}; break;
      case 4: wasLoad = true; b = {"load an out-of-range value", [=](genex::GenexAPI& a) { a.loadDataset("fresh", range); }}; break;
      case 5: wasLoad = true; b = {"load with negative first column", [=](genex::GenexAPI& a) { a.loadDataset("fresh", good, " ", 0, -k); }}; break;
      case 6: b = {"unload an unknown dataset", [=](genex::GenexAPI& a) { a.unloadDataset(u); }}; break;
      case 7: b = {"info of an unknown dataset", [=](genex::GenexAPI& a) { a.getDatasetInfo(u); }}; break;
      case 8: b = {"series name of a bad index", [=](genex::GenexAPI& a) { a.getTimeSeriesName(d, bi); }}; break;
      case 9: b = {"series length of a bad index", [=](genex::GenexAPI& a) { a.getTimeSeriesLength(d, bi); }}; break;
      case 10: b = {"series of a bad index", [=](genex::GenexAPI& a) { a.getTimeSeries(d, bi, -1, -1); }}; break;
      case 11: b = {"series of a bad range", [=](genex::GenexAPI& a) { a.getTimeSeries(d, i, s, e); }}; break;
      case 12: b = {"normalize an unknown dataset", [=](genex::GenexAPI& a) { a.normalizeDataset(u); }}; break;
      case 13: b = {"group an unknown dataset", [=](genex::GenexAPI& a) { a.groupDataset(u, 0.3); }}; break;
      case 14: b = {"group with a bad thread count", [=](genex::GenexAPI& a) { a.groupDataset(d, 0.3, "euclidean", 1 - k); }}; break;
      case 15: b = {"group with a bad distance", [=](genex::GenexAPI& a) { a.groupDataset(d, 0.3, bd, k); }}; break;
      case 16: b = {"group with a warped distance", [=](genex::GenexAPI& a) { a.groupDataset(d, 0.3, "euclidean_dtw", k); }}; break;
      case 17: b = {"save groups to an unwritable path", [=](genex::GenexAPI& a) { k % 2 ? a.saveGroups(d, missing) : a.saveGroupsOld(d, dir, false); }}; break;
      case 18: b = {"load groups from a missing file", [=](genex::GenexAPI& a) { k % 2 ? a.loadGroups(d, missing) : a.loadGroupsOld(d, missing); }}; break;
      case 19: b = {"load groups of another dataset", [=](genex::GenexAPI& a) { k % 2 ? a.loadGroups(d, grp) : a.loadGroupsOld(d, gtx); }}; break;
      case 20: b = {"load groups from junk", [=](genex::GenexAPI& a) { k % 2 ? a.loadGroups(d, junkgrp) : a.loadGroupsOld(d, junk); }}; break;
      case 21: b = {"load groups in the other format", [=](genex::GenexAPI& a) { k % 2 ? a.loadGroups(d, gtx) : a.loadGroupsOld(d, grp); }}; break;
      case 22: b = {"save dataset to an unwritable path", [=](genex::GenexAPI& a) { a.saveDataset(d, k % 2 ? missing : dir, ' '); }}; break;
      case 23: b = {"negative band ratio", [=](genex::GenexAPI& a) { a.setWarpingBandRatio(k == 1 ? std::nan("") : -0.05 * k); }}; break;
      case 24: b = {"query with a bad index", [=](genex::GenexAPI& a) { k % 2 ? (void)a.getBestMatch(d2, d, bi) : (void)a.getKBestMatches(1, 1, d2, d, bi); }}; break;
      case 25: b = {"query with a bad range", [=](genex::GenexAPI& a) { k % 2 ? (void)a.getBestMatch(d2, d, i, s, e) : (void)a.getKBestMatchesBruteForce(1, d2, d, i, s, e); }}; break;
      case 26: b = {"query on an unknown dataset", [=](genex::GenexAPI& a) { k % 2 ? (void)a.getBestMatch(u, d, i) : (void)a.getKBestMatchesBruteForce(1, d, u, 0); }}; break;
      case 27: b = {"k-best with k < 1", [=](genex::GenexAPI& a) { a.getKBestMatches(1 - k, 5, d2, d, i); }}; break;
      case 28: b = {"k-best with ke < k", [=](genex::GenexAPI& a) { a.getKBestMatches(k + 1, k, d2, d, i); }}; break;
      case 29: b = {"brute force with k < 1 or a bad distance", [=](genex::GenexAPI& a) { k % 2 ? a.getKBestMatchesBruteForce(1 - k, d2, d, i) : a.getKBestMatchesBruteForce(1, d2, d, i, -1, -1, bd); }}; break;
      case 30: b = {"reduced search with k < 1 or a bad distance", [=](genex::GenexAPI& a) { k % 2 ? a.getKBestMatchesPAA(1 - k, d2, d, i) : a.getKBestMatchesPAA(1, d2, d, i, -1, -1, bd); }}; break;
      case 31: b = {"prepare with a bad block size", [=](genex::GenexAPI& a) { a.preparePAA(d, 1 - k); }}; break;
      case 32: b = {"distance with a bad name", [=](genex::GenexAPI& a) { k % 2 ? (void)a.distanceBetween(d, i, -1, -1, d, i, -1, -1, bd) : (void)a.matchingBetween(d, i, -1, -1, d, i, -1, -1, "euclidean"); }}; break;
      case 33: if (hollowRows) mayDo = true; b = {"normalize a dataset without series", [=](genex::GenexAPI& a) { a.normalizeDataset("hollow"); }}; break;
      case 34: b = {"search groups of an ungrouped dataset", [=](genex::GenexAPI& a) { k % 2 ? (void)a.getBestMatch("plain", d, i) : (void)a.getKBestMatches(1, 1, "plain", d, i); }}; break;
      case 35: b = {"save groups of an ungrouped dataset", [=](genex::GenexAPI& a) { k % 2 ? a.saveGroups("plain", spare) : a.saveGroupsOld("plain", spare, k > 2); }}; break;
      case 36: b = {"reduced search without preparation", [=](genex::GenexAPI& a) { a.getKBestMatchesPAA(1, "plain", d, i); }}; break;
      case 37: b = {"series of a dataset without values", [=](genex::GenexAPI& a) { k % 2 ? (void)a.getTimeSeries("hollow", 0, 0, k) : (void)a.getTimeSeries("hollow", 7, -1, -1); }}; break;
      case 38: mayDo = true; b = {"query with an empty series", [=](genex::GenexAPI& a) {
        if (k == 1) a.getBestMatch(d, "hollow", 0);
        else if (k == 2) a.getKBestMatchesBruteForce(1, d, "hollow", 0);
        else if (k == 3) a.distanceBetween(d, i, -1, -1, "hollow", 0, -1, -1, "euclidean_dtw");
        else a.getKBestMatchesPAA(1, d, "hollow", 0); }}; break;
      case 39: b = {"load groups into a dataset without values", [=](genex::GenexAPI& a) { k % 2 ? a.loadGroups("hollow", grp) : a.loadGroupsOld("hollow", gtx); }}; break;
      case 41: b = {"questions about an unknown dataset", [=](genex::GenexAPI& a) {
        if (k == 1) a.getTimeSeriesName(u, 0);
        else if (k == 2) a.getTimeSeriesLength(u, 0);
        else if (k == 3) a.getTimeSeries(u, 0, -1, -1);
        else t % 2 ? (void)a.getKBestMatchesPAA(1, u, d, i) : (void)a.getKBestMatchesPAA(1, d2, u, 0); }}; break;
      case 42: b = {"distance or alignment with an unknown dataset or a bad place", [=](genex::GenexAPI& a) {
        if (k == 1) a.distanceBetween(t % 2 ? d : u, i, -1, -1, t % 2 ? u : d, i, -1, -1, "euclidean_dtw");
        else if (k == 2) a.matchingBetween(t % 2 ? d : u, i, -1, -1, t % 2 ? u : d, i, -1, -1, "euclidean_dtw");
        else if (k == 3) a.distanceBetween(d, i, -1, -1, d, bi, -1, -1, "chebyshev_dtw");
        else a.matchingBetween(d, i, s, e, d, i, -1, -1, "manhattan_dtw"); }}; break;
      case 43: b = {"work on an unknown dataset", [=](genex::GenexAPI& a) {
        if (k == 1) t % 2 ? a.saveGroups(u, spare) : a.saveGroupsOld(u, spare, t % 3);
        else if (k == 2) t % 2 ? a.loadGroups(u, grp) : a.loadGroupsOld(u, gtx);
        else if (k == 3) a.preparePAA(u, 2);
        else a.saveDataset(u, spare, ' '); }}; break;
      default: b = {"lockstep distance of different lengths", [=](genex::GenexAPI& a) {
        if (len >= 2) a.distanceBetween(d, i, 0, len, d, i, 0, len - 1, "manhattan");
        else a.distanceBetween(d, i, 0, len, d, i, 0, len + 1, "manhattan"); }};
    }
    Outcome o = attempt([&] { b.call(api); });
    if (mayDo && !o.threw) { before = sessionState(c, api); continue; }
    REQ(c, o.threw, "not-refused", "request '" << b.what << "' was accepted; session:" << setup << " range " << s << ".." << e << " index " << bi << " distance '" << bd << "' k " << k);
    string after = sessionState(c, api);
    REQ(c, before == after, "refusal-changed-state", "refused request '" << b.what << "' (" << o.what << ") changed the session: " << firstDiff(before, after));
    if (wasLoad) {
      Outcome l = attempt([&] { api.loadDataset("fresh", good); });
      REQ(c, !l.threw, "name-burned", "after refused request '" << b.what << "' the name cannot be loaded: " << l.what);
      auto info = api.getDatasetInfo("fresh");
      REQ(c, info.itemCount == 2 && info.itemLength == 3 && !info.isGrouped && !info.isNormalized, "name-burned", "dataset loaded after '" << b.what << "' has wrong attributes");
      REQ(c, values(api.getTimeSeries("fresh", 1, -1, -1)) == (Row{4, 5, 6}), "name-burned", "dataset loaded after '" << b.what << "' has wrong values");
      api.unloadDataset("fresh");
    }
    c.count("refused: " + b.what);
    c.input(mix(hashStr(before), hashStr(b.what) + t), true);
    if (t == 0) c.sample(b.what + " in session of " + std::to_string(n) + " datasets:" + setup + " -> " + o.what);
  }
  rmdir(dir.c_str());
  for (auto& f : {good, junk, range, grp, gtx, junkgrp, spare}) unlink(f.c_str());
}
