// Arbitrary call sequences with arbitrary arguments. The verdict comes from the
// instrumentation (address, undefined, leak, memory checker), from abnormal ends
// and from heap accounting; results are only touched so that bad memory shows.
#include "common.hpp"
#include <climits>
#include <unistd.h>
using namespace vh;

struct Fuzz {
  Ctx& c;
  Rng r;
  genex::GenexAPI api;
  vector<string> files;      // scratch paths that may or may not exist
  long calls = 0, refused = 0;
  uint64_t h = 0;
  bool small;
  double sink = 0;

  Fuzz(Ctx& c, uint64_t seed, bool small) : c(c), r(seed), small(small) {
    for (const char* n : {"f0", "f1", "f2", "f3", "f4"}) files.push_back(c.file(n));
  }
  ~Fuzz() { for (auto& f : files) unlink(f.c_str()); api.setWarpingBandRatio(0.1); }

  string name() { static const vector<string> n = {"a", "b", "c", "", "none"}; return n[r.chance(0.85) ? r.range(0, 2) : r.range(3, 4)]; }
  int odd() {
    static const vector<int> v = {0, 1, -1, 2, -2, 7, 100, -100, kFarInt, kFarNegInt, kFarInt - 1, kFarNegInt + 1, 65536, 1 << 29};
    return r.pick(v);
  }
  // numbers of rows or matches: the largest integer is a usual way to ask for all
  int oddCount() { return r.chance(0.3) ? INT_MAX : odd(); }
  int index() { return r.chance(0.85) ? r.range(0, 3) : odd(); }
  void span(int& s, int& e) {
    switch (r.range(0, 5)) {
      case 0: s = e = -1; break;
      case 1: s = odd(); e = odd(); break;
      default: s = r.range(0, 4); e = s + r.range(1, 6);
    }
  }
  string metric(bool dtw) {
    static const vector<string> bad = {"", "euclid", "dtw", "_dtw", "euclidean_", "xx", "EUCLIDEAN", "cosine_dtw_dtw"};
    if (r.chance(0.08)) return r.pick(bad);
    return string(kMetricName[r.range(0, METRICS - 1)]) + (dtw ? "_dtw" : "");
  }
  double threshold() {
    static const vector<double> v = {0, 0.1, 0.5, 1, 2, 10, -1, 1e300, -1e300, kInf, -kInf, std::numeric_limits<double>::quiet_NaN(), 1e-300};
    return r.chance(small ? 0.4 : 0.7) ? r.real(0, 2) : r.pick(v);
  }
  double ratio() {
    static const vector<double> v = {0, 0.1, 1, 2, -1, -0.0, 1e300, kInf, std::numeric_limits<double>::quiet_NaN(), 1e-300, 0.5, 1e9};
    return r.chance(0.6) ? r.real() : r.pick(v);
  }
  int kk() { return r.chance(0.7) ? r.range(1, 6) : r.chance(0.5) ? r.range(7, 400) : oddCount(); }
  string path() { double d = r.real(); return d < 0.85 ? r.pick(files) : d < 0.9 ? c.file("no/such") : d < 0.95 ? c.dir : ""; }

  string tableText() {
    TableSpec sp;
    sp.minRows = 1; sp.maxRows = small ? 4 : 6; sp.minLen = 0; sp.maxLen = small ? 7 : r.chance(0.1) ? 30 : 10; sp.allowEmptyRows = true; sp.unevenChance = 0.6;
    Table t = genTable(r, sp);
    rescale(r, {&t}, 0.1);
    int special = r.range(0, 9);
    string s;
    for (auto& row : t.rows) {
      for (double v : row) {
        if (special == 0) v = (r.chance(0.5) ? 1e300 : -1e300) * r.real();
        if (special == 1) v = r.range(0, 9) * 4e-10;            // closer than the comparison tolerance
        if (special == 2) v = 0;
        if (special == 3 && r.chance(0.3)) v = 1.7976931348623157e308;
        s += num(v) + (r.chance(0.05) ? "  " : " ");
      }
      s += r.chance(0.03) ? "\r\n" : "\n";
    }
    if (r.chance(0.08) && !s.empty()) s[r.range(0, s.size() - 1)] = (char)r.range(1, 255);
    if (r.chance(0.05)) s += "1e999 2\n";
    if (r.chance(0.05)) s += "abc def\n";
    if (r.chance(0.05)) s.resize(r.range(0, s.size()));
    if (r.chance(0.03)) s = string(r.range(0, 3), '\n');
    return s;
  }
  void touch(const genex::TimeSeries& t) { for (int i = 0; i < t.getLength(); i++) sink += t[i]; sink += t.getIdentifierString().size(); }
  void touch(const Cands& v) { for (auto& x : v) { touch(x.data); sink += x.dist; } }

  void step() {
    int op = r.range(0, 26);
    string n = name(), m = name();
    int i = index(), j = index(), s, e, s2, e2;
    span(s, e); span(s2, e2);
    string trace = std::to_string(op);
    Outcome o = attempt([&] {
      switch (op) {
        case 0: case 1: case 2: {
          string p = path();
          if (r.chance(0.8)) { p = r.pick(files); writeFile(p, tableText()); }
          static const vector<string> seps = {" ", " ", " ", ",", "", " ,;", "\n", "1", ".-"};
          bool oddArgs = r.chance(0.15);
          api.loadDataset(n, p, r.chance(0.85) ? " " : r.pick(seps), oddArgs ? oddCount() : r.range(0, 3), oddArgs ? std::min(odd(), 1000000000) : r.chance(0.8) ? 0 : r.range(0, 2), r.chance(0.15));
          break;
        }
        case 3: api.unloadDataset(n); break;
        case 4: if (r.chance(0.15)) api.unloadAllDataset(); break;
        case 5: sink += api.normalizeDataset(n).first; break;
        case 6: case 7: case 8: {
          static const vector<int> threads = {1, 1, 1, 1, 2, 3, 8, 0, -1, kFarNegInt, 60, 3000};
          int t = r.pick(threads);
          if (small && t > 8) t = 8;
          sink += api.groupDataset(n, threshold(), metric(false), t, r.chance(0.25));
          break;
        }
        case 9: api.saveGroups(n, path()); break;
        case 10: sink += api.loadGroups(n, path()); break;
        case 11: api.saveGroupsOld(n, path(), r.chance(0.3)); break;
        case 12: sink += api.loadGroupsOld(n, path()); break;
        case 13: api.saveDataset(n, path(), r.chance(0.8) ? ' ' : (char)r.range(0, 255)); break;
        case 14: api.setWarpingBandRatio(ratio()); break;
        case 15: case 16: { auto x = api.getBestMatch(n, m, i, s, e); touch(x.data); break; }
        case 17: case 18: { int k = kk(); touch(api.getKBestMatches(k, r.chance(0.8) ? std::max(k, kk()) : kk(), n, m, i, s, e)); break; }
        case 19: touch(api.getKBestMatchesBruteForce(kk(), n, m, i, s, e, metric(false))); break;
        case 20: api.preparePAA(n, r.chance(0.8) ? r.range(1, 8) : odd()); break;
        case 21: touch(api.getKBestMatchesPAA(kk(), n, m, i, s, e, metric(false))); break;
        case 22: sink += api.distanceBetween(n, i, s, e, m, j, s2, e2, metric(r.chance(0.7))); break;
        case 23: sink += api.matchingBetween(n, i, s, e, m, j, s2, e2, metric(r.chance(0.9))).size(); break;
        case 24: { auto t = api.getTimeSeries(n, i, s, e); touch(t); genex::TimeSeries u(t), w(3); w = u; touch(w); attempt([&] { w += t; }); sink += w == t; break; }
        case 25: {
          // damage a file
          string p = r.pick(files);
          if (!fileExists(p)) break;
          string d = readFile(p);
          if (d.empty()) break;
          int a = r.range(0, d.size() - 1);
          switch (r.range(0, 3)) {
            case 0: d.resize(a); break;
            case 1: d[a] = (char)r.range(0, 255); break;
            case 2: d[a] = (char)('0' + r.range(0, 9)); break;
            default: d.insert(a, 1, (char)r.range(32, 126));
          }
          writeFile(p, d);
          break;
        }
        default:
          sink += api.getDatasetCount();
          for (auto& x : api.getAllDatasetInfo()) sink += x.itemCount + x.name.size() + x.distance.size();
          sink += api.getAllDistanceInfo().size();
          sink += api.getTimeSeriesName(n, i).size() + api.getTimeSeriesLength(n, i);
      }
    });
    calls++;
    refused += o.threw;
    h = mix(h, mix(op, o.threw));
  }
  void run(int steps) {
    // mostly start from something loaded
    if (r.chance(0.9)) {
      for (const char* n : {"a", "b"}) { writeFile(files[0], tableText()); attempt([&] { api.loadDataset(n, files[0], " "); }); }
      attempt([&] { api.groupDataset("a", r.real(0, 2), kMetricName[r.range(0, METRICS - 1)], 1, r.chance(0.2)); });
    }
    for (int k = 0; k < steps; k++) step();
  }
};

void vh::runCase(Ctx& c) {
  bool small = opt.mode.find("small") != string::npos, memory = opt.mode.find("memory") != string::npos;
  uint64_t seed = c.rng.next();
  int steps = c.rng.range(5, small ? 15 : 60);
  if (memory) {
    // the same session five times: the heap must come back to where it was
    size_t at[5];
    for (int k = 0; k < 5; k++) {
      { Fuzz f(c, seed, true); f.run(steps); if (k == 0) { c.count("calls", f.calls); c.input(f.h, true); } }
      at[k] = heapInUse();
    }
    REQ(c, !(at[2] > at[1] && at[3] > at[2] && at[4] > at[3] && at[4] - at[1] >= 24), "session-leak", "repeating one session of " << steps << " calls leaves the heap growing: " << at[1] << "," << at[2] << "," << at[3] << "," << at[4]);
    c.sample("one session of " + std::to_string(steps) + " calls five times, heap " + std::to_string(at[1]) + " and " + std::to_string(at[4]));
    c.count("sessions_repeated");
    return;
  }
  Fuzz f(c, seed, small);
  f.run(steps);
  c.evals(f.calls);
  c.count("calls", f.calls);
  c.count("calls_refused", f.refused);
  c.count("calls_accepted", f.calls - f.refused);
  c.input(f.h, true);
  c.sample(std::to_string(f.calls) + " calls, " + std::to_string(f.refused) + " refused");
}
