// The Python module against the library: the requests of a random session go to
// the library here; harness/C23.py replays them in a Python process and compares.
#include "common.hpp"
#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

static string js(double x) {
  if (std::isnan(x)) return "NaN";
  if (std::isinf(x)) return x > 0 ? "Infinity" : "-Infinity";
  string s = num(x);
  return s.find_first_of(".eE") == string::npos ? s + ".0" : s;
}
static string js(int x) { return std::to_string(x); }
static string jb(bool x) { return x ? "true" : "false"; }
static string js(const string& s) {
  string o = "\"";
  for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; o += ch; }
  return o + "\"";
}
static string js(const genex::candidate_time_series_t& m) {
  return "{\"dist\":" + js(m.dist) + ",\"data\":{\"index\":" + js(m.data.getIndex()) + ",\"start\":" + js(m.data.getStart()) + ",\"end\":" + js(m.data.getEnd()) + "}}";
}
static string js(const Cands& v) { string s; for (auto& m : v) s += (s.empty() ? "" : ",") + js(m); return "[" + s + "]"; }
static string js(const Row& v) { string s; for (double d : v) s += (s.empty() ? "" : ",") + js(d); return "[" + s + "]"; }

struct Call {
  vector<string> pos;
  vector<pair<string, string>> opt;   // trailing arguments that may be given by keyword or left out
};

struct Session {
  Ctx& c;
  Rng& r;
  genex::GenexAPI api;
  string ops;
  vector<string> cleanup;
  int serial = 0;
  long n = 0, refused = 0;
  Session(Ctx& c) : c(c), r(c.rng) {}
  ~Session() { for (auto& f : cleanup) unlink(f.c_str()); api.setWarpingBandRatio(0.1); }
  string tmp(const string& s) { string f = c.file(s + std::to_string(serial++)); cleanup.push_back(f); return f; }

  // optional arguments: the first 'given' are passed, by position up to some point, then by keyword
  void call(const string& f, const Call& k, int given, bool keywords, std::function<string()> lib, const string& extra = "") {
    string res;
    Outcome o = attempt([&] { res = lib(); });
    string pos, kw;
    for (auto& p : k.pos) pos += (pos.empty() ? "" : ",") + p;
    int byPos = keywords ? r.range(0, given) : given;
    for (int i = 0; i < given; i++) {
      if (i < byPos) pos += (pos.empty() ? "" : ",") + k.opt[i].second;
      else kw += (kw.empty() ? "" : ",") + ("\"" + k.opt[i].first + "\":" + k.opt[i].second);
    }
    ops += "{\"f\":\"" + f + "\",\"a\":[" + pos + "],\"k\":{" + kw + "},\"ok\":" + jb(!o.threw) + (o.threw ? "" : ",\"r\":" + res) + extra + "}\n";
    n++;
    refused += o.threw;
    c.count("python_" + f);
  }
  string anyName() {
    auto all = api.getAllDatasetInfo();
    static const vector<string> bad = {"nope", "", "A"};
    if (all.empty() || r.chance(0.06)) return r.pick(bad);
    return all[r.range(0, all.size() - 1)].name;
  }
  int idx(const string& d, int& len) {
    len = 5;
    int cnt = 3;
    attempt([&] { cnt = api.getDatasetInfo(d).itemCount; });
    int i = r.chance(0.94) ? r.range(0, std::max(0, cnt - 1)) : r.range(-2, cnt + 2);
    attempt([&] { len = api.getTimeSeriesLength(d, i); });
    return i;
  }
  void span(int len, int& s, int& e) {
    if (len >= 1 && r.chance(0.93)) { s = r.range(0, len - 1); e = r.range(std::min(len, s + 2), len); if (e <= s) e = s + 1; }
    else { s = r.range(-2, len + 2); e = r.range(-2, len + 3); }
  }
  string metric(bool dtw) { return r.chance(0.04) ? "euclid" : string(kMetricName[r.range(0, METRICS - 1)]) + (dtw ? "_dtw" : ""); }

  void load(const string& name) {
    TableSpec sp;
    sp.minRows = 1; sp.maxRows = 5; sp.minLen = 1; sp.maxLen = 9;
    Table t = genTable(r, sp);
    if (r.chance(0.3)) for (size_t k = 0; k < t.rows.size(); k++) t.names.push_back("s" + std::to_string(k * 3));
    char sep = r.chance(0.3) ? ',' : ' ';
    string f = tmp("data");
    writeTable(f, t, sep);
    if (r.chance(0.04)) f = c.file("missing/file");
    else if (r.chance(0.04)) writeFile(f, "1 2 x\n");
    int given = t.names.empty() ? (sep == ',' ? r.range(1, 4) : r.chance(0.4) ? 0 : r.range(0, 4)) : 4;
    string seps = given >= 1 ? (sep == ',' ? "," : r.chance(0.5) ? " " : " ,") : " ";
    int rows = given >= 2 && r.chance(0.5) ? r.range(-1, 4) : 0, col = given >= 3 && r.chance(0.3) ? r.range(-1, 2) : 0;
    bool named = given >= 4 && !t.names.empty();
    Call k{{js(name), js(f)}, {{"separators", js(seps)}, {"maxNumRow", js(rows)}, {"startCol", js(col)}, {"hasNameCol", jb(named)}}};
    call("loadDataset", k, given, r.chance(0.5), [=] {
      auto i = api.loadDataset(name, f, seps, rows, col, named);
      return "{\"name\":" + js(i.name) + ",\"count\":" + js(i.itemCount) + ",\"length\":" + js(i.itemLength) + "}";
    });
  }
  void step();
  void run();
};

void Session::step() {
  string a = anyName(), b = anyName();
  int la, lb, i = idx(a, la), j = idx(b, lb), s, e, s2, e2;
  span(la, s, e); span(lb, s2, e2);
  bool kw = r.chance(0.5);
  static const string none = "null";
  switch (r.range(0, 19)) {
    case 0: { static const vector<string> pool = {"a", "b", "set 2", "c"}; load(r.pick(pool)); break; }
    case 1: if (r.chance(0.35)) call("unloadDataset", {{js(a)}, {}}, 0, false, [=] { api.unloadDataset(a); return none; }); break;
    case 2: if (r.chance(0.5)) call("normalize", {{js(a)}, {}}, 0, false, [=] { auto p = api.normalizeDataset(a); return "[" + js(p.first) + "," + js(p.second) + "]"; }, ",\"t\":\"tuple\""); break;
    case 3: call("getTimeSeriesName", {{js(a), js(i)}, {}}, 0, false, [=] { return js(api.getTimeSeriesName(a, i)); }); break;
    case 4: call("getTimeSeriesLength", {{js(a), js(i)}, {}}, 0, false, [=] { return js(api.getTimeSeriesLength(a, i)); }); break;
    case 5: case 6: {
      int given = r.range(0, 3), threads = given >= 2 ? (r.chance(0.9) ? r.range(1, 4) : r.range(-1, 0)) : 1;
      double T = r.chance(0.2) ? r.range(0, 3) : r.real(0, 3);
      string d = given >= 1 ? metric(r.chance(0.05)) : "euclidean";
      bool whole = given >= 3 && r.chance(0.5);
      call("group", {{js(a), js(T)}, {{"distanceName", js(d)}, {"numThreads", js(threads)}, {"wholeSeriesOnly", jb(whole)}}}, given, kw,
           [=] { return js(api.groupDataset(a, T, d, threads, whole)); });
      break;
    }
    case 7: if (r.chance(0.6)) { int B = r.chance(0.9) ? r.range(1, 5) : r.range(-2, 0); call("preparePAA", {{js(a), js(B)}, {}}, 0, false, [=] { api.preparePAA(a, B); return none; }); } break;
    case 8: {
      bool sizes = r.chance(0.4);
      string f = tmp("py"), g = tmp("lib");
      if (r.chance(0.06)) f = g = c.file("missing/groups");
      call(sizes ? "saveGroupsSize" : "saveGroups", {{js(a), js(f)}, {}}, 0, false, [=] { sizes ? api.saveGroupsOld(a, g, true) : api.saveGroups(a, g); return none; },
           ",\"files\":[" + js(f) + "," + js(g) + "]");
      if (!sizes && r.chance(0.6)) {
        string to = r.chance(0.7) ? a : b;
        call("loadGroups", {{js(to), js(f)}, {}}, 0, false, [=] { return js(api.loadGroups(to, g)); });
      }
      break;
    }
    case 9: {
      string f = c.file("missing/groups");
      if (r.chance(0.5)) { f = tmp("junk"); writeFile(f, r.chance(0.5) ? "" : "22 serialization::archive 1 2 3\n"); }
      call("loadGroups", {{js(a), js(f)}, {}}, 0, false, [=] { return js(api.loadGroups(a, f)); });
      break;
    }
    case 10: case 11: { string d = metric(r.chance(0.6)); call("distance", {{js(a), js(i), js(s), js(e), js(b), js(j), js(s2), js(e2), js(d)}, {}}, 0, false, [=] { return js(api.distanceBetween(a, i, s, e, b, j, s2, e2, d)); }); break; }
    case 12: {
      string d = metric(r.chance(0.95));
      bool full = r.chance(0.6);
      int x = full ? s2 : -1, y = full ? e2 : -1;
      Call k{{js(a), js(i), js(s), js(e), js(b), js(j)}, {}};
      if (full && !kw) { k.pos.push_back(js(x)); k.pos.push_back(js(y)); k.pos.push_back(js(d)); }
      else { if (full) k.opt = {{"start2", js(x)}, {"end2", js(y)}}; k.opt.push_back({"distanceName", js(d)}); }
      // left-out positions make the rest keywords
      if (!full) {
        string res;
        Outcome o = attempt([&] { for (auto& p : api.matchingBetween(a, i, s, e, b, j, x, y, d)) res += (res.empty() ? "" : ",") + ("[" + js((int)p.first) + "," + js((int)p.second) + "]"); });
        string pos;
        for (auto& p : k.pos) pos += (pos.empty() ? "" : ",") + p;
        ops += "{\"f\":\"getMatching\",\"a\":[" + pos + "],\"k\":{\"distanceName\":" + js(d) + "},\"ok\":" + jb(!o.threw) + (o.threw ? "" : ",\"r\":[" + res + "]") + ",\"t\":\"pairs\"}\n";
        n++; refused += o.threw; c.count("python_getMatching");
        break;
      }
      call("getMatching", k, k.opt.size(), true, [=] {
        string res;
        for (auto& p : api.matchingBetween(a, i, s, e, b, j, x, y, d)) res += (res.empty() ? "" : ",") + ("[" + js((int)p.first) + "," + js((int)p.second) + "]");
        return "[" + res + "]";
      }, ",\"t\":\"pairs\"");
      break;
    }
    case 13: {
      int given = r.chance(0.4) ? 0 : 2, x = given ? s2 : -1, y = given ? e2 : -1;
      call("sim", {{js(a), js(b), js(j)}, {{"start", js(x)}, {"end", js(y)}}}, given, kw, [=] { return js(api.getBestMatch(a, b, j, x, y)); });
      break;
    }
    case 14: {
      int given = r.chance(0.4) ? 0 : 2, x = given ? s2 : -1, y = given ? e2 : -1, k = r.chance(0.9) ? r.range(1, 6) : r.range(-1, 200), ke = r.chance(0.93) ? k + r.range(0, 20) : r.range(-1, 4);
      call("ksim", {{js(k), js(ke), js(a), js(b), js(j)}, {{"start", js(x)}, {"end", js(y)}}}, given, kw, [=] { return js(api.getKBestMatches(k, ke, a, b, j, x, y)); });
      break;
    }
    case 15: case 16: {
      bool paa = r.chance(0.5);
      int given = r.range(0, 3);
      if (given == 1) given = 2;
      int x = given ? s2 : -1, y = given ? e2 : -1, k = r.chance(0.9) ? r.range(1, 6) : r.range(-1, 200);
      string d = given == 3 ? metric(false) : "euclidean";
      call(paa ? "ksimpaa" : "ksimbf", {{js(k), js(a), js(b), js(j)}, {{"start", js(x)}, {"end", js(y)}, {"distance", js(d)}}}, given, kw,
           [=] { return js(paa ? api.getKBestMatchesPAA(k, a, b, j, x, y, d) : api.getKBestMatchesBruteForce(k, a, b, j, x, y, d)); });
      break;
    }
    case 17: {
      int given = r.chance(0.4) ? 0 : 2, x = given ? s : -1, y = given ? e : -1;
      call("getTimeSeries", {{js(a), js(i)}, {{"start", js(x)}, {"end", js(y)}}}, given, kw, [=] { return js(values(api.getTimeSeries(a, i, x, y))); });
      break;
    }
    case 18: {
      if (r.chance(0.5)) { double q = r.chance(0.9) ? r.real() : -r.real(); call("setWarpingBandRatio", {{js(q)}, {}}, 0, false, [=] { api.setWarpingBandRatio(q); return none; }); }
      else call("getAllDistances", {{}, {}}, 0, false, [=] { string s; for (auto& d : api.getAllDistanceInfo()) s += (s.empty() ? "" : ",") + js(d.name); return "[" + s + "]"; });
      break;
    }
    default: {
      // arguments Python must refuse before the library sees them
      static const vector<string> bad = {"{\"f\":\"getTimeSeries\",\"a\":[1,2]", "{\"f\":\"sim\",\"a\":[\"a\"]", "{\"f\":\"group\",\"a\":[\"a\",\"wide\"]", "{\"f\":\"loadDataset\",\"a\":[]", "{\"f\":\"normalize\",\"a\":[null]",
                                         "{\"f\":\"ksim\",\"a\":[\"x\",3,\"a\",\"a\",0]", "{\"f\":\"getTimeSeriesLength\",\"a\":[\"a\",1.5]", "{\"f\":\"preparePAA\",\"a\":[\"a\",99999999999999]", "{\"f\":\"getTimeSeriesName\",\"a\":[\"a\",[0]]",
                                         "{\"f\":\"distance\",\"a\":[\"a\",0,0,2,\"a\",0,0]", "{\"f\":\"unloadDataset\",\"a\":[{}]", "{\"f\":\"saveDataset\",\"a\":[\"a\",3,4]"};
      ops += r.pick(bad) + ",\"k\":{},\"ok\":false}\n";
      c.count("python_bad_types");
    }
  }
}

void Session::run() {
  size_t p = opt.mode.find("pygenex=");
  const char* driver = getenv("GENEX_PYDRIVER");
  if (p == string::npos || !driver) { fprintf(stderr, "no module\n"); exit(3); }
  string so = opt.mode.substr(p + 8);
  so = so.substr(0, so.find(','));
  if (r.chance(0.3)) { double q = r.real(); call("setWarpingBandRatio", {{js(q)}, {}}, 0, false, [=] { api.setWarpingBandRatio(q); return "null"; }); }
  load("a");
  if (r.chance(0.6)) load("b");
  if (r.chance(0.8)) call("group", {{js("a"), js(0.8)}, {}}, 0, false, [=] { return js(api.groupDataset("a", 0.8)); });
  int steps = r.range(15, 70);
  for (int k = 0; k < steps; k++) step();
  for (auto& i : api.getAllDatasetInfo()) {
    string nm = i.name, f = tmp("py"), g = tmp("lib");
    static const vector<string> seps = {" ", ",", ";", ", "};
    string sep = r.pick(seps);
    call("saveDataset", {{js(nm), js(f), js(sep)}, {}}, 0, false, [=] { api.saveDataset(nm, g, sep[0]); return "null"; }, ",\"files\":[" + js(f) + "," + js(g) + "]");
    if (i.isGrouped) {
      string u = tmp("py"), v = tmp("lib");
      call("saveGroups", {{js(nm), js(u)}, {}}, 0, false, [=] { api.saveGroups(nm, v); return "null"; }, ",\"files\":[" + js(u) + "," + js(v) + "]");
    }
  }
  string of = tmp("ops"), rf = tmp("result"), ef = tmp("err");
  writeFile(of, ops);
  string pre;
  if (getenv("GENEX_PREASAN")) pre = "ASAN_OPTIONS=$ASAN_OPTIONS:detect_leaks=0 LD_PRELOAD=\"$(g++ -print-file-name=libasan.so) $(g++ -print-file-name=libubsan.so)\" PYTHONMALLOC=malloc ";
  string cmd = pre + string("timeout --foreground -s KILL 240 python3 -B '") + driver + "' '" + so + "' " + of + " > " + rf + " 2> " + ef;
  int st = system(cmd.c_str());
  string res = readFile(rf), err = readFile(ef);
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  if (code == 3) { fprintf(stderr, "driver: %s\n", err.c_str()); exit(3); }
  c.evals(n);
  REQ(c, code == 0 || code == 1, "python-died", "the interpreter ended abnormally (status " << st << ") in: " << res.substr(res.size() > 500 ? res.size() - 500 : 0) << err.substr(0, 1500));
  REQ(c, code == 0 && res.find("END " + std::to_string(std::count(ops.begin(), ops.end(), '\n'))) != string::npos, "python-result", res.substr(res.size() > 1500 ? res.size() - 1500 : 0) << err.substr(0, 500));
  c.count("calls_refused", refused);
  c.count("calls_accepted", n - refused);
  string id = ops;
  for (size_t q; (q = id.find(c.dir)) != string::npos;) id.erase(q, c.dir.size());
  c.input(hashStr(id), n > 4);
  c.sample(std::to_string(n) + " calls, " + std::to_string(refused) + " refused; first: " + id.substr(0, id.find('\n')).substr(0, 150));
}

void vh::runCase(Ctx& c) {
  Session s(c);
  s.api.setWarpingBandRatio(0.1);
  s.run();
}
