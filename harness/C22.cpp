// The command line against the library: a script of valid, refused and malformed
// lines is given to the instrumented command-line program, the same requests go to
// the library in this process, and what the program prints and writes is compared.
#include "common.hpp"
#include <algorithm>
#include <memory>
#include <poll.h>
#include <pty.h>
#include <signal.h>
#include <regex>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace vh;

struct Cmd {
  string line;
  bool error = false;                                // must print an error
  bool either = false;                               // depends on a choice left to the program
  bool usage = false;                                // must explain how the command is used
  std::function<string(const string&)> judge;        // reason or nothing
};

// text without the echoed input lines
static string body(const string& seg) {
  std::istringstream in(seg);
  string l, out;
  while (std::getline(in, l)) if (l.compare(0, 3, ">> ")) out += l + "\n";
  return out;
}
// the line that says that the request was carried out names the dataset
static std::function<string(const string&)> confirms(const string& name) {
  return [name](const string& s) -> string { return s.find(name) == string::npos ? "nothing is said about the outcome" : ""; };
}
static bool isError(const string& s) { return s.find("Error") != string::npos || s.find("must be provided") != string::npos; }
static bool near(double printed, double want) {
  if (std::isnan(want)) return std::isnan(printed);
  if (std::isinf(want)) return printed == want;
  return std::fabs(printed - want) <= 6e-4 * std::fabs(want) + 1e-300;
}
static string field(const string& s, const string& label) {
  size_t p = s.find(label);
  if (p == string::npos) return "(missing)";
  std::istringstream in(s.substr(p + label.size()));
  string t;
  in >> t;
  return t;
}
// what a search prints about the request itself
static string header(const string& o, const string& target, const string& query, int i, int s, int e, bool timed, int k = -9, int ke = -9) {
  if (field(o, "Target dataset:") != target) return "another target dataset is printed";
  if (field(o, "Query dataset:") != query) return "another query dataset is printed";
  std::ostringstream q;
  q << i << " [" << s << ", " << e << "]";
  if (o.find("Query time series: " + q.str()) == string::npos) return "another query is printed than " + q.str();
  if (k != -9 && atoi(field(o, "k =").c_str()) != k) return "another k is printed";
  if (ke != -9 && atoi(field(o, "ke =").c_str()) != ke) return "another ke is printed";
  if ((o.find("executed in") != string::npos) != timed) return "timing printed although off or missing although on";
  return "";
}
static string matches(const string& seg, const Cands& want) {
  static const std::regex re("[Tt]ime ?series (-?\\d+) \\[(-?\\d+), (-?\\d+)\\][^=]*= (\\S+)");
  vector<string> got;
  size_t k = 0;
  for (std::sregex_iterator i(seg.begin(), seg.end(), re), e; i != e; ++i, ++k) {
    if (k >= want.size()) return "more matches are printed than the library returns";
    auto& m = *i;
    if (std::stoi(m[1]) != want[k].data.getIndex() || std::stoi(m[2]) != want[k].data.getStart() || std::stoi(m[3]) != want[k].data.getEnd() ||
        !near(strtod(m[4].str().c_str(), nullptr), want[k].dist))
      return "match " + std::to_string(k) + " is printed as " + m[0].str() + ", the library returns " + show(want[k]);
  }
  if (k != want.size()) return std::to_string(k) + " matches are printed, the library returns " + std::to_string(want.size());
  return "";
}

struct Session {
  Ctx& c;
  Rng& r;
  genex::GenexAPI api;
  vector<Cmd> cmds;
  vector<string> cleanup;
  bool timer = true;
  int serial = 0;
  unsigned threads = std::max(1u, std::thread::hardware_concurrency());
  Session(Ctx& c) : c(c), r(c.rng) {}
  ~Session() { for (auto& f : cleanup) unlink(f.c_str()); }

  string tmp(const string& stem) { string f = c.file(stem + std::to_string(serial++)); cleanup.push_back(f); return f; }
  string anyName() {
    auto all = api.getAllDatasetInfo();
    static const vector<string> bad = {"nope", "A", "a,", "-1", "0"};
    if (all.empty() || r.chance(0.06)) return r.pick(bad);
    return all[r.range(0, all.size() - 1)].name;
  }
  // a number as text; sometimes something that is none
  string numText(int v, bool& bad) {
    static const vector<string> junk = {"abc", "x1", "-", "99999999999", "+-3", "_", ".", "one", "-99999999999999999999", "#"};
    if (r.chance(0.03)) { bad = true; return r.pick(junk); }
    return std::to_string(v);
  }
  void add(const string& line, std::function<string()> request, std::function<string(const string&)> judge) {
    // request runs on the library now; a non-empty return or exception means it cannot be carried out
    Cmd k;
    k.line = line;
    string why;
    Outcome o = attempt([&] { why = request(); });
    k.error = o.threw || !why.empty();
    k.judge = judge;
    c.count(k.error ? "commands_refused" : "commands_carried_out");
    cmds.push_back(k);
  }
  // another spelling of the same path
  string spell(string f) {
    size_t p = f.rfind('/');
    if (p == string::npos || r.chance(0.75)) return f;
    static const vector<string> how = {"//", "/./", "///", "/.//"};
    return f.substr(0, p) + r.pick(how) + f.substr(p + 1);
  }
  string spaces() { return r.chance(0.9) ? " " : string(r.range(1, 4), ' '); }
  string join(const vector<string>& t) {
    string s;
    if (r.chance(0.05)) s = "  ";
    for (size_t i = 0; i < t.size(); i++) s += (i ? spaces() : "") + t[i];
    if (r.chance(0.05)) s += "  ";
    return s;
  }
  int idxOf(const string& n, int& len) {
    len = 5;
    int cnt = 3;
    attempt([&] { cnt = api.getDatasetInfo(n).itemCount; });
    int i = r.chance(0.93) ? r.range(0, std::max(0, cnt - 1)) : r.range(-2, cnt + 2);
    attempt([&] { len = api.getTimeSeriesLength(n, i); });
    return i;
  }
  void span(int len, int& s, int& e) {
    if (len >= 1 && r.chance(0.92)) { s = r.range(0, len - 1); e = r.range(std::min(len, s + 2), len); if (e <= s) e = s + 1; }
    else { s = r.range(-2, len + 2); e = r.range(-2, len + 3); }
  }
  void load(const string& name);
  void step();
  void malformed();
  void run();
};

void Session::load(const string& name) {
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = 5; sp.minLen = 1; sp.maxLen = 9;
  Table t = genTable(r, sp);
  if (r.chance(0.25)) for (size_t k = 0; k < t.rows.size(); k++) t.names.push_back("s" + std::to_string(k * 3));
  char sep = r.chance(0.3) ? ',' : ' ';
  string f = tmp("data");
  writeTable(f, t, sep);
  if (r.chance(0.04)) f = c.file("missing/file");
  else if (r.chance(0.04)) writeFile(f, "1 2 x\n");
  vector<string> a = {"load", name, spell(f)};
  bool bad = false;
  string seps = " ";
  int rows = 0, col = 0, named = 0;
  int extra = t.names.empty() ? (sep == ',' ? r.range(1, 4) : r.chance(0.5) ? 0 : r.range(0, 4)) : 4;
  if (extra >= 1) {
    static const vector<string> both = {"\\s", "\\s,", ",\\s"};
    string txt = sep == ',' ? (r.chance(0.7) ? "," : "\\s,") : r.pick(both);
    seps = txt == "," ? "," : txt == "\\s" ? " " : txt == "\\s," ? " ," : ", ";
    a.push_back(txt);
  }
  if (extra >= 2) { rows = r.chance(0.5) ? 0 : r.range(-1, 4); a.push_back(numText(rows, bad)); }
  if (extra >= 3) { col = r.chance(0.7) ? 0 : r.range(-1, 2); a.push_back(numText(col, bad)); }
  if (extra >= 4) { named = t.names.empty() ? 0 : r.chance(0.8) ? 1 : r.chance(0.5) ? 2 : -1; a.push_back(numText(named, bad)); }
  auto info = std::make_shared<genex::dataset_metadata_t>();
  add(join(a), [=] { if (bad) return "number"; *info = api.loadDataset(name, f, seps, rows, col, named != 0); return ""; },
      [=](const string& s) -> string {
        if (field(s, "Name:") != name || field(s, "Item count:") != std::to_string(info->itemCount) || field(s, "Item length:") != std::to_string(info->itemLength))
          return "the library reports " + std::to_string(info->itemCount) + " series of length " + std::to_string(info->itemLength);
        return "";
      });
}

void Session::step() {
  string n = anyName(), m = anyName();
  bool bad = false, tm = timer;
  switch (r.range(0, 15)) {
    case 0: { static const vector<string> pool = {"a", "b", "set2", "x_y", "c", "u//v", "longer-than-the-column", "exit", "1", "help"}; load(r.pick(pool)); break; }
    case 1: {
      if (!r.chance(0.4)) return;
      add(join({"unload", n}), [=] { api.unloadDataset(n); return ""; }, confirms(n));
      break;
    }
    case 2: {
      add("list dataset", [] { return ""; }, [all = api.getAllDatasetInfo()](const string& s) -> string {
        std::istringstream in(s);
        string l;
        map<string, string> lines;
        if (atoi(s.c_str() + s.find_first_of("0123456789")) != (int)all.size()) return "wrong number of datasets";
        while (std::getline(in, l)) if (l.find('\t') != string::npos) { std::istringstream w(l); string nm; w >> nm; lines[nm] = l; }
        if (lines.size() != all.size()) return "other number of lines than datasets";
        for (auto& i : all) {
          if (!lines.count(i.name)) return "dataset " + i.name + " is not listed";
          string q = lines[i.name];
          bool ng = q.find("Not grouped") != string::npos, nn = q.find("Not normalized") != string::npos;
          if (ng == i.isGrouped || nn == i.isNormalized) return "wrong flags for " + i.name;
          if (i.isGrouped) {
            if (q.find("(" + i.distance + ",") == string::npos) return "wrong distance for " + i.name;
            if (!near(strtod(field(q, "TS =").c_str(), nullptr), i.threshold)) return "wrong threshold for " + i.name;
          }
        }
        return "";
      });
      break;
    }
    case 3: {
      int which = r.range(0, 3);
      if (which == 0) add("list distance", [] { return ""; }, [all = api.getAllDistanceInfo()](const string& s) -> string {
        for (auto& d : all) if (s.find(d.name) == string::npos) return "distance " + d.name + " is not listed";
        return "";
      });
      else if (which == 1) add("timer", [] { return ""; }, [t = timer](const string& s) -> string { return s.find(t ? "ON" : "OFF") == string::npos ? "wrong timer state" : ""; });
      else { timer = which == 2; add(timer ? "timer on" : "timer off", [] { return ""; }, [t = timer](const string& s) -> string { return s.find(t ? "ON" : "OFF") == string::npos ? "the new state is not printed" : ""; }); }
      break;
    }
    case 4: case 5: {
      int len, len2, s, e, s2, e2, i = idxOf(n, len), j = idxOf(m, len2);
      span(len, s, e); span(len2, s2, e2);
      string dist;
      if (r.chance(0.7)) { dist = string(kMetricName[r.range(0, METRICS - 1)]) + (r.chance(0.6) ? "_dtw" : ""); if (r.chance(0.05)) dist = "euclid"; }
      vector<string> a = {"distance", n, numText(i, bad), numText(s, bad), numText(e, bad), m, numText(j, bad), numText(s2, bad), numText(e2, bad)};
      if (!dist.empty()) a.push_back(dist);
      // without a name the program says which distance it used
      auto want = std::make_shared<map<string, double>>();
      auto mixed = std::make_shared<bool>(false);
      add(join(a), [=]() -> string {
        if (bad) return "number";
        if (!dist.empty()) { (*want)[dist] = api.distanceBetween(n, i, s, e, m, j, s2, e2, dist); return ""; }
        for (auto& d : api.getAllDistanceInfo()) if (attempt([&] { (*want)[d.name] = api.distanceBetween(n, i, s, e, m, j, s2, e2, d.name); }).threw) *mixed = true;
        if (want->empty()) *mixed = false;
        return want->empty() ? "refused" : "";
      }, [=](const string& o) -> string {
        std::istringstream in(o);
        string used;
        in >> used;
        if (!dist.empty() && used != dist) return "another distance is printed";
        if (!want->count(used)) return "unexpected distance name";
        string v = field(o, "is ");
        size_t p = o.rfind("is ");
        if (p != string::npos) v = field(o.substr(p), "is ");
        if (!near(strtod(v.c_str(), nullptr), (*want)[used])) return "the library's distance is " + num((*want)[used]);
        return "";
      });
      cmds.back().either = *mixed;
      break;
    }
    case 6: case 7: {
      double T = r.chance(0.2) ? r.range(0, 3) : std::floor(r.real(0, 3) * 1000) / 1000;
      std::ostringstream ts; ts << T;
      string dist = r.chance(0.5) ? "" : kMetricName[r.range(0, METRICS - 1)];
      if (r.chance(0.06)) dist = r.chance(0.5) ? "nonsense" : "euclidean_dtw";
      string txt = ts.str();
      if (r.chance(0.1)) {
        static const vector<string> odd = {"1e-3", ".5", "inf", "-1", "1e6", "+0.25", "2.", "0x1p-1", "1E0"};
        txt = r.pick(odd);
        T = strtod(txt.c_str(), nullptr);
      }
      if (r.chance(0.03)) { txt = "wide"; bad = true; }
      vector<string> a = {"group", n, txt};
      if (!dist.empty()) a.push_back(dist);
      auto cnt = std::make_shared<int>();
      add(join(a), [=] { if (bad) return "number"; *cnt = api.groupDataset(n, T, dist.empty() ? "euclidean" : dist, threads); return ""; },
          [=](const string& s) -> string {
            if (s.find("Dataset " + n) == string::npos) return "nothing is said about the outcome";
            if (field(s, "Number of Groups:") != std::to_string(*cnt)) return "the library makes " + std::to_string(*cnt) + " groups";
            if ((s.find("executed in") != string::npos) != tm) return "timing printed although off or missing although on";
            return "";
          });
      break;
    }
    case 8: {
      bool sizes = r.chance(0.4);
      string f = tmp("cligroups"), g = tmp("apigroups");
      bool unwritable = r.chance(0.06);
      if (unwritable) f = g = c.file("missing/groups");
      vector<string> a = {"saveGroups", n, spell(f)};
      if (sizes) a.push_back(r.chance(0.8) ? "1" : r.chance(0.5) ? "2" : "-1"); else if (r.chance(0.3)) a.push_back("0");
      bool pureSizes = sizes;
      add(join(a), [=] { if (pureSizes) api.saveGroupsOld(n, g, true); else api.saveGroups(n, g); return ""; },
          [=](const string& s) -> string { return readFile(f) == readFile(g) ? confirms(n)(s) : "the file written differs from the library's"; });
      // use the file again, possibly for another dataset
      if (!sizes && !unwritable && r.chance(0.6)) {
        string to = r.chance(0.7) ? n : m;
        auto cnt = std::make_shared<int>();
        add(join({"loadGroups", to, spell(f)}), [=] { if (!fileExists(g)) return "nothing saved"; *cnt = api.loadGroups(to, g); return ""; },
            [=](const string& s) -> string { return atoi(s.c_str()) == *cnt ? "" : "the library loads " + std::to_string(*cnt) + " groups"; });
      }
      break;
    }
    case 9: {
      string f = c.file("missing/groups");
      if (r.chance(0.5)) { f = tmp("junk"); writeFile(f, r.chance(0.5) ? "" : "22 serialization::archive 1 2 3\n"); }
      add(join({"loadGroups", n, spell(f)}), [=] { api.loadGroups(n, f); return ""; }, [](const string&) { return "junk was accepted"; });
      break;
    }
    case 10: {
      if (r.chance(0.5)) return;
      add(join({"normalize", n}), [=] { api.normalizeDataset(n); return ""; }, confirms(n));
      break;
    }
    case 11: {
      int len, s = -1, e = -1, i = idxOf(m, len);
      vector<string> a = {"sim", n, m, numText(i, bad)};
      int form = r.range(0, 9);
      if (form >= 3) { span(len, s, e); a.push_back(numText(s, bad)); if (form != 9) a.push_back(numText(e, bad)); }
      auto want = std::make_shared<Cands>();
      add(join(a), [=] { if (bad) return "number"; if (form == 9) return "half a range"; want->push_back(api.getBestMatch(n, m, i, s, e)); return ""; },
          [=](const string& o) { string w = header(o, n, m, i, s, e, tm); return w.empty() ? matches(o, *want) : w; });
      c.count("best_matches");
      break;
    }
    case 12: case 13: {
      int len, s = -1, e = -1, i = idxOf(m, len);
      int k = r.chance(0.9) ? r.range(1, 6) : r.range(-1, 300), ke = k;
      vector<string> a = {"ksim", numText(k, bad), n, m, numText(i, bad)};
      int form = r.range(0, 3);
      if (form >= 2) { span(len, s, e); a.push_back(numText(s, bad)); a.push_back(numText(e, bad)); }
      if (form % 2) { ke = r.chance(0.9) ? k + r.range(0, 20) : r.range(-1, 5); a.push_back(numText(ke, bad)); }
      auto want = std::make_shared<Cands>();
      add(join(a), [=] { if (bad) return "number"; *want = api.getKBestMatches(k, ke, n, m, i, s, e); return ""; },
          [=](const string& o) { string w = header(o, n, m, i, s, e, tm, k, ke); return w.empty() ? matches(o, *want) : w; });
      c.count("kbest_searches");
      break;
    }
    case 14: {
      int len, s = -1, e = -1, i = idxOf(m, len);
      int k = r.chance(0.9) ? r.range(1, 6) : r.range(-1, 300);
      vector<string> a = {"ksimBF", numText(k, bad), n, m, numText(i, bad)};
      int form = r.range(0, 9);
      if (form >= 3) { span(len, s, e); a.push_back(numText(s, bad)); if (form != 9) a.push_back(numText(e, bad)); }
      auto want = std::make_shared<Cands>();
      add(join(a), [=] { if (bad) return "number"; if (form == 9) return "half a range"; *want = api.getKBestMatchesBruteForce(k, n, m, i, s, e); return ""; },
          [=](const string& o) { string w = header(o, n, m, i, s, e, tm, k); return w.empty() ? matches(o, *want) : w; });
      c.count("exhaustive_searches");
      break;
    }
    default: {
      int len, s = -1, e = -1, i = idxOf(n, len);
      if (r.chance(0.8)) span(len, s, e);
      auto want = std::make_shared<Row>();
      vector<string> a = {"print", n, numText(i, bad), numText(s, bad), numText(e, bad)};
      add(join(a), [=] { if (bad) return "number"; *want = values(api.getTimeSeries(n, i, s, e)); return ""; },
          [=](const string& o) -> string {
            std::istringstream in(o);
            string t;
            size_t k = 0;
            while (in >> t) {
              char* end;
              double v = strtod(t.c_str(), &end);
              if (*end) return "unexpected text '" + t + "'";
              if (k >= want->size() || !near(v, (*want)[k])) return "value " + std::to_string(k) + " is printed as " + t + " of " + show(*want);
              k++;
            }
            return k == want->size() ? "" : "values are missing";
          });
    }
  }
}

void Session::malformed() {
  static const vector<string> verbs = {"load", "save", "unload", "list", "timer", "distance", "group", "saveGroups", "loadGroups", "normalize", "sim", "ksim", "ksimBF", "print"};
  static const vector<int> most = {6, 3, 1, 1, 1, 9, 3, 3, 2, 1, 5, 7, 6, 4};
  static const vector<int> least = {2, 2, 1, 1, 0, 8, 2, 2, 2, 1, 3, 4, 4, 4};
  auto fails = [] { return string("refused"); };
  auto nothing = [] { return string(); };
  auto fine = [](const string&) { return string(); };
  switch (r.range(0, 7)) {
    case 0: {   // wrong number of arguments
      int v = r.range(0, verbs.size() - 1), n = r.chance(0.5) && least[v] > 0 ? r.range(0, least[v] - 1) : most[v] + r.range(1, 5);
      string s = verbs[v];
      for (int i = 0; i < n; i++) s += r.chance(0.5) ? " a" : " 1";
      add(s, fails, fine);
      cmds.back().usage = true;
      break;
    }
    case 1: { string s = "z"; for (int i = r.range(0, 30); i > 0; i--) s += (char)r.range(33, 126); add(s + " a b 1", fails, fine); break; }
    case 2: { string s = "zz" + string(r.range(100, 6000), (char)r.range('a', 'z')); add(s, fails, fine); break; }
    case 3: { static const vector<string> s = {"", " ", "    ", "//", "// exit", "//load a b", "//x y z"}; add(r.pick(s), nothing, [](const string& o) -> string { return isError(o) ? "an error is printed for an empty line or comment" : ""; }); break; }
    case 4: { string v = r.chance(0.2) ? "exit" : r.pick(verbs); add("help " + v, nothing, [](const string& o) -> string { return o.find("sage") == string::npos ? "no usage is printed" : ""; }); break; }
    case 5: { static const vector<string> s = {"help nothing", "help a b c", "list", "list foo", "timer maybe", "LOAD a b", "Exit", "quit1", "list dataset distance", "helpme", "exits", "timer on off", "timer off x", "timer ON", "normalize a b", "unload a b", "help load save"}; add(r.pick(s), fails, fine); break; }
    case 6: add("help", nothing, [](const string& o) -> string { for (auto& v : verbs) if (o.find(v) == string::npos) return "command " + v + " is not listed"; return ""; }); break;
    default: {  // many arguments of a valid command
      string s = r.pick(verbs);
      for (int i = r.range(12, 400); i > 0; i--) s += " " + std::to_string(r.range(0, 9));
      add(s, fails, fine);
    }
  }
  c.count("malformed_lines");
}

void Session::run() {
  string exe;
  { size_t p = opt.mode.find("genexcli="); if (p == string::npos) { fprintf(stderr, "no program\n"); exit(3); } exe = opt.mode.substr(p + 9); exe = exe.substr(0, exe.find(',')); }
  load("a");
  if (r.chance(0.6)) load("b");
  if (r.chance(0.8)) add("group a 0.8", [=] { api.groupDataset("a", 0.8, "euclidean", threads); return ""; }, [](const string&) { return ""; });
  int steps = r.range(10, 45);
  for (int k = 0; k < steps; k++) if (r.chance(0.12)) malformed(); else step();
  // the final state of every dataset, through the program
  for (auto& i : api.getAllDatasetInfo()) {
    string n = i.name, f = tmp("cli"), g = tmp("api");
    static const vector<pair<string, char>> seps = {{"", ' '}, {" \\s", ' '}, {" ,", ','}, {" ;", ';'}, {" ,x", ','}, {" |", '|'}, {" \\s,", ' '}};
    auto sep = r.pick(seps);
    add("save " + n + " " + spell(f) + sep.first, [=] { api.saveDataset(n, g, sep.second); return ""; },
        [=](const string& s) -> string { return readFile(f) == readFile(g) ? confirms(n)(s) : "the dataset saved by the program differs from the library's"; });
    if (i.isGrouped) {
      string p = tmp("cli"), q = tmp("api");
      add("saveGroups " + n + " " + p, [=] { api.saveGroups(n, q); return ""; },
          [=](const string&) -> string { return readFile(p) == readFile(q) ? "" : "the groups saved by the program differ from the library's"; });
    }
  }
  string script, tail;
  for (size_t k = 0; k < cmds.size(); k++) script += cmds[k].line + "\nhelp zq" + std::to_string(k) + "z\n";
  int ending = r.range(0, 4);
  static const vector<string> ends = {"exit\nhelp zqENDz\n", "quit\nhelp zqENDz\n", "", "exit now\nhelp zqENDz\n", "exit"};
  script += ends[ending];
  string sf = tmp("script"), of = tmp("out"), ef = tmp("err");
  writeFile(sf, script);
  string cmd = "INPUTRC=/dev/null TERM=dumb COLUMNS=80 ASAN_OPTIONS=$ASAN_OPTIONS:detect_leaks=0 timeout --foreground -s KILL 240 '" + exe + "' < " + sf + " > " + of + " 2> " + ef;
  int st = system(cmd.c_str());
  string out = readFile(of), err = readFile(ef);
  size_t done = 0;
  for (size_t k = 0; k < cmds.size(); k++) if (out.find("zq" + std::to_string(k) + "z") != string::npos) done = k + 1;
  string last = done < cmds.size() ? cmds[done].line.substr(0, 300) : "(end)";
  REQ(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "cli-exit", "the program ended abnormally (status " << st << ") at line '" << last << "': " << err.substr(0, 3000));
  REQ(c, out.find("zqENDz") == string::npos, "cli-continues", "lines after '" << ends[ending].substr(0, 4) << "' are still read: " << out.substr(out.size() > 400 ? out.size() - 400 : 0));
  size_t at = 0;
  for (size_t k = 0; k < cmds.size(); k++) {
    string mark = "zq" + std::to_string(k) + "z";
    size_t p = out.find(mark, at);
    REQ(c, p != string::npos, "cli-stopped", "no output any more after '" << cmds[k].line.substr(0, 300) << "'");
    string seg = out.substr(at, p - at);
    seg = seg.substr(0, seg.rfind('\n') == string::npos ? seg.size() : seg.rfind('\n') + 1);
    // the marker appears as echo and in the message
    size_t q = out.find('\n', out.rfind(mark));
    at = q == string::npos ? out.size() : q + 1;
    string b = body(seg);
    string shown = "'" + cmds[k].line.substr(0, 300) + "' prints: " + b.substr(0, 700);
    if (cmds[k].either && isError(b)) continue;
    if (cmds[k].error) {
      REQ(c, isError(b), "cli-no-error", "a request that cannot be carried out prints no error: " << shown);
      if (cmds[k].usage) REQ(c, b.find("Usage") != string::npos, "cli-no-usage", "the use of the command is not explained: " << shown);
    }
    else {
      REQ(c, cmds[k].line.find("help") != string::npos || b.find("Usage") == string::npos, "cli-usage", "a request that is carried out is answered with an explanation of its use: " << shown);
      REQ(c, !isError(b), "cli-error", "a request the library carries out is refused: " << shown);
      string why = cmds[k].judge(b);
      REQ(c, why.empty(), "cli-result", why << "; " << shown);
    }
  }
  uint64_t h = 0;
  for (auto& k : cmds) {
    string l = k.line;
    for (size_t p; (p = l.find(c.dir)) != string::npos;) l.erase(p, c.dir.size());
    h = mix(h, hashStr(l));
  }
  c.input(h, cmds.size() > 4);
  c.sample(std::to_string(cmds.size()) + " lines, e.g. '" + cmds[cmds.size() / 2].line.substr(0, 120) + "'");
}

// lines of arbitrary bytes: the program only has to survive them
static void bytes(Ctx& c) {
  Rng& r = c.rng;
  size_t p = opt.mode.find("genexcli=");
  string exe = opt.mode.substr(p + 9);
  exe = exe.substr(0, exe.find(','));
  static const vector<string> words = {"load", "list", "dataset", "group", "sim", "ksim", "print", "distance", "a", "0", "-1", "1", "2147483648", "nan", "inf", "1e400", "-5", "help", "timer", "on", "normalize",
                                       "unload", "loadGroups", "euclidean", "cosine_dtw", "\\s", ",", "999999", "1999999999", "-1999999999", "//", "\"", "'", "%s%n", "ksimBF"};
  string data = c.file("d.txt"), sf = c.file("script"), of = c.file("out"), ef = c.file("err");
  writeFile(data, "1 2 3 4 5\n2 3 4 5 6\n0 0 1\n");
  string script = "load a " + data + "\ngroup a 0.5\n";
  int lines = r.range(5, 40);
  for (int i = 0; i < lines; i++) {
    if (r.chance(0.7)) for (int k = r.range(1, 10); k > 0; k--) script += r.pick(words) + " ";
    else for (int k = r.range(1, 60); k > 0; k--) script += (char)(r.chance(0.7) ? r.range(32, 126) : r.range(160, 255));
    script += "\n";
  }
  if (r.chance(0.5)) script.pop_back();
  writeFile(sf, script);
  string cmd = "INPUTRC=/dev/null TERM=dumb COLUMNS=80 ASAN_OPTIONS=$ASAN_OPTIONS:detect_leaks=0 timeout --foreground -s KILL 240 '" + exe + "' < " + sf + " > " + of + " 2> " + ef;
  int st = system(cmd.c_str());
  string out = readFile(of);
  REQ(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "cli-bytes", "the program ended abnormally (status " << st << ") after: " << out.substr(out.size() > 600 ? out.size() - 600 : 0) << " -- " << readFile(ef).substr(0, 2500));
  c.count("byte_scripts");
  c.input(hashStr(script), true);
  for (auto& f : {data, sf, of, ef}) unlink(f.c_str());
}

// end of input at a terminal: the program asks, and goes on or ends as answered
static void terminal(Ctx& c) {
  Rng& r = c.rng;
  size_t p = opt.mode.find("genexcli=");
  string exe = opt.mode.substr(p + 9);
  exe = exe.substr(0, exe.find(','));
  int fd = -1;
  pid_t pid = forkpty(&fd, nullptr, nullptr, nullptr);
  if (pid < 0) { c.count("terminals_unavailable"); return; }
  if (pid == 0) {
    setenv("INPUTRC", "/dev/null", 1);
    setenv("TERM", "dumb", 1);
    const char* o = getenv("ASAN_OPTIONS");
    setenv("ASAN_OPTIONS", (string(o ? o : "") + ":detect_leaks=0").c_str(), 1);
    execl(exe.c_str(), exe.c_str(), (char*)nullptr);
    _exit(127);
  }
  string seen, log;
  bool closed = false;
  // reads until the text appears or the program ends
  auto until = [&](const string& what) {
    for (int waited = 0; waited < 600;) {
      if (!what.empty() && seen.find(what) != string::npos) return true;
      struct pollfd q = {fd, POLLIN, 0};
      if (poll(&q, 1, 100) <= 0) { waited++; continue; }
      char buf[4096];
      ssize_t n = read(fd, buf, sizeof buf);
      if (n <= 0) { closed = true; return what.empty(); }
      seen.append(buf, n);
    }
    return false;
  };
  auto send = [&](const string& s) { seen.clear(); log += s == "\x04" ? " (end of input)" : " '" + s.substr(0, s.size() - 1) + "'"; if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) closed = true; };
  string why;
  if (!until(">> ")) why = "no prompt appears";
  int rounds = r.range(1, 4);
  bool ended = false;
  for (int k = 0; k < rounds && why.empty() && !ended; k++) {
    if (r.chance(0.5)) {
      send("help zq" + std::to_string(k) + "z\r");
      // the echo, then the answer, then the next prompt
      if (!until("Error") || !until("\n>> ")) { why = "a command is not answered"; break; }
    }
    send("\x04");
    if (!until("? ")) { why = "the program does not ask at the end of input"; break; }
    static const vector<string> other = {"no", "x", "yes", "1", "q"};
    while (r.chance(0.3) && why.empty()) { send(r.pick(other) + "\r"); if (!until("? ")) why = "the program does not ask again after an unclear answer"; }
    if (!why.empty()) break;
    int a = k + 1 == rounds ? r.range(0, 2) : 3;
    static const vector<string> answers = {"y\r", "\r", "\x04", "n\r"};
    send(answers[a]);
    if (a == 3) { if (!until(">> ")) why = closed ? "the program ends although the answer is no" : "no prompt appears after the answer no"; }
    else ended = true;
  }
  if (why.empty() && !ended) { send("exit\r"); ended = true; }
  if (why.empty() && !until("")) why = "the program does not end";
  if (!why.empty()) kill(pid, SIGKILL);
  close(fd);
  int st = 0;
  waitpid(pid, &st, 0);
  if (why.empty() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) why = "the program ends abnormally (status " + std::to_string(st) + ")";
  REQ(c, why.empty(), "cli-terminal", why << " after" << log << "; last output: " << seen.substr(0, 600));
  c.count("terminal_sessions");
  c.input(hashStr(log), true);
}

void vh::runCase(Ctx& c) {
  if (c.rng.chance(0.02)) { terminal(c); return; }
  if (c.rng.chance(0.15)) { bytes(c); return; }
  Session s(c);
  s.run();
}
