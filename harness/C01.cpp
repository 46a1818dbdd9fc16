// Loading: an independent tokenizer predicts the dataset, every observable of
// the loaded dataset is compared with the prediction.
#include "common.hpp"
#if __has_include("TimeSeriesSet.hpp")
#include "TimeSeriesSet.hpp"
#endif
#include <algorithm>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

static vector<string> tokenize(const string& line, const string& seps) {
  vector<string> out;
  string cur;
  for (char ch : line) {
    if (seps.find(ch) != string::npos) { if (!cur.empty()) out.push_back(cur); cur.clear(); }
    else cur += ch;
  }
  if (!cur.empty()) out.push_back(cur);
  return out;
}

// a name or a skipped entry: any characters that do not separate
static string genWord(Rng& r, const string& seps) {
  static const vector<string> words = {"#1", "# comment", "//x", "%a", "\"quoted\"", "'s", "a\\b", "nan", "inf", "-", "+", ".", "e5", "0x1f", "1e999", "1,5", "1;2",
    "\xc3\xa9t\xc3\xa9", "\xff\xfe", "a=b", "*", "!", "@home", "[0]", "{}", "()", "~", "^", "`id`", "$HOME", "&", "?", "<>", "name", "N/A", "true", "\v", "\x01",
    "\xef\xbb\xbfid", "name ", " name", "null", "NaN1", "end", "EOF", "\x1a", "0", "-1", "1e5", "s\r"};
  string w = r.pick(words);
  if (r.chance(0.2)) w += std::to_string(r.range(0, 99));
  if (r.chance(0.02)) w += string(r.range(100, 3000), 'x');
  string out;
  for (char ch : w) if (seps.find(ch) == string::npos) out += ch;
  return out.empty() ? "w" : out;
}

static string genNumber(Rng& r) {
  char b[64];
  switch (r.range(0, 13)) {
    case 12: {   // more digits than a double holds
      string s = r.chance(0.5) ? "-" : "";
      for (int k = r.range(17, 60); k > 0; k--) s += (char)('0' + r.range(0, 9));
      if (r.chance(0.7)) { s += "."; for (int k = r.range(1, 60); k > 0; k--) s += (char)('0' + r.range(0, 9)); }
      return s;
    }
    case 13: snprintf(b, 64, "%dE%s%02d", r.range(-9, 9), r.chance(0.5) ? "+" : "-", r.range(0, 12)); break;
    case 0: snprintf(b, 64, "%d", r.range(-50, 50)); break;
    case 1: snprintf(b, 64, "%.3f", r.real(-10, 10)); break;
    case 2: snprintf(b, 64, "%g", r.real(-1e6, 1e6)); break;
    case 3: snprintf(b, 64, "%e", r.real(-1, 1)); break;
    case 4: snprintf(b, 64, "+%.2f", r.real()); break;
    case 5: snprintf(b, 64, ".%d", r.range(0, 9999)); break;
    case 6: snprintf(b, 64, "%d.", r.range(0, 99)); break;
    case 7: snprintf(b, 64, "%de%d", r.range(1, 9), r.range(-300, 300)); break;
    case 8: snprintf(b, 64, "000%d.50", r.range(0, 99)); break;
    case 9: snprintf(b, 64, "-0"); break;
    default: snprintf(b, 64, "%.17g", r.real(-1, 1)); break;
  }
  return b;
}

// A short table with one long row: rows times columns exceed what an int holds.
// It is loaded in a child with limited memory; the load may be refused, but it
// must not lose or invent values or crash.
static void wideProduct(Ctx& c) {
  Rng& r = c.rng;
  int rows = 65536, cols = 65536;
  if (r.chance(0.6)) { rows = r.range(46400, 95000); cols = r.range(46400, 95000); }
  int longRow = r.chance(0.5) ? rows - 1 : r.range(0, rows - 1);
  string text;
  for (int i = 0; i < rows; i++) {
    if (i == longRow) for (int j = 0; j < cols; j++) text += std::to_string(j % 10) + " ";
    else text += std::to_string(i % 7);
    text += "\n";
  }
  string path = c.file("wide.txt");
  writeFile(path, text);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    struct rlimit rl = {(rlim_t)6 << 30, (rlim_t)6 << 30};
    setrlimit(RLIMIT_AS, &rl);
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    alarm(200);
    try {
      genex::GenexAPI api;
      auto info = api.loadDataset("d", path, " ", 0, 0, false);
      if (info.itemCount != rows || info.itemLength != cols) _exit(2);
      for (int i = 0; i < rows; i++) {
        auto v = values(api.getTimeSeries("d", i, -1, -1));
        if (v.size() != (i == longRow ? (size_t)cols : 1)) _exit(2);
        for (size_t j = 0; j < v.size(); j++)
          if (v[j] != (i == longRow ? (int)j % 10 : i % 7)) _exit(2);
      }
    } catch (const std::exception&) { _exit(1); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  unlink(path.c_str());
  REQ(c, WIFEXITED(st), "wide-crash", "loading " << rows << " rows, row " << longRow << " with " << cols << " values and the others with one, ended with signal " << WTERMSIG(st));
  REQ(c, WEXITSTATUS(st) != 2, "wide-values", "a table of " << rows << " rows, row " << longRow << " with " << cols << " values and the others with one, is loaded wrongly");
  c.count("tables_beyond_int");
  c.input(mix(hashStr("wide"), mix(rows, cols)), true);
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  if (opt.large() && c.caseNo % 12 == 5) { wideProduct(c); return; }
  static const vector<string> sepSets = {" ", ",", "\t", ";", ", ", " \t", ",;| ", "|", ":", " ,\r", "#", "/", "_ ", "\"", "\x1f", "\xc2\xa0", "x"};
  string seps = r.pick(sepSets);
  bool named = r.chance(0.45);
  int startCol = r.chance(0.5) ? 0 : r.range(0, 4);
  bool big = r.chance(0.03);
  int rows = big ? r.range(50, 300) : r.range(1, 9);
  int cols = big ? r.range(20, 120) : r.range(0, 10);
  if (opt.large()) switch (r.range(0, 2)) {   // more rows or columns than two bytes can count
    case 0: rows = r.range(65500, 70000); cols = r.range(0, 3); break;
    case 1: rows = r.range(1, 3); cols = r.range(65500, 70000); break;
    default: rows = r.range(300, 1200); cols = r.range(100, 500);
  }
  bool uneven = r.chance(opt.large() ? 0.3 : 0.6);
  bool blanks = r.chance(0.25);
  bool longTok = r.chance(0.05);
  // blanks around numbers and line ends of other systems belong to no number
  bool padded = r.chance(0.1) && seps.find_first_of(" \t") == string::npos, crlf = r.chance(0.1);

  auto sepRun = [&](int mn) {
    int n = r.chance(0.7) ? mn : r.range(mn, 3);
    string s;
    for (int i = 0; i < n; i++) s += seps[r.range(0, (int)seps.size() - 1)];
    return s;
  };
  string text;
  for (int i = 0; i < rows; i++) {
    if (blanks && r.chance(0.25)) { text += r.chance(0.5) ? "" : sepRun(1); text += "\n"; continue; }
    vector<string> toks;
    // a row can end before the values, before the name, or inside the skipped columns
    int skipped = startCol;
    int nvals = uneven ? r.range(0, cols) : cols;
    if (uneven && r.chance(0.1)) skipped = r.range(0, startCol);
    for (int j = 0; j < skipped; j++) toks.push_back(r.chance(0.4) ? "junk" + std::to_string(j) : r.chance(0.4) ? genWord(r, seps) : genNumber(r));
    if (skipped == startCol) {
      if (named) toks.push_back(r.chance(0.3) ? genNumber(r) : r.chance(0.4) ? genWord(r, seps) : "s" + std::to_string(r.range(0, 999)) + (r.chance(0.3) ? "-a.b" : ""));
      if (named && padded && r.chance(0.5)) toks.back() = string(r.range(0, 2), ' ') + toks.back() + string(r.range(0, 2), r.chance(0.8) ? ' ' : '\t');
      for (int j = 0; j < nvals; j++) {
        string t = genNumber(r);
        if (longTok && t.find('e') == string::npos && t.find('.') != string::npos) t += string(r.range(0, 400), '0');
        if (padded && r.chance(0.5)) t = string(r.range(1, 3), r.chance(0.8) ? ' ' : '\t') + t;
        if (padded && r.chance(0.2)) t += string(r.range(1, 3), ' ');
        toks.push_back(t);
      }
    }
    string line = r.chance(0.15) ? sepRun(1) : "";
    for (size_t j = 0; j < toks.size(); j++) { if (j) line += sepRun(1); line += toks[j]; }
    bool valueLast = skipped == startCol && nvals > 0;
    if (crlf && valueLast) line += "\r";
    else if (r.chance(0.15)) line += sepRun(1);
    text += line;
    if (i + 1 < rows || !r.chance(0.3)) text += "\n";
  }
  int lim;
  switch (r.range(0, 6)) {
    case 0: lim = -3; break;
    case 1: lim = 1; break;
    case 2: lim = rows - 1; break;
    case 3: lim = rows; break;
    case 4: lim = rows + 5; break;
    case 5: lim = r.range(1, rows); break;
    default: lim = 0;
  }
  if (lim < -3) lim = 0;

  // prediction
  vector<string> lines;
  {
    std::istringstream in(text);
    string l;
    while (std::getline(in, l)) lines.push_back(l);
  }
  size_t keep = lim <= 0 ? lines.size() : std::min<size_t>(lim, lines.size());
  Table want;
  vector<string> names;
  for (size_t i = 0; i < keep; i++) {
    auto toks = tokenize(lines[i], seps);
    Row v;
    string nm = std::to_string(i);
    for (size_t j = startCol; j < toks.size(); j++) {
      if (named && (int)j == startCol) { nm = toks[j]; continue; }
      v.push_back(strtod(toks[j].c_str(), nullptr));
    }
    want.rows.push_back(v);
    names.push_back(nm);
  }

  string path = c.file("t.txt");
  writeFile(path, text);
  std::ostringstream cfg;
  cfg << "separators='" << seps << "' rowLimit=" << lim << " firstColumn=" << startCol << " nameColumn=" << named
      << " lines=" << lines.size();
  genex::GenexAPI api;
  genex::dataset_metadata_t info;
  // trailing arguments that have their documented defaults may be left out
  int given = 4;
  if (r.chance(0.5)) {
    if (!named) given = 3;
    if (given == 3 && !startCol) given = 2;
    if (given == 2 && lim == 0) given = 1;
    if (given == 1 && seps == " ") given = 0;
    if (given < 4) c.count("loads_with_defaults");
  }
  switch (given) {
    case 0: info = api.loadDataset("d", path); break;
    case 1: info = api.loadDataset("d", path, seps); break;
    case 2: info = api.loadDataset("d", path, seps, lim); break;
    case 3: info = api.loadDataset("d", path, seps, lim, startCol); break;
    default: info = api.loadDataset("d", path, seps, lim, startCol, named);
  }

  string where = cfg.str() + " text=" + text.substr(0, 600);
  REQ(c, info.name == "d" && !info.isNormalized && !info.isGrouped, "load-info", "metadata of a fresh load is wrong; " << where);
  REQ(c, info.itemCount == (int)keep, "load-count", "reports " << info.itemCount << " series, the table keeps " << keep << " rows; " << where);
  REQ(c, info.itemLength == want.maxLen(), "load-length", "reports length " << info.itemLength << ", longest kept row has " << want.maxLen() << "; " << where);
  auto again = api.getDatasetInfo("d");
  REQ(c, again.itemCount == info.itemCount && again.itemLength == info.itemLength, "load-info2", "dataset info differs from load result; " << where);
  REQ(c, api.getDatasetCount() == 1, "load-registry", "dataset count is " << api.getDatasetCount());
  for (size_t i = 0; i < keep; i++) {
    const Row& w = want.rows[i];
    int len = api.getTimeSeriesLength("d", i);
    REQ(c, len == (int)w.size(), "load-rowlength", "row " << i << " reports length " << len << " instead of " << w.size() << "; " << where);
    string nm = api.getTimeSeriesName("d", i);
    REQ(c, nm == names[i], "load-name", "row " << i << " is named '" << nm << "' instead of '" << names[i] << "'; " << where);
    auto ts = api.getTimeSeries("d", i, -1, -1);
    REQ(c, ts.getLength() == (int)w.size() && ts.getIndex() == (int)i && ts.getStart() == 0 && ts.getEnd() == (int)w.size(),
        "load-series", "whole series " << i << " has wrong extent; " << where);
    for (size_t j = 0; j < w.size(); j++)
      REQ(c, sameBits(ts[j], w[j]) || (ts[j] == w[j]), "load-value",
          "row " << i << " value " << j << " is " << num(ts[j]) << " instead of " << num(w[j]) << "; " << where);
  }
#if __has_include("TimeSeriesSet.hpp")
  if (r.chance(opt.large() ? 1 : 0.2)) {
    // the same table into an object that held another one
    genex::TimeSeriesSet ds;
    string first = c.file("first.txt");
    int fr = r.range(1, 9), fc = r.range(1, 9);
    string ft;
    for (int i = 0; i < fr; i++) { for (int j = 0; j < fc; j++) ft += std::to_string(r.range(0, 99)) + " "; ft += "\n"; }
    writeFile(first, ft);
    ds.loadData(first, 0, 0, " ", r.chance(0.5));
    if (r.chance(0.5)) ds.normalize();
    if (r.chance(0.3)) { ds.clearData(); REQ(c, ds.getItemCount() == 0 && ds.getMaxLength() == 0, "reload-clear", "a cleared dataset reports series"); }
    ds.loadData(path, lim, startCol, seps, named);
    unlink(first.c_str());
    REQ(c, ds.getItemCount() == (int)keep && ds.getMaxLength() == want.maxLen() && !ds.isNormalized(), "reload-info", "attributes after loading into a used dataset object are wrong; " << where);
    for (size_t i = 0; i < keep; i++) {
      auto ts = ds.getTimeSeries(i);
      REQ(c, ds.getItemLength(i) == (int)want.rows[i].size() && values(ts) == want.rows[i] && ds.getTimeSeriesName(i) == names[i], "reload-series", "series " << i << " after loading into a used dataset object is wrong; " << where);
    }
    c.count("tables_into_used_objects");
  }
#endif
  if (text.size() < 4000 && r.chance(0.1)) {
    // the same table through a pipe: it may be refused, but not be loaded partly
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(3); }
    if (write(fd[1], text.data(), text.size()) != (ssize_t)text.size()) { perror("write"); _exit(3); }
    ::close(fd[1]);
    string pipePath = "/proc/self/fd/" + std::to_string(fd[0]);
    genex::GenexAPI other;
    Outcome oc = attempt([&] { other.loadDataset("d", pipePath, seps, lim, startCol, named); });
    if (!oc.threw) {
      auto pi = other.getDatasetInfo("d");
      REQ(c, pi.itemCount == (int)keep && pi.itemLength == want.maxLen(), "pipe-count", "loaded from a pipe the dataset has " << pi.itemCount << " series of length " << pi.itemLength << " instead of " << keep << " of length " << want.maxLen() << "; " << where);
      for (size_t i = 0; i < keep; i++)
        REQ(c, values(other.getTimeSeries("d", i, -1, -1)) == want.rows[i], "pipe-values", "loaded from a pipe series " << i << " has other values; " << where);
    } else REQ(c, other.getDatasetCount() == 0, "pipe-registry", "a refused load registered a dataset");
    ::close(fd[0]);
    c.count("tables_through_pipes");
  }
  unlink(path.c_str());
  c.count("rows_compared", keep);
  c.count("values_compared", want.values());
  if (named) c.count("tables_with_names");
  if (lim > 0 && keep < lines.size()) c.count("tables_cut_by_row_limit");
  if (startCol) c.count("tables_with_skipped_columns");
  c.input(mix(hashStr(text), hashStr(cfg.str())), want.values() > 0);
  c.sample(where.substr(0, 300));
}
