#include "common.hpp"

#include <algorithm>
#include <chrono>
#include <fstream>
#include <malloc.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include "Exception.hpp"

namespace vh {

Options opt;
const double kInf = std::numeric_limits<double>::infinity();
const char* kMetricName[METRICS] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x2545F4914F6CDD1DULL + b + 0x1234567);
  return r.next() ^ (b << 1);
}
uint64_t hashStr(const string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
  return h;
}

// ---------------------------------------------------------------- reporting
static FILE* gOut = nullptr;
static map<string, long> gCounters;
static long gEvals = 0, gInputs = 0;
static std::unordered_set<uint64_t> gDistinct;
static vector<string> gSamples;
static long gViolations = 0;

static string jsonEsc(const string& s) {
  string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o;
}

void Ctx::fail(const string& key, const string& what) {
  failures++;
  gViolations++;
  fprintf(gOut, "{\"type\":\"violation\",\"case\":%ld,\"key\":\"%s\",\"what\":\"%s\"}\n",
          caseNo, jsonEsc(key).c_str(), jsonEsc(what.substr(0, 3000)).c_str());
  fflush(gOut);
}
void Ctx::evals(long n) { gEvals += n; }
void Ctx::input(uint64_t h, bool nontrivial) {
  gInputs++;
  if (nontrivial && gDistinct.size() < 200000) gDistinct.insert(h);
}
void Ctx::count(const string& k, long n) { gCounters[k] += n; }
void Ctx::sample(const string& s) { if (gSamples.size() < 3) gSamples.push_back(s.substr(0, 400)); }

// -------------------------------------------------------------------- values
string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
string show(const Row& r) {
  string s = "[";
  for (size_t i = 0; i < r.size() && i < 40; i++) { if (i) s += ","; s += num(r[i]); }
  if (r.size() > 40) s += ",...";
  return s + "]";
}
bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
double unit = 1;
bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * std::max(unit, std::max(std::fabs(a), std::fabs(b)));
}

// --------------------------------------------------------------------- data
int Table::maxLen() const { size_t m = 0; for (auto& r : rows) m = std::max(m, r.size()); return (int)m; }
long Table::values() const { long n = 0; for (auto& r : rows) n += (long)r.size(); return n; }

double genValue(Rng& r, int style, double prev) {
  switch (style) {
    case REALS: return r.real();
    case INTS: return r.range(-2, 3);
    case DYADIC: return r.range(0, 16) / 16.0;
    case WALK: return prev + r.real(-0.15, 0.15);
    case NEARCONST: return 0.5 + r.real(-0.02, 0.02);
    case CONSTANT: return 0.75;
    case RISING: return prev + r.real(0, 0.2);
    case FALLING: return prev - r.real(0, 0.2);
    case SPIKES: return r.chance(0.85) ? 0.5 : r.real(-8, 8);
    case ZEROISH: return r.chance(0.5) ? 0.0 : r.range(0, 4) / 4.0;
    default: {
      int k = r.range(0, 4);
      if (k == 0) return r.real(-1000, 1000);
      if (k == 1) return r.range(-3, 3);
      if (k == 2) return r.real() * 1e-3;
      return r.real(-2, 2);
    }
  }
}
Row genRow(Rng& r, int len, int style) {
  Row v;
  double prev = r.real();
  for (int i = 0; i < len; i++) { prev = genValue(r, style, prev); v.push_back(prev); }
  return v;
}
Table genTable(Rng& r, const TableSpec& s, int* styleOut) {
  Table t;
  int style = r.range(0, STYLES - 1);
  if (styleOut) *styleOut = style;
  int rows = r.range(s.minRows, s.maxRows);
  int len = r.range(s.minLen, s.maxLen);
  bool uneven = r.chance(s.unevenChance);
  for (int i = 0; i < rows; i++) {
    int l = uneven ? r.range(s.minLen, s.maxLen) : len;
    if (uneven && s.allowEmptyRows && r.chance(0.1)) l = 0;
    Row row = genRow(r, l, style);
    // copies and near copies of earlier rows make groups and ties likely
    if (i > 0 && r.chance(0.25)) {
      const Row& src = t.rows[r.range(0, i - 1)];
      for (size_t j = 0; j < row.size() && j < src.size(); j++)
        row[j] = r.chance(0.85) ? src[j] : src[j] + genValue(r, NEARCONST, 0) - 0.5;
    }
    if (s.nonNegative) for (auto& x : row) x = std::fabs(x);
    t.rows.push_back(row);
  }
  return t;
}
double rescale(Rng& r, std::initializer_list<Table*> tables, double chance) {
  static const vector<double> shifts = {-4, 4, -100, 100, -1e4, 1e4, 3e4};
  double shift = r.chance(chance) ? r.pick(shifts) : 0;   // integers, so that exact data stays exact
  if (shift) for (auto* t : tables) for (auto& row : t->rows) for (auto& v : row) v += shift;
  if (!r.chance(chance)) return shift;
  unit = std::ldexp(1.0, r.chance(0.7) ? -r.range(10, 45) : r.range(8, 30));   // exact, so ties stay ties
  for (auto* t : tables) for (auto& row : t->rows) for (auto& v : row) v *= unit;
  return shift;
}
void writeFile(const string& path, const string& text) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); abort(); }
  if (fwrite(text.data(), 1, text.size(), f) != text.size()) abort();
  if (fclose(f)) abort();
}
string readFile(const string& path) {
  std::ifstream f(path, std::ios::binary);
  std::ostringstream os;
  os << f.rdbuf();
  return os.str();
}
bool fileExists(const string& path) { struct stat st; return stat(path.c_str(), &st) == 0; }
void writeTable(const string& path, const Table& t, char sep) {
  string s;
  for (size_t i = 0; i < t.rows.size(); i++) {
    if (!t.names.empty()) { s += t.names[i]; s += sep; }
    for (size_t j = 0; j < t.rows[i].size(); j++) { if (j) s += sep; s += num(t.rows[i][j]); }
    s += "\n";
  }
  writeFile(path, s);
}
void loadTable(Ctx& c, genex::GenexAPI& api, const string& name, const Table& t) {
  string f = c.file("table.txt");
  writeTable(f, t);
  api.loadDataset(name, f, " ", 0, 0, !t.names.empty());
  unlink(f.c_str());
}
uint64_t hashTable(const Table& t) {
  uint64_t h = t.rows.size();
  for (auto& r : t.rows) {
    h = mix(h, r.size());
    for (double d : r) { uint64_t u; memcpy(&u, &d, 8); h = mix(h, u); }
  }
  for (auto& n : t.names) h = mix(h, hashStr(n));
  return h;
}
string describe(const Table& t) {
  std::ostringstream os;
  os << t.rows.size() << " rows, lengths";
  for (size_t i = 0; i < t.rows.size() && i < 12; i++) os << " " << t.rows[i].size();
  if (!t.rows.empty()) os << ", row0=" << show(slice(t.rows[0], 0, std::min<int>(5, t.rows[0].size())));
  return os.str();
}

// ------------------------------------------------------------------- oracles
Row slice(const Row& r, int start, int end) { return Row(r.begin() + start, r.begin() + end); }

double refPairwise(int metric, const Row& a, const Row& b) {
  double n = (double)a.size(), s = 0, p = 0, q = 0;
  switch (metric) {
    case EUC: for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s / n);
    case MAN: for (size_t i = 0; i < a.size(); i++) s += std::fabs(a[i] - b[i]); return s / n;
    case CHE: for (size_t i = 0; i < a.size(); i++) s = std::max(s, std::fabs(a[i] - b[i])); return s;
    case COS:
      for (size_t i = 0; i < a.size(); i++) { s += a[i] * b[i]; p += a[i] * a[i]; q += b[i] * b[i]; }
      return s / std::sqrt(p * q);
    default:
      for (size_t i = 0; i < a.size(); i++) { s += std::fabs(a[i] - b[i]); p += std::fabs(a[i] + b[i]); }
      return s == 0 ? 0 : s / p;
  }
}
int refBand(int m, int n, double ratio) {
  int L = std::max(m, n);
  double w = std::floor(L * std::min(ratio, 1.0));
  return std::min((int)w, L - 1);
}
static double acc(int metric, double sofar, double x, double y) {
  double d = std::fabs(x - y);
  if (metric == EUC) return sofar + d * d;
  if (metric == MAN) return sofar + d;
  return std::max(sofar, d);
}
static double finish(int metric, double s, int m, int n) {
  double L = std::max(m, n);
  if (metric == EUC) return std::sqrt(s) / (2 * L);
  if (metric == MAN) return s / (2 * L);
  return s;
}
double refDTW(int metric, const Row& a, const Row& b, double ratio) {
  int m = a.size(), n = b.size(), r = refBand(m, n, ratio);
  // forward reachability: best[i][j] over in-band predecessors only
  vector<Row> best(m, Row(n, kInf));
  for (int i = 0; i < m; i++)
    for (int j = std::max(0, i - r); j <= std::min(n - 1, i + r); j++) {
      if (i == 0 && j == 0) { best[0][0] = acc(metric, 0, a[0], b[0]); continue; }
      double p = kInf;
      if (i > 0) p = std::min(p, best[i - 1][j]);
      if (j > 0) p = std::min(p, best[i][j - 1]);
      if (i > 0 && j > 0) p = std::min(p, best[i - 1][j - 1]);
      if (p < kInf) best[i][j] = acc(metric, p, a[i], b[j]);
    }
  double s = best[m - 1][n - 1];
  return s == kInf ? kInf : finish(metric, s, m, n);
}
double refPathCost(int metric, const Row& a, const Row& b, const vector<pair<int, int>>& path) {
  if (metric <= CHE) {
    double s = 0;
    for (auto& p : path) s = acc(metric, s, a[p.first], b[p.second]);
    return finish(metric, s, a.size(), b.size());
  }
  Row x, y;
  for (auto& p : path) { x.push_back(a[p.first]); y.push_back(b[p.second]); }
  return refPairwise(metric, x, y);
}
Row refPAA(const Row& r, int block) {
  Row out;
  for (size_t i = 0; i < r.size(); i += block) {
    size_t e = std::min(r.size(), i + block);
    double s = 0;
    for (size_t j = i; j < e; j++) s += r[j];
    out.push_back(s / (e - i));
  }
  return out;
}

// ------------------------------------------------------------------ outcomes
Outcome attempt(const std::function<void()>& f) {
  Outcome o;
  try { f(); }
  catch (const genex::GenexException& e) { o.threw = o.genex = true; o.what = e.what(); }
  catch (const Fail&) { throw; }
  catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
  return o;
}
Row values(const genex::TimeSeries& t) {
  Row v;
  for (int i = 0; i < t.getLength(); i++) v.push_back(t[i]);
  return v;
}

// --------------------------------------------------------------------- groups
bool parseGroupText(const string& text, GroupFile& g, string& why) {
  std::istringstream in(text);
  int version;
  if (!(in >> version >> g.threshold >> g.itemCount >> g.itemLength)) { why = "bad header"; return false; }
  if (version != 1) { why = "unexpected version"; return false; }
  if (!(in >> g.lenFrom >> g.lenTo >> g.distance)) { why = "bad length range"; return false; }
  for (int len = g.lenFrom; len < g.lenTo; len++) {
    int n;
    if (!(in >> n) || n < 0) { why = "bad group count at length " + std::to_string(len); return false; }
    g.perLength.push_back(n);
    for (int i = 0; i < n; i++) {
      GroupObs o;
      o.length = len; o.index = i;
      for (int k = 0; k < len; k++) {
        string tok;
        if (!(in >> tok)) { why = "missing representative"; return false; }
        o.centroid.push_back(strtod(tok.c_str(), nullptr));
      }
      int cnt;
      if (!(in >> cnt) || cnt < 0) { why = "bad member count"; return false; }
      // members are listed until the end of the line; the count must agree
      string line;
      std::getline(in, line);
      std::istringstream ls(line);
      int a, b;
      while (ls >> a >> b) o.members.push_back({a, b});
      if ((int)o.members.size() != cnt) {
        why = "group of length " + std::to_string(len) + " announces " + std::to_string(cnt) +
              " members and lists " + std::to_string(o.members.size());
        return false;
      }
      g.groups.push_back(o);
    }
  }
  string rest;
  if (in >> rest) { why = "trailing text after groups"; return false; }
  return true;
}
string groupText(genex::GenexAPI& api, const string& name, const string& tmp) {
  api.saveGroupsOld(name, tmp, false);
  string s = readFile(tmp);
  unlink(tmp.c_str());
  return s;
}
GroupFile observeGroups(Ctx& c, genex::GenexAPI& api, const string& name) {
  GroupFile g;
  string why, text = groupText(api, name, c.file("obs.grp"));
  if (!parseGroupText(text, g, why)) {
    c.fail("group-observation", "groups of dataset cannot be observed: " + why);
    throw Fail();
  }
  return g;
}
string canonical(const GroupFile& g, bool withThreshold) {
  std::ostringstream os;
  os << g.itemCount << " " << g.itemLength << " " << g.lenFrom << " " << g.lenTo << " " << g.distance;
  if (withThreshold) os << " " << num(g.threshold);
  os << "\n";
  vector<string> ls;
  for (auto& o : g.groups) {
    std::ostringstream l;
    char b[32];
    l << o.length << ":";
    for (double d : o.centroid) { snprintf(b, 32, "%.12g,", d); l << b; }
    auto m = o.members;
    std::sort(m.begin(), m.end());
    for (auto& p : m) l << " " << p.first << "/" << p.second;
    ls.push_back(l.str());
  }
  std::sort(ls.begin(), ls.end());
  for (auto& l : ls) os << l << "\n";
  return os.str();
}
pair<int, int> representative(const GroupObs& g, const Table& t, double tol) {
  for (auto it = g.members.rbegin(); it != g.members.rend(); ++it) {
    const Row& r = t.rows[it->first];
    bool ok = true;
    for (int k = 0; k < g.length && ok; k++) ok = close(r[it->second + k], g.centroid[k], tol);
    if (ok) return *it;
  }
  return {-1, -1};
}

// ------------------------------------------------------- session observation
string show(const genex::candidate_time_series_t& v) {
  std::ostringstream os;
  os << v.data.getIndex() << "[" << v.data.getStart() << "," << v.data.getEnd() << ")=" << num(v.dist);
  return os.str();
}
string show(const Cands& v) {
  string s;
  for (auto& x : v) s += show(x) + " ";
  return s;
}
string datasetState(Ctx& c, genex::GenexAPI& api, const string& name) {
  std::ostringstream os;
  auto i = api.getDatasetInfo(name);
  os << "dataset " << i.name << " count " << i.itemCount << " length " << i.itemLength << " normalized " << i.isNormalized
     << " grouped " << i.isGrouped << " distance " << i.distance << " threshold " << num(i.threshold) << "\n";
  for (int k = 0; k < i.itemCount; k++) {
    os << "series " << k << " " << api.getTimeSeriesName(name, k) << " " << api.getTimeSeriesLength(name, k) << " :";
    auto ts = api.getTimeSeries(name, k, -1, -1);
    for (int j = 0; j < ts.getLength(); j++) os << " " << num(ts[j]);
    os << "\n";
  }
  if (i.isGrouped) os << canonical(observeGroups(c, api, name));
  return os.str();
}
string datasetAnswers(Ctx& c, genex::GenexAPI& api, const string& name) {
  std::ostringstream os;
  auto i = api.getDatasetInfo(name);
  int rows = i.itemCount;
  for (int q = 0; q < rows && q < 3; q++) {
    int len = api.getTimeSeriesLength(name, q);
    if (len < 2) continue;
    for (int part = 0; part < 2; part++) {
      int s = part ? 0 : -1, e = part ? (len + 1) / 2 : -1;
      if (part && e < 2) continue;
      auto note = [&](const char* what, std::function<string()> f) {
        string r;
        Outcome o = attempt([&] { r = f(); });
        os << "answer " << what << " " << q << " " << s << " " << e << ": " << (o.threw ? "refused" : r) << "\n";
      };
      note("best", [&] { return show(api.getBestMatch(name, name, q, s, e)); });
      note("kbest", [&] { return show(api.getKBestMatches(3, 5, name, name, q, s, e)); });
      note("brute", [&] { return show(api.getKBestMatchesBruteForce(2, name, name, q, s, e)); });
      note("reduced", [&] { return show(api.getKBestMatchesPAA(2, name, name, q, s, e)); });
      note("distance", [&] { return num(api.distanceBetween(name, q, s, e, name, 0, -1, -1, "manhattan_dtw")); });
    }
  }
  return os.str();
}
string sessionState(Ctx& c, genex::GenexAPI& api, bool answers) {
  string s = "datasets " + std::to_string(api.getDatasetCount()) + "\n";
  vector<string> names;
  for (auto& i : api.getAllDatasetInfo()) names.push_back(i.name);
  std::sort(names.begin(), names.end());
  for (auto& n : names) s += datasetState(c, api, n);
  if (answers) for (auto& n : names) s += datasetAnswers(c, api, n);
  return s;
}
string firstDiff(const string& a, const string& b) {
  std::istringstream x(a), y(b);
  string l, m;
  for (;;) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
    if (!p && !q) return "no difference";
    if (!p) l = "(end)";
    if (!q) m = "(end)";
    if (l != m) return "before: " + l.substr(0, 700) + " | after: " + m.substr(0, 700);
  }
}
Table currentTable(genex::GenexAPI& api, const string& name) {
  Table t;
  int n = api.getDatasetInfo(name).itemCount;
  for (int i = 0; i < n; i++) t.rows.push_back(values(api.getTimeSeries(name, i, -1, -1)));
  return t;
}
bool sortable(int metric) { return metric <= CHE; }

// ----------------------------------------------------------------- platform
long gClockOffsetSeconds = 0;
long gClockStepSeconds = 0;

int withFileLimit(long limit, const std::function<void()>& f) {
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit rl = {(rlim_t)limit, (rlim_t)limit};
    if (setrlimit(RLIMIT_FSIZE, &rl)) _exit(42);
    try { f(); } catch (const std::exception&) { _exit(1); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 42) { fprintf(stderr, "setrlimit failed\n"); exit(3); }
    return WEXITSTATUS(st);
  }
  return 1000 + WTERMSIG(st);
}

size_t heapInUse() {
  struct mallinfo2 mi = mallinfo2();
  return mi.uordblks + mi.hblkhd;
}

}  // namespace vh

// The library reads the wall clock while grouping (progress messages). This
// definition takes precedence over the one in the standard library.
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  long off = __atomic_add_fetch(&vh::gClockOffsetSeconds,
                                __atomic_load_n(&vh::gClockStepSeconds, __ATOMIC_RELAXED), __ATOMIC_RELAXED);
  return time_point(duration_cast<duration>(seconds(ts.tv_sec + off) + nanoseconds(ts.tv_nsec)));
}
}}}

// ---------------------------------------------------------------------- main
using namespace vh;

static const char* arg(int argc, char** argv, const char* name, const char* dflt) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
  return dflt;
}

// A broken library must not outlive the check, fill the disk or take the machine's
// memory: files are limited to 1 GB, and this process is the first to be stopped.
static void contain() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl;
  if (getrlimit(RLIMIT_FSIZE, &rl) == 0) {
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1u << 30);
    setrlimit(RLIMIT_FSIZE, &rl);
  }
  FILE* f = fopen("/proc/self/oom_score_adj", "w");
  if (f) { fputs("900", f); fclose(f); }
}

int main(int argc, char** argv) {
  contain();
  opt.prop = arg(argc, argv, "--prop", "");
  opt.tier = arg(argc, argv, "--tier", "quick");
  opt.outPath = arg(argc, argv, "--out", "/dev/stderr");
  opt.scratch = arg(argc, argv, "--scratch", "");
  opt.progressPath = arg(argc, argv, "--progress", "");
  opt.mode = arg(argc, argv, "--mode", "");
  opt.seed = strtoull(arg(argc, argv, "--seed", "0"), nullptr, 10);
  opt.from = atol(arg(argc, argv, "--from", "0"));
  opt.to = atol(arg(argc, argv, "--to", "1"));
  if (opt.scratch.empty()) { fprintf(stderr, "need --scratch\n"); return 3; }
  gOut = fopen(opt.outPath.c_str(), "a");
  if (!gOut) { perror("out"); return 3; }
  int prog = opt.progressPath.empty() ? -1 : open(opt.progressPath.c_str(), O_WRONLY | O_CREAT, 0600);

  for (long i = opt.from; i < opt.to; i++) {
    if (prog >= 0) {
      char b[32];
      int n = snprintf(b, 32, "%-20ld\n", i);
      if (pwrite(prog, b, n, 0) != n) return 3;
    }
    Ctx c(i, mix(mix(opt.seed, hashStr(opt.prop + "/" + arg(argc, argv, "--stage", ""))), (uint64_t)i));
    c.dir = opt.scratch;
    gClockOffsetSeconds = 0;
    gClockStepSeconds = 0;
    unit = 1;
    try { runCase(c); }
    catch (const Fail&) {}
    catch (const std::exception& e) {
      // an exception nothing in the case expected: the library refused a valid request
      c.fail("unexpected-exception", string("a valid request was refused: ") + e.what());
    }
    if (gViolations >= 5) break;
  }
  fprintf(gOut, "{\"type\":\"done\",\"from\":%ld,\"to\":%ld,\"inputs\":%ld,\"judgements\":%ld,\"counters\":{",
          opt.from, opt.to, gInputs, gEvals);
  bool first = true;
  for (auto& kv : gCounters) {
    fprintf(gOut, "%s\"%s\":%ld", first ? "" : ",", jsonEsc(kv.first).c_str(), kv.second);
    first = false;
  }
  fprintf(gOut, "},\"samples\":[");
  first = true;
  for (auto& s : gSamples) { fprintf(gOut, "%s\"%s\"", first ? "" : ",", jsonEsc(s).c_str()); first = false; }
  fprintf(gOut, "],\"distinct\":[");
  first = true;
  for (uint64_t h : gDistinct) { fprintf(gOut, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 12)); first = false; }
  fprintf(gOut, "]}\n");
  fclose(gOut);
  return 0;
}
