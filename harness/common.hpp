// Shared pieces of the runtime-monitoring harness: seeded random choices, case
// bookkeeping, reference computations and an observer of group state.
//
// Only the public interface of the library (GenexAPI and the types it returns)
// is used here, so that internal refactoring cannot break the harness.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include "GenexAPI.hpp"

namespace vh {

using std::string;
using std::vector;
using std::pair;
using std::map;
using std::set;

typedef vector<double> Row;

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // integer in [a, b]
  int range(int a, int b) { return b <= a ? a : a + (int)(next() % (uint64_t)(b - a + 1)); }
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  bool chance(double p) { return real() < p; }
  template <class T> const T& pick(const vector<T>& v) { return v[next() % v.size()]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const string& s);

// ------------------------------------------------------------ case context
struct Options {
  string prop, tier, outPath, scratch, progressPath, mode;
  uint64_t seed = 0;
  long from = 0, to = 0;
  bool quick() const { return tier != "thorough"; }
  bool large() const { return mode.find("large") != string::npos; }
};
extern Options opt;

struct Ctx {
  long caseNo;
  Rng rng;
  string dir;        // scratch directory of this process
  int failures = 0;
  Ctx(long c, uint64_t seed) : caseNo(c), rng(seed) {}
  // records a violation of the property
  void fail(const string& key, const string& what);
  // one monitored judgement was made
  void evals(long n = 1);
  // one input (case, call, schedule...) was tried; h identifies its content
  void input(uint64_t h, bool nontrivial = true);
  void count(const string& counter, long n = 1);
  void sample(const string& s);
  string file(const string& name) const { return dir + "/" + name; }
};

struct Fail {};  // thrown to abandon a case after a violation

#define REQ(c, cond, key, what)                                   \
  do {                                                            \
    (c).evals();                                                  \
    if (!(cond)) {                                                \
      std::ostringstream _os;                                     \
      _os << what;                                                \
      (c).fail(key, _os.str());                                   \
      throw vh::Fail();                                           \
    }                                                             \
  } while (0)

// each property program defines these
void runCase(Ctx& c);
// optional: number of cases for a tier is chosen by the orchestrator

// ------------------------------------------------------------------ values
// The largest integers used as indices and positions. Builds that report integer
// overflow stay where sums and differences of two of them are still defined: an
// overflow without any effect on the answer is not what is looked for.
#ifdef __SANITIZE_ADDRESS__
const int kFarInt = 1000000000, kFarNegInt = -1000000000;
#else
const int kFarInt = 2147483647, kFarNegInt = -2147483647 - 1;
#endif
extern const double kInf;
string num(double x);
string show(const Row& r);
bool sameBits(double a, double b);
// |a-b| within relative/absolute tolerance; both infinite of same sign counts
// magnitude of the data of the current case, absolute tolerances are multiples of it
extern double unit;
bool close(double a, double b, double tol = 1e-9);

// -------------------------------------------------------------- data makers
struct Table {
  vector<Row> rows;
  vector<string> names;  // empty when the table has no name column
  int maxLen() const;
  long values() const;
};
enum Style { REALS, INTS, DYADIC, WALK, NEARCONST, CONSTANT, MIXED, ZEROISH, RISING, FALLING, SPIKES, STYLES };
double genValue(Rng& r, int style, double prev);
Row genRow(Rng& r, int len, int style);
struct TableSpec {
  int minRows = 1, maxRows = 8, minLen = 1, maxLen = 12;
  double unevenChance = 0.5;
  bool allowEmptyRows = false, nonNegative = false;
};
Table genTable(Rng& r, const TableSpec& s, int* styleOut = nullptr);
// writes the table to a scratch file and loads it
void loadTable(Ctx& c, genex::GenexAPI& api, const string& name, const Table& t);
// writes with enough digits to be exact; one separator between values
void writeTable(const string& path, const Table& t, char sep = ' ');
// now and then moves the data of a case away from zero, makes it much smaller or
// larger, and sets unit; returns the shift in units
double rescale(Rng& r, std::initializer_list<Table*> tables, double chance = 0.15);
void writeFile(const string& path, const string& text);
string readFile(const string& path);
bool fileExists(const string& path);
uint64_t hashTable(const Table& t);
string describe(const Table& t);

// -------------------------------------------------------- reference oracles
enum Metric { EUC = 0, MAN, CHE, COS, SOR, METRICS };
extern const char* kMetricName[METRICS];
double refPairwise(int metric, const Row& a, const Row& b);
int refBand(int m, int n, double ratio);
// minimum over band-limited alignments (EUC, MAN, CHE)
double refDTW(int metric, const Row& a, const Row& b, double ratio);
// cost of a given alignment
double refPathCost(int metric, const Row& a, const Row& b, const vector<pair<int, int>>& path);
Row slice(const Row& r, int start, int end);
Row refPAA(const Row& r, int block);

// ------------------------------------------------------ calls with outcomes
struct Outcome {
  bool threw = false;
  bool genex = false;   // library exception type
  string what;
};
Outcome attempt(const std::function<void()>& f);

Row values(const genex::TimeSeries& t);

// --------------------------------------------------------- group observation
struct GroupObs {
  int length;
  int index;                       // order within its length
  Row centroid;
  vector<pair<int, int>> members;  // (series, start) in file order
};
struct GroupFile {
  double threshold = 0;
  int itemCount = 0, itemLength = 0, lenFrom = 0, lenTo = 0;
  string distance;
  vector<GroupObs> groups;
  vector<int> perLength;           // number of groups for lenFrom..lenTo-1
};
// parses the text group format; returns false with a reason if malformed
bool parseGroupText(const string& text, GroupFile& out, string& why);
// text group file of a dataset, through the public API
string groupText(genex::GenexAPI& api, const string& name, const string& tmp);
GroupFile observeGroups(Ctx& c, genex::GenexAPI& api, const string& name);
// representation independent of member order: for comparing two group states
string canonical(const GroupFile& g, bool withThreshold = true);
// (series,start) of a member with the centroid's values, (-1,-1) if none
pair<int, int> representative(const GroupObs& g, const Table& t, double tol = 1e-9);

// ------------------------------------------------------- session observation
typedef vector<genex::candidate_time_series_t> Cands;
// exact text of matches: identity and distance bits
string show(const Cands& v);
string show(const genex::candidate_time_series_t& v);
// everything observable about one dataset: attributes, names, values, groups
string datasetState(Ctx& c, genex::GenexAPI& api, const string& name);
// answers of a fixed set of questions about one dataset (with refusals noted)
string datasetAnswers(Ctx& c, genex::GenexAPI& api, const string& name);
// the two above for all datasets of a session, plus the listing
string sessionState(Ctx& c, genex::GenexAPI& api, bool answers = true);
// first line in which two texts differ
string firstDiff(const string& a, const string& b);
// values of a dataset as seen through the interface
Table currentTable(genex::GenexAPI& api, const string& name);
bool sortable(int metric);   // distances with sound cutoffs

// -------------------------------------------------------- clock interposing
extern long gClockOffsetSeconds;   // added to the wall clock seen by the library
extern long gClockStepSeconds;     // added to the offset at every reading

// runs f in a child whose files cannot grow beyond limit bytes;
// 0: returned, 1: exception, other: abnormal end
int withFileLimit(long limit, const std::function<void()>& f);

// heap bytes currently in use
size_t heapInUse();

}  // namespace vh
