// Dataset files: save/load round trips, and saves that run into a write error at
// every possible byte (file size limit in a child process).
#include "common.hpp"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

static double extreme(Rng& r) {
  switch (r.range(0, 9)) {
    case 0: return (r.chance(0.5) ? -1 : 1) * r.real(0.1, 1) * std::pow(10, r.range(-300, 300));
    case 1: return std::nextafter(r.range(1, 5), r.chance(0.5) ? 0 : 100) * (r.chance(0.5) ? 1 : -1);
    case 2: return r.range(-5, 5);
    case 3: return 1.0 / 3 * r.range(1, 9);
    case 4: return std::numeric_limits<double>::max() * (r.chance(0.5) ? 1 : -1);
    case 5: return std::numeric_limits<double>::min() * r.range(1, 3);
    case 6: return -0.0;
    case 7: return 123456789.123456789 * r.real();
    default: return r.real(-1, 1);
  }
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  bool faults = opt.mode.find("faults") != string::npos;
  TableSpec sp;
  sp.maxRows = faults ? 4 : 7; sp.minLen = faults ? 1 : 0; sp.maxLen = faults ? 5 : 12; sp.allowEmptyRows = !faults;
  if (opt.large()) {
    bool tall = r.chance(0.5);
    sp.minRows = tall ? 65500 : 1; sp.maxRows = tall ? 70000 : 3;
    sp.minLen = tall ? 0 : 65500; sp.maxLen = tall ? 3 : 70000;
    sp.unevenChance = 0.3;
  }
  Table t = genTable(r, sp);
  bool huge = r.chance(0.4);
  if (huge) for (auto& row : t.rows) for (auto& v : row) v = extreme(r);
  if (t.values() == 0) t.rows[0].push_back(1.5);
  bool named = r.chance(0.4);
  static const vector<char> seps = {' ', ',', ';', '\t', '|', ':'};
  char sep = r.pick(seps);
  if (named) for (size_t i = 0; i < t.rows.size(); i++) t.names.push_back(r.chance(0.1) ? std::to_string(r.chance(0.7) ? i : r.range(0, 9)) : r.chance(0.3) ? std::to_string(r.range(0, 99)) + ".5" : "id_" + std::to_string(r.range(0, 99)) + "-" + string(r.range(0, 6), 'z'));
  if (named && r.chance(0.3))   // several words, or other characters that do not separate
    for (auto& n : t.names) {
      static const string other = " .;,|:\t#/()'\"_";
      char ch = other[r.range(0, (int)other.size() - 1)];
      if (ch != sep && r.chance(0.7)) n = "p" + n + string(r.range(1, 2), ch) + "q";
    }
  genex::GenexAPI api;
  string source = c.file("source.txt");
  writeTable(source, t, sep);
  api.loadDataset("d", source, string(1, sep), 0, 0, named);
  unlink(source.c_str());
  for (size_t i = 0; i < t.names.size(); i++)
    REQ(c, api.getTimeSeriesName("d", i) == t.names[i], "source-name", "series " << i << " named '" << t.names[i] << "' was loaded as '" << api.getTimeSeriesName("d", i) << "'; " << describe(t));
  bool norm = r.chance(0.35) && !huge;
  if (norm) api.normalizeDataset("d");
  string f = c.file("saved.txt");
  string where = describe(t) + (named ? ", names" : "") + (norm ? ", normalized" : "") + ", separator '" + sep + "'";
  if (!faults) {
    if (r.chance(0.3)) writeFile(f, string(5000, '7'));   // an older, longer file is replaced
    api.saveDataset("d", f, sep);
    genex::GenexAPI other;
    auto a = api.getDatasetInfo("d");
    auto b = other.loadDataset("copy", f, string(1, sep), 0, 0, named);
    REQ(c, a.itemCount == b.itemCount, "rt-count", "saved " << a.itemCount << " series, loaded back " << b.itemCount << "; " << where);
    REQ(c, a.itemLength == b.itemLength, "rt-length", "saved length " << a.itemLength << ", loaded back " << b.itemLength << "; " << where);
    for (int i = 0; i < a.itemCount; i++) {
      REQ(c, api.getTimeSeriesName("d", i) == other.getTimeSeriesName("copy", i), "rt-name", "series " << i << " came back as '" << other.getTimeSeriesName("copy", i) << "'; " << where);
      Row x = values(api.getTimeSeries("d", i, -1, -1)), y = values(other.getTimeSeries("copy", i, -1, -1));
      REQ(c, x.size() == y.size(), "rt-rowlength", "series " << i << " came back with length " << y.size() << " instead of " << x.size() << "; " << where);
      for (size_t j = 0; j < x.size(); j++)
        REQ(c, sameBits(x[j], y[j]), "rt-value", "value " << i << "," << j << " " << num(x[j]) << " came back as " << num(y[j]) << "; " << where);
    }
    // a second generation is the same file
    string g = c.file("saved2.txt");
    other.saveDataset("copy", g, sep);
    REQ(c, readFile(f) == readFile(g), "rt-second", "saving the loaded copy gives another file; " << where);
    c.count("round_trips");
    c.count("values_compared", t.values());
    c.input(mix(hashTable(t), sep + norm * 1000), true);
    c.sample(where);
    unlink(f.c_str()); unlink(g.c_str());
    return;
  }
  api.saveDataset("d", f, sep);
  string full = readFile(f);
  unlink(f.c_str());
  long n = full.size();
  for (long lim = 0; lim <= n; lim++) {
    int rc = withFileLimit(lim, [&] { api.saveDataset("d", f, sep); });
    string got = fileExists(f) ? readFile(f) : "";
    unlink(f.c_str());
    REQ(c, rc == 0 || rc == 1, "fault-crash", "saving with a limit of " << lim << " bytes ended abnormally (" << rc << "); " << where);
    if (rc == 0)
      REQ(c, got == full, "fault-unreported", "writing stopped after " << lim << " of " << n << " bytes but the save returned normally; " << where);
    if (lim == n) REQ(c, rc == 0, "fault-spurious", "a save that fits exactly was refused; " << where);
    c.count("write_stops");
    c.input(mix(hashTable(t), lim), true);
  }
  // through a link, so that code which removes or replaces its target never touches the device
  string link = c.file("device");
  struct stat st;
  if (stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode) && symlink("/dev/full", link.c_str()) == 0) {
    Outcome o = attempt([&] { api.saveDataset("d", link, sep); });
    bool replaced = lstat(link.c_str(), &st) == 0 && S_ISREG(st.st_mode);
    REQ(c, o.threw || replaced, "fault-devfull", "saving to a full device returned normally; " << where);
    c.count("full_device");
    unlink(link.c_str());
  }
  for (auto& bad : {c.file("none/x.txt"), c.dir}) {
    Outcome o = attempt([&] { api.saveDataset("d", bad, sep); });
    REQ(c, o.threw, "fault-path", "saving to an unwritable path returned normally; " << where);
  }
  c.sample("every limit 0.." + std::to_string(n) + " for " + where);
}
