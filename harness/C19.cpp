// Damaged and foreign group files; saves that stop at every byte.
#include "common.hpp"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  bool faults = opt.mode.find("faults") != string::npos;
  TableSpec sp;
  sp.minRows = 1; sp.maxRows = faults ? 3 : 4; sp.minLen = 2; sp.maxLen = faults ? 4 : 5; sp.unevenChance = 0.5;
  Table t = genTable(r, sp);
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  int metric = r.range(0, METRICS - 1);
  bool whole = r.chance(0.3);
  double T = r.range(0, 64) / 32.0;
  int count = api.groupDataset("d", T, kMetricName[metric], 1, whole);
  string f = c.file("groups"), text = c.file("text");
  std::ostringstream cs;
  cs << kMetricName[metric] << " T=" << T << (whole ? " whole" : "") << "; " << describe(t);
  string ctx = cs.str();
  string saved = canonical(observeGroups(c, api, "d"));
  if (faults) {
    for (int kind = 0; kind < 2; kind++) {
      auto save = [&](const string& p) { if (kind) api.saveGroupsOld("d", p, r.chance(0.2)); else api.saveGroups("d", p); };
      uint64_t keep = r.s;
      save(f);
      string full = readFile(f);
      unlink(f.c_str());
      long n = full.size();
      for (long lim = 0; lim <= n; lim++) {
        int rc = withFileLimit(lim, [&] { r.s = keep; save(f); });
        string got = fileExists(f) ? readFile(f) : "";
        REQ(c, rc == 0 || rc == 1, "save-crash", "saving with a limit of " << lim << " bytes ended abnormally (" << rc << "); " << ctx);
        if (rc == 0 && got != full) {
          // other bytes are fine if they restore the same groups
          bool good = false;
          if (kind == 0) {
            genex::GenexAPI other;
            loadTable(c, other, "d", t);
            Outcome o = attempt([&] { other.loadGroups("d", f); });
            good = !o.threw && canonical(observeGroups(c, other, "d")) == saved;
          }
          REQ(c, good, "save-unreported", (kind ? "text" : "binary") << " group file stopped after " << lim << " of " << n << " bytes but saving returned normally; " << ctx);
        }
        unlink(f.c_str());
        if (lim == n) REQ(c, rc == 0, "save-spurious", "a save that fits exactly was refused; " << ctx);
        c.count("write_stops");
        c.input(mix(hashTable(t), mix(lim, kind)), true);
      }
      // through a link, so that code which removes or replaces its target never touches the device
      string link = c.file("device");
      struct stat st;
      if (stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode) && symlink("/dev/full", link.c_str()) == 0) {
        Outcome o = attempt([&] { save(link); });
        bool replaced = lstat(link.c_str(), &st) == 0 && S_ISREG(st.st_mode);
        REQ(c, o.threw || replaced, "save-devfull", "saving groups to a full device returned normally; " << ctx);
        unlink(link.c_str());
      }
      for (auto& bad : {c.file("none/x"), c.dir}) {
        Outcome o = attempt([&] { save(bad); });
        REQ(c, o.threw, "save-path", "saving groups to an unwritable path returned normally; " << ctx);
      }
    }
    c.sample("every write limit for " + ctx);
    return;
  }
  api.saveGroups("d", f);
  string file = readFile(f);
  api.saveGroupsOld("d", text, false);
  string asText = readFile(text);
  // what the dataset holds when a damaged file arrives
  int prior = r.range(0, 2);
  int m2 = r.range(0, METRICS - 1);
  double T2 = r.range(0, 64) / 32.0 + 0.01;
  auto setPrior = [&] {
    if (prior == 0) { api.unloadDataset("d"); loadTable(c, api, "d", t); }
    else api.groupDataset("d", T2, kMetricName[m2], 1, prior == 2);
  };
  setPrior();
  api.preparePAA("d", 2);
  string before = datasetState(c, api, "d"), beforeAns = datasetAnswers(c, api, "d");
  auto arrive = [&](const string& bytes, const string& what, bool isText, bool mustRefuse, bool anyGroups) {
    writeFile(f, bytes);
    int n = -1;
    Outcome o = attempt([&] { n = isText ? api.loadGroupsOld("d", f) : api.loadGroups("d", f); });
    REQ(c, o.threw || !mustRefuse, "load-accepted", what << " was accepted; " << ctx);
    string now = datasetState(c, api, "d");
    if (o.threw) {
      REQ(c, now == before, "load-altered", what << " was refused (" << o.what << ") but changed the dataset: " << firstDiff(before, now) << "; " << ctx);
      if (r.chance(0.03)) REQ(c, datasetAnswers(c, api, "d") == beforeAns, "load-altered-answers", what << " was refused but changed answers; " << ctx);
      c.count("refused");
    } else {
      if (!anyGroups) {
        string got = canonical(observeGroups(c, api, "d"));
        REQ(c, got == saved && n == count, "load-wrong", what << " was accepted with other groups: " << firstDiff(saved, got) << "; " << ctx);
      }
      c.count("harmless");
      setPrior();
      if (prior == 0) api.preparePAA("d", 2);
    }
    c.input(mix(hashTable(t), hashStr(what)), true);
  };
  auto atByte = [](const char* w, size_t i, size_t n) { return string(w) + " at byte " + std::to_string(i) + " of " + std::to_string(n); };
  for (size_t i = 0; i < file.size(); i++) arrive(file.substr(0, i), atByte("file truncated", i, file.size()), false, false, false);
  for (size_t i = 0; i < file.size(); i++) {
    vector<int> masks = {0x01, 0x80, 0xff, 1 << r.range(1, 6), r.range(1, 255)};
    for (int m : masks) {
      string d = file;
      d[i] ^= m;
      arrive(d, atByte("file changed", i, file.size()) + " mask " + std::to_string(m), false, false, false);
    }
  }
  for (int k = 0; k < 30; k++) {
    string d = file;
    int a = r.range(0, d.size() - 1), b = r.range(0, d.size() - 1);
    string what;
    switch (r.range(0, 4)) {
      case 0: std::swap(d[a], d[b]); what = "bytes swapped"; break;
      case 1: d.erase(std::min(a, b), std::abs(a - b)); what = "range removed"; break;
      case 2: d.insert(a, d.substr(std::min(a, b), std::abs(a - b))); what = "range repeated"; break;
      case 3: d += string(r.range(1, 40), (char)r.range(0, 255)); what = "bytes appended"; break;
      default: for (int x = std::min(a, b); x <= std::max(a, b); x++) d[x] = 0; what = "range zeroed";
    }
    arrive(d, what + " " + std::to_string(a) + "," + std::to_string(b), false, false, false);
  }
  // not group files
  arrive("", "an empty file", false, true, false);
  arrive(asText, "a text group file", false, true, false);
  arrive("1 2 3\n4 5 6\n", "a dataset file", false, true, false);
  { string junk; for (int k = r.range(1, 400); k > 0; k--) junk += (char)r.range(0, 255); arrive(junk, "random bytes", false, true, false); }
  arrive(file, "a binary group file as text", true, true, false);
  arrive("", "an empty text group file", true, true, false);
  // groups of datasets of other dimensions
  for (int k = 0; k < 12; k++) {
    Table u = t;
    string what;
    int L = u.maxLen();
    bool isText = k >= 6;
    switch (k % 6) {
      case 0: u.rows.push_back(u.rows[0]); what = "groups of a dataset with one series more"; break;
      case 1: for (auto& row : u.rows) if ((int)row.size() == L) row.push_back(0.5); what = "groups of a dataset with longer series"; break;
      case 2: if (u.rows.size() < 2) continue;
              u.rows.pop_back(); what = "groups of a dataset with one series less"; break;
      case 3: if (L < 3) continue;
              for (auto& row : u.rows) if ((int)row.size() == L) row.pop_back(); what = "groups of a dataset with shorter series"; break;
      case 4: for (int n = r.range(2, 6); n > 0; n--) u.rows.push_back(u.rows[0]); what = "groups of a dataset with several series more"; break;
      default: if (u.rows.size() < 2) continue;
               { Row keep = u.rows[r.range(0, u.rows.size() - 1)]; keep.resize(L, 0.5); u.rows = {keep}; } what = "groups of a dataset with one series";
    }
    genex::GenexAPI other;
    loadTable(c, other, "d", u);
    other.groupDataset("d", T, kMetricName[metric], 1, whole);
    string g = c.file("foreign");
    if (isText) other.saveGroupsOld("d", g, false); else other.saveGroups("d", g);
    string bytes = readFile(g);
    unlink(g.c_str());
    arrive(bytes, what + (isText ? " (text)" : ""), isText, true, false);
  }
  // groups that name subsequences this dataset does not have
  if (t.rows.size() > 1) {
    Table u = t;
    int L = u.maxLen();
    for (auto& row : u.rows) while ((int)row.size() < L) row.push_back(0.25);
    bool differs = false;
    for (size_t k = 0; k < u.rows.size(); k++) differs = differs || u.rows[k].size() != t.rows[k].size();
    if (differs && !whole) {
      genex::GenexAPI other;
      loadTable(c, other, "d", u);
      other.groupDataset("d", T, kMetricName[metric], 1, false);
      string g = c.file("foreign");
      other.saveGroups("d", g);
      arrive(readFile(g), "groups with subsequences the dataset does not have", false, true, false);
      other.saveGroupsOld("d", g, false);
      arrive(readFile(g), "text groups with subsequences the dataset does not have", true, true, false);
      unlink(g.c_str());
      c.count("foreign_members");
    }
  }
  // damaged text files: refused without any change, or accepted
  for (int k = 0; k < 120; k++) {
    string d = asText;
    if (r.chance(0.5)) d.resize(r.range(0, d.size() - 1));
    else if (r.chance(0.5)) d[r.range(0, d.size() - 1)] = r.chance(0.5) ? '-' : (char)r.range(32, 126);
    else {
      // one number becomes another
      static const vector<string> odd = {"0", "1", "2", "3", "-1", "-2", "-3", "5", "2147483647", "-2147483648", "2147483646", "99999999999", "1e308", "nan", "4", "-0"};
      vector<pair<size_t, size_t>> toks;
      for (size_t i = 0; i < d.size();) {
        if (isspace((unsigned char)d[i])) { i++; continue; }
        size_t e = i;
        while (e < d.size() && !isspace((unsigned char)d[e])) e++;
        toks.push_back({i, e - i});
        i = e;
      }
      // the header and the first groups more often
      auto tk = toks[r.chance(0.3) ? r.range(0, std::min<int>(9, toks.size() - 1)) : r.range(0, toks.size() - 1)];
      d.replace(tk.first, tk.second, r.pick(odd));
    }
    arrive(d, "damaged text file", true, false, true);
  }
  // a missing file, a directory
  unlink(f.c_str());
  for (auto& bad : {f, c.dir}) for (int kind = 0; kind < 2; kind++) {
    Outcome o = attempt([&] { if (kind) api.loadGroupsOld("d", bad); else api.loadGroups("d", bad); });
    REQ(c, o.threw, "load-missing", "loading groups from a missing file or directory returned normally; " << ctx);
  }
  REQ(c, datasetState(c, api, "d") == before && datasetAnswers(c, api, "d") == beforeAns, "load-altered", "the dataset changed; " << ctx);
  // the undamaged file still loads
  writeFile(f, file);
  int n = api.loadGroups("d", f);
  REQ(c, n == count && canonical(observeGroups(c, api, "d")) == saved, "load-good", "the intact file does not restore the groups; " << ctx);
  unlink(f.c_str()); unlink(text.c_str());
  c.sample("all truncations and byte changes of a " + std::to_string(file.size()) + " byte file, " + ctx);
}
