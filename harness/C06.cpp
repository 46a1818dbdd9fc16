// Every position pair around every series of small datasets.
#include "common.hpp"
#include <algorithm>
using namespace vh;

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.maxRows = 4; sp.minLen = 0; sp.maxLen = 7; sp.allowEmptyRows = true;
  if (opt.large()) {
    bool tall = r.chance(0.5);
    sp.minRows = tall ? 65500 : 1; sp.maxRows = tall ? 70000 : 3;
    sp.minLen = tall ? 0 : 65500; sp.maxLen = tall ? 3 : 70000;
    sp.unevenChance = 0.3;
  }
  Table t = genTable(r, sp);
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  if (r.chance(0.3) && t.values()) { api.normalizeDataset("d"); t = currentTable(api, "d"); }
  if (r.chance(0.3) && t.maxLen() >= 2 && !opt.large()) api.groupDataset("d", 0.4);
  int n = t.rows.size(), L = t.maxLen();
  vector<int> far = {1 << 20, kFarInt, kFarNegInt, -1000};
  vector<int> idxs, pos;
  if (!opt.large()) {
    for (int i = -2; i < n + 2; i++) idxs.push_back(i);
    for (int i = -3; i <= L + 2; i++) pos.push_back(i);
  } else {
    // around both ends, around the limits of two bytes, and anywhere
    auto around = [&](vector<int>& v, int top) {
      set<int> s;
      for (int m : {0, 256, 32768, 65536, top, r.range(0, top), r.range(0, top)}) for (int d = -1; d <= 1; d++) if (m + d <= top + 2) s.insert(m + d);
      v.assign(s.begin(), s.end());
    };
    around(idxs, n);
    around(pos, L);
  }
  for (int f : far) { idxs.push_back(f); pos.push_back(f); }
  for (int i : idxs) {
    bool okIdx = i >= 0 && i < n;
    for (int s : pos) for (int e : pos) {
      bool whole = s < 0 && e < 0;
      bool ok = okIdx && (whole || (s >= 0 && s < e && e <= (int)t.rows[i].size()));
      Outcome o;
      try {
        auto ts = api.getTimeSeries("d", i, s, e);
        c.evals();
        if (!ok) { std::ostringstream os; os << "request series " << i << " [" << s << "," << e << ") was answered with length " << ts.getLength() << "; " << describe(t); c.fail("slice-accepted", os.str()); throw Fail(); }
        int ws = whole ? 0 : s, we = whole ? (int)t.rows[i].size() : e;
        REQ(c, ts.getLength() == we - ws && ts.getIndex() == i && ts.getStart() == ws && ts.getEnd() == we, "slice-identity",
            "request series " << i << " [" << s << "," << e << ") returned " << ts.getIndex() << " [" << ts.getStart() << "," << ts.getEnd() << ") length " << ts.getLength() << "; " << describe(t));
        for (int k = 0; k < we - ws; k += opt.large() && k > 3 && k < we - ws - 100 ? 61 : 1)
          REQ(c, sameBits(ts[k], t.rows[i][ws + k]), "slice-value", "series " << i << " [" << s << "," << e << ") position " << k << " is " << num(ts[k]) << " instead of " << num(t.rows[i][ws + k]) << "; " << describe(t));
        for (int k : {-1, ts.getLength(), ts.getLength() + 1, 1 << 28, -(1 << 28)}) {
          Outcome q = attempt([&] { volatile double v = ts[k]; (void)v; });
          REQ(c, q.threw, "slice-overread", "reading position " << k << " of a series of length " << ts.getLength() << " was allowed; " << describe(t));
        }
        c.count("slices_returned");
      } catch (const Fail&) { throw; }
      catch (const std::exception& ex) {
        c.evals();
        if (ok) { std::ostringstream os; os << "valid request series " << i << " [" << s << "," << e << ") was refused: " << ex.what() << "; " << describe(t); c.fail("slice-refused", os.str()); throw Fail(); }
        c.count("requests_refused");
      }
      c.input(mix(mix(hashTable(t), i), mix(s, e)), okIdx);
    }
  }
  c.sample("all index/position triples for " + describe(t));
}
