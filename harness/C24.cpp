// Value semantics of series objects against a model.
#include "common.hpp"
#include "distance/Distance.hpp"
#include <algorithm>
#include <memory>
using namespace vh;

struct Slot {
  std::unique_ptr<genex::TimeSeries> ts;
  bool owner = false;
  Row v;                  // contents, if owner
  int buf = -1, start = 0, end = 0, index = 0;   // window of an external buffer, otherwise
  bool dirty = false;     // written through its elements since the last envelope-safe change
};

static vector<Row> gBuf;

static Row contents(const Slot& s) { return s.owner ? s.v : slice(gBuf[s.buf], s.start, s.end); }

static void checkSlot(Ctx& c, const Slot& s, const string& hist) {
  Row want = contents(s);
  const genex::TimeSeries& t = *s.ts;
  REQ(c, t.getLength() == (int)want.size(), "value-length", "length " << t.getLength() << " instead of " << want.size() << " after" << hist);
  REQ(c, values(t) == want, "value-contents", show(values(t)) << " instead of " << show(want) << " after" << hist);
  REQ(c, t.getIndex() == s.index && t.getStart() == (s.owner ? 0 : s.start) && t.getEnd() == (s.owner ? (int)s.v.size() : s.end), "value-identity",
      "identity " << t.getIdentifierString() << " is wrong after" << hist);
  for (int bad : {-1, (int)want.size(), (int)want.size() + 5}) {
    Outcome o = attempt([&] { volatile double d = t[bad]; (void)d; });
    REQ(c, o.threw, "value-range", "reading position " << bad << " of a series of length " << want.size() << " after" << hist);
  }
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  gBuf.clear();
  for (int k = 0; k < 3; k++) gBuf.push_back(genRow(r, opt.large() ? r.range(200, 2000) : r.range(4, 12), r.range(0, STYLES - 1)));
  if (r.chance(0.5)) gBuf[1] = gBuf[0];
  vector<Slot> s(4);
  string hist;
  auto freshOwner = [&](Slot& x) {
    int n = opt.large() ? r.range(1, 3) * 300 : r.range(1, 9);
    x.ts.reset(new genex::TimeSeries(n));
    x.owner = true; x.index = 0; x.dirty = false;
    x.v.assign(n, 0.0);
    if (r.chance(0.8)) {
      x.v = genRow(r, n, r.range(0, STYLES - 1));
      if (r.chance(0.3)) for (int k = 0; k < n; k++) x.v[k] = gBuf[0][k % gBuf[0].size()];
      for (int k = 0; k < n; k++) (*x.ts)[k] = x.v[k];
    }
    hist += " own" + std::to_string(n) + ";";
  };
  auto freshRef = [&](Slot& x) {
    x.owner = false; x.dirty = false;
    x.buf = r.range(0, 2);
    int n = gBuf[x.buf].size();
    if (r.chance(0.3)) { x.start = 0; x.end = n; x.index = 0; x.ts.reset(new genex::TimeSeries(gBuf[x.buf].data(), n)); }
    else {
      x.start = r.range(0, n - 1); x.end = r.range(x.start + 1, n); x.index = r.range(0, 9);
      x.ts.reset(new genex::TimeSeries(gBuf[x.buf].data(), x.index, x.start, x.end));
    }
    hist += " ref;";
  };
  auto copyModel = [&](Slot& d, const Slot& from) { d.owner = from.owner; d.v = from.v; d.buf = from.buf; d.start = from.start; d.end = from.end; d.index = from.index; d.dirty = false; };
  for (auto& x : s) { if (r.chance(0.5)) freshOwner(x); else freshRef(x); }
  uint64_t h = 0;
  int steps = r.range(8, 30);
  for (int k = 0; k < steps; k++) {
    int i = r.range(0, 3), j = r.range(0, 3);
    switch (r.range(0, 10)) {
      case 0: freshOwner(s[i]); break;
      case 1: freshRef(s[i]); break;
      case 2: {   // copy construction
        genex::TimeSeries* n = new genex::TimeSeries(*s[j].ts);
        s[i].ts.reset(n);
        if (i != j) copyModel(s[i], s[j]);
        s[i].dirty = false;
        hist += " copy " + std::to_string(j) + " to " + std::to_string(i) + ";";
        break;
      }
      case 3: case 4: {   // assignment, self-assignment included
        *s[i].ts = *s[j].ts;
        if (i != j) copyModel(s[i], s[j]);
        hist += " assign " + std::to_string(j) + " to " + std::to_string(i) + ";";
        break;
      }
      case 5: {   // assignment from a temporary
        Slot tmp;
        if (r.chance(0.5)) freshOwner(tmp); else freshRef(tmp);
        *s[i].ts = std::move(*tmp.ts);
        copyModel(s[i], tmp);
        hist += " move to " + std::to_string(i) + ";";
        break;
      }
      case 6: {   // element write of an owner
        if (!s[i].owner) break;
        int p = r.range(0, s[i].v.size() - 1);
        double d = r.real(-3, 3);
        (*s[i].ts)[p] = d;
        s[i].v[p] = d;
        s[i].dirty = true;
        hist += " write " + std::to_string(i) + ";";
        break;
      }
      case 7: {   // addition
        Row a = contents(s[i]), b = contents(s[j]);
        bool fits = a.size() == b.size();
        if (fits && !s[i].owner) break;   // writing through references is not judged
        Outcome o = attempt([&] { *s[i].ts += *s[j].ts; });
        REQ(c, o.threw == !fits, "add-length", "adding lengths " << a.size() << " and " << b.size() << (o.threw ? " was refused" : " was accepted") << " after" << hist);
        if (fits) { for (size_t q = 0; q < a.size(); q++) s[i].v[q] = a[q] + b[q]; s[i].dirty = false; }
        hist += " add " + std::to_string(j) + " to " + std::to_string(i) + ";";
        c.count(fits ? "additions" : "additions_refused");
        break;
      }
      case 8: {   // envelopes use the current contents
        if (s[i].dirty) break;
        Row v = contents(s[i]);
        int n = v.size(), w = r.range(0, n + 1);
        bool lowFirst = r.chance(0.5);
        const double *lo = nullptr, *hi = nullptr;
        if (lowFirst) { lo = s[i].ts->getKeoghLower(w); hi = s[i].ts->getKeoghUpper(w); } else { hi = s[i].ts->getKeoghUpper(w); lo = s[i].ts->getKeoghLower(w); }
        for (int q = 0; q < n; q++) {
          double mn = kInf, mx = -kInf;
          for (int p = std::max(0, q - w); p <= std::min(n - 1, q + w); p++) { mn = std::min(mn, v[p]); mx = std::max(mx, v[p]); }
          REQ(c, lo[q] == mn && hi[q] == mx, "value-envelope", "envelope at " << q << " is " << num(lo[q]) << ".." << num(hi[q]) << " instead of " << num(mn) << ".." << num(mx) << " after" << hist);
        }
        c.count("envelopes");
        hist += " envelope " + std::to_string(i) + ";";
        break;
      }
      default: {   // comparison
        Row a = contents(s[i]), b = contents(s[j]);
        bool want = a.size() == b.size(), unclear = false;
        for (size_t q = 0; want && q < a.size(); q++) {
          double d = std::fabs(a[q] - b[q]);
          if (d > 0.5e-9 && d < 2e-9) unclear = true;
          if (d > 1e-9) { want = false; }
        }
        if (unclear) break;
        bool got = *s[i].ts == *s[j].ts, back = *s[j].ts == *s[i].ts;
        REQ(c, got == want && back == want, "value-equality", show(a) << " and " << show(b) << " compare " << (got ? "equal" : "different") << " after" << hist);
        c.count(want ? "equal_pairs" : "different_pairs");
      }
    }
    for (auto& x : s) checkSlot(c, x, hist);
    // results computed from the objects are those of their contents
    if (r.chance(0.3)) {
      Row a = contents(s[i]), b = contents(s[j]);
      double d = genex::getDistanceFromName("manhattan_dtw")(*s[i].ts, *s[j].ts, kInf, genex::gNoMatching);
      REQ(c, close(d, refDTW(MAN, a, b, 0.1), 1e-9), "value-results", "distance of " << show(a) << " and " << show(b) << " is " << num(d) << " after" << hist);
    }
    // near copies in another place
    if (r.chance(0.3)) {
      Row a = contents(s[i]), b = a;
      b.insert(b.begin(), 7.0);
      for (size_t q = 1; q < b.size(); q++) b[q] += r.real(-0.4e-9, 0.4e-9) * (std::fabs(b[q]) < 1 ? 1 : 0);
      genex::TimeSeries near(b.data(), 3, 1, b.size());
      REQ(c, near == *s[i].ts && *s[i].ts == near, "value-equality", "a copy of " << show(a) << " in another place compares different after" << hist);
      int p = r.range(1, b.size() - 1);
      b[p] += r.chance(0.5) ? 1e-6 : -1e-6;
      REQ(c, !(near == *s[i].ts), "value-equality", "a series differing at one position compares equal to " << show(a) << " after" << hist);
    }
  }
  h = hashStr(hist);
  for (auto& b : gBuf) h = mix(h, hashStr(show(b)));
  c.input(h, true);
  c.sample(hist);
}
