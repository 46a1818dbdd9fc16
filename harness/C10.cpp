// Cutoffs, envelopes and the envelope lower bound.
#include "common.hpp"
#include "distance/Distance.hpp"
#include <algorithm>
using namespace vh;

// Inner functions that a rewrite may drop or rename: found through their
// arguments when they exist, otherwise the overloads below answer NaN.
namespace inner {
struct Any { template <class T> Any(T&&) {} };
double kimLowerBound(Any, Any, Any) { return NAN; }
double keoghLowerBound(Any, Any, Any) { return NAN; }
double crossKeoghLowerBound(Any, Any, Any) { return NAN; }
double cascadeDistance(Any, Any, Any, Any) { return NAN; }
double bound(int which, const genex::TimeSeries& a, const genex::TimeSeries& b, double cut) {
  return which == 0 ? keoghLowerBound(a, b, cut) : which == 1 ? kimLowerBound(a, b, cut) : crossKeoghLowerBound(a, b, cut);
}
double cascade(const genex::TimeSeries& a, const genex::TimeSeries& b, double cut) { return cascadeDistance(a, b, cut, genex::gNoMatching); }
}

static void checkEnvelope(Ctx& c, const genex::TimeSeries& ts, const Row& v, int band, const string& why) {
  const double* lo = ts.getKeoghLower(band);
  const double* hi = ts.getKeoghUpper(band);
  int n = v.size();
  for (int i = 0; i < n; i++) {
    double mn = kInf, mx = -kInf;
    for (int j = std::max(0, i - band); j <= std::min(n - 1, i + band); j++) { mn = std::min(mn, v[j]); mx = std::max(mx, v[j]); }
    REQ(c, lo[i] == mn && hi[i] == mx, "envelope", "envelope at " << i << " for band " << band << " is " << num(lo[i]) << ".." << num(hi[i]) << " instead of " << num(mn) << ".." << num(mx) << " " << why << " of " << show(v));
  }
}

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  int style = r.range(0, STYLES - 1);
  int big = opt.large() ? 900 : r.chance(0.1) ? 60 : 16;
  double shift = rescale(r, {});
  for (int k = 0; k < (opt.large() ? 1 : 6); k++) {
    int m = r.range(opt.large() ? 200 : 1, big), n = r.chance(0.5) ? m : r.range(std::max(1, m - 3), std::min(big, m + 3));
    Row a = genRow(r, m, style), b = genRow(r, n, style);
    for (auto& v : a) v = (v + shift) * unit;
    for (auto& v : b) v = (v + shift) * unit;
    if (r.chance(0.3)) for (int i = 0; i < std::min(m, n); i++) if (r.chance(0.8)) b[i] = a[i];
    genex::TimeSeries x(a.data(), m), y(b.data(), n);
    double ratio = r.chance(0.2) ? 1.0 : r.chance(0.2) ? 0.0 : r.real();
    genex::setWarpingBandRatio(ratio);
    for (int warped = 0; warped < 3; warped++) {
      if (!warped && m != n) continue;
      for (int metric = 0; metric <= (warped == 2 ? EUC : CHE); metric++) {
        // the last round is what searches use in place of euclidean_dtw
        string dn = warped == 2 ? "cascade" : string(kMetricName[metric]) + (warped ? "_dtw" : "");
        double d = warped ? refDTW(metric, a, b, ratio) : refPairwise(metric, a, b);
        auto f = genex::getDistanceFromName(warped == 2 ? "euclidean_dtw" : dn);
        if (warped == 2 && std::isnan(inner::cascade(x, y, kInf))) continue;
        vector<double> cuts = {0, kInf, 1e300, unit * r.real(), unit * r.real() * 10};
        if (std::isfinite(d)) for (double q : {1.0, 1 + 1e-6, 1 - 1e-6, 0.5, 0.9, 1.1, 2.0, 100.0, 0.99, 1.01, 1.0 / m, (double)m, 1.0 / (2 * m), std::sqrt(m), 1 / std::sqrt(m)}) cuts.push_back(d * q);
        for (double cut : cuts) {
          double g = warped == 2 ? inner::cascade(x, y, cut) : f(x, y, cut, genex::gNoMatching);
          auto ctx = [&] { return " for " + dn + " ratio " + num(ratio) + " cutoff " + num(cut) + " exact " + num(d) + " of " + show(a) + " and " + show(b); };
          if (std::isinf(g) && g > 0) {
            REQ(c, std::isinf(d) || d >= cut * (1 - 1e-9) - 1e-15 * unit, "cutoff-hides", "a distance below the cutoff was reported as infinite" << ctx());
            c.count("cut_off");
          } else {
            REQ(c, close(g, d, 1e-9), "cutoff-value", "distance with cutoff is " << num(g) << ctx());
            c.count("exact_below_cutoff");
          }
          c.input(mix(hashStr(show(a) + show(b)), mix(metric * 3 + warped, hashStr(num(cut)))), m > 1);
        }
      }
    }
    // lower bound, both directions, repeated with other bands on the same objects
    for (int q = 0; q < 4; q++) {
      double rt = q == 0 ? ratio : q == 3 ? ratio : r.real();
      genex::setWarpingBandRatio(rt);
      double d = refDTW(EUC, a, b, rt);
      for (int which = 0; which < 3; which++) for (int dir = 0; dir < 2; dir++) {
        double cut = r.chance(0.5) ? kInf : d * r.real(0, 2);
        if (std::isnan(cut)) cut = kInf;
        double lb = dir ? inner::bound(which, y, x, cut) : inner::bound(which, x, y, cut);
        if (std::isnan(lb)) continue;
        // infinity means that the bound is above the cutoff
        if (std::isinf(lb)) REQ(c, std::isinf(d) || d >= cut * (1 - 1e-9), "lower-bound", "bound " << which << " is infinite although the warped distance " << num(d) << " is below the cutoff " << num(cut) << " for ratio " << num(rt) << " direction " << dir << " of " << show(a) << " and " << show(b));
        else REQ(c, !(lb > d * (1 + 1e-9) + 1e-12 * unit), "lower-bound", "lower bound " << which << " of " << num(lb) << " exceeds the warped distance " << num(d) << " for ratio " << num(rt) << " direction " << dir << " of " << show(a) << " and " << show(b));
        c.count("lower_bounds");
        if (lb > 0) c.count("lower_bounds_positive");
      }
    }
    // envelopes for every band, in random order, on one object
    vector<int> bands;
    if (!opt.large()) for (int w = 0; w <= m + 1; w++) bands.push_back(w);
    else bands = {0, 1, 255, 256, m - 1, m, m + 1, r.range(0, m), r.range(0, m)};
    for (size_t w = 0; w < bands.size(); w++) std::swap(bands[w], bands[r.range(w, bands.size() - 1)]);
    for (int w : bands) { checkEnvelope(c, x, a, w, "(fresh)"); c.count("envelopes"); }
    // after assignment and addition
    {
      Row p = genRow(r, m, style), q = genRow(r, n, style);
      genex::TimeSeries own(m), other(n);
      for (int i = 0; i < m; i++) own[i] = p[i];
      for (int i = 0; i < n; i++) other[i] = q[i];
      int w = r.range(0, m);
      checkEnvelope(c, own, p, w, "(own values)");
      own += own;
      for (auto& v : p) v += v;
      checkEnvelope(c, own, p, w, "(after addition)");
      checkEnvelope(c, other, q, w, "(other)");
      own = other;
      checkEnvelope(c, own, q, w, "(after assignment)");
      checkEnvelope(c, own, q, w, "(after assignment, again)");
      genex::TimeSeries copy(own);
      checkEnvelope(c, copy, q, w, "(copy)");
      own = genex::TimeSeries(a.data(), m);
      checkEnvelope(c, own, a, w, "(after move assignment)");
      if (m > 2) {
        genex::TimeSeries sub(a.data(), 0, 1, m);
        checkEnvelope(c, sub, slice(a, 1, m), w, "(subsequence)");
        own = sub;
        checkEnvelope(c, own, slice(a, 1, m), w, "(subsequence assigned)");
      }
    }
    if (k == 0) c.sample(show(a) + " vs " + show(b) + " ratio " + num(ratio));
  }
  genex::setWarpingBandRatio(0.1);
}
