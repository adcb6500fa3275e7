// C14, C15: distributions against direct computation over the samples.
#include "pbt.h"

#include <algorithm>
#include <cmath>
#include <cfloat>
#include <limits>

#include "google/protobuf/stubs/logging.h"
#include "utils/distribution_helper.h"

using google::api::servicecontrol::v1::Distribution;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
typedef google::service_control_client::DistributionHelper Helper;
typedef long double ld;

struct Options {
  int kind = 0;  // 0 linear, 1 exponential, 2 explicit
  int n = 1;
  double a = 1, b = 1;  // width, offset | growth, scale
  std::vector<double> bounds;
  bool extreme = false;
  std::string Show() const {
    char buf[160];
    std::string r;
    if (kind == 0) snprintf(buf, sizeof buf, "linear n=%d width=%.17g offset=%.17g", n, a, b);
    else if (kind == 1) snprintf(buf, sizeof buf, "exponential n=%d growth=%.17g scale=%.17g", n, a, b);
    else {
      snprintf(buf, sizeof buf, "explicit n=%zu", bounds.size());
      for (double x : bounds) { char t[40]; snprintf(t, sizeof t, " %.17g", x); r += t; }
    }
    return buf + r;
  }
  int Buckets() const { return kind == 2 ? (int)bounds.size() + 1 : n + 2; }
  // The boundary with the given index as the exact definition has it.
  ld Bound(int i) const {
    if (kind == 0) return (ld)b + (ld)i * (ld)a;
    if (kind == 1) return (ld)b * powl((ld)a, i);
    return bounds[i];
  }
};

static Options GenOptions(pbt::Src& s, bool allow_extreme) {
  pbt::Span sp(s);
  Options o;
  o.kind = s.Pick({3, 3, 3});
  o.n = s.Pick({4, 4, 1}) == 0 ? s.Range(1, 3) : s.Range(1, 12);
  bool many = s.Chance(1, 50);   // many buckets
  if (many) o.n = s.OneOf({32, 64, 100, 127, 300});
  o.extreme = allow_extreme && s.Chance(1, 8);
  if (o.kind == 0) {
    o.a = s.OneOf({1.0, 2.0, 0.5, 10.0, 0.1, 3.7, 1e6, 1e-6});
    o.b = s.OneOf({0.0, 1.0, -1.0, 10.0, -50.0, 0.3, 1e6, -1e6});
    if (o.extreme) {
      o.n = s.OneOf({1, 3, 1000, 30000});
      o.a = s.OneOf({1e308, 1e-300, 5e-324, 1.0, DBL_MAX});
      o.b = s.OneOf({-1e308, 1e308, 1e300, 0.0, -DBL_MAX, 1e16});
    }
  } else if (o.kind == 1) {
    o.a = s.OneOf({2.0, 1.5, 10.0, 1.1, 3.0, 4.0, 1.0625});
    if (many) o.a = s.OneOf({1.0625, 1.1, 1.5});
    o.b = s.OneOf({1.0, 2.0, 0.1, 10.0, 1e-6, 0.5, 1e6});
    if (o.extreme) {
      o.n = s.OneOf({1, 3, 1000, 30000});
      o.a = s.OneOf({1.0 + DBL_EPSILON, 1.0 + 1e-12, 1e300, DBL_MAX, 1.5});
      o.b = s.OneOf({5e-324, 1e-300, 1e300, DBL_MAX, 1.0});
    }
  } else {
    int k = s.Pick({1, 2, 3, 3, 3, 2});
    if (many) k = o.n;
    double x = s.OneOf({0.0, -5.0, 1.0, -1e6, 0.25});
    for (int i = 0; i < k; ++i) { o.bounds.push_back(x); x += s.OneOf({1.0, 0.5, 0.1, 10.0, 1e5, 1e-3}); }
    if (o.extreme && k) {
      if (s.Chance(1, 2)) o.bounds[0] = -std::numeric_limits<double>::infinity();
      if (s.Chance(1, 2)) o.bounds.back() = k > 1 ? std::numeric_limits<double>::infinity() : o.bounds.back();
    }
  }
  return o;
}

static Status Init(const Options& o, Distribution* d) {
  if (o.kind == 0) return Helper::InitLinear(o.n, o.a, o.b, d);
  if (o.kind == 1) return Helper::InitExponential(o.n, o.a, o.b, d);
  return Helper::InitExplicit(o.bounds, d);
}

static double GenSample(pbt::Src& s, const Options& o, bool wild) {
  pbt::Span sp(s);
  if (wild && s.Chance(1, 4)) {
    return s.OneOf({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                    std::numeric_limits<double>::quiet_NaN(), DBL_MAX, -DBL_MAX, 5e-324, 1e300, -0.0});
  }
  int nb = o.kind == 2 ? (int)o.bounds.size() : o.n + 1;
  switch (s.Pick({3, 5, 4, 2, 1})) {
    case 0: return (double)s.Range(0, 12);
    case 1:  // at a boundary, or next to it
      if (nb) {
        double x = (double)o.Bound(s.Below(nb));
        int k = s.Pick({4, 1, 1, 2});
        if (k == 1) x = std::nextafter(x, 1e301);
        if (k == 2) x = std::nextafter(x, -1e301);
        if (k == 3) x += x * s.OneOf({-1.0, 1.0}) * s.OneOf({1e-8, 1e-12, 1e-5, 1e-3, 1e-14, 1e-10});   // near
        return x;
      }
      return 0;
    case 2: {  // between two boundaries
      if (!nb) return 1.5;
      int i = s.Below(nb);
      ld lo = o.Bound(i), hi = i + 1 < nb ? o.Bound(i + 1) : lo * 2 + 1;
      return (double)(lo + (hi - lo) * (ld)s.Range(1, 9) / 10);
    }
    case 3: return -(double)s.Range(0, 1000) / 7;
    default: return ((double)s.Range(0, 2000000) - 1000000) * s.OneOf({1.0, 1e3, 1e-3, 1e6});
  }
}

// Buckets a sample may be counted in: one, or two right at a rounded boundary.
static void Acceptable(const Options& o, double v, int* lo, int* hi) {
  int nb = o.Buckets();
  *lo = 0; *hi = nb - 1;
  if (std::isnan(v)) return;
  if (o.kind == 2) {
    int i = 0;
    while (i < (int)o.bounds.size() && v >= o.bounds[i]) ++i;
    *lo = *hi = i;
    return;
  }
  if (std::isinf(v)) { *lo = *hi = v > 0 ? nb - 1 : 0; return; }
  if (o.extreme) return;
  // Number of boundaries at or below v, where near ones may count either way.
  int certain = 0, possible = 0;
  for (int i = 0; i <= o.n; ++i) {
    ld x = o.Bound(i);
    // Whoever computes the index of a boundary in floating point errs by a few
    // roundings of the largest number involved.
    ld tol = 0;
    if (o.kind == 0) tol = 8 * (ld)DBL_EPSILON * (fabsl(o.b) + fabsl(o.n * (ld)o.a) + fabsl(v));
    else if (i > 0) tol = 64 * (ld)DBL_EPSILON * fabsl(x) * (1 + i);
    if (i == 0) tol = 0;  // the first boundary is given, not computed
    if ((ld)v >= x + tol) ++certain;
    if ((ld)v >= x - tol) ++possible;
  }
  *lo = certain; *hi = possible;
  // Small whole numbers are computed without rounding.
  if (o.kind == 0 && o.a == std::floor(o.a) && o.b == std::floor(o.b) && std::fabs(o.b) < 1e9 && o.a < 1e9 &&
      std::fabs(v) < 1e9 && v == std::floor(v)) {
    int exact = 0;
    for (int i = 0; i <= o.n; ++i) if ((ld)v >= o.Bound(i)) ++exact;
    *lo = *hi = exact;
  }
}

struct Exact { size_t n = 0; ld mean = 0, ssd = 0, lo = 0, hi = 0, scale = 0; };
static Exact Direct(const std::vector<double>& v) {
  Exact e; e.n = v.size();
  if (v.empty()) return e;
  ld sum = 0; e.lo = e.hi = v[0];
  for (double x : v) { sum += x; e.lo = std::min(e.lo, (ld)x); e.hi = std::max(e.hi, (ld)x); e.scale = std::max(e.scale, fabsl(x)); }
  e.mean = sum / v.size();
  for (double x : v) e.ssd += ((ld)x - e.mean) * ((ld)x - e.mean);
  return e;
}
static void Compare(pbt::Ctx& c, const char* tag, const Distribution& d, const std::vector<double>& v, const char* where) {
  Exact e = Direct(v);
  if (d.count() != (int64_t)e.n) { c.Fail(tag, "%s: count %lld, expected %zu", where, (long long)d.count(), e.n); return; }
  if (!e.n) return;
  if (d.minimum() != (double)e.lo || d.maximum() != (double)e.hi)
    c.Fail(tag, "%s: range [%.17g, %.17g], expected [%.17Lg, %.17Lg]", where, d.minimum(), d.maximum(), e.lo, e.hi);
  ld eps = DBL_EPSILON, n = e.n;
  ld tm = 16 * n * eps * e.scale + 1e-300L;
  ld ts = 64 * (n * eps * e.ssd + n * eps * e.scale * sqrtl(n * e.ssd) + n * (n * eps * e.scale) * (n * eps * e.scale)) + 1e-300L;
  if (!(fabsl(d.mean() - e.mean) <= tm)) c.Fail(tag, "%s: mean %.17g, expected %.17Lg", where, d.mean(), e.mean);
  if (!(fabsl(d.sum_of_squared_deviation() - e.ssd) <= ts))
    c.Fail(tag, "%s: sum of squared deviations %.17g, expected %.17Lg", where, d.sum_of_squared_deviation(), e.ssd);
}
static std::string Buckets(const Distribution& d) {
  std::string r;
  for (auto x : d.bucket_counts()) r += std::to_string(x) + " ";
  return r.substr(0, 300);
}
static std::string Stat(const Distribution& d) {
  char b[400];
  snprintf(b, sizeof b, "count=%lld mean=%.17g min=%.17g max=%.17g ssd=%.17g buckets=", (long long)d.count(), d.mean(), d.minimum(),
           d.maximum(), d.sum_of_squared_deviation());
  return b + Buckets(d);
}

// Counts beyond what samples can be added one by one: a distribution merged
// into its copy again and again, then more samples.
static void Huge(pbt::Src& s, pbt::Ctx& c, const char* tag) {
  Options o = GenOptions(s, false);
  Distribution d;
  if (!Init(o, &d).ok()) return;
  std::vector<double> v;
  do v.push_back(GenSample(s, o, false)); while (s.More(v.size(), 3, 8));
  for (double x : v) (void)Helper::AddSample(x, &d);
  const Distribution one = d;
  int k = s.OneOf({31, 10, 32, 33, 40, 52});
  for (int i = 0; i < k; ++i) {
    Distribution copy = d;
    Status st = Helper::Merge(copy, &d);
    if (!st.ok()) { c.Fail("C15", "merging a distribution into its copy gives code %d", (int)st.code()); return; }
  }
  PBT_LOG(c, "%s: %zu samples doubled %d times -> %s", o.Show().c_str(), v.size(), k, Stat(d).c_str());
  c.Label("huge counts");
  auto near = [&](ld a, ld b, ld scale) { return fabsl(a - b) <= 1e-11L * (fabsl(b) + scale) + 1e-290L; };
  ld big = 0, f = powl(2, k);
  for (double x : v) big = std::max(big, fabsl((ld)x));
  if (d.count() != one.count() << k) c.Fail(tag, "count %lld after %d doublings of %lld", (long long)d.count(), k, (long long)one.count());
  for (int i = 0; i < d.bucket_counts_size(); ++i)
    if (d.bucket_counts(i) != one.bucket_counts(i) << k) { c.Fail(tag, "bucket %d has %lld after %d doublings of %lld", i, (long long)d.bucket_counts(i), k, (long long)one.bucket_counts(i)); return; }
  if (d.minimum() != one.minimum() || d.maximum() != one.maximum()) c.Fail(tag, "doubling changed the range to [%.17g, %.17g]", d.minimum(), d.maximum());
  if (!near(d.mean(), one.mean(), big)) c.Fail(tag, "doubling changed the mean from %.17g to %.17g", one.mean(), d.mean());
  if (!near(d.sum_of_squared_deviation(), f * one.sum_of_squared_deviation(), f * big * big * 1e-10L)) c.Fail(tag, "sum of squared deviations %.17g after %d doublings of %.17g", d.sum_of_squared_deviation(), k, one.sum_of_squared_deviation());
  if (c.stop) return;
  // A few samples on top of them.
  for (int i = s.Range(1, 3); i > 0; --i) {
    double x = GenSample(s, o, false);
    Distribution before = d;
    Status st = Helper::AddSample(x, &d);
    PBT_LOG(c, "add %.17g -> %s", x, Stat(d).c_str());
    ld n = before.count(), m0 = before.mean(), m1 = (n * m0 + x) / (n + 1), ssd = before.sum_of_squared_deviation() + (x - m0) * (x - m1);
    big = std::max(big, fabsl((ld)x));
    if (!st.ok()) { c.Fail("C14", "a sample after %lld ones gives code %d", (long long)before.count(), (int)st.code()); return; }
    if (d.count() != before.count() + 1) c.Fail("C14", "count %lld after a sample on top of %lld", (long long)d.count(), (long long)before.count());
    int64_t total = 0;
    for (auto y : d.bucket_counts()) total += y;
    if (total != d.count()) c.Fail("C14", "the buckets hold %lld of %lld samples", (long long)total, (long long)d.count());
    if (!near(d.mean(), m1, big)) c.Fail("C14", "mean %.17g after adding %.17g to %lld samples with mean %.17g", d.mean(), x, (long long)before.count(), before.mean());
    if (!near(d.sum_of_squared_deviation(), ssd, n * big * big * 1e-10L)) c.Fail("C14", "sum of squared deviations %.17g after adding %.17g, expected %.17Lg", d.sum_of_squared_deviation(), x, ssd);
    if (d.minimum() != std::min(before.minimum(), x) || d.maximum() != std::max(before.maximum(), x)) c.Fail("C14", "range [%.17g, %.17g] after adding %.17g", d.minimum(), d.maximum(), x);
    if (c.stop) return;
  }
  c.nontrivial = true;
}

static void Samples(pbt::Src& s, pbt::Ctx& c) {
  // Invalid parameters leave whatever distribution there was.
  if (s.Chance(1, 4)) {
    pbt::Span sp(s);
    Distribution d;
    if (s.Chance(1, 2)) { Init(GenOptions(s, false), &d); Helper::AddSample(3, &d); }
    std::string before = d.SerializeAsString();
    Status st;
    int k = s.Below(7);
    double bad = s.OneOf({0.0, -1.0, -1e-9, -1e300});
    int badn = s.OneOf({0, -1, INT_MIN, -100});
    if (k == 0) st = Helper::InitLinear(badn, 1, 0, &d);
    else if (k == 1) st = Helper::InitLinear(3, bad, 0, &d);
    else if (k == 2) st = Helper::InitExponential(badn, 2, 1, &d);
    else if (k == 3) st = Helper::InitExponential(3, s.OneOf({1.0, 0.5, 0.0, -2.0, 1.0 - 1e-16}), 1, &d);
    else if (k == 4) st = Helper::InitExponential(3, 2, bad, &d);
    else {
      std::vector<double> b;
      int n = s.Range(2, 6);
      for (int i = 0; i < n; ++i) b.push_back(i * 2);
      int at = s.Range(1, n - 1);
      if (k == 5) b[at] = b[at - 1]; else b[at] = b[at - 1] - s.OneOf({1.0, 1e-9, 100.0});
      st = Helper::InitExplicit(b, &d);
    }
    c.Label("invalid bucket parameters");
    if (st.code() != StatusCode::kInvalidArgument) { c.Fail("C14", "invalid parameters (kind %d) give code %d", k, (int)st.code()); return; }
    if (d.SerializeAsString() != before) { c.Fail("C14", "invalid parameters (kind %d) changed the distribution", k); return; }
  }
  if (s.Chance(1, 16)) {  // no buckets at all
    Distribution d;
    d.set_count(s.Range(0, 3)); d.set_mean(2);
    std::string before = d.SerializeAsString();
    Status st = Helper::AddSample(1.5, &d);
    c.Label("no buckets");
    if (st.code() != StatusCode::kInvalidArgument || d.SerializeAsString() != before)
      { c.Fail("C14", "a sample for a distribution without buckets: code %d, %s", (int)st.code(), Stat(d).c_str()); return; }
  }
  bool wild = s.Chance(1, 4);
  Options o = GenOptions(s, true);
  if (o.extreme) wild = true;
  Distribution d;
  Status st = Init(o, &d);
  PBT_LOG(c, "%s", o.Show().c_str());
  c.Label(o.kind == 0 ? "linear" : o.kind == 1 ? "exponential" : o.bounds.empty() ? "explicit, no bounds" : "explicit");
  if (!st.ok()) { c.Fail("C14", "%s rejected with code %d", o.Show().c_str(), (int)st.code()); return; }
  if (d.bucket_counts_size() != o.Buckets()) { c.Fail("C14", "%s has %d buckets", o.Show().c_str(), d.bucket_counts_size()); return; }
  std::vector<double> v;
  std::vector<int64_t> minc(o.Buckets()), maxc(o.Buckets());
  std::set<int> hit;
  bool all_finite = true;
  while (s.More(v.size(), 8, 80)) {
    double x = GenSample(s, o, wild);
    std::vector<int64_t> before(d.bucket_counts().begin(), d.bucket_counts().end());
    st = Helper::AddSample(x, &d);
    v.push_back(x);
    if (!std::isfinite(x)) { all_finite = false; c.Label("infinite or NaN sample"); }
    if (std::fabs(x) > 1e100) all_finite = false;
    PBT_LOG(c, "add %.17g -> %s", x, Stat(d).c_str());
    if (!st.ok()) { c.Fail("C14", "sample %.17g rejected with code %d", x, (int)st.code()); return; }
    if (d.bucket_counts_size() != o.Buckets()) { c.Fail("C14", "number of buckets became %d", d.bucket_counts_size()); return; }
    int where = -1, changed = 0;
    for (int i = 0; i < o.Buckets(); ++i)
      if (d.bucket_counts(i) != before[i]) { ++changed; where = i; if (d.bucket_counts(i) != before[i] + 1) changed += 10; }
    if (changed != 1) { c.Fail("C14", "sample %.17g (%s) changed the buckets to %s", x, o.Show().c_str(), Buckets(d).c_str()); return; }
    int lo, hi;
    Acceptable(o, x, &lo, &hi);
    hit.insert(where);
    if (lo == hi) c.Label("bucket decided exactly"); else c.Label("at a rounded boundary");
    if (where < lo || where > hi) { c.Fail("C14", "sample %.17g (%s) is in bucket %d, belongs in %d", x, o.Show().c_str(), where, lo); return; }
    if (all_finite) Compare(c, "C14", d, v, "after adding");
    else if (d.count() != (int64_t)v.size()) c.Fail("C14", "count %lld after %zu samples", (long long)d.count(), v.size());
    if (c.stop) return;
  }
  if (v.size() >= 2 && hit.size() >= 2) c.nontrivial = true;
}

static Distribution Of(const Options& o, const std::vector<double>& v) {
  Distribution d;
  Init(o, &d);
  for (double x : v) Helper::AddSample(x, &d);
  return d;
}

static void Merges(pbt::Src& s, pbt::Ctx& c) {
  Options o = GenOptions(s, false);
  const bool wild = s.Chance(1, 10);   // infinite, huge and NaN samples: what is counted stays exact
  bool nan = false;
  PBT_LOG(c, "%s", o.Show().c_str());
  // Parts of one set of samples, merged in an arbitrary grouping.
  struct Part { Distribution d; std::vector<double> v; };
  std::vector<Part> parts;
  int k = s.Range(2, 5);
  std::vector<double> all;
  int nonempty = 0;
  for (int i = 0; i < k; ++i) {
    pbt::Span sp(s);
    Part p;
    bool empty = s.Chance(1, 5);
    while (!empty && s.More(p.v.size(), 3, 20)) p.v.push_back(GenSample(s, o, wild));
    for (double x : p.v) nan = nan || std::isnan(x);
    p.d = Of(o, p.v);
    all.insert(all.end(), p.v.begin(), p.v.end());
    if (!p.v.empty()) ++nonempty; else c.Label("empty side");
    parts.push_back(p);
  }
  if (nonempty >= 2) c.nontrivial = true;
  Distribution one = Of(o, all);
  while (parts.size() > 1) {
    size_t i = s.Below(parts.size()), j = s.Below(parts.size() - 1);
    if (j >= i) ++j;
    Part from = parts[i];
    std::string fb = from.d.SerializeAsString();
    std::string tb = parts[j].d.SerializeAsString();
    Status st = Helper::Merge(from.d, &parts[j].d);
    PBT_LOG(c, "merge #%zu (%zu samples) into #%zu (%zu samples) -> %s", i, from.v.size(), j, parts[j].v.size(), Stat(parts[j].d).c_str());
    if (!st.ok()) { c.Fail("C15", "merging equal buckets (%s) gives code %d", o.Show().c_str(), (int)st.code()); return; }
    if (from.d.SerializeAsString() != fb) { c.Fail("C15", "merging changed its source"); return; }
    if (from.v.empty() && parts[j].d.SerializeAsString() != tb) { c.Fail("C15", "merging an empty distribution changed the target"); return; }
    parts[j].v.insert(parts[j].v.end(), from.v.begin(), from.v.end());
    if (!wild) {
      Compare(c, "C15", parts[j].d, parts[j].v, "after merging");
    } else {
      const Distribution& d = parts[j].d;
      const auto& v = parts[j].v;
      if (d.count() != (int64_t)v.size()) c.Fail("C15", "count %lld of %zu samples", (long long)d.count(), v.size());
      if (!nan && !v.empty() && (d.minimum() != *std::min_element(v.begin(), v.end()) || d.maximum() != *std::max_element(v.begin(), v.end())))
        c.Fail("C15", "minimum %g, maximum %g after merging", d.minimum(), d.maximum());
      c.Label("infinite or huge samples");
    }
    int64_t total = 0;
    for (auto x : parts[j].d.bucket_counts()) total += x;
    if (total != (int64_t)parts[j].v.size()) c.Fail("C15", "buckets hold %lld of %zu samples", (long long)total, parts[j].v.size());
    parts.erase(parts.begin() + i);
    if (c.stop) return;
  }
  Distribution& m = parts[0].d;
  if (Buckets(m) != Buckets(one)) { c.Fail("C15", "merged buckets %s, adding all gives %s", Buckets(m).c_str(), Buckets(one).c_str()); return; }
  if (m.bucket_option_case() != one.bucket_option_case()) { c.Fail("C15", "the merge lost the bucket options"); return; }
  {
    // The options are still those of the parts.
    Distribution a = m, b = one;
    for (Distribution* d : {&a, &b}) { d->clear_count(); d->clear_mean(); d->clear_minimum(); d->clear_maximum(); d->clear_sum_of_squared_deviation(); d->clear_bucket_counts(); }
    if (a.SerializeAsString() != b.SerializeAsString()) { c.Fail("C15", "the merge changed the bucket options"); return; }
  }
  // Different options are refused and change nothing.
  if (s.Chance(1, 2)) {
    pbt::Span sp(s);
    Options p = o;
    std::string what;
    bool no_counts = false;
    switch (s.Below(4)) {
      case 0: {
        Options q = GenOptions(s, false);
        p = q; what = "independent";
        break;
      }
      case 1: if (p.kind == 2) p.bounds.push_back(p.bounds.empty() ? 0 : p.bounds.back() + 1); else ++p.n; what = "one bucket more"; break;
      case 2:
        if (p.kind == 2 && !p.bounds.empty()) {
          size_t i = s.Below(p.bounds.size());
          // Every bound keeps its place in the order.
          double gap = i + 1 < p.bounds.size() ? p.bounds[i + 1] - p.bounds[i] : 1;
          p.bounds[i] += gap / 2;
        } else if (s.Chance(1, 2)) p.a = p.kind == 1 ? 1 + (p.a - 1) * 1.25 : p.a * 1.25;
        else p.b = p.b == 0 ? 0.25 : p.b * 1.25;
        what = "another parameter";
        break;
      default: no_counts = true; what = "bucket counts missing";
    }
    // Options that agree up to 1e-4 are neither clearly equal nor different.
    bool differ = p.kind != o.kind || p.n != o.n || p.bounds.size() != o.bounds.size();
    if (p.kind == 2 && o.kind == 2) differ = p.bounds.size() != o.bounds.size();
    auto far = [](double x, double y) { return std::fabs(x - y) > 1e-4 * std::max(std::fabs(x), std::fabs(y)); };
    if (!differ && p.kind != 2) differ = far(p.a, o.a) || far(p.b, o.b);
    if (!differ && p.kind == 2) for (size_t i = 0; i < p.bounds.size(); ++i) if (far(p.bounds[i], o.bounds[i])) differ = true;
    std::vector<double> v;
    while (s.More(v.size(), 2, 6)) v.push_back(GenSample(s, p, false));
    Distribution from = Of(p, v);
    if (no_counts) {
      differ = true;
      if (s.Chance(1, 2)) from.clear_bucket_counts(); else from.add_bucket_counts(0);
    }
    if (differ && !no_counts && from.bucket_counts_size() != m.bucket_counts_size() && s.Chance(1, 4)) {
      // Built by hand: as many counts as the target, whatever its options say.
      from.mutable_bucket_counts()->Resize(m.bucket_counts_size(), 0);
      what += ", as many counts";
    }
    if (s.Chance(1, 12)) { from.clear_bucket_option(); differ = true; what = "no buckets"; }
    if (differ) {
      c.Label("options differ: " + what);
      bool swap = s.Chance(1, 2);
      Distribution to = m;
      if (swap) std::swap(from, to);
      std::string tb = to.SerializeAsString();
      Status st = Helper::Merge(from, &to);
      PBT_LOG(c, "merge of %s -> code %d", p.Show().c_str(), (int)st.code());
      if (st.code() != StatusCode::kInvalidArgument) { c.Fail("C15", "merging %s and %s (%s) gives code %d", o.Show().c_str(), p.Show().c_str(), what.c_str(), (int)st.code()); return; }
      if (to.SerializeAsString() != tb) { c.Fail("C15", "a refused merge changed the target"); return; }
    }
  }
}

const char* PbtRule(const std::string& p) {
  if (p == "C14")
    return "A case initialises a distribution (linear, exponential or explicit buckets, some with extreme parameters), adds up to 80 "
           "samples biased to bucket boundaries and their neighbours (a quarter of the cases with infinite, NaN or huge ones) and compares "
           "every field with long double arithmetic after each; some also try invalid parameters, or counts up to 2^52 made by doubling. Non-trivial: two samples in two buckets.";
  return "A case splits generated samples over 2-5 distributions of equal bucket options, merges them in a random grouping and order and "
         "compares with the samples; half also merge distributions that differ in one respect; some double one up to 2^52 samples. Non-trivial: two non-empty sides.";
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  google::protobuf::SetLogHandler(nullptr);
  if (s.Chance(1, 40)) Huge(s, c, c.Focus("C15") ? "C15" : "C14");
  else if (c.Focus("C15")) Merges(s, c); else Samples(s, c);
}
