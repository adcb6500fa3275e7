// Generators for operations, and the reference aggregate of merged operations.
#ifndef MODEL_H_
#define MODEL_H_
#include <cmath>
#include "common.h"

typedef scc::MetricKindMap KindMap;
typedef std::pair<std::string, Labels> MetricKey;

// ---- generators ------------------------------------------------------------

struct GenOpt {
  int names = 2, consumers = 2;      // identity alphabet
  int labels = 2;
  int metrics = 4;
  bool logs = true;
  bool times = true;
  bool odd_values = true;            // type mismatches, strings, distributions with other buckets
};

inline google::protobuf::Timestamp GenTime(pbt::Src& s) {
  google::protobuf::Timestamp t;
  t.set_seconds(s.Chance(1, 16) ? s.OneOf<int64_t>({-1, -62135596800, 2147483648, 4294967296, 253402300799, 1700000000}) : s.Range(0, 6));
  t.set_nanos(s.OneOf({0, 1, 500000000, 999999999}));
  return t;
}
inline Distribution MakeDistribution(int kind, const std::vector<double>& v) {
  // Written out here rather than with the helper of the code under test.
  Distribution d;
  std::vector<double> b;
  if (kind == 0) { auto* l = d.mutable_linear_buckets(); l->set_num_finite_buckets(3); l->set_width(2); l->set_offset(0); b = {0, 2, 4, 6}; }
  else if (kind == 1) { auto* l = d.mutable_exponential_buckets(); l->set_num_finite_buckets(3); l->set_growth_factor(2); l->set_scale(1); b = {1, 2, 4, 8}; }
  else { b = {1, 5}; for (double x : b) d.mutable_explicit_buckets()->add_bounds(x); }
  for (size_t i = 0; i <= b.size(); ++i) d.add_bucket_counts(0);
  double sum = 0;
  for (double x : v) {
    int i = 0;
    while (i < (int)b.size() && x >= b[i]) ++i;
    d.set_bucket_counts(i, d.bucket_counts(i) + 1);
    sum += x;
  }
  if (v.empty()) return d;
  d.set_count(v.size());
  d.set_mean(sum / v.size());
  d.set_minimum(*std::min_element(v.begin(), v.end()));
  d.set_maximum(*std::max_element(v.begin(), v.end()));
  double q = 0;
  for (double x : v) q += (x - d.mean()) * (x - d.mean());
  d.set_sum_of_squared_deviation(q);
  return d;
}
inline Labels GenValueLabels(pbt::Src& s) {
  switch (s.Pick({8, 6, 2, 1})) {
    case 0: return Labels();
    case 1: return Labels{{"code", s.OneOf({"200", "500"})}};
    case 2: return Labels{{"code", "200"}, {"loc", s.OneOf({"x", "y"})}};
    default: switch (s.Below(5)) {   // near ones, empty ones, many
      case 0: return Labels{{"code", ""}};
      case 1: return Labels{{"", "200"}};
      case 2: return Labels{{"loc", "200"}};
      case 3: return Labels{{"code", std::string(70, '2') + s.OneOf({"0", "1"})}};
      default: { Labels l; for (int i = 0; i < 9; ++i) l["k" + std::to_string(i)] = "v"; l["k7"] = s.OneOf({"v", "w"}); return l; }
    }
  }
}
// type: 0 int64, 1 double, 2 distribution, 3 string, 4 bool
inline MetricValue GenValue(pbt::Src& s, int type, const GenOpt& o) {
  pbt::Span sp(s);
  MetricValue v;
  for (auto& l : GenValueLabels(s)) (*v.mutable_labels())[l.first] = l.second;
  if (o.times) {
    if (s.Chance(2, 3)) *v.mutable_start_time() = GenTime(s);
    if (s.Chance(2, 3)) *v.mutable_end_time() = GenTime(s);
  }
  switch (type) {
    case 0: v.set_int64_value(s.Pick({6, 1, 1}) == 0 ? s.Range(1, 20) : s.OneOf<int64_t>({0, -3, 1000000000000000ll, 4294967296ll, 9007199254740993ll})); break;
    case 1: v.set_double_value(s.Range(0, 64) * 0.25 - (s.Chance(1, 4) ? 10 : 0)); break;
    case 2: {
      std::vector<double> smp;
      for (int i = 0; s.More(i, 2, 5); ++i) smp.push_back(s.Range(0, 10));
      *v.mutable_distribution_value() = MakeDistribution(o.odd_values && s.Chance(1, 8) ? 1 : 0, smp);
      break;
    }
    case 3: v.set_string_value(s.OneOf({"x", "y"})); break;
    default: v.set_bool_value(s.Chance(1, 2)); break;
  }
  return v;
}
inline std::string MetricName(int i) {
  static const char* n[] = {"int_delta", "double_delta", "dist_delta", "gauge", "cumulative", "undeclared"};
  if (i < 6) return n[i];
  return "metric" + std::to_string(i);   // undeclared ones
}
// A copy that only its new owner keeps alive.
inline std::shared_ptr<KindMap> Given(const std::shared_ptr<KindMap>& k) { return k ? std::make_shared<KindMap>(*k) : nullptr; }
// The kinds the client under test is told about.
inline std::shared_ptr<KindMap> Kinds() {
  auto k = std::make_shared<KindMap>();
  (*k)["int_delta"] = MetricDescriptor::DELTA;
  (*k)["double_delta"] = MetricDescriptor::DELTA;
  (*k)["dist_delta"] = MetricDescriptor::DELTA;
  (*k)["gauge"] = MetricDescriptor::GAUGE;
  (*k)["cumulative"] = MetricDescriptor::CUMULATIVE;
  return k;
}
inline MetricDescriptor::MetricKind KindOf(const KindMap* k, const std::string& name) {
  if (!k) return MetricDescriptor::DELTA;
  auto it = k->find(name);
  return it == k->end() ? MetricDescriptor::DELTA : it->second;
}
inline void AddMetrics(pbt::Src& s, const GenOpt& o, Operation* op) {
  bool many = s.Chance(1, 40);
  for (int i = 0; many ? i < 20 : s.More(i, 1, o.metrics); ++i) {
    pbt::Span sp(s);
    int m = many ? i + s.Below(3) : s.Below(6);
    auto* set = op->add_metric_value_sets();
    set->set_metric_name(MetricName(m));
    int n = s.Pick({6, 2, 1}) + 1;
    for (int j = 0; j < n; ++j) {
      static const int types[] = {0, 1, 2, 0, 0, 0};
      int type = m < 6 ? types[m] : 0;
      if (m >= 3 && s.Chance(1, 3)) type = s.Below(3);
      if (o.odd_values && s.Chance(1, 16)) type = s.Below(5);
      *set->add_metric_values() = GenValue(s, type, o);
    }
  }
}
inline void AddLogs(pbt::Src& s, int n, int* serial, Operation* op) {
  for (int i = 0; i < n; ++i) {
    auto* l = op->add_log_entries();
    l->set_name(*serial % 3 ? "access" : "error");
    l->set_insert_id(std::to_string((*serial)++));
    if (n > 10 || !s.Chance(1, 3)) continue;
    switch (s.Below(6)) {
      case 5: l->set_insert_id("again"); break;
      case 0: l->clear_insert_id(); l->set_text_payload("text"); break;     // equal entries are entries all the same
      case 1: (*l->mutable_struct_payload()->mutable_fields())["url"].set_string_value("/" + std::to_string(*serial)); break;
      case 2: (*l->mutable_labels())["k"] = "v"; break;
      case 3: *l->mutable_timestamp() = GenTime(s); break;
      default: l->clear_name(); l->clear_insert_id();
    }
  }
}
struct Identity { std::string name, consumer; Labels labels; };
inline Identity GenIdentity(pbt::Src& s, const GenOpt& o) {
  Identity id;
  id.name = "op" + std::to_string(s.Below(o.names));
  id.consumer = "project:" + std::string(1, 'a' + s.Below(o.consumers));
  if (s.Chance(1, 16)) switch (s.Below(4)) {   // long ones that differ at the end, empty ones
    case 0: id.name = std::string(s.OneOf({64, 15, 255, 1000}), 'n') + id.name; break;
    case 1: id.consumer = "project:" + std::string(s.OneOf({64, 128}), 'p') + std::string(1, 'a' + s.Below(o.consumers)); break;
    case 2: for (int i = 0; i < 12; ++i) id.labels["k" + std::to_string(i)] = i == 11 ? s.OneOf({"v", "w"}) : "v"; return id;
    default: id.labels["zone"] = ""; return id;
  }
  switch (s.Below(std::max(1, o.labels))) {
    case 1: id.labels["zone"] = s.OneOf({"us", "eu"}); break;
    case 2: id.labels["zone"] = "us"; id.labels["net"] = s.OneOf({"1", "2"}); break;
  }
  return id;
}
// Callers may leave the id empty, or send an operation again under its id.
inline std::string GenOpId(pbt::Src& s, int* serial) {
  switch (s.Pick({12, 1, 1})) {
    case 0: return "id" + std::to_string((*serial)++);
    case 1: return "";
    default: return "again";
  }
}
inline Operation MakeOp(pbt::Src& s, const Identity& id, int* serial, const GenOpt& o) {
  Operation op;
  op.set_operation_id(GenOpId(s, serial));
  op.set_operation_name(id.name);
  op.set_consumer_id(id.consumer);
  for (auto& l : id.labels) (*op.mutable_labels())[l.first] = l.second;
  if (o.times) {
    if (s.Chance(2, 3)) *op.mutable_start_time() = GenTime(s);
    if (s.Chance(2, 3)) *op.mutable_end_time() = GenTime(s);
  }
  return op;
}

// ---- reference -------------------------------------------------------------

inline __int128 Nanos(const google::protobuf::Timestamp& t) { return (__int128)t.seconds() * 1000000000 + t.nanos(); }
template <class T> void MinStart(const T& from, T* to) {
  if (from.has_start_time() && (!to->has_start_time() || Nanos(from.start_time()) < Nanos(to->start_time())))
    *to->mutable_start_time() = from.start_time();
}
template <class T> void MaxEnd(const T& from, T* to) {
  if (from.has_end_time() && (!to->has_end_time() || Nanos(from.end_time()) > Nanos(to->end_time())))
    *to->mutable_end_time() = from.end_time();
}
inline bool SameBuckets(const Distribution& a, const Distribution& b) {
  Distribution x = a, y = b;
  for (Distribution* d : {&x, &y}) {
    d->clear_count(); d->clear_mean(); d->clear_minimum(); d->clear_maximum();
    d->clear_sum_of_squared_deviation(); d->clear_bucket_counts();
  }
  return x.bucket_option_case() != 0 && Det(x) == Det(y) && a.bucket_counts_size() == b.bucket_counts_size();
}
// Plain textbook formula, in long double.
inline void AddDistribution(const Distribution& f, Distribution* t) {
  if (f.count() <= 0) return;
  if (t->count() <= 0) { *t = f; return; }
  long double n = t->count(), m = f.count(), mt = t->mean(), mf = f.mean();
  long double mean = (n * mt + m * mf) / (n + m);
  long double ssd = t->sum_of_squared_deviation() + f.sum_of_squared_deviation() + (mt - mf) * (mt - mf) * n * m / (n + m);
  t->set_count(t->count() + f.count());
  t->set_minimum(std::min(t->minimum(), f.minimum()));
  t->set_maximum(std::max(t->maximum(), f.maximum()));
  t->set_mean(mean);
  t->set_sum_of_squared_deviation(ssd);
  for (int i = 0; i < f.bucket_counts_size(); ++i) t->set_bucket_counts(i, t->bucket_counts(i) + f.bucket_counts(i));
}

struct RefVal { MetricValue v; bool times_known = true; };

struct RefOp {
  Operation base;                    // without metrics, the log entries merged
  std::map<MetricKey, RefVal> metrics;
  int merged = 0;
  bool any_merge = false;            // two values met

  void MergeMetrics(const Operation& op, const KindMap* kinds) {
    for (auto& set : op.metric_value_sets())
      for (auto& v : set.metric_values()) {
        auto ins = metrics.emplace(MetricKey(set.metric_name(), LabelsOf(v)), RefVal{v});
        if (ins.second) continue;
        any_merge = true;
        RefVal& r = ins.first->second;
        if (KindOf(kinds, set.metric_name()) != MetricDescriptor::DELTA) {
          if (Nanos(v.end_time()) >= Nanos(r.v.end_time())) r.v = v;
          continue;
        }
        if (v.value_case() != r.v.value_case()) continue;
        MinStart(v, &r.v);
        MaxEnd(v, &r.v);
        switch (v.value_case()) {
          case MetricValue::kInt64Value: r.v.set_int64_value(r.v.int64_value() + v.int64_value()); break;
          case MetricValue::kDoubleValue: r.v.set_double_value(r.v.double_value() + v.double_value()); break;
          case MetricValue::kDistributionValue:
            if (SameBuckets(v.distribution_value(), r.v.distribution_value()))
              AddDistribution(v.distribution_value(), r.v.mutable_distribution_value());
            else r.times_known = false;  // values that cannot be added: only the value is specified
            break;
          default: r.times_known = false;
        }
      }
  }
  void Merge(const Operation& op, const KindMap* kinds) {
    if (merged++ == 0) {
      base = op;
      base.clear_metric_value_sets();
    } else {
      MinStart(op, &base);
      MaxEnd(op, &base);
      for (auto& l : op.log_entries()) *base.add_log_entries() = l;
    }
    MergeMetrics(op, kinds);
  }
};

inline std::string DiffValue(const RefVal& want, const MetricValue& got) {
  MetricValue a = want.v, b = got;
  if (!want.times_known) for (MetricValue* v : {&a, &b}) { v->clear_start_time(); v->clear_end_time(); }
  if (Det(a) == Det(b)) return "";
  if (a.value_case() == b.value_case() && a.value_case() == MetricValue::kDoubleValue) {
    if (std::fabs(a.double_value() - b.double_value()) > 1e-9 * (1 + std::fabs(a.double_value())))
      return "value " + Short(got) + ", expected " + Short(want.v);
    b.set_double_value(a.double_value());
  }
  if (a.value_case() == b.value_case() && a.value_case() == MetricValue::kDistributionValue) {
    auto* x = a.mutable_distribution_value();
    auto* y = b.mutable_distribution_value();
    double span = 1 + std::fabs(x->maximum()) + std::fabs(x->minimum());
    if (std::fabs(x->mean() - y->mean()) <= 1e-9 * span &&
        std::fabs(x->sum_of_squared_deviation() - y->sum_of_squared_deviation()) <= 1e-7 * span * span * (1 + x->count())) {
      y->set_mean(x->mean());
      y->set_sum_of_squared_deviation(x->sum_of_squared_deviation());
    }
  }
  if (Det(a) == Det(b)) return "";
  return "value " + Short(got) + ", expected " + Short(want.v);
}

// Empty if the operation is the aggregate, else what differs.
inline std::string DiffOp(const RefOp& want, const Operation& got) {
  Operation rest = got;
  rest.clear_metric_value_sets();
  if (Det(rest) != Det(want.base)) return "fields are " + Short(rest) + ", expected " + Short(want.base);
  std::map<MetricKey, int> seen;
  for (auto& set : got.metric_value_sets())
    for (auto& v : set.metric_values()) {
      MetricKey k(set.metric_name(), LabelsOf(v));
      if (seen[k]++) return "metric " + k.first + LabelStr(k.second) + " is there twice";
      auto it = want.metrics.find(k);
      if (it == want.metrics.end()) return "unexpected metric " + k.first + LabelStr(k.second);
      std::string d = DiffValue(it->second, v);
      if (!d.empty()) return "metric " + k.first + LabelStr(k.second) + ": " + d;
    }
  for (auto& m : want.metrics) if (!seen.count(m.first)) return "metric " + m.first.first + LabelStr(m.first.second) + " is missing";
  return "";
}
#endif
