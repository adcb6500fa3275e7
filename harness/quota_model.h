// Reference for aggregated quota operations, shared by the quota harnesses.
#ifndef QUOTA_MODEL_H_
#define QUOTA_MODEL_H_
#include "common.h"
#include "model.h"

struct RefQuota {
  QuotaOperation base;                       // of the first call, without metrics
  std::map<std::string, MetricValue> metrics;
  int merged = 0;
  void Merge(const QuotaOperation& op) {
    if (merged++ == 0) { base = op; base.clear_quota_metrics(); }
    for (auto& set : op.quota_metrics()) {
      auto ins = metrics.emplace(set.metric_name(), set.metric_values(0));
      if (ins.second) continue;
      MetricValue& to = ins.first->second;
      const MetricValue& from = set.metric_values(0);
      if (to.value_case() != from.value_case()) continue;
      MinStart(from, &to);
      MaxEnd(from, &to);
      to.set_int64_value(to.int64_value() + from.int64_value());
    }
  }
  int64_t Tokens() const { int64_t t = 0; for (auto& m : metrics) t += m.second.int64_value(); return t; }
};
inline std::string QuotaId(const AllocateQuotaRequest& r) {
  std::set<std::string> names;
  for (auto& m : r.allocate_operation().quota_metrics()) names.insert(m.metric_name());
  std::string id = r.allocate_operation().method_name() + "|" + r.allocate_operation().consumer_id() + "|";
  for (auto& n : names) id += n + ",";
  return id;
}
inline std::string DiffQuota(const RefQuota& want, const QuotaOperation& got) {
  QuotaOperation rest = got;
  rest.clear_quota_metrics();
  if (Det(rest) != Det(want.base)) return "fields are " + Short(rest) + ", expected " + Short(want.base);
  std::set<std::string> seen;
  for (auto& set : got.quota_metrics()) {
    if (!seen.insert(set.metric_name()).second) return "metric " + set.metric_name() + " is there twice";
    auto it = want.metrics.find(set.metric_name());
    if (it == want.metrics.end()) return "unexpected metric " + set.metric_name();
    if (set.metric_values_size() != 1) return "metric " + set.metric_name() + " has " + std::to_string(set.metric_values_size()) + " values";
    if (Det(set.metric_values(0)) != Det(it->second)) return "metric " + set.metric_name() + ": " + Short(set.metric_values(0)) + ", expected " + Short(it->second);
  }
  for (auto& m : want.metrics) if (!seen.count(m.first)) return "metric " + m.first + " is missing";
  return "";
}
#endif
