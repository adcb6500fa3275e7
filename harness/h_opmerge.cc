// C03: merging operations against the reference aggregate.
#include "common.h"
#include "model.h"
#include "src/operation_aggregator.h"
#include "src/quota_operation_aggregator.h"

static void Ops(pbt::Src& s, pbt::Ctx& c) {
  GenOpt o;
  std::shared_ptr<KindMap> kinds;
  if (!s.Chance(1, 8)) kinds = Kinds();
  Identity id = GenIdentity(s, GenOpt());
  int serial = 0;
  RefOp ref;
  std::unique_ptr<scc::OperationAggregator> agg;
  int n = 0;
  bool big = s.Chance(1, 10);
  int few = s.Chance(1, 200) ? s.OneOf({60, 130, 300}) : 0;   // some long sequences
  do {
    pbt::Span sp(s);
    Operation op = MakeOp(s, id, &serial, o);
    AddMetrics(s, o, &op);
    AddLogs(s, big ? s.Range(0, 60) : s.Pick({3, 2, 1}), &serial, &op);
    if (n == 0 && s.Chance(1, 4)) op.set_importance(Operation::HIGH);
    std::string before = Det(op);
    PBT_LOG(c, "%s %s", n ? "merge" : "first", Short(op, 1500).c_str());
    if (!agg) agg.reset(new scc::OperationAggregator(op, kinds.get())); else agg->MergeOperation(op);
    ref.Merge(op, kinds.get());
    if (Det(op) != before) { c.Fail("C03", "merging changed its argument"); return; }
    ++n;
    for (int again = 0; again < (s.Chance(1, 4) ? 2 : 1); ++again) {
      Operation got = agg->ToOperationProto();
      std::string d = DiffOp(ref, got);
      if (!d.empty()) { c.Fail("C03", "after %d operations: %s", n, d.c_str()); return; }
    }
    bool too_big = ref.base.log_entries_size() >= 100;
    if (too_big) c.Label("100 log entries or more");
    if (agg->TooBig() != too_big) { c.Fail("C03 C02", "TooBig() is %d with %d log entries", agg->TooBig(), ref.base.log_entries_size()); return; }
  } while (n < few || s.More(n - few, 4, 14));
  if (ref.any_merge) { c.nontrivial = true; c.Label("metric values merged"); }
  if (n > 1) c.Label("operations merged");
}

static void Quotas(pbt::Src& s, pbt::Ctx& c) {
  QuotaOperation first;
  std::map<std::string, MetricValue> want;
  std::unique_ptr<scc::QuotaOperationAggregator> agg;
  int n = 0;
  do {
    pbt::Span sp(s);
    QuotaOperation op;
    op.set_operation_id("id" + std::to_string(n));
    op.set_method_name(s.OneOf({"m", "n"}));
    op.set_consumer_id(s.OneOf({"project:a", "project:b"}));
    if (s.Chance(1, 3)) (*op.mutable_labels())["l"] = std::to_string(n);
    op.set_quota_mode((QuotaOperation::QuotaMode)s.Range(0, 3));
    for (int i = 0; s.More(i, 2, 6); ++i) {
      auto* set = op.add_quota_metrics();
      set->set_metric_name("metric" + std::to_string(s.Below(4)));
      GenOpt o;
      MetricValue v = GenValue(s, s.Chance(1, 16) ? 1 : 0, o);
      *set->add_metric_values() = v;
      auto ins = want.emplace(set->metric_name(), v);
      if (!ins.second) {
        c.nontrivial = true;
        c.Label("tokens merged");
        MetricValue& r = ins.first->second;
        if (r.value_case() != v.value_case()) continue;
        MinStart(v, &r); MaxEnd(v, &r);
        if (v.value_case() == MetricValue::kInt64Value) r.set_int64_value(r.int64_value() + v.int64_value());
        else r.clear_start_time();
      }
    }
    PBT_LOG(c, "quota %s %s", n ? "merge" : "first", Short(op, 1500).c_str());
    if (!agg) { agg.reset(new scc::QuotaOperationAggregator(op)); first = op; first.clear_quota_metrics(); }
    else agg->MergeOperation(op);
    ++n;
    QuotaOperation got = agg->ToOperationProto();
    std::set<std::string> seen;
    for (auto& set : got.quota_metrics()) {
      if (!seen.insert(set.metric_name()).second || set.metric_values_size() != 1) { c.Fail("C03", "metric %s is there more than once", set.metric_name().c_str()); return; }
      auto it = want.find(set.metric_name());
      if (it == want.end()) { c.Fail("C03", "unexpected metric %s", set.metric_name().c_str()); return; }
      MetricValue a = it->second, b = set.metric_values(0);
      if (a.value_case() != MetricValue::kInt64Value) { for (MetricValue* v : {&a, &b}) { v->clear_start_time(); v->clear_end_time(); } }
      if (Det(a) != Det(b)) { c.Fail("C03", "tokens of %s are %s, expected %s", set.metric_name().c_str(), Short(set.metric_values(0)).c_str(), Short(it->second).c_str()); return; }
    }
    if (seen.size() != want.size()) { c.Fail("C03", "%zu metrics, expected %zu", seen.size(), want.size()); return; }
    got.clear_quota_metrics();
    if (Det(got) != Det(first)) { c.Fail("C03", "fields are %s, expected those of the first operation %s", Short(got).c_str(), Short(first).c_str()); return; }
  } while (s.More(n, 3, 8));
}

const char* PbtRule(const std::string&) {
  return "A case merges up to 14 operations of one identity (sometimes some hundreds; metrics of every value type and kind over a small label alphabet, optional "
         "times with close nanoseconds, log entries up to past the limit) or up to 8 quota operations, and compares the whole result with a "
         "reference fold after every merge. Non-trivial: at least two values of one metric and label set met.";
}
void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  if (s.Chance(1, 5)) { c.Label("quota operations"); Quotas(s, c); } else Ops(s, c);
}
