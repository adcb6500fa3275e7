ASAN_SRCS = "-fsanitize=address src/service_control_client_impl.cc src/check_aggregator_impl.cc src/quota_aggregator_impl.cc src/report_aggregator_impl.cc src/operation_aggregator.cc src/quota_operation_aggregator.cc src/signature.cc src/money_utils.cc utils/md5.cc utils/distribution_helper.cc"
SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id="c01-importance-scan", property="C01",
  edits=[("src/report_aggregator_impl.cc",
"""  for (const auto& operation : request.operations()) {
    if (operation.importance() != Operation::LOW) {
      return true;
    }
  }
  return false;
}""",
"""  // A report carries at most kMaxOperationsToSend operations.
  for (int i = 0;
       i < request.operations_size() && i < kMaxOperationsToSend; ++i) {
    if (request.operations(i).importance() != Operation::LOW) {
      return true;
    }
  }
  return false;
}""")],
  needs="a report with more than 10 operations whose only important one comes after the tenth",
  breaks="the important operation is cached and merged instead of being sent at once",
  demo="""
int main() {
  for (int high = 0; high < 14; ++high) {
    Demo d;
    d.Start();
    std::vector<Operation> ops;
    for (int i = 0; i < 14; ++i) ops.push_back(MakeOp("op" + std::to_string(i), "c", 1));
    ops[high].set_importance(Operation::HIGH);
    ReportRequest r = MakeReport(ops);
    ReportResponse resp;
    int done = 0;
    d.client->Report(r, &resp, [&](Status) { ++done; });
    CHECK_THAT(d.sent_reports.size() == 1);
    CHECK_THAT(d.sent_reports[0].operations_size() == 14);
    Demo::CompleteFront(&d.reports, OkStatus());
    CHECK_THAT(done == 1);
  }
  return 0;
}
""")

seed(id="c01-empty-operations", property="C01",
  edits=[("src/report_aggregator_impl.cc",
"""  for (const auto& operation : request.operations()) {
    string signature = GenerateReportOperationSignature(operation);
""",
"""  for (const auto& operation : request.operations()) {
    // Nothing to aggregate.
    if (operation.metric_value_sets_size() == 0 &&
        operation.log_entries_size() == 0) {
      continue;
    }
    string signature = GenerateReportOperationSignature(operation);
""")],
  needs="a reported operation without metric values and log entries (only its times and labels count)",
  breaks="the operation is accepted but never sent",
  demo="""
int main() {
  Demo d;
  d.Start();
  Operation op = MakeOp("op", "c", 1);
  op.clear_metric_value_sets();
  ReportResponse resp;
  int done = 0;
  d.client->Report(MakeReport({op}), &resp, [&](Status s) { CHECK_THAT(s.ok()); ++done; });
  CHECK_THAT(done == 1);
  d.client.reset();
  CHECK_THAT(d.sent_reports.size() == 1 && d.sent_reports[0].operations_size() == 1);
  return 0;
}
""")

seed(id="c02-batch-front", property="C02",
  edits=[("src/cache_removed_items_handler.h",
"!handler_->MergeItem(item, &items_[items_.size() - 1])", "!handler_->MergeItem(item, &items_[0])")],
  needs="more than 11 operations leaving the cache at once",
  breaks="after the first full batch every operation is sent in a report of its own",
  demo="""
int main() {
  Demo d;
  d.Start();
  ReportResponse resp;
  for (int i = 0; i < 25; ++i) d.client->Report(MakeReport({MakeOp("op" + std::to_string(i), "c", 1)}), &resp, [](Status) {});
  AdvanceMs(1001);
  d.tick();
  CHECK_THAT(d.sent_reports.size() == 3);
  CHECK_THAT(d.sent_reports[0].operations_size() == 10);
  CHECK_THAT(d.sent_reports[1].operations_size() == 10);
  CHECK_THAT(d.sent_reports[2].operations_size() == 5);
  return 0;
}
""")

seed(id="c02-idle-timeout", property="C02",
  edits=[("src/report_aggregator_impl.cc", "cache_->SetAgeBasedEviction(", "cache_->SetMaxIdleSeconds(")],
  needs="an operation that is reported again and again within every flush interval",
  breaks="its aggregate stays cached for as long as reports keep coming",
  demo="""
int main() {
  Demo d;
  d.Start();
  ReportResponse resp;
  for (int i = 0; i < 10; ++i) {
    d.client->Report(MakeReport({MakeOp("op", "c", 1)}), &resp, [](Status) {});
    AdvanceMs(600);
    d.tick();
  }
  CHECK_THAT(d.sent_reports.size() == 5);
  return 0;
}
""")

seed(id="c03-gauge-tie", property="C03",
  edits=[("src/operation_aggregator.cc",
"""  if (TimestampBefore(from.end_time(), to->end_time())) return;

  *to = from;""",
"""  if (TimestampBefore(to->end_time(), from.end_time())) *to = from;""")],
  needs="two gauge or cumulative values with the same end time (for instance none)",
  breaks="the earlier arrival is kept instead of the later one",
  demo="""
#include "src/operation_aggregator.h"
int main() {
  MetricKindMap kinds;
  kinds["m"] = MetricDescriptor::GAUGE;
  Operation a = MakeOp("op", "c", 5), b = MakeOp("op", "c", 7);
  OperationAggregator agg(a, &kinds);
  agg.MergeOperation(b);
  CHECK_THAT(agg.ToOperationProto().metric_value_sets(0).metric_values(0).int64_value() == 7);
  return 0;
}
""")

seed(id="c04-last-check-time", property="C04",
  edits=[("src/check_aggregator_impl.cc",
"""      lookup.value()->set_last_check_time(now);
      lookup.value()->set_check_response(response);""",
"""      lookup.value()->set_check_response(response);""")],
  needs="a refresh whose response takes a while to arrive",
  breaks="the next refresh is sent an interval after the request instead of after the response it was given",
  demo="""
int main() {
  auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(10, 500, 5000), nullptr);
  CheckResponse r;
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).code() == StatusCode::kNotFound);
  agg->CacheResponse(MakeCheck("a"), r);
  AdvanceMs(600);
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).code() == StatusCode::kNotFound);
  AdvanceMs(400);
  agg->CacheResponse(MakeCheck("a"), r);
  AdvanceMs(300);
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).ok());
  AdvanceMs(300);
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).code() == StatusCode::kNotFound);
  return 0;
}
""")

seed(id="c04-refresh-in-flight", property="C04",
  edits=[("src/check_aggregator_impl.cc",
"""      if (elem->is_flushing()) {
        GOOGLE_LOG(WARNING) << "Last refresh request was not completed yet.";
      }
      elem->set_is_flushing(true);""",
"""      if (elem->is_flushing()) {
        // The refresh is still on its way, use the cached response until then.
        GOOGLE_LOG(WARNING) << "Last refresh request was not completed yet.";
        *response = elem->check_response();
        return OkStatus();
      }
      elem->set_is_flushing(true);""")],
  needs="a refresh that fails (its response is never recorded)",
  breaks="the identity is never refreshed again while it stays in use",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(100, 500, 1000, 100, 1000, 600000, 100, 1000));
  CheckResponse r;
  auto call = [&](int64_t adv) { AdvanceMs(adv); d.client->Check(MakeCheck("a"), &r, [](Status) {}); };
  call(0);
  Demo::CompleteFront(&d.checks, OkStatus());
  call(600);
  CHECK_THAT(d.sent_checks.size() == 2);
  Demo::CompleteFront(&d.checks, Status(StatusCode::kUnavailable, "down"));
  call(600);
  CHECK_THAT(d.sent_checks.size() == 3);
  return 0;
}
""")

seed(id="c05-failing-response-clears", property="C05",
  edits=[("src/check_aggregator_impl.cc",
"""      lookup.value()->set_check_response(response);
""",
"""      lookup.value()->set_check_response(response);
      if (response.check_errors_size() > 0) {
        // The caller is not allowed to use the service any more.
        (void)lookup.value()->ReturnCheckRequestAndClear(service_name_,
                                                         service_config_id_);
      }
""")],
  needs="usage admitted under a passing answer, followed by a refresh that is answered with a failure",
  breaks="usage that was admitted is forgotten",
  demo="""
int main() {
  auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(10, 500, 5000), nullptr);
  int64_t flushed = 0;
  agg->SetFlushCallback([&](const CheckRequest& r) { flushed += Usage(r.operation()); });
  CheckResponse pass, fail, r;
  fail.add_check_errors();
  agg->CacheResponse(MakeCheck("a"), pass);
  for (int i = 0; i < 3; ++i) CHECK_THAT(agg->Check(MakeCheck("a", 5), &r).ok());
  agg->CacheResponse(MakeCheck("a"), fail);
  agg->FlushAll();
  CHECK_THAT(flushed == 15);
  return 0;
}
""")

seed(id="c05-replace-entry", property="C05",
  edits=[("src/check_aggregator_impl.cc",
"""    if (lookup.Found()) {
      lookup.value()->set_last_check_time(now);""",
"""    if (lookup.Found() && lookup.value()->is_flushing()) {
      lookup.value()->set_last_check_time(now);""")],
  needs="a second answer for an identity that was cached in the meantime, with usage pending",
  breaks="the entry is replaced, which sends its pending usage early",
  demo="""
int main() {
  auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(10, 500, 5000), nullptr);
  int flushes = 0;
  agg->SetFlushCallback([&](const CheckRequest& r) { ++flushes; });
  CheckResponse pass, r;
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).code() == StatusCode::kNotFound);
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).code() == StatusCode::kNotFound);
  agg->CacheResponse(MakeCheck("a"), pass);
  CHECK_THAT(agg->Check(MakeCheck("a"), &r).ok());
  agg->CacheResponse(MakeCheck("a"), pass);
  CHECK_THAT(flushes == 0);
  agg->FlushAll();
  CHECK_THAT(flushes == 1);
  return 0;
}
""")

seed(id="c06-late-answer-inserted", property="C06",
  edits=[("src/quota_aggregator_impl.cc",
"""    lookup.value()->set_in_flight(false);
    lookup.value()->set_quota_response(response);
  }
""",
"""    lookup.value()->set_in_flight(false);
    lookup.value()->set_quota_response(response);
  } else {
    CacheElem* cache_elem =
        new CacheElem(request, response, SimpleCycleTimer::Now());
    cache_elem->set_signature(request_signature);
    cache_->Insert(request_signature, cache_elem, 1);
  }
""")],
  needs="an answer that arrives after its identity has left the cache",
  breaks="the stale answer is cached and given to the next caller",
  demo="""
int main() {
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(10, 1000, 5000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  AllocateQuotaResponse neg, r;
  neg.add_allocate_errors();
  agg->Quota(MakeQuota("a"), &r);
  CHECK_THAT(sent.size() == 1);
  AdvanceMs(6000);
  agg->Flush();
  agg->CacheResponse(sent[0], neg);
  agg->Quota(MakeQuota("a"), &r);
  CHECK_THAT(r.allocate_errors_size() == 0 && sent.size() == 2);
  return 0;
}
""")

seed(id="c07-negative-keeps-tokens", property="C07",
  edits=[("src/quota_aggregator_impl.h",
"""      quota_response_ = quota_response;

      if(quota_response.allocate_errors_size() > 0) {
        operation_aggregator_ = NULL;
      }""",
"""      // The tokens can't be charged once allocation has failed.
      if (!is_positive_response()) {
        operation_aggregator_ = NULL;
      }

      quota_response_ = quota_response;""")],
  needs="tokens pending when a negative answer is recorded, then a refresh",
  breaks="tokens of calls admitted before the negative answer are charged in its refresh",
  demo="""
int main() {
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(10, 1000, 50000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  AllocateQuotaResponse neg, r;
  neg.add_allocate_errors();
  agg->Quota(MakeQuota("a", 1), &r);
  agg->Quota(MakeQuota("a", 10), &r);
  agg->CacheResponse(sent[0], neg);
  AdvanceMs(1000);
  agg->Quota(MakeQuota("a", 100), &r);
  CHECK_THAT(sent.size() == 2);
  CHECK_THAT(Tokens(sent[1]) == 1);
  return 0;
}
""")

seed(id="c07-aggregate-before-refresh", property="C07",
  edits=[("src/quota_aggregator_impl.cc",
"""  if (lookup.value()->in_flight() == false &&
      ShouldRefresh(*lookup.value()) == true) {""",
"""  // Aggregate tokens if the cached response is positive
  const bool aggregated = lookup.value()->is_aggregated();
  if (lookup.value()->is_positive_response() && !aggregated) {
    lookup.value()->Aggregate(request);
  }

  if (lookup.value()->in_flight() == false &&
      ShouldRefresh(*lookup.value()) == true) {"""),
   ("src/quota_aggregator_impl.cc",
"""  // Aggregate tokens if the cached response is positive
  if (lookup.value()->is_positive_response()) {
    lookup.value()->Aggregate(request);""",
"""  if (lookup.value()->is_positive_response() && aggregated) {
    lookup.value()->Aggregate(request);""")],
  needs="a refresh triggered by a call with nothing aggregated, with tokens differing from the initial call's",
  breaks="the triggering call's tokens are sent in the refresh it triggers instead of the following one",
  demo="""
int main() {
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(10, 1000, 50000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  AllocateQuotaResponse pos, r;
  agg->Quota(MakeQuota("a", 1), &r);
  agg->CacheResponse(sent[0], pos);
  AdvanceMs(1000);
  agg->Quota(MakeQuota("a", 100), &r);
  CHECK_THAT(sent.size() == 2);
  CHECK_THAT(Tokens(sent[1]) == 1);
  agg->CacheResponse(sent[1], pos);
  AdvanceMs(1000);
  agg->Quota(MakeQuota("a", 7), &r);
  CHECK_THAT(sent.size() == 3);
  CHECK_THAT(Tokens(sent[2]) == 100);
  return 0;
}
""")

seed(id="c10-failed-call-cached", property="C10",
  edits=[("src/service_control_client_impl.cc",
"""                      if (status.ok()) {
                        (void)check_aggregator_copy->CacheResponse(""",
"""                      if (status.ok() ||
                          check_response->check_errors_size() > 0) {
                        (void)check_aggregator_copy->CacheResponse(""")],
  needs="a transport that fails a call after it has filled check errors into the response",
  breaks="the failed call's response is cached and served to later callers",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r;
  int code = -1;
  d.client->Check(MakeCheck("a"), &r, [&](Status s) { code = (int)s.code(); });
  d.checks[0].response->add_check_errors();
  Demo::CompleteFront(&d.checks, Status(StatusCode::kUnavailable, "x"));
  CHECK_THAT(code == (int)StatusCode::kUnavailable);
  CheckResponse r2;
  d.client->Check(MakeCheck("a"), &r2, [](Status) {});
  CHECK_THAT(d.sent_checks.size() == 2);
  return 0;
}
""")

seed(id="c11-late-check-statistics", property="C11", srcs=ASAN_SRCS,
  edits=[("src/service_control_client_impl.cc",
"""                    [check_aggregator_copy, check_request_copy, check_response,
                     on_check_done](Status status) {
                      if (status.ok()) {""",
"""                    [this, check_aggregator_copy, check_request_copy,
                     check_response, on_check_done](Status status) {
                      if (status.ok() && check_transport_) {""")],
  needs="a check that completes after the client was destroyed",
  breaks="the completion reads the destroyed client",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r;
  int done = 0;
  d.client->Check(MakeCheck("a"), &r, [&](Status) { ++done; });
  d.client.reset();
  Demo::CompleteFront(&d.checks, OkStatus());
  CHECK_THAT(done == 1);
  return 0;
}
""")

seed(id="c13-label-delimiter", property="C13",
  edits=[("src/signature.cc",
"""    hasher->Update(label.first);
    hasher->Update(kDelimiter, kDelimiterLength);
    hasher->Update(label.second);
""",
"""    hasher->Update(label.first);
    // An empty value adds nothing to the label's name.
    if (!label.second.empty()) {
      hasher->Update(kDelimiter, kDelimiterLength);
      hasher->Update(label.second);
    }
""")],
  needs="a label with an empty value next to others, against the labels it then reads as",
  breaks="{a: '', b: ''} and {a: b} share one identity",
  demo="""
#include "src/signature.h"
int main() {
  Operation a = MakeOp("op", "c", 1), b = a;
  (*a.mutable_labels())["a"] = "";
  (*a.mutable_labels())["b"] = "";
  (*b.mutable_labels())["a"] = "b";
  CHECK_THAT(GenerateReportOperationSignature(a) != GenerateReportOperationSignature(b));
  return 0;
}
""")

seed(id="c14-negative-linear", property="C14",
  edits=[("utils/distribution_helper.cc",
"""  if (value < lower_bound""",
"""  if ((linear.offset() < 0 ? -value > -lower_bound : value <= lower_bound)""")],
  needs="a sample exactly at a non-negative offset of linear buckets (any offset >= 0)",
  breaks="the sample on the lower bound is counted as underflow",
  demo="""
#include "utils/distribution_helper.h"
int main() {
  Distribution d;
  CHECK_THAT(DistributionHelper::InitLinear(3, 2.0, 10.0, &d).ok());
  CHECK_THAT(DistributionHelper::AddSample(10.0, &d).ok());
  CHECK_THAT(d.bucket_counts(0) == 0 && d.bucket_counts(1) == 1);
  return 0;
}
""")

seed(id="c15-last-bound", property="C15",
  edits=[("utils/distribution_helper.cc",
"""      for (int i = 0; i < first_explicit.bounds_size(); ++i) {""",
"""      for (int i = 0; i + 1 < first_explicit.bounds_size(); ++i) {""")],
  needs="explicit buckets that differ in their last bound only",
  breaks="distributions with different buckets are merged",
  demo="""
#include "utils/distribution_helper.h"
int main() {
  Distribution a, b;
  DistributionHelper::InitExplicit({1, 2, 3}, &a);
  DistributionHelper::InitExplicit({1, 2, 4}, &b);
  DistributionHelper::AddSample(3.5, &a);
  DistributionHelper::AddSample(3.5, &b);
  std::string before = b.SerializeAsString();
  CHECK_THAT(DistributionHelper::Merge(a, &b).code() == StatusCode::kInvalidArgument);
  CHECK_THAT(b.SerializeAsString() == before);
  return 0;
}
""")

seed(id="c15-deviation-mean", property="C15",
  edits=[("utils/distribution_helper.cc",
"""      count * (to->mean() - mean) * (to->mean() - mean) +
      from.count() * (to->mean() - from.mean()) * (to->mean() - from.mean()));""",
"""      count * from.count() / to->count() * (from.mean() - mean) *
          (from.mean() - mean));""")],
  needs="counts whose product is not a multiple of their sum",
  breaks="the squared deviation is too small (integer division)",
  demo="""
#include <math.h>
#include "utils/distribution_helper.h"
int main() {
  Distribution a, b, all;
  DistributionHelper::InitLinear(5, 10, 0, &a);
  DistributionHelper::InitLinear(5, 10, 0, &b);
  DistributionHelper::InitLinear(5, 10, 0, &all);
  for (double v : {1.0, 5.0, 30.0}) { DistributionHelper::AddSample(v, &a); DistributionHelper::AddSample(v, &all); }
  for (double v : {44.0, 2.0}) { DistributionHelper::AddSample(v, &b); DistributionHelper::AddSample(v, &all); }
  CHECK_THAT(DistributionHelper::Merge(a, &b).ok());
  CHECK_THAT(fabs(b.sum_of_squared_deviation() - all.sum_of_squared_deviation()) < 1e-6 * all.sum_of_squared_deviation());
  return 0;
}
""")

seed(id="c17-updatesize-deferred", property="C17",
  edits=[("utils/simple_lru_cache_inl.h",
"""        if (e->value == value || value == nullptr) {
          units_ -= e->units;
          e->units = units;
          units_ += e->units;
        }""",
"""        if (e->value == value || value == nullptr) {
          units_ -= e->units;
          e->units = units;
          units_ += e->units;
          break;
        }""")],
  needs="several removed but still pinned entries of one key, and a size update for all of them (no value given)",
  breaks="only one of the entries gets the new size",
  demo="""
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
int main() {
  {
    SimpleLRUCache<std::string, int> c(100);
    int* v[3];
    for (int i = 0; i < 3; ++i) c.InsertPinned("a", v[i] = new int(i), 1);
    c.Remove("a");
    CHECK_THAT(c.DeferredSize() == 3);
    c.UpdateSize("a", nullptr, 5);
    CHECK_THAT(c.DeferredSize() == 15 && c.Size() == 15);
    for (int i = 0; i < 3; ++i) c.Release("a", v[i]);
    c.Clear();
  }
  return 0;
}
""")

seed(id="c18-expire-at-limit", property="C18",
  edits=[("utils/simple_lru_cache_inl.h", "(e->last_use_ < threshold)) {", "(e->last_use_ <= threshold)) {")],
  needs="a lookup exactly at the limit (the clock has microseconds)",
  breaks="an entry expires although it was not unused for more than the limit",
  demo="""
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
int main() {
  {
    SimpleLRUCache<std::string, int> c(100);
    c.SetMaxIdleSeconds(1.0);
    c.Insert("a", new int(1), 1);
    AdvanceMs(1000);
    { SimpleLRUCache<std::string, int>::ScopedLookup l(&c, "a"); CHECK_THAT(l.Found()); }
    AdvanceUs(1000001);
    { SimpleLRUCache<std::string, int>::ScopedLookup l(&c, "a"); CHECK_THAT(!l.Found()); }
    c.Clear();
  }
  return 0;
}
""")

seed(id="c21-sync-quota-error", property="C21",
  edits=[("src/service_control_client_impl.cc",
"""  Quota(quota_request, quota_response, [&status_promise](Status status) {""",
"""  Quota(quota_request, quota_response, [&status_promise](Status status) {
    // Fails open on network errors.
    if (status.code() == StatusCode::kUnavailable) status = OkStatus();
""")],
  needs="a blocking quota call on a client without quota caching whose request fails as UNAVAILABLE",
  breaks="the caller is told that the call succeeded",
  demo="""
int main() {
  Demo d;
  auto o = d.Options(100, 500, 1000, 0, 1000, 600000, 100, 1000);
  o.quota_transport = [](const AllocateQuotaRequest&, AllocateQuotaResponse*, TransportDoneFunc f) {
    f(Status(StatusCode::kUnavailable, "down"));
  };
  d.Start(o);
  AllocateQuotaResponse r;
  CHECK_THAT(d.client->Quota(MakeQuota("a"), &r).code() == StatusCode::kUnavailable);
  return 0;
}
""")

seed(id="c22-min-interval", property="C22",
  edits=[("src/service_control_client_impl.cc",
"""  check_interval =
      (check_interval < 0) ? std::numeric_limits<int>::max() : check_interval;
  quota_interval =
      (quota_interval < 0) ? std::numeric_limits<int>::max() : quota_interval;
""",
"""  check_interval =
      (check_interval < 0) ? std::numeric_limits<int>::max() : check_interval;
  // Quota is refreshed by calls, the timer only cleans up.
  quota_interval = (quota_interval < 0 || report_interval < check_interval)
                       ? std::numeric_limits<int>::max()
                       : quota_interval;
""")],
  needs="a quota refresh interval that is the smallest, and a report interval below the check expiration",
  breaks="the timer's period is longer than the earliest deadline",
  demo="""
int main() {
  for (int c : {300, 700, 2000})
    for (int q : {200, 900, 3000})
      for (int r : {100, 400, 1000, 5000}) {
        Demo d;
        d.Start(d.Options(100, 50, c, 100, q, 600000, 100, r));
        CHECK_THAT(d.timers == 1 && d.interval == std::min(c, std::min(q, r)));
      }
  return 0;
}
""")

seed(id="c23-flush-under-lock", property="C23",
  edits=[("src/quota_aggregator_impl.cc",
"""::google::protobuf::util::Status QuotaAggregatorImpl::Flush() {
  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
""",
"""::google::protobuf::util::Status QuotaAggregatorImpl::Flush() {
  MutexLock lock(cache_mutex_);
  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
""")],
  needs="a transport that completes in place, and tokens pending at a tick",
  breaks="the tick deadlocks (the answer is recorded while the cache is locked)",
  demo="""
int main() {
  Demo d;
  d.in_place = true;
  d.Start();
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("a"), &r, [](Status) {});
  d.client->Quota(MakeQuota("a"), &r, [](Status) {});
  std::thread([] { sleep(20); printf("deadlock\\n"); fflush(stdout); _exit(1); }).detach();
  AdvanceMs(1001);
  d.tick();
  CHECK_THAT(d.sent_quotas.size() == 2);
  return 0;
}
""")

seed(id="c03-quota-type-mismatch", property="C03",
  edits=[("src/quota_operation_aggregator.cc",
"""    case MetricValue::kInt64Value:
      to->set_int64_value(to->int64_value() + from.int64_value());
      break;""",
"""    case MetricValue::kInt64Value:
      to->set_int64_value(static_cast<int32_t>(to->int64_value()) +
                          from.int64_value());
      break;""")],
  needs="a sum of tokens beyond 32 bits",
  breaks="large token sums are truncated",
  demo="""
#include "src/quota_operation_aggregator.h"
int main() {
  QuotaOperationAggregator agg(MakeQuota("a", 3000000000ll).allocate_operation());
  agg.MergeOperation(MakeQuota("a", 2).allocate_operation());
  AllocateQuotaRequest r;
  *r.mutable_allocate_operation() = agg.ToOperationProto();
  CHECK_THAT(Tokens(r) == 3000000002ll);
  return 0;
}
""")

seed(id="c06-in-flight-lost", property="C06",
  edits=[("src/quota_aggregator_impl.cc",
"""    // insert the element back to the cache
    cache_->Insert(elem->signature(), elem, 1);
""",
"""    // insert the element back to the cache
    cache_->Insert(elem->signature(), elem, 1);
    // The request was lost if it was not answered within ten intervals.
    if (SimpleCycleTimer::Now() - elem->last_refresh_time() >
        10 * refresh_interval_in_cycle_) {
      elem->set_in_flight(false);
    }
""")],
  needs="a quota request answered only after more than ten refresh intervals",
  breaks="a second request of the identity is sent while the first is outstanding",
  demo="""
int main() {
  Demo d;
  d.Start();
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("a"), &r, [](Status) {});
  for (int i = 0; i < 14; ++i) {
    AdvanceMs(1001);
    d.tick();
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    CHECK_THAT(d.sent_quotas.size() == 1);
  }
  Demo::CompleteFront(&d.quotas, OkStatus());
  return 0;
}
""")

seed(id="c09-empty-report-accepted", property="C09",
  edits=[("src/report_aggregator_impl.cc",
"""  if (request.service_name() != service_name_) {
    return Status(""",
"""  // Nothing to report.
  if (request.operations_size() == 0) return OkStatus();

  if (request.service_name() != service_name_) {
    return Status(""")],
  needs="a report without operations, for another service or on a client without report caching",
  breaks="it is accepted instead of rejected (or sent)",
  demo="""
int main() {
  Demo d;
  d.Start();
  ReportResponse resp;
  ReportRequest r;
  r.set_service_name("other");
  int code = -1;
  d.client->Report(r, &resp, [&](Status s) { code = (int)s.code(); });
  CHECK_THAT(code == (int)StatusCode::kInvalidArgument);
  return 0;
}
""")

seed(id="c10-permanent-error", property="C10",
  edits=[("src/service_control_client_impl.cc",
"""                       AllocateQuotaResponse dummy_response;
                       (void)quota_aggregator_copy->CacheResponse(
                           *quota_request_copy, dummy_response);
                     } else {""",
"""                       AllocateQuotaResponse dummy_response =
                           FailedQuotaResponse(status);
                       (void)quota_aggregator_copy->CacheResponse(
                           *quota_request_copy, dummy_response);
                     } else {"""),
  ("src/service_control_client_impl.cc",
"""namespace service_control_client {

ServiceControlClientImpl::ServiceControlClientImpl(""",
"""namespace service_control_client {
namespace {

// The response to assume for a failed request.
AllocateQuotaResponse FailedQuotaResponse(const Status& status) {
  AllocateQuotaResponse response;
  if (status.code() == StatusCode::kResourceExhausted) {
    // The server said no.
    response.add_allocate_errors();
  }
  return response;
}

}  // namespace

ServiceControlClientImpl::ServiceControlClientImpl(""")],
  needs="a quota request that fails as RESOURCE_EXHAUSTED",
  breaks="callers are refused although the request failed",
  demo="""
int main() {
  for (int code = 1; code <= 16; ++code) {
    Demo d;
    d.Start();
    AllocateQuotaResponse r;
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    Demo::CompleteFront(&d.quotas, Status((StatusCode)code, "x"));
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    CHECK_THAT(r.allocate_errors_size() == 0);
  }
  return 0;
}
""")

seed(id="c11-tick-after-client", property="C11", srcs=ASAN_SRCS,
  edits=[("src/service_control_client_impl.cc",
"""        flush_interval, [check_aggregator_copy, quota_aggregator_copy,
                         report_aggregator_copy]() {
""",
"""        flush_interval, [this, check_aggregator_copy, quota_aggregator_copy,
                         report_aggregator_copy]() {
          // Nobody has called yet: nothing can be due.
          if (total_called_checks_ == 0 && total_called_quotas_ == 0 &&
              total_called_reports_ == 0) {
            return;
          }
""")],
  needs="a timer tick that was already on its way when the client was destroyed",
  breaks="the tick reads the destroyed client",
  demo="""
int main() {
  Demo d;
  d.in_place = true;
  d.Start();
  auto tick = d.tick;
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("a", "c", 1)}), &r, [](Status) {});
  tick();
  d.client.reset();
  CHECK_THAT(d.stops == 1 && d.sent_reports.size() == 1);
  tick();
  return 0;
}
""")

seed(id="c12-flush-without-transport", property="C12",
  edits=[("src/service_control_client_impl.cc",
"""  if (!check_transport_) {
    GOOGLE_LOG(ERROR) << "No transport to send Check call.";
    return;
  }
""",
"""  ++send_checks_by_flush_;
  if (!check_transport_) {
    GOOGLE_LOG(ERROR) << "No transport to send Check call.";
    return;
  }
"""),
("src/service_control_client_impl.cc",
"""                     }
                   });
  ++send_checks_by_flush_;
""",
"""                     }
                   });
""")],
  needs="a client without a check transport of its own whose cached usage expires",
  breaks="a request that was not sent is counted as sent",
  demo="""
int main() {
  Demo d;
  auto o = d.Options(100, 500, 1000, 100, 1000, 600000, 100, 1000);
  o.check_transport = nullptr;
  d.Start(o);
  CheckResponse r;
  auto tr = [](const CheckRequest&, CheckResponse*, TransportDoneFunc f) { f(OkStatus()); };
  d.client->Check(MakeCheck("a"), &r, [](Status) {}, tr);
  d.client->Check(MakeCheck("a"), &r, [](Status) {}, tr);
  AdvanceMs(1001);
  d.tick();
  Statistics s;
  d.client->GetStatistics(&s);
  CHECK_THAT(s.send_checks_by_flush == 0 && s.send_checks_in_flight == 1);
  return 0;
}
""")

seed(id="c12-operations-by-batch", property="C12",
  edits=[("src/service_control_client_impl.cc",
"""  send_report_operations_ += report_request.operations_size();
}""",
"""  // A flushed operation may stand for many; operations that only carry logs
  // are not aggregated.
  for (const auto& operation : report_request.operations()) {
    if (operation.metric_value_sets_size() > 0 || operation.log_entries_size() > 0) ++send_report_operations_;
  }
}""")],
  needs="flushed operations without metrics and log entries",
  breaks="they are missing from the number of operations sent",
  demo="""
int main() {
  Demo d;
  d.Start();
  Operation op = MakeOp("op", "c", 1);
  op.clear_metric_value_sets();
  ReportResponse resp;
  d.client->Report(MakeReport({op, MakeOp("op2", "c", 1)}), &resp, [&](Status s) {});
  AdvanceMs(1001);
  d.tick();
  Statistics s;
  d.client->GetStatistics(&s);
  CHECK_THAT(s.send_report_operations == 2);
  return 0;
}
""")

seed(id="c13-label-prefix", property="C13",
  edits=[("src/signature.cc",
"""  std::map<string, string> ordered_labels(labels.begin(), labels.end());
""",
"""  // Label names differ early.
  const auto before = [](const string& a, const string& b) {
    return a.compare(0, 48, b, 0, 48) < 0;
  };
  std::map<string, string, decltype(before)> ordered_labels(
      labels.begin(), labels.end(), before);
""")],
  needs="two label names of one message that agree in their first 48 characters",
  breaks="one of the labels (an arbitrary one) is left out of the identity",
  demo="""
#include "src/signature.h"
int main() {
  Operation a = MakeOp("op", "c", 1), b = a, c = a;
  std::string p(48, 'x');
  (*a.mutable_labels())[p + "1"] = "x";
  (*a.mutable_labels())[p + "2"] = "y";
  (*b.mutable_labels())[p + "1"] = "x";
  (*b.mutable_labels())[p + "2"] = "z";
  (*c.mutable_labels())[p + "1"] = "w";
  (*c.mutable_labels())[p + "2"] = "y";
  CHECK_THAT(GenerateReportOperationSignature(a) != GenerateReportOperationSignature(b));
  CHECK_THAT(GenerateReportOperationSignature(a) != GenerateReportOperationSignature(c));
  return 0;
}
""")

seed(id="c14-invalid-parameters", property="C14",
  edits=[("utils/distribution_helper.cc",
"""  if (growth_factor <= 1.0) {""",
"""  auto* exponential = distribution->mutable_exponential_buckets();
  exponential->set_num_finite_buckets(num_finite_buckets);
  if (growth_factor <= 1.0) {"""),
("utils/distribution_helper.cc",
"""  auto* exponential = distribution->mutable_exponential_buckets();
  exponential->set_num_finite_buckets(num_finite_buckets);
  exponential->set_growth_factor(growth_factor);
""",
"""  exponential->set_growth_factor(growth_factor);
""")],
  needs="initialising a distribution with an invalid growth factor or scale and then using it",
  breaks="the rejected call leaves a half initialised distribution behind",
  demo="""
#include "utils/distribution_helper.h"
int main() {
  Distribution d;
  DistributionHelper::InitLinear(3, 2.0, 10.0, &d);
  std::string before = d.SerializeAsString();
  CHECK_THAT(!DistributionHelper::InitExponential(3, 1.0, 1.0, &d).ok());
  CHECK_THAT(d.SerializeAsString() == before);
  CHECK_THAT(!DistributionHelper::InitExponential(3, 2.0, -1.0, &d).ok());
  CHECK_THAT(d.SerializeAsString() == before);
  return 0;
}
""")

seed(id="c16-currency-case", property="C16",
  edits=[("src/money_utils.cc",
"""  if (a.currency_code() != b.currency_code()) {""",
"""  if (strcasecmp(a.currency_code().c_str(), b.currency_code().c_str()) != 0) {"""),
  ("src/money_utils.cc", "using google::type::Money;", "#include <strings.h>\n\nusing google::type::Money;")],
  needs="currency codes that differ in case only",
  breaks="amounts of two currencies are added",
  demo="""
#include "src/money_utils.h"
int main() {
  google::type::Money a, b, s;
  a.set_currency_code("USD");
  b.set_currency_code("usd");
  a.set_units(1);
  b.set_units(2);
  s.set_units(9);
  CHECK_THAT(TryAddMoney(a, b, &s).code() == StatusCode::kInvalidArgument);
  CHECK_THAT(s.units() == 0);
  return 0;
}
""")

seed(id="c18-pinned-oldest", property="C18",
  edits=[("utils/simple_lru_cache_inl.h",
"""    Elem* prev = e->prev;
    if (e->pin == 0) {
      // Erase from hash-table""",
"""    Elem* prev = e->prev;
    if (e->pin != 0) {
      if (!lru_) break;
    } else {
      // Erase from hash-table""")],
  needs="age-based mode, the oldest entry pinned, and an insertion beyond the capacity",
  breaks="the entry just inserted is evicted instead of the oldest one that is not pinned",
  demo="""
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
int main() {
  {
    SimpleLRUCache<std::string, int> c(3);
    c.SetAgeBasedEviction(100);
    int* a = new int(1);
    c.InsertPinned("a", a, 1);
    for (int i = 0; i < 6; ++i) {
      AdvanceMs(1);
      c.Insert("b" + std::to_string(i), new int(i), 1);
      CHECK_THAT(c.StillInUse("b" + std::to_string(i)));
    }
    c.Release("a", a);
    c.Clear();
  }
  return 0;
}
""")

seed(id="c19-int-overload", property="C19",
  edits=[("utils/md5.cc",
"""  MD5_Update(&ctx_, data, size);
  return *this;""",
"""  // Hash in blocks.
  const char* p = static_cast<const char*>(data);
  const size_t kBlock = 1 << 14;
  while (size > kBlock) {
    MD5_Update(&ctx_, p, kBlock);
    p += kBlock;
    size -= kBlock;
    if (size == kBlock) break;
  }
  MD5_Update(&ctx_, p, size % kBlock);
  return *this;""")],
  needs="an update whose length is a multiple of 16384",
  breaks="the last block is left out of the hash",
  demo="""
#include <openssl/md5.h>
#include "utils/md5.h"
int main() {
  for (size_t n : {0, 1, 63, 64, 65, 4095, 4096, 16383, 16384, 16385, 32768, 49152, 65536, 65537, 100000}) {
    std::string s(n, 'x');
    unsigned char want[16];
    ::MD5((const unsigned char*)s.data(), s.size(), want);
    google::service_control_client::MD5 h;
    h.Update(s);
    CHECK_THAT(h.Digest() == std::string((char*)want, 16));
  }
  return 0;
}
""")

seed(id="c19-digest-twice", property="C19",
  edits=[("utils/md5.cc",
"""    MD5_Final(digest_, &ctx_);
    finalized_ = true;
  }
  return std::string(reinterpret_cast<char*>(digest_), kDigestLength);""",
"""    unsigned char digest[kDigestLength];
    MD5_Final(digest, &ctx_);
    finalized_ = true;
    memcpy(digest_, digest, sizeof(digest_) - 1);
    return std::string(reinterpret_cast<char*>(digest), kDigestLength);
  }
  return std::string(reinterpret_cast<char*>(digest_), kDigestLength);"""),
 ("utils/md5.cc", "#include <assert.h>\n", "#include <assert.h>\n#include <string.h>\n")],
  needs="asking for the digest twice",
  breaks="the second answer has an arbitrary last byte",
  demo="""
#include "utils/md5.h"
int main() {
  for (int i = 0; i < 50; ++i) {
    google::service_control_client::MD5 h;
    h.Update(std::string("input") + std::to_string(i));
    std::string a = h.Digest();
    CHECK_THAT(h.Digest() == a);
  }
  return 0;
}
""")

seed(id="c20-swapper-before-lock", property="C20",
  edits=[("src/report_aggregator_impl.cc",
"""  ReportCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
  ReportCacheRemovedItemsHandler::StackBuffer::Swapper swapper(this,
                                                               &stack_buffer);

  // Starts to cache and aggregate low important operations.""",
"""  ReportCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  ReportCacheRemovedItemsHandler::StackBuffer::Swapper swapper(this,
                                                               &stack_buffer);
  MutexLock lock(cache_mutex_);

  // Starts to cache and aggregate low important operations.""")],
  needs="a report and another report or a flush at the same time on two threads",
  breaks="operations removed by one thread go to the other's buffer, or nowhere",
  demo="""
#include <mutex>
int main() {
  int64_t sent = 0;
  std::mutex mu;
  {
    auto agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(3, 1000), nullptr);
    agg->SetFlushCallback([&](const ReportRequest& r) {
      std::lock_guard<std::mutex> l(mu);
      for (auto& o : r.operations()) sent += Usage(o);
    });
    std::vector<std::thread> t;
    for (int i = 0; i < 4; ++i)
      t.emplace_back([&, i] {
        for (int j = 0; j < 20000; ++j) agg->Report(MakeReport({MakeOp("op" + std::to_string((i * 7 + j) % 9), "c", 1)}));
      });
    for (auto& x : t) x.join();
    agg->FlushAll();
  }
  CHECK_THAT(sent == 80000);
  return 0;
}
""")

seed(id="c20-counter-update", property="C20",
  edits=[("src/service_control_client_impl.cc",
"""  ++total_called_reports_;
  if (report_transport == NULL) {""",
"""  total_called_reports_ = total_called_reports_ + 1;
  if (report_transport == NULL) {""")],
  needs="reports on two threads at the same time",
  breaks="calls are missing from the statistics (load and store are separate)",
  demo="""
int main() {
  Demo d;
  d.Start();
  std::vector<std::thread> t;
  for (int i = 0; i < 6; ++i)
    t.emplace_back([&] {
      ReportResponse r;
      ReportRequest q = MakeReport({});
      q.set_service_name("other");
      for (int j = 0; j < 100000; ++j) d.client->Report(q, &r, [](Status) {});
    });
  for (auto& x : t) x.join();
  Statistics s;
  d.client->GetStatistics(&s);
  CHECK_THAT(s.total_called_reports == 600000);
  return 0;
}
""")

seed(id="c20-lock-split", property="C20",
  edits=[("src/check_aggregator_impl.cc",
"""Status CheckAggregatorImpl::CacheResponse(const CheckRequest& request,
                                          const CheckResponse& response) {
  CheckCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
  CheckCacheRemovedItemsHandler::StackBuffer::Swapper swapper(this,
                                                              &stack_buffer);
  if (cache_) {
    string request_signature = GenerateCheckRequestSignature(request);
    CheckCache::ScopedLookup lookup(cache_.get(), request_signature);
""",
"""Status CheckAggregatorImpl::CacheResponse(const CheckRequest& request,
                                          const CheckResponse& response) {
  CheckCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  if (cache_) {
    string request_signature = GenerateCheckRequestSignature(request);
    bool known;
    {
      MutexLock lock(cache_mutex_);
      known = cache_->StillInUse(request_signature);
    }
    // Copying the response may take a while.
    std::unique_ptr<CacheElem> new_elem;
    if (!known) {
      new_elem.reset(new CacheElem(response, SimpleCycleTimer::Now(), 0));
    }

    MutexLock lock(cache_mutex_);
    CheckCacheRemovedItemsHandler::StackBuffer::Swapper swapper(this,
                                                                &stack_buffer);
    if (new_elem) {
      cache_->Insert(request_signature, new_elem.release(), 1);
      return OkStatus();
    }
    CheckCache::ScopedLookup lookup(cache_.get(), request_signature);
""")],
  needs="two first answers of one identity recorded at the same time on two threads",
  breaks="the second insertion replaces the first entry (sending its pending usage early)",
  demo="""
#include <mutex>
int main() {
  for (int k = 0; k < 3000; ++k) {
    auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(100, 500000, 1000000), nullptr);
    std::atomic<int> flushes{0}, go{0};
    agg->SetFlushCallback([&](const CheckRequest&) { ++flushes; });
    CheckResponse resp;
    for (int i = 0; i < 200; ++i) resp.add_check_errors();
    resp.Clear();
    std::vector<std::thread> t;
    CheckRequest q = MakeCheck("a");
    for (int i = 0; i < 3; ++i)
      t.emplace_back([&, i] {
        ++go;
        while (go < 3) {}
        CheckResponse r;
        agg->CacheResponse(q, resp);
        agg->Check(q, &r);
      });
    for (auto& x : t) x.join();
    CHECK_THAT(flushes == 0);
  }
  return 0;
}
""")

seed(id="c22-cached-disabled", property="C22",
  edits=[("src/service_control_client_impl.cc",
"""          status = report_aggregator_copy->Flush();
""",
"""          if (report_aggregator_copy->GetNextFlushInterval() >
              quota_aggregator_copy->GetNextFlushInterval() * 1000) {
            return;  // Not due yet.
          }
          status = report_aggregator_copy->Flush();
""")],
  needs="quota caching disabled, or a quota refresh interval a thousand times shorter than the report interval",
  breaks="ticks do not flush reports",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(100, 500, 1000, 0, 1000, 600000, 100, 1000));
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("a", "c", 1)}), &r, [](Status) {});
  AdvanceMs(1001);
  d.tick();
  CHECK_THAT(d.sent_reports.size() == 1);
  return 0;
}
""")

seed(id="c23-answer-under-lock", property="C23",
  edits=[("src/quota_aggregator_impl.cc",
"""  string request_signature = GenerateAllocateQuotaRequestSignature(request);

  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
""",
"""  string request_signature = GenerateAllocateQuotaRequestSignature(request);

  MutexLock lock(cache_mutex_);
  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
""")],
  needs="an answer recorded when another identity's tokens are due, and a transport that completes in place",
  breaks="the refresh runs with the cache locked: its completion deadlocks",
  demo="""
int main() {
  std::thread([] { sleep(20); printf("deadlock\\n"); fflush(stdout); _exit(1); }).detach();
  Demo d;
  d.Start();
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("a"), &r, [](Status) {});
  d.client->Quota(MakeQuota("b"), &r, [](Status) {});
  d.client->Quota(MakeQuota("b"), &r, [](Status) {});
  auto first = d.quotas[0];
  d.quotas[1].done(OkStatus());
  AdvanceMs(1001);
  d.in_place = true;
  first.done(OkStatus());
  CHECK_THAT(d.sent_quotas.size() == 3);
  return 0;
}
""")

seed(id="c24-negative-entries", property="C24",
  edits=[("src/quota_aggregator_impl.cc", "  if (options.num_entries > 0) {", "  if (options.num_entries != 0) {")],
  needs="a negative number of entries for quota",
  breaks="quota calls go through a cache without room instead of straight to the server",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(100, 500, 1000, -1, 1000, 600000, 100, 1000));
  AllocateQuotaResponse r;
  int code = -1;
  d.client->Quota(MakeQuota("a"), &r, [&](Status s) { code = (int)s.code(); });
  CHECK_THAT(d.sent_quotas.size() == 1 && code == -1);
  Demo::CompleteFront(&d.quotas, Status(StatusCode::kUnavailable, "down"));
  CHECK_THAT(code == (int)StatusCode::kUnavailable);
  return 0;
}
""")

seed(id="c24-check-cached-anyway", property="C24",
  edits=[("src/check_aggregator_impl.cc",
"""int CheckAggregatorImpl::GetNextFlushInterval() {
  if (!cache_) return -1;
  return options_.expiration_ms;""",
"""int CheckAggregatorImpl::GetNextFlushInterval() {
  if (options_.expiration_ms <= 0) return -1;
  return options_.expiration_ms;""")],
  needs="check caching disabled by the number of entries with an expiration that is the shortest interval",
  breaks="the disabled cache advertises a flush interval and sets the timer's period",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 50, 100, 100, 1000, 600000, 100, 2000));
  CHECK_THAT(d.timers == 1 && d.interval == 1000);
  return 0;
}
""")
SEEDS[-1]["property"] = "C22"
SEEDS[-1]["id"] = "c22-disabled-check-cache"

seed(id="c08-drop-in-flight", property="C08",
  edits=[("src/quota_aggregator_impl.cc",
"""  return age >= expiration_interval_in_cycle_;""",
"""  // The answer is still to come.
  if (elem.in_flight()) return false;
  return age >= expiration_interval_in_cycle_;""")],
  needs="a request whose answer never comes, and the expiration interval to pass",
  breaks="the entry is never dropped: the identity is never asked for again",
  demo="""
int main() {
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(10, 500, 2000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  AllocateQuotaResponse r;
  agg->Quota(MakeQuota("a", 1), &r);
  for (int i = 0; i < 6; ++i) { AdvanceMs(501); agg->Flush(); }
  agg->Quota(MakeQuota("a", 1), &r);
  CHECK_THAT(sent.size() == 2);
  return 0;
}
""")
