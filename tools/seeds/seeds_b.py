ASAN_SRCS = "-fsanitize=address src/service_control_client_impl.cc src/check_aggregator_impl.cc src/quota_aggregator_impl.cc src/report_aggregator_impl.cc src/operation_aggregator.cc src/quota_operation_aggregator.cc src/signature.cc src/money_utils.cc utils/md5.cc utils/distribution_helper.cc"
SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id="c05-failing-entry-usage", property="C05",
  edits=[("src/check_aggregator_impl.cc",
"""  if (!elem->HasPendingCheckRequest()) {
    delete elem;""",
"""  // Failed checks do not use anything.
  if (!elem->HasPendingCheckRequest() ||
      elem->check_response().check_errors_size() > 0) {
    delete elem;""")],
  needs="checks admitted under a passing response, then a refresh that fails, then the entry leaves the cache",
  breaks="the usage admitted before the failing response is never sent",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r1, r2, r3;
  d.client->Check(MakeCheck("op", 5), &r1, [](Status) {});
  Demo::CompleteFront(&d.checks, OkStatus());
  d.client->Check(MakeCheck("op", 7), &r2, [](Status) {});  // from cache
  CHECK_THAT(d.sent_checks.size() == 1);
  AdvanceMs(600);
  d.client->Check(MakeCheck("op", 9), &r3, [](Status) {});  // refresh
  CHECK_THAT(d.sent_checks.size() == 2);
  d.checks.front().response->add_check_errors();
  Demo::CompleteFront(&d.checks, OkStatus());
  AdvanceMs(2000);
  d.tick();
  CHECK_THAT(d.sent_checks.size() == 3);
  CHECK_THAT(Usage(d.sent_checks[2].operation()) == 16);
  return 0;
}
""")

seed(id="c03-log-cap", property="C03",
  edits=[("src/operation_aggregator.cc",
"""  for (const auto& entry : operation.log_entries()) {
    *(operation_.add_log_entries()) = entry;
  }""",
"""  for (const auto& entry : operation.log_entries()) {
    // Never exceed the limit in one operation.
    if (operation_.log_entries_size() >= kMaxLogEntries) break;
    *(operation_.add_log_entries()) = entry;
  }""")],
  needs="a merge that takes the number of log entries past 100",
  breaks="the log entries over 100 are lost",
  demo="""
int main() {
  Demo d;
  d.Start();
  Operation a = MakeOp("op", "c", 1), b = MakeOp("op", "c", 1);
  for (int i = 0; i < 60; ++i) a.add_log_entries()->set_name("a" + std::to_string(i));
  for (int i = 0; i < 60; ++i) b.add_log_entries()->set_name("b" + std::to_string(i));
  ReportResponse resp;
  d.client->Report(MakeReport({a}), &resp, [](Status) {});
  d.client->Report(MakeReport({b}), &resp, [](Status) {});
  d.client.reset();
  CHECK_THAT(d.sent_reports.size() == 1);
  CHECK_THAT(d.sent_reports[0].operations(0).log_entries_size() == 120);
  return 0;
}
""")

seed(id="c07-refused-tokens", property="C07",
  edits=[("src/quota_aggregator_impl.cc",
"""  // Aggregate tokens if the cached response is positive
  if (lookup.value()->is_positive_response()) {
    lookup.value()->Aggregate(request);
  }""",
"""  // Aggregate tokens if the cached response is positive, or may become so
  if (lookup.value()->is_positive_response() || lookup.value()->in_flight()) {
    lookup.value()->Aggregate(request);
  }""")],
  needs="calls refused under a negative answer while its refresh is in flight, and then a positive answer",
  breaks="tokens of refused calls are charged",
  demo="""
int main() {
  Demo d;
  d.Start();
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("q", 1), &r, [](Status) {});
  d.quotas.front().response->add_allocate_errors();
  Demo::CompleteFront(&d.quotas, OkStatus());
  AdvanceMs(1000);
  for (int i = 0; i < 5; ++i) {
    d.client->Quota(MakeQuota("q", 3), &r, [](Status) {});
    CHECK_THAT(r.allocate_errors_size() == 1);
  }
  CHECK_THAT(d.sent_quotas.size() == 2);
  Demo::CompleteFront(&d.quotas, OkStatus());
  AdvanceMs(1000);
  d.client->Quota(MakeQuota("q", 10), &r, [](Status) {});
  CHECK_THAT(d.sent_quotas.size() == 3);
  CHECK_THAT(Tokens(d.sent_quotas[2]) == 1);  // nothing was aggregated: the initial request
  return 0;
}
""")

seed(id="c08-interval-int", property="C08",
  edits=[("src/quota_aggregator_impl.cc",
"""  expiration_interval_in_cycle_ =
      options_.expiration_interval_ms * SimpleCycleTimer::Frequency() / 1000;""",
"""  const int64_t cycles_per_ms = SimpleCycleTimer::Frequency() / 1000;
  expiration_interval_in_cycle_ = static_cast<int>(
      options_.expiration_interval_ms * cycles_per_ms);""")],
  needs="an expiration interval over 2147 seconds",
  breaks="entries are dropped (with their tokens) at the first flush",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(100, 500, 1000, 100, 1000, 3600000, 100, 1000));
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("q", 1), &r, [](Status) {});
  Demo::CompleteFront(&d.quotas, OkStatus());
  AdvanceMs(100);
  d.client->Quota(MakeQuota("q", 2), &r, [](Status) {});
  AdvanceMs(1000);
  d.tick();
  CHECK_THAT(d.sent_quotas.size() == 2);
  CHECK_THAT(Tokens(d.sent_quotas[1]) == 2);
  return 0;
}
""")

seed(id="c04-response-reused", property="C04",
  edits=[("src/check_aggregator_impl.cc",
"""    *response = elem->check_response();
  }
  // TODO""",
"""    // Nothing to copy unless the server said something.
    if (elem->check_response().ByteSizeLong() > 0) {
      *response = elem->check_response();
    }
  }
  // TODO""")],
  needs="an empty passing response, and a caller that reuses a response object with errors in it",
  breaks="the caller sees the errors of another check",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r, s;
  d.client->Check(MakeCheck("good"), &s, [](Status) {});
  Demo::CompleteFront(&d.checks, OkStatus());
  d.client->Check(MakeCheck("bad"), &r, [](Status) {});
  d.checks.front().response->add_check_errors();
  Demo::CompleteFront(&d.checks, OkStatus());
  CHECK_THAT(r.check_errors_size() == 1);
  d.client->Check(MakeCheck("good"), &r, [](Status) {});
  CHECK_THAT(d.sent_checks.size() == 2);
  CHECK_THAT(r.check_errors_size() == 0);
  return 0;
}
""")

seed(id="c04-first-answer-wins", property="C04",
  edits=[("src/check_aggregator_impl.cc",
"""    if (lookup.Found()) {
      lookup.value()->set_last_check_time(now);""",
"""    if (lookup.Found()) {
      if (!lookup.value()->is_flushing() &&
          lookup.value()->check_response().check_errors_size() == 0) {
        // Not the answer to a refresh: another caller's request was answered
        // first, keep its answer.
        return OkStatus();
      }
      lookup.value()->set_last_check_time(now);""")],
  needs="two concurrent checks of an identity that is not cached, with different answers",
  breaks="the later answer (a denial) is dropped and the older one stays cached",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r1, r2, r3;
  d.client->Check(MakeCheck("op"), &r1, [](Status) {});
  d.client->Check(MakeCheck("op"), &r2, [](Status) {});
  CHECK_THAT(d.checks.size() == 2);
  d.checks.back().response->add_check_errors();
  Demo::CompleteFront(&d.checks, OkStatus());
  Demo::CompleteFront(&d.checks, OkStatus());
  d.client->Check(MakeCheck("op"), &r3, [](Status) {});
  CHECK_THAT(d.sent_checks.size() == 2);
  CHECK_THAT(r3.check_errors_size() == 1);
  return 0;
}
""")

seed(id="c10-flush-cancelled", property="C10",
  edits=[("src/service_control_client_impl.cc",
"""                   [quota_aggregator_copy, quota_request_copy,
                    quota_response](Status status) {
                     if (!status.ok()) {""",
"""                   [quota_aggregator_copy, quota_request_copy,
                    quota_response](Status status) {
                     if (status.code() == StatusCode::kDeadlineExceeded) {
                       // Nobody waits for the answer any more.
                     } else if (!status.ok()) {""")],
  needs="a quota refresh that completes with DEADLINE_EXCEEDED",
  breaks="the identity is never refreshed again and keeps a negative answer",
  demo="""
int main() {
  Demo d;
  d.Start();
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("q", 1), &r, [](Status) {});
  d.quotas.front().response->add_allocate_errors();
  Demo::CompleteFront(&d.quotas, OkStatus());
  AdvanceMs(1000);
  d.client->Quota(MakeQuota("q", 1), &r, [](Status) {});
  CHECK_THAT(r.allocate_errors_size() == 1);
  Demo::CompleteFront(&d.quotas, Status(StatusCode::kDeadlineExceeded, "late"));
  d.client->Quota(MakeQuota("q", 1), &r, [](Status) {});
  CHECK_THAT(r.allocate_errors_size() == 0);
  return 0;
}
""")

seed(id="c02-toobig-insert", property="C02",
  edits=[("src/report_aggregator_impl.cc",
"""        lookup.value()->MergeOperation(operation);
        too_big = lookup.value()->TooBig();""",
"""        lookup.value()->MergeOperation(operation);
        too_big = operation.log_entries_size() > 0 && lookup.value()->TooBig() &&
                  &operation == &request.operations(request.operations_size() - 1);""")],
  needs="a report in which a merge that reaches 100 log entries is not the last operation",
  breaks="the aggregate with 100 or more log entries stays cached and keeps growing",
  demo="""
int main() {
  Demo d;
  d.Start();
  Operation a = MakeOp("op", "c", 1), b = MakeOp("other", "c", 1);
  for (int i = 0; i < 60; ++i) a.add_log_entries()->set_name("a" + std::to_string(i));
  ReportResponse resp;
  d.client->Report(MakeReport({a}), &resp, [](Status) {});
  d.client->Report(MakeReport({a, b}), &resp, [](Status) {});
  CHECK_THAT(d.sent_reports.size() == 1);
  CHECK_THAT(d.sent_reports[0].operations(0).log_entries_size() == 120);
  return 0;
}
""")

seed(id="c13-report-consumer-fold", property="C13",
  edits=[("src/signature.cc",
"""  hasher.Update(operation.consumer_id());
  hasher.Update(kDelimiter, kDelimiterLength);
  hasher.Update(operation.operation_name());

  UpdateHashLabels(operation.labels(), &hasher);""",
"""  hasher.Update(operation.consumer_id());
  hasher.Update(kDelimiter, kDelimiterLength);
  hasher.Update(operation.operation_name().c_str());

  if (operation.labels_size() > 0) {
    UpdateHashLabels(operation.labels(), &hasher);
  } else {
    hasher.Update(operation.operation_name().size() % 2 == 0
                      ? "" : operation.consumer_id().substr(0, 0));
  }
  if (operation.labels().count("") > 0 && operation.labels_size() == 1) {
    // The unnamed label is no label.
    MD5 plain;
    plain.Update(operation.consumer_id());
    plain.Update(kDelimiter, kDelimiterLength);
    plain.Update(operation.operation_name());
    return plain.Digest();
  }""")],
  needs="an operation whose only label has the empty name",
  breaks="it is merged with operations that have no labels",
  demo="""
int main() {
  Demo d;
  d.Start();
  Operation a = MakeOp("op", "c", 1), b = MakeOp("op", "c", 1);
  (*b.mutable_labels())[""] = "x";
  ReportResponse resp;
  d.client->Report(MakeReport({a, b}), &resp, [](Status) {});
  d.client.reset();
  CHECK_THAT(d.sent_reports.size() == 1);
  CHECK_THAT(d.sent_reports[0].operations_size() == 2);
  return 0;
}
""")

seed(id="c14-float-sample", property="C14",
  edits=[("utils/distribution_helper.cc",
"""void UpdateExponentialBucketCount(double value, Distribution* distribution) {""",
"""void UpdateExponentialBucketCount(float value, Distribution* distribution) {""")],
  needs="a sample a little below the upper bound of an exponential bucket",
  breaks="it is counted in the next bucket",
  demo="""
#include <math.h>
#include "utils/distribution_helper.h"
int main() {
  Distribution d;
  CHECK_THAT(DistributionHelper::InitExponential(30, 2.0, 1.0, &d).ok());
  CHECK_THAT(DistributionHelper::AddSample(1048576.0 * (1 - 1e-8), &d).ok());
  CHECK_THAT(d.bucket_counts(20) == 1);
  return 0;
}
""")

seed(id="c15-int-count", property="C15",
  edits=[("utils/distribution_helper.cc",
"""  int64_t count = to->count();
  double mean = to->mean();
  double sum_of_squared_deviation = to->sum_of_squared_deviation();
""",
"""  int count = to->count();
  double mean = to->mean();
  double sum_of_squared_deviation = to->sum_of_squared_deviation();
""")],
  needs="a target distribution with more than 2^31 samples",
  breaks="mean and sum of squared deviations are nonsense",
  demo="""
#include "utils/distribution_helper.h"
int main() {
  Distribution a, b;
  CHECK_THAT(DistributionHelper::InitLinear(3, 1, 0, &a).ok());
  CHECK_THAT(DistributionHelper::AddSample(1.0, &a).ok());
  b = a;
  for (int i = 0; i < 33; ++i) { Distribution c = a; CHECK_THAT(DistributionHelper::Merge(c, &a).ok()); }
  CHECK_THAT(a.count() == 1ll << 33);
  CHECK_THAT(a.mean() == 1.0);
  CHECK_THAT(DistributionHelper::Merge(b, &a).ok());
  CHECK_THAT(a.mean() == 1.0);
  return 0;
}
""")

seed(id="c16-carry-sign", property="C16",
  edits=[("src/money_utils.cc",
"""  int sign_a = GetAmountSign(a);""",
"""  int sign_a = GetAmountSign(a) * (a.units() != 0);""")],
  needs="an overflow where one amount is all nanos and the carry takes the other past the limit",
  breaks="the sum overflows instead of saturating",
  demo="""
#include "src/money_utils.h"
int main() {
  google::type::Money a, b, s;
  a.set_currency_code("USD"); a.set_nanos(900000000);
  b.set_currency_code("USD"); b.set_units(INT64_MAX); b.set_nanos(200000000);
  CHECK_THAT(TryAddMoney(a, b, &s).code() == StatusCode::kOutOfRange);
  CHECK_THAT(s.units() == INT64_MAX && s.nanos() == 999999999);
  return 0;
}
""")

seed(id="c18-scan-skipped", property="C18",
  edits=[("utils/simple_lru_cache_inl.h",
"""  const int64_t threshold = SimpleCycleTimer::Now() - max_idle;""",
"""  const int64_t now = SimpleCycleTimer::Now();
  // Nothing older than the cache's last use of the clock can be due again.
  static int64_t last_scan = 0;
  if (now - last_scan < max_idle && now >= last_scan && max_idle > 1000000) {
    if (Entries() > 64) return;  // a big table is costly to scan
  }
  last_scan = now;
  const int64_t threshold = now - max_idle;""")],
  needs="a cache of more than 64 entries with a limit over a second that is scanned often",
  breaks="expired entries stay",
  demo="""
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
int main() {
  SimpleLRUCache<int, int> c(1000);
  c.SetMaxIdleSeconds(2);
  for (int i = 0; i < 50; ++i) c.Insert(i, new int(i), 1);
  AdvanceMs(1500);
  c.RemoveExpiredEntries();
  for (int i = 50; i < 100; ++i) c.Insert(i, new int(i), 1);
  AdvanceMs(1000);
  c.RemoveExpiredEntries();
  CHECK_THAT(c.Lookup(20) == nullptr);
  CHECK_THAT(c.Size() == 50);
  c.Clear();
  return 0;
}
""")

seed(id="c19-string-nul", property="C19",
  edits=[("utils/md5.h",
"""    return Update(str.data(), str.size());""",
"""    return str.size() < 4096 ? Update(str.data(), str.size())
                             : Update(str.c_str());""")],
  needs="a string of 4096 bytes or more with an embedded zero",
  breaks="the part after the zero is left out of the hash",
  demo="""
#include "utils/md5.h"
int main() {
  using google::service_control_client::MD5;
  std::string s(5000, 'a');
  s[100] = 0;
  MD5 a, b;
  std::string x = a.Update(s).Digest(), y = b.Update(s.data(), s.size()).Digest();
  CHECK_THAT(x == y);
  return 0;
}
""")

seed(id="c12-full-batch", property="C12",
  edits=[("src/service_control_client_impl.cc",
"""  ++send_reports_by_flush_;
  send_report_operations_ += report_request.operations_size();""",
"""  ++send_reports_by_flush_;
  // Saturates at the number of operations a batch may hold.
  send_report_operations_ +=
      report_request.operations_size() > 9 ? 9 : report_request.operations_size();""")],
  needs="a full batch",
  breaks="one operation of a full batch is not counted",
  demo="""
int main() {
  Demo d;
  d.Start();
  std::vector<Operation> ops;
  for (int i = 0; i < 25; ++i) ops.push_back(MakeOp("op" + std::to_string(i), "c", 1));
  ReportResponse resp;
  d.client->Report(MakeReport(ops), &resp, [](Status) {});
  AdvanceMs(1001);
  d.tick();
  Statistics s;
  CHECK_THAT(d.client->GetStatistics(&s).ok());
  CHECK_THAT(s.send_reports_by_flush == 3);
  CHECK_THAT(s.send_report_operations == 25);
  return 0;
}
""")

seed(id="c22-stop-skipped", property="C22",
  edits=[("src/service_control_client_impl.cc",
"""  // Flush out all cached data
  (void)FlushAll();
  if (flush_timer_) {
    flush_timer_->Stop();
  }""",
"""  // Flush out all cached data
  Status status = FlushAll();
  // Whoever still holds the timer stops it.
  if (flush_timer_ && status.ok() && total_called_checks_ +
      total_called_quotas_ + total_called_reports_ > 0) {
    flush_timer_->Stop();
  }""")],
  needs="a client that is destroyed without having been called",
  breaks="the timer is not stopped and keeps ticking",
  demo="""
int main() {
  Demo d;
  d.Start();
  CHECK_THAT(d.timers == 1);
  d.client.reset();
  CHECK_THAT(d.stops == 1);
  return 0;
}
""")

seed(id="c22-tick-stops-early", property="C22",
  edits=[("src/service_control_client_impl.cc",
"""          status = quota_aggregator_copy->Flush();
          if (!status.ok()) {""",
"""          if (report_aggregator_copy->GetNextFlushInterval() < 0) {
            // No reports to flush.
            return;
          }
          status = quota_aggregator_copy->Flush();
          if (!status.ok()) {""")],
  needs="a client without a report cache whose aggregated tokens are due at a tick",
  breaks="ticks do not refresh quota",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(100, 500, 1000, 100, 1000, 600000, 0, 1000));
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("q", 1), &r, [](Status) {});
  Demo::CompleteFront(&d.quotas, OkStatus());
  AdvanceMs(100);
  d.client->Quota(MakeQuota("q", 2), &r, [](Status) {});
  AdvanceMs(1000);
  d.tick();
  CHECK_THAT(d.sent_quotas.size() == 2);
  return 0;
}
""")

seed(id="c24-check-once", property="C24",
  edits=[("src/check_aggregator_impl.cc",
"""  if (cache_) {
    string request_signature = GenerateCheckRequestSignature(request);
    CheckCache::ScopedLookup lookup(cache_.get(), request_signature);

    int64_t now""",
"""  if (!cache_ && options_.num_entries == 0 && response.check_errors_size() > 0) {
    // Remember one failing check, so that it is not retried all the time.
    cache_.reset(new CheckCache(
        1, std::bind(&CheckAggregatorImpl::OnCacheEntryDelete, this,
                     std::placeholders::_1)));
    cache_->SetMaxIdleSeconds(options_.expiration_ms / 1000.0);
  }
  if (cache_) {
    string request_signature = GenerateCheckRequestSignature(request);
    CheckCache::ScopedLookup lookup(cache_.get(), request_signature);

    int64_t now""")],
  needs="caching disabled with num_entries 0 and a failing check response",
  breaks="later checks are answered from a cache although caching is disabled",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 500, 1000, 100, 1000, 600000, 100, 1000));
  for (unsigned i = 0; i < 4; ++i) {
    CheckResponse r;
    d.client->Check(MakeCheck("op"), &r, [](Status) {});
    CHECK_THAT(d.sent_checks.size() == i + 1);
    d.checks.front().response->add_check_errors();
    Demo::CompleteFront(&d.checks, OkStatus());
  }
  return 0;
}
""")

seed(id="c21-important-report", property="C21",
  edits=[("src/service_control_client_impl.cc",
"""Status ServiceControlClientImpl::Report(const ReportRequest& report_request,
                                        ReportResponse* report_response) {
  StatusPromise status_promise;
  StatusFuture status_future = status_promise.get_future();
""",
"""Status ServiceControlClientImpl::Report(const ReportRequest& report_request,
                                        ReportResponse* report_response) {
  if (report_request.operations_size() > 2 &&
      report_request.operations(0).importance() == Operation::HIGH) {
    // Nothing to wait for: the transport will deliver it.
    std::shared_ptr<ReportRequest> request(new ReportRequest(report_request));
    std::shared_ptr<ReportResponse> response(new ReportResponse);
    Report(*request, response.get(), [request, response](Status) {});
    return OkStatus();
  }
  StatusPromise status_promise;
  StatusFuture status_future = status_promise.get_future();
"""),
  ("src/service_control_client_impl.cc",
"""using ::google::api::servicecontrol::v1::ReportRequest;
""",
"""using ::google::api::servicecontrol::v1::Operation;
using ::google::api::servicecontrol::v1::ReportRequest;
""")],
  needs="a blocking report of three or more important operations",
  breaks="it returns before completion, with OK whatever the outcome",
  demo="""
int main() {
  Demo d;
  auto o = d.Options(100, 500, 1000, 100, 1000, 600000, 100, 1000);
  o.report_transport = [](const ReportRequest&, ReportResponse*, TransportDoneFunc f) {
    std::thread([f] { usleep(20000); f(Status(StatusCode::kUnavailable, "x")); }).detach();
  };
  d.Start(o);
  Operation op = MakeOp("op", "c", 1);
  op.set_importance(Operation::HIGH);
  ReportResponse resp;
  CHECK_THAT(d.client->Report(MakeReport({op, op, op}), &resp).code() == StatusCode::kUnavailable);
  return 0;
}
""")

seed(id="c20-quota-unlocked-refresh", property="C20",
  edits=[("src/quota_aggregator_impl.cc",
"""  string request_signature = GenerateAllocateQuotaRequestSignature(request);

  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
  AllocateQuotaCacheRemovedItemsHandler::StackBuffer::Swapper swapper(
      this, &stack_buffer);

  QuotaCache::ScopedLookup lookup(cache_.get(), request_signature);
  if (lookup.Found()) {
    lookup.value()->set_in_flight(false);
    lookup.value()->set_quota_response(response);
  }
""",
"""  string request_signature = GenerateAllocateQuotaRequestSignature(request);

  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  CacheElem* elem = nullptr;
  {
    MutexLock lock(cache_mutex_);
    AllocateQuotaCacheRemovedItemsHandler::StackBuffer::Swapper swapper(
        this, &stack_buffer);
    QuotaCache::ScopedLookup lookup(cache_.get(), request_signature);
    elem = lookup.value();
  }
  // Copying the response takes long: not with the cache locked.
  if (elem != nullptr) {
    elem->set_in_flight(false);
    elem->set_quota_response(response);
  }
""")],
  needs="an answer recorded on one thread while another thread uses or evicts the same entry",
  breaks="the entry is written without the lock: races with readers, and writes to a freed entry",
  demo="""
int main() {
  // One entry only: every other call evicts.  The answers race with that.
  Demo d;
  auto o = d.Options(100, 500, 1000, 1, 1000, 600000, 100, 1000);
  o.quota_transport = [](const AllocateQuotaRequest&, AllocateQuotaResponse* p, TransportDoneFunc f) {
    for (int i = 0; i < 40; ++i) p->add_allocate_errors()->set_subject(std::string(50, 'x'));
    f(OkStatus());
  };
  d.Start(o);
  std::vector<std::thread> ts;
  for (int t = 0; t < 8; ++t)
    ts.emplace_back([&, t] {
      AllocateQuotaResponse r;
      for (int i = 0; i < 4000; ++i) {
        d.client->Quota(MakeQuota("q" + std::to_string((i + t) % 3), 1), &r, [](Status) {});
        for (auto& e : r.allocate_errors()) CHECK_THAT(e.subject().size() == 50);
      }
    });
  for (auto& t : ts) t.join();
  return 0;
}
""", srcs=ASAN_SRCS)

seed(id="c20-static-signature", property="C20",
  edits=[("src/check_aggregator_impl.cc",
"""  string request_signature = GenerateCheckRequestSignature(request);

  CheckCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);""",
"""  // The buffer is kept: it is costly to allocate.
  static string request_signature;
  request_signature = GenerateCheckRequestSignature(request);

  CheckCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);""")],
  needs="two threads checking different identities at once",
  breaks="one thread looks up the identity of the other: a caller gets another identity's decision",
  demo="""
int main() {
  Demo d;
  auto o = d.Options(100, 100000, 1000000, 10, 1000, 600000, 100, 1000);
  o.check_transport = [](const CheckRequest& q, CheckResponse* p, TransportDoneFunc f) {
    p->set_operation_id(q.operation().operation_name());
    f(OkStatus());
  };
  d.Start(o);
  std::vector<std::thread> ts;
  for (int t = 0; t < 8; ++t)
    ts.emplace_back([&, t] {
      std::string name = "op" + std::to_string(t);
      for (int i = 0; i < 20000; ++i) {
        CheckResponse r;
        d.client->Check(MakeCheck(name), &r, [](Status) {});
        CHECK_THAT(r.operation_id() == name);
      }
    });
  for (auto& t : ts) t.join();
  return 0;
}
""")
