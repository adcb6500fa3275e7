SEEDS = []
def seed(**k):
    SEEDS.append(k)

# Counts the blocks in use; a scenario that was run before must not add any.
MEM = r"""
#include <new>
static std::atomic<long> g_live{0};
void* operator new(size_t n) { ++g_live; return malloc(n); }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --g_live; free(p); } }
template <class F>
static void Steady(F f) {
  f(); f();
  long before = g_live;
  for (int i = 0; i < 10; ++i) f();
  printf("blocks: %ld -> %ld\n", before, g_live.load());
  CHECK_THAT(g_live == before);
}
"""

seed(id="c26-check-failed", property="C26",
  edits=[("src/service_control_client_impl.cc",
"""                      if (status.ok()) {
                        (void)check_aggregator_copy->CacheResponse(
                            *check_request_copy, *check_response);
                      } else {
                        GOOGLE_LOG(ERROR) << "Failed in Check call: "
                                          << status.message();
                      }
                      delete check_request_copy;
""",
"""                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in Check call: "
                                          << status.message();
                        on_check_done(status);
                        return;
                      }
                      (void)check_aggregator_copy->CacheResponse(
                          *check_request_copy, *check_response);
                      delete check_request_copy;
""")],
  needs="a check whose transport fails",
  breaks="the copy of the request of every failed check stays allocated",
  demo=MEM + r"""
int main() {
  Steady([] {
    Demo d;
    d.Start();
    CheckResponse r;
    d.client->Check(MakeCheck("op"), &r, [](Status) {});
    Demo::CompleteFront(&d.checks, Status(StatusCode::kUnavailable, "down"));
    d.client.reset();
  });
  return 0;
}
""")

seed(id="c26-quota-evicted", property="C26",
  edits=[("src/quota_aggregator_impl.cc",
"""      if (elem->is_aggregated()) {
        AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
            service_name_, service_config_id_));
      }
      delete elem;
      return;""",
"""      if (!elem->is_aggregated()) {
        delete elem;
        return;
      }
      AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
          service_name_, service_config_id_));
      return;""")],
  needs="a quota entry with pending tokens evicted by cache pressure",
  breaks="the evicted entry is never freed",
  demo=MEM + r"""
int main() {
  Steady([] {
    Demo d;
    d.Start(d.Options(0, 0, 0, 1, 1000, 600000, 0, 0));
    AllocateQuotaResponse r;
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    d.client->Quota(MakeQuota("b"), &r, [](Status) {});
    while (Demo::CompleteFront(&d.quotas, OkStatus())) {}
    d.client.reset();
    while (Demo::CompleteFront(&d.quotas, OkStatus())) {}
  });
  return 0;
}
""")

seed(id="c26-quota-late", property="C26",
  edits=[("src/service_control_client_impl.cc",
"""                   [quota_aggregator_copy, quota_request_copy,
                    quota_response](Status status) {
                     if (!status.ok()) {""",
"""                   [quota_aggregator_copy, quota_request_copy,
                    quota_response](Status status) {
                     if (quota_aggregator_copy.use_count() == 1) {
                       // The client is gone: nobody needs the answer.
                       delete quota_request_copy;
                       return;
                     }
                     if (!status.ok()) {""")],
  needs="a quota refresh that is the last one completed after the client was destroyed",
  breaks="the response of that refresh is never freed",
  demo=MEM + r"""
int main() {
  Steady([] {
    Demo d;
    d.Start();
    AllocateQuotaResponse r;
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    d.client.reset();
    d.tick = nullptr;
    auto c = std::move(d.quotas.front());
    d.quotas.pop_front();
    c.done(OkStatus());
  });
  return 0;
}
""")

seed(id="c26-cycle", property="C26",
  edits=[("src/service_control_client_impl.cc",
"""  quota_aggregator_->SetFlushCallback(
      std::bind(&ServiceControlClientImpl::AllocateQuotaFlushCallback, this,
                std::placeholders::_1));
""",
"""  // A flush may be running when this object goes away: it keeps the cache.
  std::shared_ptr<QuotaAggregator> keep = quota_aggregator_;
  quota_aggregator_->SetFlushCallback(
      [this, keep](const AllocateQuotaRequest& request) {
        AllocateQuotaFlushCallback(request);
      });
"""),("src/service_control_client_impl.cc",
"""  check_aggregator_->SetFlushCallback(NULL);
  quota_aggregator_->SetFlushCallback(NULL);
  report_aggregator_->SetFlushCallback(NULL);
""",
"""  check_aggregator_->SetFlushCallback(NULL);
  if (flush_timer_) quota_aggregator_->SetFlushCallback(NULL);
  report_aggregator_->SetFlushCallback(NULL);
""")],
  needs="a client without a timer",
  breaks="the quota cache and its flush callback keep each other alive",
  demo=MEM + r"""
int main() {
  Steady([] {
    Demo d;
    auto o = d.Options(100, 500, 1000, 100, 1000, 600000, 100, 1000);
    o.periodic_timer = nullptr;
    d.Start(o);
    AllocateQuotaResponse r;
    d.client->Quota(MakeQuota("a"), &r, [](Status) {});
    while (Demo::CompleteFront(&d.quotas, OkStatus())) {}
    d.client.reset();
  });
  return 0;
}
""")

seed(id="c26-recycled", property="C26",
  edits=[("src/service_control_client_impl.h",
"""  std::string service_name_;
""",
"""  // Responses of flushed reports, to be used again.
  std::vector<
      std::unique_ptr<::google::api::servicecontrol::v1::ReportResponse>>
      free_responses_;
  std::string service_name_;
"""),("src/service_control_client_impl.cc",
"""  ReportResponse* report_response = new ReportResponse;
""",
"""  ReportResponse* report_response = new ReportResponse;
  free_responses_.emplace_back(report_response);
"""),("src/service_control_client_impl.cc",
"""                    [report_response](Status status) {
                      delete report_response;
""",
"""                    [](Status status) {
""")],
  needs="a long-lived client that flushes reports again and again",
  breaks="one response object more is kept for every flush until the client is destroyed (and a late completion uses a freed one)",
  demo=MEM + r"""
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 0, 0, 0, 10, 1000));
  Steady([&] {
    ReportResponse r;
    d.client->Report(MakeReport({MakeOp("op", "c", 1)}), &r, [](Status) {});
    AdvanceMs(1500);
    d.tick();
    while (Demo::CompleteFront(&d.reports, OkStatus())) {}
    std::vector<ReportRequest>().swap(d.sent_reports);
    std::deque<Demo::Call<ReportRequest, ReportResponse>>().swap(d.reports);
  });
  return 0;
}
""")

seed(id="c03-log-dedupe", property="C03",
  edits=[("src/operation_aggregator.cc",
"""  for (const auto& entry : operation.log_entries()) {
""",
"""  for (const auto& entry : operation.log_entries()) {
    if (operation_.log_entries_size() > 0 && !entry.insert_id().empty() &&
        entry.insert_id() ==
            operation_.log_entries(operation_.log_entries_size() - 1)
                .insert_id()) {
      continue;  // Written twice.
    }
""")],
  needs="two consecutive log entries with the same insert id",
  breaks="the second entry is dropped",
  demo="""
#include "src/operation_aggregator.h"
int main() {
  OperationAggregator a(MakeOp("op", "c", 1), nullptr);
  for (int i = 0; i < 2; ++i) {
    auto op = MakeOp("op", "c", 1);
    auto* e = op.add_log_entries();
    e->set_insert_id("x");
    e->set_text_payload(i ? "one" : "two");
    a.MergeOperation(op);
  }
  CHECK_THAT(a.ToOperationProto().log_entries_size() == 2);
  return 0;
}
""")

seed(id="c04-soft-errors", property="C04",
  edits=[("src/check_aggregator_impl.cc",
"""  if (elem->check_response().check_errors_size() > 0) {
    if (ShouldFlush(*elem)) {""",
"""  int errors = elem->check_response().check_errors_size();
  for (const auto& error : elem->check_response().check_errors()) {
    // Lookup failures are not the caller's fault: the check passes.
    if (error.code() >= 300) --errors;
  }
  if (errors > 0) {
    if (ShouldFlush(*elem)) {""")],
  needs="a cached response with only lookup failures (300 and up), followed by more checks and a flush",
  breaks="checks under a failing response are taken for admitted ones and their usage is flushed",
  demo="""
#include "google/api/servicecontrol/v1/check_error.pb.h"
int main() {
  auto a = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(10, 1000, 3000), nullptr);
  std::vector<CheckRequest> flushed;
  a->SetFlushCallback([&](const CheckRequest& r) { flushed.push_back(r); });
  CheckResponse r, bad;
  CHECK_THAT(a->Check(MakeCheck("op"), &r).code() == StatusCode::kNotFound);
  bad.add_check_errors()->set_code(google::api::servicecontrol::v1::CheckError::BILLING_STATUS_UNAVAILABLE);
  a->CacheResponse(MakeCheck("op"), bad);
  for (int i = 0; i < 3; ++i) { CHECK_THAT(a->Check(MakeCheck("op"), &r).ok()); CHECK_THAT(r.check_errors_size() == 1); }
  a->FlushAll();
  CHECK_THAT(flushed.empty());
  return 0;
}
""")

seed(id="c13-label-case", property="C13",
  edits=[("src/signature.cc",
"""    hasher->Update(label.first);
""",
"""    // Label names are not case sensitive.
    string name = label.first;
    for (char& c : name) {
      if (c >= 'A' && c <= 'Z') c += 'a' - 'A';
    }
    hasher->Update(name);
""")],
  needs="two operations whose labels differ only in the case of a label name",
  breaks="they share a cache entry",
  demo="""
int main() {
  Demo d;
  d.Start();
  auto a = MakeCheck("op"), b = MakeCheck("op");
  (*a.mutable_operation()->mutable_labels())["Zone"] = "x";
  (*b.mutable_operation()->mutable_labels())["zone"] = "x";
  CheckResponse r;
  d.client->Check(a, &r, [](Status) {});
  while (Demo::CompleteFront(&d.checks, OkStatus())) {}
  d.client->Check(b, &r, [](Status) {});
  CHECK_THAT(d.sent_checks.size() == 2);
  while (Demo::CompleteFront(&d.checks, OkStatus())) {}
  d.client.reset();
  return 0;
}
""")

seed(id="c10-quota-exhausted", property="C10",
  edits=[("src/service_control_client_impl.cc",
"""                     if (!status.ok()) {
                       GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: \"""",
"""                     if (status.code() == StatusCode::kResourceExhausted) {
                       // The server did answer: use what it said.
                       (void)quota_aggregator_copy->CacheResponse(
                           *quota_request_copy, *quota_response);
                     } else if (!status.ok()) {
                       GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: \"""")],
  needs="a quota refresh that fails with RESOURCE_EXHAUSTED and a response with errors",
  breaks="the identity does not fail open",
  demo="""
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 10, 1000, 600000, 0, 0));
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("m"), &r, [](Status) {});
  CHECK_THAT(d.quotas.size() == 1);
  d.quotas[0].response->add_allocate_errors()->set_code(google::api::servicecontrol::v1::QuotaError::RESOURCE_EXHAUSTED);
  Demo::CompleteFront(&d.quotas, Status(StatusCode::kResourceExhausted, "busy"));
  AllocateQuotaResponse r2;
  d.client->Quota(MakeQuota("m"), &r2, [](Status) {});
  CHECK_THAT(r2.allocate_errors_size() == 0);
  d.client.reset();
  while (Demo::CompleteFront(&d.quotas, OkStatus())) {}
  return 0;
}
""")

seed(id="c27-header-once", property="C27",
  edits=[("src/report_aggregator_impl.cc",
"""  ReportRequest request;
  request.set_service_name(service_name_);
  request.set_service_config_id(service_config_id_);
  // TODO(qiwzhang)""",
"""  // The header is always the same: it is built only once.
  static const ReportRequest* header = [this]() {
    ReportRequest* request = new ReportRequest;
    request->set_service_name(service_name_);
    request->set_service_config_id(service_config_id_);
    return request;
  }();
  ReportRequest request(*header);
  // TODO(qiwzhang)""")],
  needs="two clients with different service config ids that both flush reports",
  breaks="reports of the second client are sent under the first one's config id",
  demo="""
int main() {
  Demo a, b;
  auto oa = a.Options(0, 0, 0, 0, 0, 0, 10, 1000), ob = b.Options(0, 0, 0, 0, 0, 0, 10, 1000);
  a.in_place = b.in_place = true;
  a.client = CreateServiceControlClient(kService, "2026-01", oa);
  b.client = CreateServiceControlClient(kService, "2026-02", ob);
  ReportResponse r;
  a.client->Report(MakeReport({MakeOp("op", "c", 1)}), &r, [](Status) {});
  b.client->Report(MakeReport({MakeOp("op", "c", 2)}), &r, [](Status) {});
  a.client.reset();
  b.client.reset();
  CHECK_THAT(a.sent_reports.size() == 1 && a.sent_reports[0].service_config_id() == "2026-01");
  CHECK_THAT(b.sent_reports.size() == 1 && b.sent_reports[0].service_config_id() == "2026-02");
  return 0;
}
""")

seed(id="c27-refresh-once", property="C27",
  edits=[("src/quota_aggregator_impl.cc",
"""  int64_t age = SimpleCycleTimer::Now() - elem.last_refresh_time();
  return age >= refresh_interval_in_cycle_;""",
"""  static const int64_t interval_in_cycle = refresh_interval_in_cycle_;
  int64_t age = SimpleCycleTimer::Now() - elem.last_refresh_time();
  return age >= interval_in_cycle;""")],
  needs="two clients with different quota refresh intervals",
  breaks="the interval of the client whose quota was looked up first applies to the other one",
  demo="""
int main() {
  Demo a, b;
  a.in_place = b.in_place = true;
  a.Start(a.Options(0, 0, 0, 10, 1000, 600000, 0, 0));
  b.Start(b.Options(0, 0, 0, 10, 60000, 600000, 0, 0));
  AllocateQuotaResponse r;
  for (int i = 0; i < 2; ++i) {
    a.client->Quota(MakeQuota("m"), &r, [](Status) {});
    b.client->Quota(MakeQuota("m"), &r, [](Status) {});
  }
  AdvanceMs(2000);
  b.client->Quota(MakeQuota("m"), &r, [](Status) {});
  CHECK_THAT(b.sent_quotas.size() == 1);
  CHECK_THAT(a.sent_quotas.size() == 1);
  a.client.reset();
  b.client.reset();
  return 0;
}
""")

seed(id="c27-kinds-shared", property="C27",
  edits=[("src/report_aggregator_impl.cc",
"""      options_(options),
      metric_kinds_(metric_kinds) {
""",
"""      options_(options) {
  // The metric kinds are those of the service: loaded only once.
  static std::weak_ptr<MetricKindMap> loaded;
  metric_kinds_ = loaded.lock();
  if (!metric_kinds_) {
    metric_kinds_ = metric_kinds;
    loaded = metric_kinds;
  }
""")],
  needs="a client created while another one with other metric kinds is alive",
  breaks="its usage is merged by the other client's metric kinds",
  demo="""
static int64_t Merged(Demo* d) {
  ReportResponse r;
  for (int64_t v : {3, 4}) {
    Operation op = MakeOp("op", "c", v);
    auto* m = op.mutable_metric_value_sets(0)->mutable_metric_values(0);
    m->mutable_end_time()->set_seconds(100 + v);
    d->client->Report(MakeReport({op}), &r, [](Status) {});
  }
  d->client.reset();
  return d->sent_reports.size() == 1 && d->sent_reports[0].operations_size() == 1 ? Usage(d->sent_reports[0].operations(0)) : -1;
}
int main() {
  Demo a, b;
  a.in_place = b.in_place = true;
  auto oa = a.Options(0, 0, 0, 0, 0, 0, 10, 1000), ob = b.Options(0, 0, 0, 0, 0, 0, 10, 1000);
  oa.metric_kinds = std::make_shared<MetricKindMap>();
  (*oa.metric_kinds)["m"] = MetricDescriptor::DELTA;
  ob.metric_kinds = std::make_shared<MetricKindMap>();
  (*ob.metric_kinds)["m"] = MetricDescriptor::GAUGE;
  a.Start(oa);
  b.Start(ob);
  CHECK_THAT(Merged(&b) == 4);
  CHECK_THAT(Merged(&a) == 7);
  return 0;
}
""")

seed(id="c27-spread-flush", property="C27",
  edits=[("src/check_aggregator_impl.cc",
"""  CheckCacheRemovedItemsHandler::StackBuffer::Swapper swapper(this,
                                                              &stack_buffer);
  if (cache_) {
    cache_->RemoveExpiredEntries();
  }
""",
"""  CheckCacheRemovedItemsHandler::StackBuffer::Swapper swapper(this,
                                                              &stack_buffer);
  // Spreads the load: only one aggregator is flushed at a time.
  static std::atomic<const void*> last_flushed(nullptr);
  static std::atomic<int64_t> last_flush_time(0);
  const int64_t now = SimpleCycleTimer::Now();
  if (last_flushed != this && now - last_flush_time < 1000) {
    return OkStatus();
  }
  last_flushed = this;
  last_flush_time = now;
  if (cache_) {
    cache_->RemoveExpiredEntries();
  }
"""),("src/check_aggregator_impl.cc",
"""#include "src/signature.h"
""",
"""#include "src/signature.h"

#include <atomic>
""")],
  needs="the timers of two clients firing within the same millisecond",
  breaks="the second client's expired checks are not flushed by that tick",
  demo="""
int main() {
  Demo a, b;
  a.in_place = b.in_place = true;
  for (Demo* d : {&a, &b}) {
    d->Start(d->Options(10, 500, 1000, 0, 0, 0, 0, 0));
    CheckResponse r;
    for (int i = 0; i < 2; ++i) d->client->Check(MakeCheck("op"), &r, [](Status) {});
    CHECK_THAT(d->sent_checks.size() == 1);
  }
  AdvanceMs(1500);
  a.tick();
  b.tick();
  CHECK_THAT(a.sent_checks.size() == 2);
  CHECK_THAT(b.sent_checks.size() == 2);
  a.client.reset();
  b.client.reset();
  return 0;
}
""")

seed(id="c27-scratch", property="C27",
  edits=[("src/check_aggregator_impl.cc",
"""  CheckRequest request;
  request = elem->ReturnCheckRequestAndClear(service_name_, service_config_id_);
  AddRemovedItem(request);
""",
"""  // Only used while the cache is locked.
  static CheckRequest request;
  request = elem->ReturnCheckRequestAndClear(service_name_, service_config_id_);
  AddRemovedItem(request);
""")],
  needs="two clients in two threads that remove check entries with pending usage at the same time",
  breaks="a request of one is sent by the other, or memory is corrupted",
  demo="""
static void Main(const std::string& config, bool* ok) {
  auto a = CreateCheckAggregator(kService, config, CheckAggregationOptions(1, 1000000, 3000000), nullptr);
  int64_t want = 0, got = 0;
  a->SetFlushCallback([&](const CheckRequest& r) {
    if (r.service_config_id() != config) *ok = false;
    got += Usage(r.operation());
  });
  CheckResponse none;
  for (int i = 0; i < 60000; ++i) {
    CheckResponse r;
    CheckRequest q = MakeCheck("op" + config, i % 7 + 1);
    a->CacheResponse(q, none);
    if (a->Check(q, &r).ok()) want += i % 7 + 1;
    a->FlushAll();
  }
  if (want != got || want == 0) *ok = false;
}
int main() {
  bool ok1 = true, ok2 = true;
  std::thread t1(Main, "first", &ok1), t2(Main, "the second configuration", &ok2);
  t1.join();
  t2.join();
  CHECK_THAT(ok1 && ok2);
  return 0;
}
""")

seed(id="c27-flush-all", property="C27",
  edits=[("src/quota_aggregator_impl.cc",
"""  in_flush_all_ = true;

  if (cache_) {
    cache_->RemoveAll();
  }

  in_flush_all_ = false;
""",
"""  InFlushAll() = true;

  if (cache_) {
    cache_->RemoveAll();
  }

  InFlushAll() = false;
"""),("src/quota_aggregator_impl.cc",
"""  if (in_flush_all_ == false && ShouldDrop""",
"""  if (InFlushAll() == false && ShouldDrop"""),
("src/quota_aggregator_impl.cc",
"""      options_(options),
      in_flush_all_(false) {
""",
"""      options_(options) {
"""),
("src/quota_aggregator_impl.cc",
"""// OnCacheEntryDelete will be called behind the cache_mutex_
""",
"""std::atomic<bool>& QuotaAggregatorImpl::InFlushAll() {
  static std::atomic<bool> in_flush_all(false);
  return in_flush_all;
}

// OnCacheEntryDelete will be called behind the cache_mutex_
"""),
("src/quota_aggregator_impl.h",
"""  bool in_flush_all_;
""",
"""  // Set while everything is flushed out.
  static std::atomic<bool>& InFlushAll();
"""),
("src/quota_aggregator_impl.h",
"""#include <string>
""",
"""#include <atomic>
#include <string>
""")],
  needs="one client being destroyed in a thread while another one's quota entry comes due",
  breaks="the other client's entry is dropped together with its aggregated tokens",
  demo="""
int main() {
  std::atomic<bool> stop{false};
  std::thread t([&] {
    AllocateQuotaResponse r;
    while (!stop) {
      auto b = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(1000, 1000000, 2000000));
      b->SetFlushCallback([](const AllocateQuotaRequest&) {});
      for (int i = 0; i < 20; ++i) b->Quota(MakeQuota("m" + std::to_string(i)), &r);
    }
  });
  auto a = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(10, 1, 1000000000));
  std::vector<AllocateQuotaRequest> sent;
  a->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  AllocateQuotaResponse r, none;
  int initial = 0;   // requests that are not aggregated: only at first
  for (int i = 0; i < 60000; ++i) {
    auto answer = [&] {
      auto now = sent;
      sent.clear();
      for (auto& q : now) { initial += q.service_config_id().empty(); a->CacheResponse(q, none); }
    };
    a->Quota(MakeQuota("m", 1), &r);
    answer();
    AdvanceMs(2);
    a->Flush();
    answer();
  }
  stop = true;
  t.join();
  printf("%d initial requests\\n", initial);
  CHECK_THAT(initial <= 2);
  return 0;
}
""")

seed(id="c28-unsigned-age", property="C28",
  edits=[("src/check_aggregator_impl.cc",
"""  int64_t age = SimpleCycleTimer::Now() - elem.last_check_time();
""",
"""  const uint64_t age = SimpleCycleTimer::Now() - elem.last_check_time();
"""),("src/check_aggregator_impl.cc",
"""  return age >= flush_interval_in_cycle_;
""",
"""  return age >= static_cast<uint64_t>(flush_interval_in_cycle_);
""")],
  needs="the clock set back after a check response was cached",
  breaks="the cached response counts as infinitely old and the next check is sent at once",
  demo="""
int main() {
  Demo d;
  d.in_place = true;
  d.Start(d.Options(10, 1000, 5000, 0, 0, 0, 0, 0));
  CheckResponse r;
  d.client->Check(MakeCheck("op"), &r, [](Status) {});
  AdvanceMs(-20);
  for (int i = 0; i < 5; ++i) { d.client->Check(MakeCheck("op"), &r, [](Status) {}); AdvanceMs(-1); }
  CHECK_THAT(d.sent_checks.size() == 1);
  d.client.reset();
  return 0;
}
""")

seed(id="c28-clock-lost", property="C28",
  edits=[("src/quota_aggregator_impl.cc",
"""  int64_t age = SimpleCycleTimer::Now() - elem.last_refresh_time();
  return age >= refresh_interval_in_cycle_;""",
"""  int64_t age = SimpleCycleTimer::Now() - elem.last_refresh_time();
  // Refreshes also if the clock was set back: the age is not known.
  return age < 0 || age >= refresh_interval_in_cycle_;""")],
  needs="several steps back within one refresh interval, each followed by a quota call",
  breaks="every step causes a refresh on top of the one per interval",
  demo="""
int main() {
  Demo d;
  d.in_place = true;
  d.Start(d.Options(0, 0, 0, 10, 60000, 600000, 0, 0));
  AllocateQuotaResponse r;
  for (int i = 0; i < 20; ++i) { d.client->Quota(MakeQuota("m"), &r, [](Status) {}); AdvanceMs(-5); }
  CHECK_THAT(d.sent_quotas.size() == 1);
  d.client.reset();
  return 0;
}
""")

seed(id="c28-stale-future", property="C28",
  edits=[("src/check_aggregator_impl.cc",
"""  CacheElem* elem = lookup.value();
""",
"""  CacheElem* elem = lookup.value();
  if (elem->last_check_time() > SimpleCycleTimer::Now()) {
    // The clock was set back: the element can't be trusted any more.
    elem->ReturnCheckRequestAndClear(service_name_, service_config_id_);
    elem->set_last_check_time(SimpleCycleTimer::Now());
    return Status(StatusCode::kNotFound, "");
  }
""")],
  needs="the clock set back while a check entry has pending usage, and another check",
  breaks="the pending usage is lost",
  demo="""
int main() {
  Demo d;
  d.in_place = true;
  d.Start(d.Options(10, 1000, 5000, 0, 0, 0, 0, 0));
  CheckResponse r;
  for (int i = 0; i < 4; ++i) d.client->Check(MakeCheck("op"), &r, [](Status) {});
  AdvanceMs(-20);
  d.client->Check(MakeCheck("op"), &r, [](Status) {});
  d.client.reset();
  int64_t usage = 0;
  for (auto& q : d.sent_checks) usage += Usage(q.operation());
  CHECK_THAT(usage == 5);
  return 0;
}
""")

seed(id="c06-capped-capacity", property="C06",
  edits=[("src/quota_aggregator_impl.cc",
"""        options.num_entries, std::bind""",
"""        // An entry holds a request and a response: bounds the memory in use.
        std::min(options.num_entries, 1024), std::bind""")],
  needs="a cache of more than 1024 entries in use at once",
  breaks="answered metrics lose their entry early: a call gets an optimistic answer instead of the last one",
  demo="""
int main() {
  auto a = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(2000, 60000, 600000));
  a->SetFlushCallback([](const AllocateQuotaRequest&) {});
  AllocateQuotaResponse r, refused;
  refused.add_allocate_errors()->set_subject("refused");
  for (int i = 0; i < 1500; ++i) {
    auto q = MakeQuota("m" + std::to_string(i));
    CHECK_THAT(a->Quota(q, &r).ok());
    a->CacheResponse(q, refused);
  }
  for (int i = 0; i < 1500; ++i) {
    CHECK_THAT(a->Quota(MakeQuota("m" + std::to_string(i)), &r).ok());
    CHECK_THAT(r.allocate_errors_size() == 1);
  }
  return 0;
}
""")

seed(id="c02-flush-budget", property="C02",
  edits=[("utils/simple_lru_cache_inl.h",
"""  Elem* e = head_.prev;
  const int64_t threshold""",
"""  Elem* e = head_.prev;
  // The caller holds a lock: removes only so many entries at a time.
  int budget = 999;
  const int64_t threshold"""),
("utils/simple_lru_cache_inl.h",
"""    Remove(e->key);
    e = prev;
  }
}""",
"""    Remove(e->key);
    e = budget-- > 0 ? prev : &head_;
  }
}""")],
  needs="more than 1000 entries past the flush interval at one Flush",
  breaks="the rest stays cached until a later Flush",
  demo="""
int main() {
  auto a = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(5000, 1000), nullptr);
  int flushed = 0;
  a->SetFlushCallback([&](const ReportRequest& r) { flushed += r.operations_size(); });
  for (int i = 0; i < 3000; ++i) CHECK_THAT(a->Report(MakeReport({MakeOp("op" + std::to_string(i), "c", 1)})).ok());
  CHECK_THAT(flushed == 0);
  AdvanceMs(5000);
  CHECK_THAT(a->Flush().ok());
  CHECK_THAT(flushed == 3000);
  return 0;
}
""")
