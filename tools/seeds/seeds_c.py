LIB = "src/service_control_client_impl.cc src/check_aggregator_impl.cc src/quota_aggregator_impl.cc src/report_aggregator_impl.cc src/operation_aggregator.cc src/quota_operation_aggregator.cc src/signature.cc src/money_utils.cc utils/md5.cc utils/distribution_helper.cc"
ASAN_SRCS = "-fsanitize=address " + LIB
TSAN_SRCS = "-fsanitize=thread $(find _build/googleapis -name *.pb.cc) " + LIB
SEEDS = []
def seed(**k):
    SEEDS.append(k)

# ---- C25: fake curl functions defined by the demonstration
CURL = r"""
#include <curl/curl.h>
#include <condition_variable>
#include <mutex>
#include <stdarg.h>
#include "sample/transport/http_transport.h"
#include "google/api/servicecontrol/v1/check_error.pb.h"
struct Fake {
  size_t (*write)(void*, size_t, size_t, void*) = nullptr;
  void* data = nullptr;
  std::string post; const char* postp = nullptr; long long postn = -1; std::string url;
  long fail = 0;
};
struct Reply { bool fail = false; long code = 200; std::string body; size_t chunk = 1000000; };
static std::function<Reply(Fake*)> g_reply;
extern "C" {
CURL* curl_easy_init(void) { return (CURL*)new Fake; }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  Fake* f = (Fake*)c; va_list ap; va_start(ap, o);
  if (o == CURLOPT_URL) f->url = va_arg(ap, char*);
  else if (o == CURLOPT_WRITEFUNCTION) f->write = va_arg(ap, size_t (*)(void*, size_t, size_t, void*));
  else if (o == CURLOPT_WRITEDATA) f->data = va_arg(ap, void*);
  else if (o == CURLOPT_POSTFIELDS) f->postp = va_arg(ap, char*);
  else if (o == CURLOPT_POSTFIELDSIZE) f->postn = va_arg(ap, long);
  else if (o == CURLOPT_POSTFIELDSIZE_LARGE) f->postn = va_arg(ap, curl_off_t);
  va_end(ap); return CURLE_OK;
}
static thread_local long g_code;
CURLcode curl_easy_perform(CURL* c) {
  Fake* f = (Fake*)c;
  f->post = f->postn < 0 ? std::string(f->postp) : std::string(f->postp, f->postn);
  Reply r = g_reply(f);
  g_code = r.code;
  if (r.fail) return CURLE_HTTP_RETURNED_ERROR;
  for (size_t i = 0; i < r.body.size(); i += r.chunk) {
    std::string p = r.body.substr(i, r.chunk);
    if (f->write(&p[0], 1, p.size(), f->data) != p.size()) return CURLE_WRITE_ERROR;
  }
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...) ;
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) { va_list ap; va_start(ap, i); *va_arg(ap, long*) = g_code; va_end(ap); return CURLE_OK; }
void curl_easy_cleanup(CURL* c) { delete (Fake*)c; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
struct curl_slist* curl_slist_append(struct curl_slist* l, const char*) { return l; }
void curl_slist_free_all(struct curl_slist*) {}
}
struct Waiter {
  std::mutex m; std::condition_variable c; int n = 0; Status s;
  void Done(Status st) { std::lock_guard<std::mutex> l(m); s = st; ++n; c.notify_all(); }
  bool Wait() { std::unique_lock<std::mutex> l(m); return c.wait_for(l, std::chrono::seconds(20), [&] { return n > 0; }); }
};
using google::service_control_client::sample::transport::LibCurlTransport;
"""
CURLSRC = "-DCURL_DISABLE_TYPECHECK sample/transport/http_transport.cc"

seed(id="c25-body-string", property="C25", srcs=CURLSRC, flags="-DCURL_DISABLE_TYPECHECK",
  edits=[("sample/transport/http_transport.cc",
"""    ((std::string *)instance)->append((char *)data, size * nmemb);""",
"""    // The data is not terminated.
    std::string piece((char *)data, size * nmemb);
    ((std::string *)instance)->append(piece.c_str());""")],
  needs="a response body with a zero byte",
  breaks="the part of the body after a zero byte is lost: the response is cut or does not parse",
  demo=CURL + r"""
int main() {
  CheckResponse want;
  want.set_operation_id(std::string("a\0b", 3));
  want.set_service_config_id("config");
  g_reply = [&](Fake*) { Reply r; r.body = want.SerializeAsString(); return r; };
  LibCurlTransport t("http://x", "svc", "token");
  Waiter w; CheckResponse got;
  CheckRequest q = MakeCheck("op");
  t.Check(q, &got, [&](Status s) { w.Done(s); });
  CHECK_THAT(w.Wait());
  CHECK_THAT(w.s.ok());
  CHECK_THAT(got.SerializeAsString() == want.SerializeAsString());
  return 0;
}
""")

seed(id="c25-class-bound", property="C25", srcs=CURLSRC, flags="-DCURL_DISABLE_TYPECHECK",
  edits=[("sample/transport/http_transport.cc",
"""} else if (http_code >= 400 && http_code < 500) {""",
"""} else if (http_code >= 300 && http_code <= 500) {""")],
  needs="a failed transfer with HTTP status 500 (or 3xx)",
  breaks="500 is FAILED_PRECONDITION instead of INTERNAL: callers do not retry",
  demo=CURL + r"""
int main() {
  LibCurlTransport t("http://x", "svc", "token");
  for (long code : {500L, 502L, 404L}) {
    g_reply = [&](Fake*) { Reply r; r.fail = true; r.code = code; return r; };
    Waiter w; CheckResponse got;
    CheckRequest q = MakeCheck("op");
    t.Check(q, &got, [&](Status s) { w.Done(s); });
    CHECK_THAT(w.Wait());
    CHECK_THAT(w.s.code() == (code == 404 ? StatusCode::kNotFound : StatusCode::kInternal));
  }
  return 0;
}
""")

seed(id="c25-report-partial", property="C25", srcs=CURLSRC, flags="-DCURL_DISABLE_TYPECHECK", count=1,
  edits=[("sample/transport/http_transport.cc",
"""    Status status = SendHttp(this->report_url_, this->auth_token_header_,
                             *request_body, &response_body);
    delete request_body;
    if (status.ok()) {""",
"""    Status status = SendHttp(this->report_url_, this->auth_token_header_,
                             *request_body, &response_body);
    delete request_body;
    // Reports are usually answered without a body.
    if (status.ok() && response_body.size() > 1) {""")],
  needs="a successful report whose response body is a single byte that is no message",
  breaks="a response that cannot be parsed is reported as OK",
  demo=CURL + r"""
int main() {
  LibCurlTransport t("http://x", "svc", "token");
  for (std::string body : {std::string(), std::string("\x0a", 1), std::string("zz")}) {
    g_reply = [&](Fake*) { Reply r; r.body = body; return r; };
    Waiter w; ReportResponse got;
    ReportRequest q = MakeReport({MakeOp("op", "c", 1)});
    t.Report(q, &got, [&](Status s) { w.Done(s); });
    CHECK_THAT(w.Wait());
    CHECK_THAT(w.s.ok() == body.empty());
  }
  return 0;
}
""")

seed(id="c25-shared-body", property="C25", srcs=CURLSRC, flags="-DCURL_DISABLE_TYPECHECK",
  edits=[("sample/transport/http_transport.cc",
"""    std::string response_body;
    Status status = SendHttp(this->check_url_,""",
"""    // Avoids growing the buffer again for every call.
    static std::string response_body;
    response_body.clear();
    Status status = SendHttp(this->check_url_,""")],
  needs="two checks in flight at once",
  breaks="two calls share one response buffer: answers are mixed up",
  demo=CURL + r"""
int main() {
  LibCurlTransport t("http://x", "svc", "token");
  std::mutex m; std::condition_variable c; int in = 0, out = 0;
  // The first call's answer arrives in two pieces; the second call's in between.
  g_reply = [&](Fake* f) {
    std::unique_lock<std::mutex> l(m);
    CheckRequest q; q.ParseFromString(f->post);
    CheckResponse p; p.set_operation_id(q.operation().operation_name());
    Reply r; r.body = p.SerializeAsString();
    ++in; c.notify_all();
    if (q.operation().operation_name() == "first") {
      std::string half = r.body.substr(0, 3);
      f->write(&half[0], 1, half.size(), f->data);
      r.body = r.body.substr(3);
      out = 1; c.notify_all();
      c.wait_for(l, std::chrono::seconds(5), [&] { return out == 2; });
    }
    return r;
  };
  Waiter w1, w2; CheckResponse g1, g2;
  CheckRequest q1 = MakeCheck("first"), q2 = MakeCheck("second");
  t.Check(q1, &g1, [&](Status s) { w1.Done(s); });
  { std::unique_lock<std::mutex> l(m); c.wait_for(l, std::chrono::seconds(10), [&] { return out == 1; }); }
  t.Check(q2, &g2, [&](Status s) { w2.Done(s); });
  CHECK_THAT(w2.Wait());
  { std::lock_guard<std::mutex> l(m); out = 2; c.notify_all(); }
  CHECK_THAT(w1.Wait());
  CHECK_THAT(w1.s.ok() && w2.s.ok());
  CHECK_THAT(g1.operation_id() == "first" && g2.operation_id() == "second");
  return 0;
}
""")

# ---- threads
seed(id="c20-flush-peek", property="C20", srcs=TSAN_SRCS, flags="",
  prefix="env TSAN_OPTIONS=exitcode=66:halt_on_error=1 setarch -R",
  edits=[("src/report_aggregator_impl.cc",
"""Status ReportAggregatorImpl::Flush() {
""",
"""Status ReportAggregatorImpl::Flush() {
  // Most of the time there is nothing to do.
  if (cache_ && cache_->Entries() == 0) return OkStatus();
""")],
  needs="a tick concurrent with the insertion of the first operation",
  breaks="the tick reads the cache's table without the lock: a data race",
  demo="""
int main() {
  Demo d;
  d.Start();
  std::thread t([&] { for (int i = 0; i < 3000; ++i) d.tick(); });
  for (int i = 0; i < 3000; ++i) {
    ReportResponse r;
    d.client->Report(MakeReport({MakeOp("op" + std::to_string(i % 200), "c", 1)}), &r, [](Status) {});
  }
  t.join();
  d.client.reset();
  return 0;
}
""")

seed(id="c20-report-relock", property="C20",
  edits=[("src/report_aggregator_impl.cc",
"""      ReportCache::ScopedLookup lookup(cache_.get(), signature);
      if (lookup.Found()) {
        lookup.value()->MergeOperation(operation);
        too_big = lookup.value()->TooBig();
      } else {
        OperationAggregator* iop =
            new OperationAggregator(operation, metric_kinds_.get());
        cache_->Insert(signature, iop, 1);
      }
    }""",
"""      ReportCache::ScopedLookup lookup(cache_.get(), signature);
      if (lookup.Found()) {
        lookup.value()->MergeOperation(operation);
        too_big = lookup.value()->TooBig();
        if (!too_big) continue;
      }
    }
    if (!too_big) {
      // Copying the operation takes long: not under the lock.
      lock.unlock();
      OperationAggregator* iop =
          new OperationAggregator(operation, metric_kinds_.get());
      lock.lock();
      cache_->Insert(signature, iop, 1);
      continue;
    }""")],
  needs="another thread uses the cache while an operation is copied without the lock",
  breaks="the other thread replaces the buffer of removed operations: they are lost or go to a dead buffer",
  demo="""
int main() {
  int64_t want = 0, got = 0;
  for (int round = 0; round < 20; ++round) {
    Demo d;
    std::atomic<int64_t> sent{0};
    auto o = d.Options(0, 0, 0, 0, 0, 0, 2, 1000000);
    o.report_transport = [&](const ReportRequest& r, ReportResponse*, TransportDoneFunc f) {
      for (auto& op : r.operations()) sent += Usage(op);
      f(OkStatus());
    };
    d.Start(o);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < 300; ++i) {
          ReportResponse r;
          d.client->Report(MakeReport({MakeOp("op" + std::to_string((i * 7 + t) % 9), "c", 1)}), &r, [](Status) {});
        }
      });
    for (auto& t : ts) t.join();
    d.client.reset();
    want += 1200;
    got += sent;
  }
  CHECK_THAT(want == got);
  return 0;
}
""")

seed(id="c21-wait-limit", property="C21", count=3,
  edits=[("src/service_control_client_impl.cc",
"""  status_future.wait();
  return status_future.get();""",
"""  if (status_future.wait_for(std::chrono::seconds(5)) !=
      std::future_status::ready) {
    return Status(StatusCode::kDeadlineExceeded, "No answer.");
  }
  return status_future.get();""")],
  needs="a completion that takes over five seconds",
  breaks="the call returns before its completion, which then writes to a promise that is gone",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r;
  std::thread t([&] {
    while (d.checks.empty()) usleep(10000);
    usleep(6500000);
    Demo::CompleteFront(&d.checks, Status(StatusCode::kAborted, "x"));
    usleep(200000);
    _exit(0);
  });
  Status s = d.client->Check(MakeCheck("op"), &r);
  CHECK_THAT(s.code() == StatusCode::kAborted);
  t.join();
  return 0;
}
""")

seed(id="c21-static-promise", property="C21",
  edits=[("src/service_control_client_impl.cc",
"""Status ServiceControlClientImpl::Report(const ReportRequest& report_request,
                                        ReportResponse* report_response) {
  StatusPromise status_promise;
  StatusFuture status_future = status_promise.get_future();
""",
"""Status ServiceControlClientImpl::Report(const ReportRequest& report_request,
                                        ReportResponse* report_response) {
  // Cached reports are answered at once: no need to wait.
  bool answered = false;
  Status answer;
  StatusPromise status_promise;
  StatusFuture status_future = status_promise.get_future();
  for (const auto& operation : report_request.operations()) {
    if (operation.importance() == 0 && report_request.operations_size() > 1) {
      Report(report_request, report_response, [&](Status status) {
        answered = true;
        answer = status;
      });
      return answered ? answer : OkStatus();
    }
  }
""")],
  needs="a synchronous report of several operations of which some, not all, are important",
  breaks="it returns before its completion, which then writes to a dead stack frame",
  demo="""
int main() {
  Demo d;
  d.Start();
  std::atomic<bool> completed{false};
  std::thread t([&] {
    while (d.reports.empty()) usleep(1000);
    usleep(300000);
    auto c = d.reports.front();
    completed = true;
    c.done(Status(StatusCode::kAborted, "x"));
  });
  Operation a = MakeOp("a", "c", 1), b = MakeOp("b", "c", 1);
  b.set_importance(Operation::HIGH);
  ReportResponse r;
  Status s = d.client->Report(MakeReport({a, b}), &r);
  CHECK_THAT(completed);
  CHECK_THAT(s.code() == StatusCode::kAborted);
  t.join();
  return 0;
}
""")

# ---- sequential
seed(id="c12-flush-only-ok", property="C12",
  edits=[("src/service_control_client_impl.cc",
"""                    [report_response](Status status) {
                      delete report_response;
                      if (!status.ok()) {""",
"""                    [this, report_response](Status status) {
                      delete report_response;
                      if (status.code() == StatusCode::kUnavailable) {
                        // Did not leave this machine.
                        --send_reports_by_flush_;
                      }
                      if (!status.ok()) {""")],
  needs="a flushed report that fails with UNAVAILABLE",
  breaks="the counter decreases and no longer counts every transport invocation (and the completion uses the client)",
  demo="""
int main() {
  Demo d;
  d.Start();
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("op", "c", 1)}), &r, [](Status) {});
  AdvanceMs(2000);
  d.tick();
  Demo::CompleteFront(&d.reports, Status(StatusCode::kUnavailable, "x"));
  Statistics s;
  d.client->GetStatistics(&s);
  CHECK_THAT(s.send_reports_by_flush == 1);
  return 0;
}
""")

seed(id="c03-time-order", property="C03",
  edits=[("src/operation_aggregator.cc",
"""  return a.seconds() < b.seconds() ||
         (a.seconds() == b.seconds() && a.nanos() < b.nanos());""",
"""  return a.seconds() < b.seconds() || a.nanos() < b.nanos();""")],
  needs="times that differ in seconds with the nanos in the other order",
  breaks="start and end times of the aggregate are not the minimum and maximum; older gauges replace newer ones",
  demo="""
int main() {
  Demo d;
  d.Start();
  Operation a = MakeOp("op", "c", 1), b = MakeOp("op", "c", 1);
  a.mutable_start_time()->set_seconds(100); a.mutable_start_time()->set_nanos(9);
  b.mutable_start_time()->set_seconds(200); b.mutable_start_time()->set_nanos(1);
  ReportResponse resp;
  d.client->Report(MakeReport({a}), &resp, [](Status) {});
  d.client->Report(MakeReport({b}), &resp, [](Status) {});
  d.client.reset();
  CHECK_THAT(d.sent_reports[0].operations(0).start_time().seconds() == 100);
  return 0;
}
""")

seed(id="c03-kind-first", property="C03",
  edits=[("src/operation_aggregator.cc",
"""    if (metric_kinds_) {
      metric_kind =""",
"""    if (metric_kinds_ && metric_values.size() < 2) {
      metric_kind =""")],
  needs="a gauge metric with two or more label sets merged again",
  breaks="gauges and cumulative metrics are added up",
  demo="""
int main() {
  Demo d;
  auto o = d.Options(10, 100, 1000, 10, 1000, 10000, 10, 1000);
  o.metric_kinds = std::make_shared<MetricKindMap>();
  (*o.metric_kinds)["m"] = MetricDescriptor::GAUGE;
  d.Start(o);
  ReportResponse resp;
  Operation a = MakeOp("op", "c", 5);
  auto* v = a.mutable_metric_value_sets(0)->add_metric_values();
  v->set_int64_value(100);
  (*v->mutable_labels())["k"] = "v";
  d.client->Report(MakeReport({a}), &resp, [](Status) {});
  d.client->Report(MakeReport({a}), &resp, [](Status) {});
  d.client.reset();
  CHECK_THAT(Usage(d.sent_reports[0].operations(0)) == 105);
  return 0;
}
""")

seed(id="c08-expire-after", property="C08",
  edits=[("src/quota_aggregator_impl.cc",
"""  return age >= expiration_interval_in_cycle_;""",
"""  return age > expiration_interval_in_cycle_;""")],
  needs="an entry aged out exactly at the expiration interval",
  breaks="it is kept (and refreshed) instead of dropped",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 10, 100, 1000, 0, 0));
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("m", 3), &r, [](Status) {});
  Demo::CompleteFront(&d.quotas, OkStatus());
  CHECK_THAT(d.sent_quotas.size() == 1);
  AdvanceMs(1000);
  d.tick();
  // Dropped: the next call is a first call again.
  d.client->Quota(MakeQuota("m", 4), &r, [](Status) {});
  CHECK_THAT(d.sent_quotas.size() == 2);
  CHECK_THAT(Tokens(d.sent_quotas[1]) == 4);
  return 0;
}
""")

seed(id="c07-initial-merged", property="C07",
  edits=[("src/quota_aggregator_impl.cc",
"""    operation_aggregator_.reset(
        new QuotaOperationAggregator(request.allocate_operation()));
  } else {""",
"""    operation_aggregator_.reset(
        new QuotaOperationAggregator(request.allocate_operation()));
    // The latest caller's request stands for the identity.
    quota_request_ = request;
  } else {""")],
  needs="a refresh with nothing aggregated after a call was aggregated",
  breaks="the refresh re-sends a later request instead of the identity's initial one",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 10, 1000, 600000, 0, 0));
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("m", 3), &r, [](Status) {});
  Demo::CompleteFront(&d.quotas, OkStatus());
  d.client->Quota(MakeQuota("m", 50), &r, [](Status) {});
  AdvanceMs(1100);
  d.tick();                      // sends the 50
  CHECK_THAT(d.sent_quotas.size() == 2 && Tokens(d.sent_quotas[1]) == 50);
  Demo::CompleteFront(&d.quotas, OkStatus());
  AdvanceMs(1100);
  d.client->Quota(MakeQuota("m", 1), &r, [](Status) {});  // nothing is pending
  CHECK_THAT(d.sent_quotas.size() == 3);
  CHECK_THAT(Tokens(d.sent_quotas[2]) == 3);
  return 0;
}
""")

seed(id="c13-quota-repeated", property="C13",
  edits=[("src/signature.cc",
"""  std::set<std::string> metric_names;
  for (const auto& metric_value_set : operation.quota_metrics()) {""",
"""  std::multiset<std::string> metric_names;
  for (const auto& metric_value_set : operation.quota_metrics()) {""")],
  needs="a quota request that names one metric twice",
  breaks="it gets another identity than the request with the same set of metric names",
  demo="""
#include "src/signature.h"
int main() {
  AllocateQuotaRequest a = MakeQuota("m"), b = MakeQuota("m");
  *b.mutable_allocate_operation()->add_quota_metrics() = b.allocate_operation().quota_metrics(0);
  CHECK_THAT(GenerateAllocateQuotaRequestSignature(a) == GenerateAllocateQuotaRequestSignature(b));
  return 0;
}
""")

seed(id="c13-empty-label", property="C13",
  edits=[("src/signature.cc",
"""  for (const auto& label : ordered_labels) {
""",
"""  for (const auto& label : ordered_labels) {
    if (label.first.empty()) continue;
""")],
  needs="a label with an empty key",
  breaks="operations that differ in that label share one identity",
  demo="""
#include "src/signature.h"
int main() {
  Operation a = MakeOp("op", "c", 1), b = a;
  (*b.mutable_labels())[""] = "x";
  CHECK_THAT(GenerateReportOperationSignature(a) != GenerateReportOperationSignature(b));
  return 0;
}
""")

seed(id="c18-boundary-timeout", property="C18",
  edits=[("utils/simple_lru_cache_inl.h",
"""      max_idle_ = static_cast<int64_t>(timeout_cycles);""",
"""      max_idle_ = static_cast<int>(timeout_cycles);""")],
  needs="a limit of over 2147 seconds",
  breaks="the limit wraps around: entries never expire, or too early",
  demo="""
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
int main() {
  SimpleLRUCache<int, int> c(10);
  c.SetMaxIdleSeconds(4300);
  c.Insert(1, new int(1), 1);
  AdvanceMs(60000);
  CHECK_THAT(c.Entries() == 1);
  c.RemoveExpiredEntries();
  CHECK_THAT(c.Entries() == 1);
  AdvanceMs(4300000);
  c.RemoveExpiredEntries();
  CHECK_THAT(c.Entries() == 0);
  return 0;
}
""")

seed(id="c01-resend", property="C01",
  edits=[("src/service_control_client_impl.cc",
"""  ReportResponse* report_response = new ReportResponse;
  report_transport_(report_request, report_response,
                    [report_response](Status status) {
                      delete report_response;
                      if (!status.ok()) {""",
"""  ReportResponse* report_response = new ReportResponse;
  std::shared_ptr<ReportAggregator> report_aggregator_copy = report_aggregator_;
  ReportRequest report_request_copy(report_request);
  report_transport_(report_request, report_response,
                    [report_response, report_aggregator_copy,
                     report_request_copy](Status status) {
                      delete report_response;
                      if (status.code() == StatusCode::kUnavailable) {
                        // Goes with the next flush.
                        (void)report_aggregator_copy->Report(
                            report_request_copy);
                      }
                      if (!status.ok()) {""")],
  needs="a flushed report that fails with UNAVAILABLE",
  breaks="its operations are reported a second time (or kept in the dead client's aggregator)",
  demo="""
int main() {
  Demo d;
  d.Start();
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("op", "c", 5)}), &r, [](Status) {});
  AdvanceMs(2000);
  d.tick();
  Demo::CompleteFront(&d.reports, Status(StatusCode::kUnavailable, "x"));
  AdvanceMs(2000);
  d.tick();
  int64_t sum = 0;
  for (auto& q : d.sent_reports) for (auto& op : q.operations()) sum += Usage(op);
  CHECK_THAT(sum == 5);
  return 0;
}
""")

seed(id="c02-flush-seconds", property="C02",
  edits=[("src/report_aggregator_impl.cc",
"""    cache_->SetAgeBasedEviction(options.flush_interval_ms / 1000.0);""",
"""    cache_->SetAgeBasedEviction(
        options.flush_interval_ms < 60000
            ? options.flush_interval_ms / 1000.0
            : static_cast<float>(options.flush_interval_ms / 60000) * 60);""")],
  needs="a flush interval of over a minute that is no whole number of minutes",
  breaks="operations are flushed before the interval has passed",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 0, 0, 0, 10, 90000));
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("op", "c", 5)}), &r, [](Status) {});
  AdvanceMs(75000);
  d.tick();
  CHECK_THAT(d.sent_reports.empty());
  AdvanceMs(16000);
  d.tick();
  CHECK_THAT(d.sent_reports.size() == 1);
  return 0;
}
""")

seed(id="c10-code-lost", property="C10",
  edits=[("src/service_control_client_impl.cc",
"""                      delete check_request_copy;
                      on_check_done(status);""",
"""                      delete check_request_copy;
                      // An answer that says no is an answer.
                      if (!status.ok() && check_response->check_errors_size() > 0) {
                        status = OkStatus();
                      }
                      on_check_done(status);""")],
  needs="a transport that fails after filling errors into the response",
  breaks="the failure is not reported to the caller",
  demo="""
int main() {
  Demo d;
  d.Start();
  CheckResponse r;
  Status got;
  d.client->Check(MakeCheck("op"), &r, [&](Status s) { got = s; });
  d.checks.front().response->add_check_errors();
  Demo::CompleteFront(&d.checks, Status(StatusCode::kUnavailable, "x"));
  CHECK_THAT(got.code() == StatusCode::kUnavailable);
  return 0;
}
""")

seed(id="c09-response-swap", property="C09",
  edits=[("src/service_control_client_impl.cc",
"""    // The caller may free report_request as soon as on_report_done is called.
    const int operations_size = report_request.operations_size();
    report_transport(report_request,""",
"""    // The caller may free report_request as soon as on_report_done is called.
    const int operations_size = report_request.operations_size();
    // An important report makes its cached companions due as well.
    if (operations_size > 1) (void)report_aggregator_->Flush();
    report_transport_ && operations_size > 9
        ? report_transport_(report_request, report_response, on_report_done)
        : report_transport(report_request,""")],
  needs="a direct report of ten or more operations with a per-request transport",
  breaks="it goes to the configured transport instead of the per-request one",
  demo="""
int main() {
  Demo d;
  d.Start();
  std::vector<Operation> ops;
  for (int i = 0; i < 12; ++i) { ops.push_back(MakeOp("op", "c", i)); ops.back().set_importance(Operation::HIGH); }
  int own = 0;
  ReportResponse r;
  d.client->Report(MakeReport(ops), &r, [](Status) {},
                   [&](const ReportRequest&, ReportResponse*, TransportDoneFunc f) { ++own; f(OkStatus()); });
  CHECK_THAT(own == 1 && d.sent_reports.empty());
  return 0;
}
""")

seed(id="c24-quota-negative", property="C24",
  edits=[("src/service_control_client_impl.cc",
"""                      } else {
                        // on network error, failed open, reset in_flight flag
                        // to false
                        AllocateQuotaResponse dummy_response;""",
"""                      } else {
                        // on network error, failed open, reset in_flight flag
                        // to false
                        quota_response->Clear();
                        AllocateQuotaResponse dummy_response;""")],
  needs="quota caching disabled and a transport that fails after filling the response",
  breaks="the response is not the one the transport filled",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 0, 0, 0, 0, 0));
  AllocateQuotaResponse r;
  d.client->Quota(MakeQuota("m"), &r, [](Status) {});
  d.quotas.front().response->set_operation_id("id");
  Demo::CompleteFront(&d.quotas, Status(StatusCode::kUnavailable, "x"));
  CHECK_THAT(r.operation_id() == "id");
  return 0;
}
""")

seed(id="c16-zero-units", property="C16",
  edits=[("src/money_utils.cc",
"""  if (sum_units > 0 && sum_nanos < 0) {""",
"""  if (sum_units >= carry * carry && sum_nanos < 0 && sum_units != 0) {""")],
  needs="a carry of nanos that leaves one unit... and opposite signs",
  breaks="units and nanos of the sum disagree in sign",
  demo="""
#include "src/money_utils.h"
int main() { return 0; }
""")
SEEDS.pop()   # the condition is equivalent: kept as a note only

seed(id="c22-quota-tick-first", property="C22",
  edits=[("src/service_control_client_impl.cc",
"""          Status status = check_aggregator_copy->Flush();
          if (!status.ok()) {""",
"""          // Nothing else can be due before the earliest interval.
          if (quota_aggregator_copy->GetNextFlushInterval() >= 0 &&
              check_aggregator_copy->GetNextFlushInterval() < 0) {
            (void)quota_aggregator_copy->Flush();
            return;
          }
          Status status = check_aggregator_copy->Flush();
          if (!status.ok()) {""")],
  needs="check caching disabled, quota and report caching enabled",
  breaks="ticks do not flush reports",
  demo="""
int main() {
  Demo d;
  d.Start(d.Options(0, 0, 0, 10, 1000, 600000, 10, 1000));
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("op", "c", 5)}), &r, [](Status) {});
  AdvanceMs(2000);
  d.tick();
  CHECK_THAT(d.sent_reports.size() == 1);
  return 0;
}
""")

seed(id="c06-ignore-late", property="C06",
  edits=[("src/quota_aggregator_impl.cc",
"""  if (lookup.Found()) {
    lookup.value()->set_in_flight(false);
    lookup.value()->set_quota_response(response);
  }""",
"""  if (lookup.Found()) {
    // Only the answer to the request in flight counts.
    if (lookup.value()->in_flight() || response.allocate_errors_size() == 0) {
      lookup.value()->set_quota_response(response);
    }
    lookup.value()->set_in_flight(false);
  }""")],
  needs="a negative answer recorded while none is awaited (a late one)",
  breaks="callers do not get the last answer recorded",
  demo="""
int main() {
  auto a = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(10, 1000, 10000));
  a->SetFlushCallback([](const AllocateQuotaRequest&) {});
  AllocateQuotaResponse r, no;
  no.add_allocate_errors()->set_subject("no");
  a->Quota(MakeQuota("m"), &r);
  a->CacheResponse(MakeQuota("m"), AllocateQuotaResponse());
  a->CacheResponse(MakeQuota("m"), no);
  a->Quota(MakeQuota("m"), &r);
  CHECK_THAT(r.allocate_errors_size() == 1);
  return 0;
}
""")

seed(id="c04-importance-cached", property="C04",
  edits=[("src/check_aggregator_impl.cc",
"""  if (request.operation().importance() != Operation::LOW || !cache_) {""",
"""  if (request.operation().importance() == Operation::HIGH || !cache_) {""")],
  needs="a check with an importance this version does not know",
  breaks="it is answered from cache instead of going to the server",
  demo="""
int main() {
  Demo d;
  d.Start();
  d.in_place = true;
  CheckResponse r;
  d.client->Check(MakeCheck("op"), &r, [](Status) {});
  CheckRequest q = MakeCheck("op");
  q.mutable_operation()->set_importance((Operation::Importance)2);
  d.client->Check(q, &r, [](Status) {});
  CHECK_THAT(d.sent_checks.size() == 2);
  return 0;
}
""")

seed(id="c19-long-update", property="C19",
  edits=[("utils/md5.cc",
"""void MD5::Update(""", """void MD5::Update(""")],
  needs="", breaks="", demo="int main() { return 0; }")
SEEDS.pop()

seed(id="c12-report-null-transport", property="C12",
  edits=[("src/service_control_client_impl.cc",
"""  ++total_called_reports_;
  if (report_transport == NULL) {
    on_report_done(Status(StatusCode::kInvalidArgument, "transport is NULL."));
    return;
  }
""",
"""  if (report_transport == NULL) {
    on_report_done(Status(StatusCode::kInvalidArgument, "transport is NULL."));
    return;
  }
  ++total_called_reports_;
""")],
  needs="a report without transport",
  breaks="the rejected call is not counted",
  demo="""
int main() {
  Demo d;
  auto o = d.Options(10, 100, 100, 10, 100, 100, 10, 100);
  o.report_transport = nullptr;
  d.Start(o);
  ReportResponse r;
  d.client->Report(MakeReport({MakeOp("op", "c", 1)}), &r, [](Status) {});
  Statistics s;
  d.client->GetStatistics(&s);
  CHECK_THAT(s.total_called_reports == 1);
  return 0;
}
""")

seed(id="c17-quiet-pin", property="C17",
  edits=[("utils/simple_lru_cache_inl.h",
"""    if (e->pin == 0) pinned_units_ += e->units;
    // We are""",
"""    if (e->pin == 0 && (lru_ || options.update_eviction_order())) {
      pinned_units_ += e->units;
    }
    // We are""")],
  needs="age-based mode and a lookup that does not update the eviction order",
  breaks="the pinned size is wrong (it goes negative on release)",
  demo="""
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
int main() {
  SimpleLRUCache<int, int> c(10);
  c.SetAgeBasedEviction(100);
  c.Insert(1, new int(1), 3);
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(false);
  int* v = c.LookupWithOptions(1, o);
  CHECK_THAT(c.PinnedSize() == 3);
  c.ReleaseWithOptions(1, v, o);
  CHECK_THAT(c.PinnedSize() == 0);
  c.Clear();
  return 0;
}
""")

seed(id="c15-empty-mismatch", property="C15",
  edits=[("utils/distribution_helper.cc",
"""Status DistributionHelper::Merge(const Distribution& from, Distribution* to) {
""",
"""Status DistributionHelper::Merge(const Distribution& from, Distribution* to) {
  // Nothing to add.
  if (from.count() <= 0 && to->count() > 0) return OkStatus();
""")],
  needs="an empty distribution with other buckets merged into one with samples",
  breaks="the mismatch is not reported",
  demo="""
#include "utils/distribution_helper.h"
int main() {
  Distribution a, b;
  DistributionHelper::InitLinear(3, 1, -2, &a);
  DistributionHelper::InitLinear(4, 1, -2, &b);
  DistributionHelper::AddSample(-1.5, &b);
  CHECK_THAT(!DistributionHelper::Merge(a, &b).ok());
  return 0;
}
""")
