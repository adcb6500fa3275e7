// Shared by the demonstrations: a virtual clock, a client with recording
// transports, and helpers to build requests.
#ifndef DEMO_H_
#define DEMO_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "include/service_control_client.h"
#include "src/aggregator_interface.h"

inline std::atomic<int64_t> g_now_us{1700000000ll * 1000000};
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  int64_t t = g_now_us.load(std::memory_order_relaxed);
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
inline void AdvanceMs(int64_t ms) { g_now_us += ms * 1000; }
inline void AdvanceUs(int64_t us) { g_now_us += us; }

#define CHECK_THAT(cond)                                            \
  do {                                                              \
    if (!(cond)) {                                                  \
      printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #cond);      \
      fflush(stdout);                                               \
      _exit(1);                                                     \
    }                                                               \
  } while (0)

using namespace google::service_control_client;
using google::api::MetricDescriptor;
using google::api::servicecontrol::v1::AllocateQuotaRequest;
using google::api::servicecontrol::v1::AllocateQuotaResponse;
using google::api::servicecontrol::v1::CheckRequest;
using google::api::servicecontrol::v1::CheckResponse;
using google::api::servicecontrol::v1::Distribution;
using google::api::servicecontrol::v1::MetricValue;
using google::api::servicecontrol::v1::Operation;
using google::api::servicecontrol::v1::QuotaOperation;
using google::api::servicecontrol::v1::ReportRequest;
using google::api::servicecontrol::v1::ReportResponse;
using google::protobuf::util::OkStatus;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;

const char kService[] = "svc";
const char kConfig[] = "cfg";

inline Operation MakeOp(const std::string& name, const std::string& consumer, int64_t value) {
  Operation op;
  op.set_operation_name(name);
  op.set_consumer_id(consumer);
  op.set_importance(Operation::LOW);
  auto* s = op.add_metric_value_sets();
  s->set_metric_name("m");
  s->add_metric_values()->set_int64_value(value);
  return op;
}
inline CheckRequest MakeCheck(const std::string& name, int64_t value = 1) {
  CheckRequest r;
  r.set_service_name(kService);
  *r.mutable_operation() = MakeOp(name, "consumer", value);
  return r;
}
inline ReportRequest MakeReport(const std::vector<Operation>& ops) {
  ReportRequest r;
  r.set_service_name(kService);
  for (auto& o : ops) *r.add_operations() = o;
  return r;
}
inline AllocateQuotaRequest MakeQuota(const std::string& method, int64_t value = 1) {
  AllocateQuotaRequest r;
  r.set_service_name(kService);
  auto* op = r.mutable_allocate_operation();
  op->set_method_name(method);
  op->set_consumer_id("consumer");
  op->set_quota_mode(QuotaOperation::BEST_EFFORT);
  auto* s = op->add_quota_metrics();
  s->set_metric_name("m");
  s->add_metric_values()->set_int64_value(value);
  return r;
}
inline int64_t Tokens(const AllocateQuotaRequest& r) {
  int64_t t = 0;
  for (auto& s : r.allocate_operation().quota_metrics())
    for (auto& v : s.metric_values()) t += v.int64_value();
  return t;
}
inline int64_t Usage(const Operation& op) {
  int64_t t = 0;
  for (auto& s : op.metric_value_sets())
    for (auto& v : s.metric_values()) t += v.int64_value();
  return t;
}

// A client whose transports record the calls; completions are deferred until
// Complete*() unless in_place.
struct Demo {
  struct Timer : PeriodicTimer {
    explicit Timer(Demo* d) : d_(d) {}
    void Stop() override { ++d_->stops; }
    Demo* d_;
  };
  template <class Req, class Resp>
  struct Call {
    Req request;
    Resp* response;
    TransportDoneFunc done;
  };
  std::deque<Call<CheckRequest, CheckResponse>> checks;
  std::deque<Call<AllocateQuotaRequest, AllocateQuotaResponse>> quotas;
  std::deque<Call<ReportRequest, ReportResponse>> reports;
  std::vector<CheckRequest> sent_checks;
  std::vector<AllocateQuotaRequest> sent_quotas;
  std::vector<ReportRequest> sent_reports;
  bool in_place = false;
  int timers = 0, stops = 0, interval = 0;
  std::function<void()> tick;
  std::unique_ptr<ServiceControlClient> client;

  ServiceControlClientOptions Options(int check_entries, int check_flush, int check_expire, int quota_entries,
                                      int quota_refresh, int quota_expire, int report_entries, int report_flush) {
    ServiceControlClientOptions o(CheckAggregationOptions(check_entries, check_flush, check_expire),
                                  QuotaAggregationOptions(quota_entries, quota_refresh, quota_expire),
                                  ReportAggregationOptions(report_entries, report_flush));
    o.check_transport = [this](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) {
      sent_checks.push_back(r);
      if (in_place) { d(OkStatus()); return; }
      checks.push_back({r, p, d});
    };
    o.quota_transport = [this](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) {
      sent_quotas.push_back(r);
      if (in_place) { d(OkStatus()); return; }
      quotas.push_back({r, p, d});
    };
    o.report_transport = [this](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) {
      sent_reports.push_back(r);
      if (in_place) { d(OkStatus()); return; }
      reports.push_back({r, p, d});
    };
    o.periodic_timer = [this](int ms, std::function<void()> cb) {
      ++timers;
      interval = ms;
      tick = cb;
      return std::unique_ptr<PeriodicTimer>(new Timer(this));
    };
    return o;
  }
  void Start(ServiceControlClientOptions o) { client = CreateServiceControlClient(kService, kConfig, o); }
  void Start() { Start(Options(100, 500, 1000, 100, 1000, 600000, 100, 1000)); }

  template <class Q>
  static bool CompleteFront(Q* q, const Status& s) {
    if (q->empty()) return false;
    auto c = q->front();
    q->pop_front();
    c.done(s);
    return true;
  }
};
#endif
