// C20, C21: generated multi-threaded programs on one client.  Threads call,
// tick, complete and destroy; schedules are perturbed wherever the code under
// test reads the clock or allocates.  What everybody saw is recorded per thread
// and balanced at the end.
#ifdef VP_SCHED
#define PBT_WARMUP 4
#endif
#define PBT_ASAN_EXTRA ":detect_stack_use_after_return=1"
#include <new>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>

#include "common.h"
#include "dsched.h"
#include "vclock.h"

typedef google::protobuf::Message Message;
enum Kind { kCheck, kQuota, kReport };
static const char* const kName[] = {"Check", "Quota", "Report"};
static const std::memory_order kRelaxed = std::memory_order_relaxed;

// ---- schedule perturbation ---------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(pbt::Mix(seed)) {}
  uint64_t Next() { s += 0x9e3779b97f4a7c15ull; return pbt::Mix(s); }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  bool Pct(int p) { return (int)Below(100) < p; }
};
static thread_local Rng* t_rng = nullptr;
static int g_perturb = 0;   // out of 1000 points

static void Perturb() {
#ifdef VP_SCHED
  sched::Point();
  return;
#endif
  Rng* r = t_rng;
  if (!r || !g_perturb) return;
  uint64_t v = r->Next();
  if ((int)(v % 1000) >= g_perturb) return;
  switch ((v >> 20) % 8) {
    case 0: case 1: case 2: sched_yield(); break;
    case 3: case 4: case 5: for (volatile int i = (v >> 30) % 2000; i > 0; i = i - 1) {} break;
    default: { struct timespec ts = {0, (long)(20000 + (v >> 30) % 200000)}; nanosleep(&ts, nullptr); }
  }
}
// Allocations are points where a thread may be delayed.
void* operator new(size_t n) {
  Perturb();
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// ---- the record --------------------------------------------------------------
static std::atomic<uint64_t> g_seq{1};   // relaxed: orders nothing for the race detector
static uint64_t Seq() { return g_seq.fetch_add(1, kRelaxed); }

struct Call {
  int no = 0;
  Kind kind = kCheck;
  bool sync = false, own = false, invalid = false, high = false;
  int ident = 0;
  int64_t value = 0;
  int nops = 1;
  std::unique_ptr<Message> req, resp;
  std::unique_ptr<Call> nested;            // issued by the callback
  // filled while running
  std::atomic<int> done{0}, sent{0}, completed{0};
  uint64_t begin = 0, end = 0;             // sequence numbers around the decision
  StatusCode code = StatusCode::kOk;
  std::string msg;
  StatusCode want_code = StatusCode::kOk;  // of the completion
  std::string want_msg, want_resp;
};
struct OpSeen { std::string ident; int64_t sum; int64_t dist_count; std::vector<int> ids; int sets; };
struct Sent { Kind kind; bool direct; int call; std::vector<OpSeen> ops; uint64_t tokens = 0; int ident = -1; uint64_t begin = 0; std::atomic<uint64_t>* end = nullptr; bool own; };
struct Answer { Kind kind; int ident; std::string id; bool pass; uint64_t begin, end; };
struct Flight {
  Kind kind;
  Call* call = nullptr;
  const Message* req = nullptr;
  std::string det;
  Message* resp = nullptr;
  scc::TransportDoneFunc done;
  int ident = 0;
  std::atomic<uint64_t>* end = nullptr;
};
struct Recorder {
  std::vector<Sent> sent;
  std::vector<Answer> answers;
  std::vector<std::pair<const char*, std::string>> errors;   // properties, what
  std::vector<std::unique_ptr<std::atomic<uint64_t>>> ends;
  scc::Statistics last{};
  uint64_t n_inplace = 0, n_deferred = 0, n_waited = 0;
};
static thread_local Recorder* t_rec = nullptr;
static void ErrorIn(const char* tags, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void ErrorIn(const char* tags, const char* fmt, ...) {
  char buf[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  t_rec->errors.emplace_back(tags, buf);
}
#define Error(...) ErrorIn("C20 C21", __VA_ARGS__)

static std::string IdentName(Kind k, int i) {
  return k == kQuota ? "m" + std::to_string(i) : (i & 1 ? "project:a/" : "project:b/") + std::string("op") + std::to_string(i);
}
static std::string OpIdent(const Operation& op) { return op.consumer_id() + "/" + op.operation_name(); }
static int IdentNo(const std::string& name) {   // the trailing number
  size_t p = name.find_last_not_of("0123456789");
  return p + 1 < name.size() ? atoi(name.c_str() + p + 1) : -1;
}

// C27: another client in the same process, which has its own threads.  Its
// transports complete in place and every request passes.
struct Neighbour {
  struct Step { int what; int ident; int64_t value; };   // what: 0 check, 1 quota, 2 report, 3 tick, 4 a new client
  std::vector<Step> steps;
  std::unique_ptr<scc::ServiceControlClientOptions> opt;
  std::unique_ptr<scc::ServiceControlClient> client;
  std::function<void()> tick;
  struct Timer : scc::PeriodicTimer { void Stop() override {} };
  scc::Statistics want{};
  std::string cfg;
  std::map<int, int> due;                 // steps whose usage has to be sent, with how often it was
  std::map<int, int> maybe;               // and those that may be
  uint64_t bits[3] = {};
  int direct = -1, now = -1, n_flush = 0, n_cached = 0;

  void SeeOp(const Operation& op, int what) {
    int64_t sum = 0, expect = 0;
    for (auto& set : op.metric_value_sets()) for (auto& v : set.metric_values()) sum += v.int64_value();
    for (auto& l : op.log_entries()) {
      int id = atoi(l.insert_id().c_str());
      if (id < 0 || id >= (int)steps.size() || steps[id].what != what) { Error("another client's %s came with log entry %d", kName[what == 0 ? kCheck : kReport], id); continue; }
      if (steps[id].ident != IdentNo(op.operation_name()) || op.consumer_id() != "project:n") Error("another client's step %d came under %s", id, OpIdent(op).c_str());
      expect += steps[id].value;
      auto d = due.find(id);
      if (d != due.end()) ++d->second;
      else if (maybe.count(id)) ++maybe[id];
      else Error("another client's step %d was sent, and should not be", id);
    }
    if (sum != expect) Error("another client's usage of %s adds up to %lld, not %lld", op.operation_name().c_str(), (long long)sum, (long long)expect);
  }
  void Names(const std::string& svc, const std::string& id) {
    if (svc != "svc" || id != cfg) Error("another client flushed for service %s config %s", svc.c_str(), id.c_str());
    ++n_flush;
  }
  void Create() {
    opt->check_transport = [this](const CheckRequest& q, CheckResponse* p, scc::TransportDoneFunc d) {
      Perturb();
      if (q.service_config_id() == "norig") {
        ++want.send_checks_in_flight;
        if (now < 0 || q.operation().operation_id() != std::to_string(now)) Error("another client sent the check %s", q.operation().operation_id().c_str());
        direct = now;
        p->set_operation_id("n" + std::to_string(IdentNo(q.operation().operation_name())));
      } else {
        ++want.send_checks_by_flush;
        Names(q.service_name(), q.service_config_id());
        SeeOp(q.operation(), 0);
      }
      d(OkStatus());
      Perturb();
    };
    opt->quota_transport = [this](const AllocateQuotaRequest& q, AllocateQuotaResponse* p, scc::TransportDoneFunc d) {
      Perturb();
      int ident = IdentNo(q.allocate_operation().method_name());
      uint64_t v = 0;
      for (auto& set : q.allocate_operation().quota_metrics()) for (auto& x : set.metric_values()) v += x.int64_value();
      if (opt->quota_options.num_entries > 0) ++want.send_quotas_by_flush; else ++want.send_quotas_in_flight;
      if (ident < 0 || ident > 2 || q.allocate_operation().consumer_id() != "project:n") Error("another client sent the allocation of %s", q.allocate_operation().method_name().c_str());
      else if (q.service_config_id() != "norig") {
        Names(q.service_name(), q.service_config_id());
        if (bits[ident] & v) Error("another client sent tokens twice");
        bits[ident] |= v;
      }
      p->set_operation_id("n" + std::to_string(ident));
      d(OkStatus());
      Perturb();
    };
    opt->report_transport = [this](const ReportRequest& q, ReportResponse* p, scc::TransportDoneFunc d) {
      Perturb();
      if (opt->report_options.num_entries > 0) {
        ++want.send_reports_by_flush;
        Names(q.service_name(), q.service_config_id());
        for (auto& op : q.operations()) SeeOp(op, 2);
      } else {
        ++want.send_reports_in_flight;
        direct = now;
      }
      want.send_report_operations += q.operations_size();
      d(OkStatus());
      Perturb();
    };
    opt->periodic_timer = [this](int, std::function<void()> f) { tick = f; return std::unique_ptr<scc::PeriodicTimer>(new Timer); };
    opt->metric_kinds = std::make_shared<scc::MetricKindMap>();
    (*opt->metric_kinds)["int_delta"] = MetricDescriptor::DELTA;
    client = scc::CreateServiceControlClient("svc", cfg, *opt);
    want = scc::Statistics();
    due.clear(); maybe.clear();
    memset(bits, 0, sizeof bits);
  }
  void End() {
    if (!client) return;
    scc::Statistics g{};
    (void)client->GetStatistics(&g);
    if (memcmp(&g, &want, sizeof g)) Error("another client's statistics are wrong");
    now = -1;
    client.reset();
    tick = nullptr;
    for (auto& d : due) if (d.second != 1) Error("another client's step %d was sent %d times", d.first, d.second);
    for (auto& d : maybe) if (d.second > 1) Error("another client's step %d was sent %d times", d.first, d.second);
  }
  void Make(Operation* op, int i) {
    op->set_operation_id(std::to_string(i));
    op->set_operation_name("op" + std::to_string(steps[i].ident));
    op->set_consumer_id("project:n");
    op->mutable_start_time()->set_seconds(100);
    auto* set = op->add_metric_value_sets();
    set->set_metric_name("int_delta");
    set->add_metric_values()->set_int64_value(steps[i].value);
    op->add_log_entries()->set_insert_id(std::to_string(i));
  }
  void Main() {
    Create();
    for (int i = 0; i < (int)steps.size(); ++i) {
      Step& x = steps[i];
      now = i; direct = -1;
      Status st;
      std::string got = "n" + std::to_string(x.ident);
      if (x.what == 0) {
        CheckRequest q; CheckResponse p;
        q.set_service_name("svc"); q.set_service_config_id("norig");
        Make(q.mutable_operation(), i);
        maybe[i] = 0;
        ++want.total_called_checks;
        st = client->Check(q, &p);
        got = p.operation_id();
        if (direct < 0) { due[i] = maybe[i]; maybe.erase(i); ++n_cached; }
      } else if (x.what == 1) {
        AllocateQuotaRequest q; AllocateQuotaResponse p;
        q.set_service_name("svc"); q.set_service_config_id("norig");
        auto* op = q.mutable_allocate_operation();
        op->set_method_name("m" + std::to_string(x.ident));
        op->set_consumer_id("project:n");
        auto* set = op->add_quota_metrics();
        set->set_metric_name("q");
        set->add_metric_values()->set_int64_value(1ll << i);
        ++want.total_called_quotas;
        st = client->Quota(q, &p);
        if (!p.operation_id().empty()) got = p.operation_id();
      } else if (x.what == 2) {
        ReportRequest q; ReportResponse p;
        q.set_service_name("svc"); q.set_service_config_id("norig");
        Make(q.add_operations(), i);
        if (opt->report_options.num_entries > 0) due[i] = 0;
        ++want.total_called_reports;
        st = client->Report(q, &p);
        if (opt->report_options.num_entries <= 0 && direct != i) Error("another client's report was not sent");
      } else if (x.what == 3) {
        if (tick) tick();
      } else {
        End();
        cfg += "x";
        Create();
      }
      if (!st.ok()) Error("another client's step %d failed with code %d", i, (int)st.code());
      if (got != "n" + std::to_string(x.ident)) Error("another client's step %d for identity %d got the response '%s'", i, x.ident, got.c_str());
    }
    End();
  }
};

struct Run {
  pbt::Src& s;
  pbt::Ctx& c;
  std::vector<std::unique_ptr<Neighbour>> others;
  std::unique_ptr<scc::ServiceControlClientOptions> opt;
  std::unique_ptr<scc::ServiceControlClient> client;
  std::vector<std::vector<std::unique_ptr<Call>>> programs;
  std::vector<Call*> all;
  std::vector<std::unique_ptr<Recorder>> recs;
  // completer queues
  struct Queue { std::mutex m; std::vector<std::unique_ptr<Flight>> q; };
  std::vector<std::unique_ptr<Queue>> queues;
  std::atomic<bool> callers_done{false}, stop_completers{false};
  int inplace_pct = 30, fail_pct = 15, wait_pct = 0, advance_max = 10;
  bool roomy[3] = {};
  int step_pct = 0; bool leaps = false;   // C28: the clock is set back, and far ahead
  std::atomic<int> n_back{0};
  uint64_t destroy_seq = 0;   // when destruction began
  int end_mode = 0;   // completions: 0 all before destruction, 1 during it, 2 after it
  bool ticker = false;
  std::atomic<int64_t> total_advance{0};
  std::function<void()> tick;
  struct Timer : scc::PeriodicTimer {
    explicit Timer(Run* r) : run(r) {}
    void Stop() override { run->StopTicker(); }
    Run* run;
  };
  sched::Thread ticker_thread;
  std::atomic<bool> ticker_stop{false};
  int ticker_us = 100;
  uint64_t case_seed = 0;
  int hot = -1, hot_mode = -1;   // the kind and way most calls have

  Run(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}

  // ---- transports ------------------------------------------------------------
  void SeeOp(const Operation& op, Sent* x) {
    OpSeen o;
    o.ident = OpIdent(op);
    o.sum = 0; o.dist_count = 0;
    o.sets = op.metric_value_sets_size();
    for (auto& set : op.metric_value_sets())
      for (auto& v : set.metric_values()) { o.sum += v.int64_value(); o.dist_count += v.distribution_value().count(); }
    for (auto& l : op.log_entries()) o.ids.push_back(atoi(l.insert_id().c_str()));
    x->ops.push_back(o);
  }
  void OnTransport(Kind kind, Call* own, const Message& req, Message* resp, scc::TransportDoneFunc done) {
    Recorder* rec = t_rec;
    Sent x;
    x.kind = kind; x.own = own != nullptr; x.call = -1; x.direct = false;
    x.begin = Seq();
    Call* call = nullptr;
    bool orig = false;
    if (kind == kCheck) {
      auto& r = static_cast<const CheckRequest&>(req);
      orig = r.service_config_id() == "orig";
      SeeOp(r.operation(), &x);
      x.ident = IdentNo(r.operation().operation_name());
      if (orig) call = Find(r.operation().operation_id());
      if (!orig && (r.service_name() != "svc" || r.service_config_id() != "cfg")) Error("a flushed check names service %s config %s", r.service_name().c_str(), r.service_config_id().c_str());
    } else if (kind == kQuota) {
      auto& r = static_cast<const AllocateQuotaRequest&>(req);
      orig = r.service_config_id() == "orig";
      x.ident = IdentNo(r.allocate_operation().method_name());
      for (auto& set : r.allocate_operation().quota_metrics()) for (auto& v : set.metric_values()) x.tokens |= v.int64_value();
      if (orig) { x.call = atoi(r.allocate_operation().operation_id().c_str()); if (opt->quota_options.num_entries <= 0) call = Find(r.allocate_operation().operation_id()); }
    } else {
      auto& r = static_cast<const ReportRequest&>(req);
      orig = r.service_config_id() == "orig";
      for (auto& op : r.operations()) SeeOp(op, &x);
      if (orig && r.operations_size()) call = Find(r.operations(0).operation_id());
      if (!orig && (r.operations_size() < 1 || r.operations_size() > 10)) Error("a flushed report has %d operations", r.operations_size());
    }
    if (call) {
      x.direct = true;
      x.call = call->no;
      if (call->resp.get() != resp) Error("%s call %d was sent with another response object", kName[kind], call->no);
      if (call->sent.fetch_add(1, kRelaxed)) Error("%s call %d was sent twice", kName[kind], call->no);
      if (call->invalid) Error("rejected %s call %d was sent", kName[kind], call->no);
      if (call->own != (own != nullptr) || (own && own != call)) Error("%s call %d used the wrong transport", kName[kind], call->no);
    } else if (own) {
      Error("a flushed %s used the per-request transport of call %d", kName[kind], own->no);
    } else if (orig && kind != kQuota) {
      Error("an unknown %s request was sent", kName[kind]);
    }
    rec->ends.push_back(std::make_unique<std::atomic<uint64_t>>(0));
    x.end = rec->ends.back().get();
    auto f = std::make_unique<Flight>();
    f->kind = kind; f->call = call; f->resp = resp; f->done = std::move(done); f->ident = x.ident; f->end = x.end;
    if (kind == kQuota || call) { f->req = &req; f->det = Det(req); }
    rec->sent.push_back(std::move(x));
    if (!f->done) { Error("a transport was called without a completion callback"); return; }
    if (t_rng->Pct(inplace_pct) || (queues.empty())) { ++rec->n_inplace; Complete(std::move(f)); return; }
    ++rec->n_deferred;
    std::atomic<int>* completed = call && call->sync ? &call->completed : nullptr;
    // Decided before the flight is handed over: the call may be gone afterwards.
    bool wait = completed && t_rng->Pct(wait_pct);
    Queue& q = *queues[t_rng->Below(queues.size())];
    { std::lock_guard<std::mutex> l(q.m); q.q.push_back(std::move(f)); }
    Perturb();
    if (wait) {   // the transport returns only after another thread completed the call
      ++rec->n_waited;
      while (!completed->load(kRelaxed)) sched_yield();
      Perturb();
    }
  }
  Call* Find(const std::string& id) {
    int n = atoi(id.c_str());
    if (n <= 0 || n > (int)all.size()) return nullptr;
    return all[n - 1];
  }
  void Complete(std::unique_ptr<Flight> f) {
    Rng& r = *t_rng;
    Perturb();
    uint64_t id = Seq();
    bool fail = r.Pct(fail_pct);
    Status st = fail ? Status(r.Pct(50) ? StatusCode::kUnavailable : StatusCode::kPermissionDenied, "failure " + std::to_string(id)) : OkStatus();
    std::string name = std::string("r") + std::to_string(id) + "." + std::to_string(f->ident);
    bool errors = r.Pct(25);
    bool fill = !fail || r.Pct(30);
    if (fill) {
      if (f->kind == kCheck) {
        auto* p = static_cast<CheckResponse*>(f->resp);
        p->Clear();
        p->set_operation_id(name);
        if (errors) p->add_check_errors()->set_code(CheckError::PERMISSION_DENIED);
      } else if (f->kind == kQuota) {
        auto* p = static_cast<AllocateQuotaResponse*>(f->resp);
        p->Clear();
        p->set_operation_id(name);
        if (errors) p->add_allocate_errors()->set_code(QuotaError::RESOURCE_EXHAUSTED);
      } else {
        auto* p = static_cast<ReportResponse*>(f->resp);
        p->Clear();
        p->add_report_errors()->set_operation_id(name);
      }
    }
    if (f->req && Det(*f->req) != f->det) Error("the request of an outstanding %s changed", kName[f->kind]);
    if (f->call) {
      Call* call = f->call;
      call->want_code = st.code();
      call->want_msg = std::string(st.message());
      call->want_resp = Det(*f->resp);
      call->completed.store(1, kRelaxed);
    }
    Answer a{f->kind, f->ident, name, !errors, Seq(), 0};
    bool cached = st.ok() && f->kind != kReport && (f->kind == kQuota || f->call);
    f->end->store(a.begin, kRelaxed);
    auto done = std::move(f->done);
    f.reset();
    Perturb();
    done(st);
    a.end = Seq();
    done = nullptr;
    if (cached) t_rec->answers.push_back(a);
  }
  void Completer(int i) {
    Queue& q = *queues[i];
    for (;;) {
      std::unique_ptr<Flight> f;
      {
        std::lock_guard<std::mutex> l(q.m);
        if (!q.q.empty()) {
          size_t k = t_rng->Below(q.q.size());
          f = std::move(q.q[k]);
          q.q.erase(q.q.begin() + k);
        } else if (stop_completers.load(kRelaxed)) {
          return;
        }
      }
      if (!f) { struct timespec ts = {0, 20000}; nanosleep(&ts, nullptr); continue; }
      if (t_rng->Pct(20)) sched_yield();
      Complete(std::move(f));
    }
  }

  void Drain() {
    for (bool more = true; more;) {
      more = false;
      for (auto& q : queues) {
        for (;;) {
          std::unique_ptr<Flight> f;
          { std::lock_guard<std::mutex> l(q->m); if (!q->q.empty()) { f = std::move(q->q.back()); q->q.pop_back(); } }
          if (!f) break;
          more = true;
          Complete(std::move(f));
        }
      }
    }
  }

  // ---- timer -----------------------------------------------------------------
  void Ticker() {
    for (int n = 0; n < 2000 && !ticker_stop.load(kRelaxed); ++n) {
      Pass((int64_t)t_rng->Below(advance_max + 1) * 1000 + 1);
      tick();
      struct timespec ts = {0, (long)t_rng->Below(ticker_us * 1000) + 1};
      nanosleep(&ts, nullptr);
    }
  }
  void StopTicker() {
    ticker_stop.store(true, kRelaxed);
    if (ticker_thread.joinable()) ticker_thread.join();
  }

  // ---- calls -----------------------------------------------------------------
  void OnDone(Call* call, const Status& st) {
    if (call->done.fetch_add(1, kRelaxed)) { ErrorIn("C20 C21 C11", "the callback of %s call %d ran more than once", kName[call->kind], call->no); return; }
    call->code = st.code();
    call->msg = std::string(st.message());
    call->req.reset();   // the caller may free its request now
    if (call->nested) Issue(call->nested.get());
  }
  void Issue(Call* call) {
    call->begin = Seq();
    auto cb = [this, call](const Status& st) { OnDone(call, st); };
    Status st;
    if (call->kind == kCheck) {
      auto& q = static_cast<CheckRequest&>(*call->req);
      auto* p = static_cast<CheckResponse*>(call->resp.get());
      if (call->sync) st = client->Check(q, p);
      else if (call->own) client->Check(q, p, cb, [this, call](const CheckRequest& r, CheckResponse* p, scc::TransportDoneFunc d) { OnTransport(kCheck, call, r, p, d); });
      else client->Check(q, p, cb);
    } else if (call->kind == kQuota) {
      auto& q = static_cast<AllocateQuotaRequest&>(*call->req);
      auto* p = static_cast<AllocateQuotaResponse*>(call->resp.get());
      if (call->sync) st = client->Quota(q, p);
      else if (call->own) client->Quota(q, p, cb, [this, call](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, scc::TransportDoneFunc d) { OnTransport(kQuota, call, r, p, d); });
      else client->Quota(q, p, cb);
    } else {
      auto& q = static_cast<ReportRequest&>(*call->req);
      auto* p = static_cast<ReportResponse*>(call->resp.get());
      if (call->sync) st = client->Report(q, p);
      else if (call->own) client->Report(q, p, cb, [this, call](const ReportRequest& r, ReportResponse* p, scc::TransportDoneFunc d) { OnTransport(kReport, call, r, p, d); });
      else client->Report(q, p, cb);
    }
    call->end = Seq();
    if (call->sync) {
      if (call->sent.load(kRelaxed) && !call->completed.load(kRelaxed)) Error("sync %s call %d returned before its request was completed", kName[call->kind], call->no);
      call->code = st.code();
      call->msg = std::string(st.message());
      call->done.fetch_add(1, kRelaxed);
      call->req.reset();
    }
  }
  // Time passes, or somebody sets the clock.
  void Pass(int64_t us) {
    Rng& r = *t_rng;
    if (step_pct && r.Pct(step_pct)) {
      static const int64_t kSteps[] = {1, 2, 1000, 5000, 20000, 60000000, 3600ll * 1000000, 86400ll * 30 * 1000000};
      int64_t d = 1 + (int64_t)r.Below(kSteps[r.Below(8)]);
      if (!leaps || r.Pct(60)) { n_back.fetch_add(1, kRelaxed); vclock::AdvanceUs(-d); return; }
      us = d;
    }
    total_advance.fetch_add(us, kRelaxed);
    vclock::AdvanceUs(us);
  }
  void Caller(int i) {
    for (auto& call : programs[i]) {
      Issue(call.get());
      Rng& r = *t_rng;
      if (r.Pct(20)) ReadStats();
      if (r.Pct(20)) Pass((int64_t)r.Below(advance_max + 1) * 1000 + 1);
      if (r.Pct(10)) sched_yield();
    }
  }
  static const std::vector<std::pair<const char*, uint64_t scc::Statistics::*>>& Fields() {
    static const std::vector<std::pair<const char*, uint64_t scc::Statistics::*>> f = {
        {"total_called_quotas", &scc::Statistics::total_called_quotas}, {"send_quotas_by_flush", &scc::Statistics::send_quotas_by_flush},
        {"send_quotas_in_flight", &scc::Statistics::send_quotas_in_flight}, {"total_called_checks", &scc::Statistics::total_called_checks},
        {"send_checks_by_flush", &scc::Statistics::send_checks_by_flush}, {"send_checks_in_flight", &scc::Statistics::send_checks_in_flight},
        {"total_called_reports", &scc::Statistics::total_called_reports}, {"send_reports_by_flush", &scc::Statistics::send_reports_by_flush},
        {"send_reports_in_flight", &scc::Statistics::send_reports_in_flight}, {"send_report_operations", &scc::Statistics::send_report_operations}};
    return f;
  }
  void ReadStats() {
    scc::Statistics g{};
    (void)client->GetStatistics(&g);
    for (auto& f : Fields()) if (g.*f.second < t_rec->last.*f.second) ErrorIn("C20 C12", "%s decreased", f.first);
    t_rec->last = g;
  }

  void CheckCounts() {
    scc::Statistics g{}, w{};
    Status st = client->GetStatistics(&g);
    if (!st.ok()) ErrorIn("C20 C12", "GetStatistics failed with code %d", (int)st.code());
    for (Call* call : all)
      if (call->begin) (call->kind == kCheck ? w.total_called_checks : call->kind == kQuota ? w.total_called_quotas : w.total_called_reports)++;
    for (auto& r : recs)
      for (auto& x : r->sent) {
        if (x.direct) (x.kind == kCheck ? w.send_checks_in_flight : x.kind == kQuota ? w.send_quotas_in_flight : w.send_reports_in_flight)++;
        else (x.kind == kCheck ? w.send_checks_by_flush : x.kind == kQuota ? w.send_quotas_by_flush : w.send_reports_by_flush)++;
        if (x.kind == kReport) w.send_report_operations += x.ops.size();
      }
    for (auto& f : Fields())
      if (g.*f.second != w.*f.second) ErrorIn("C20 C12", "%s is %llu after %llu", f.first, (unsigned long long)(g.*f.second), (unsigned long long)(w.*f.second));
  }

  // ---- threads ---------------------------------------------------------------
  // Everything a thread needs is set up before it starts.
  sched::Thread Spawn(std::function<void()> fn) {
    recs.push_back(std::make_unique<Recorder>());
    Recorder* rec = recs.back().get();
    uint64_t seed = pbt::Mix(case_seed + recs.size());
    return sched::Start([rec, seed, fn] {
      Rng rng(seed);
      t_rng = &rng;
      t_rec = rec;
      fn();
      t_rng = nullptr;
      t_rec = nullptr;
    });
  }

  // ---- generation ------------------------------------------------------------
  std::unique_ptr<Call> GenCall(bool allow_sync, bool allow_nested, int quota_bits[]) {
    auto call = std::make_unique<Call>();
    all.push_back(call.get());
    call->no = all.size();
    std::string id = std::to_string(call->no);
    bool c21 = c.Focus("C21");
    call->kind = (Kind)(c21 ? s.Pick({5, 2, 4}) : s.Pick({4, 3, 4}));
    int mode = s.Pick({c21 ? 2 : 8, 2, c21 ? 12 : 2});
    call->ident = s.Below(3);
    if (hot >= 0 && s.Chance(4, 5)) {   // everybody after the same entry
      if (hot < 3) call->kind = (Kind)hot;
      call->ident = 0;
      if (hot_mode >= 0) mode = hot_mode;
    }
    call->own = mode == 1;
    call->sync = mode == 2 && allow_sync;
    int odd = s.Pick({20, 1, c21 ? 12 : 2});
    call->invalid = odd == 1;
    call->high = odd == 2 && call->kind != kQuota;
    call->value = s.Range(1, 1000);
    std::string svc = call->invalid ? "other" : "svc";
    auto make = [&](Operation* op, int ident, const std::string& tag, int64_t value) {
      op->set_operation_id(tag);
      op->set_operation_name("op" + std::to_string(ident));
      op->set_consumer_id(ident & 1 ? "project:a" : "project:b");
      op->mutable_start_time()->set_seconds(100);
      op->mutable_end_time()->set_seconds(200);
      auto* set = op->add_metric_value_sets();
      set->set_metric_name("int_delta");
      set->add_metric_values()->set_int64_value(value);
      if (call->kind == kReport) {
        set = op->add_metric_value_sets();
        set->set_metric_name("dist_delta");
        auto* d = set->add_metric_values()->mutable_distribution_value();
        d->set_count(1); d->set_mean(value); d->set_minimum(value); d->set_maximum(value);
        d->mutable_linear_buckets()->set_num_finite_buckets(2);
        d->mutable_linear_buckets()->set_width(400);
        for (int b = 0; b < 4; ++b) d->add_bucket_counts(b == 1);
      }
      op->add_log_entries()->set_insert_id(tag);
      if (call->high) op->set_importance(Operation::HIGH);
    };
    if (call->kind == kCheck) {
      auto r = std::make_unique<CheckRequest>();
      r->set_service_name(svc);
      r->set_service_config_id("orig");
      make(r->mutable_operation(), call->ident, id, call->value);
      call->req = std::move(r);
      call->resp = std::make_unique<CheckResponse>();
    } else if (call->kind == kQuota) {
      auto r = std::make_unique<AllocateQuotaRequest>();
      r->set_service_name(svc);
      r->set_service_config_id("orig");
      auto* op = r->mutable_allocate_operation();
      op->set_operation_id(id);
      op->set_method_name("m" + std::to_string(call->ident));
      op->set_consumer_id("project:a");
      auto* set = op->add_quota_metrics();
      set->set_metric_name("q");
      int bit = call->invalid ? 0 : quota_bits[call->ident]++;
      if (bit > 61) { call->kind = kReport; }   // replaced below
      else {
        call->value = 1ll << bit;
        set->add_metric_values()->set_int64_value(call->value);
        call->req = std::move(r);
        call->resp = std::make_unique<AllocateQuotaResponse>();
      }
    }
    if (!call->req) {
      auto r = std::make_unique<ReportRequest>();
      r->set_service_name(svc);
      r->set_service_config_id("orig");
      call->nops = s.Pick({5, 2, 1}) + 1;
      // The first operation carries the number; the others share it in their entries.
      for (int i = 0; i < call->nops; ++i) make(r->add_operations(), i == 0 ? call->ident : (call->ident + i) % 3, id, call->value);
      call->req = std::move(r);
      call->resp = std::make_unique<ReportResponse>();
    }
    if (allow_nested && !call->sync && s.Chance(c.Focus("C23") ? 4 : 1, 8)) call->nested = GenCall(false, s.Chance(1, 3), quota_bits);
    return call;
  }

  void Go() {
    bool c21 = c.Focus("C21");
    auto num = [&](int k) { int n = s.OneOf({1000, 1, 2, 0}); roomy[k] = n == 1000; return n; };
    int nc = num(kCheck), nq = num(kQuota), nr = num(kReport);
    int cf = s.OneOf({5, 20, 1000000, 1}), ce = cf + s.OneOf({20, 5, 100000000});
    if (ce < 1000000) roomy[kCheck] = false;
    int qr = s.OneOf({5, 20, 1000000}), qe = qr + s.OneOf({20, 5, 100000000});
    if (qe < 1000000) roomy[kQuota] = false;
    opt.reset(new scc::ServiceControlClientOptions(scc::CheckAggregationOptions(nc, cf, ce), scc::QuotaAggregationOptions(nq, qr, qe),
                                                   scc::ReportAggregationOptions(nr, s.OneOf({5, 20, 1000000, 1}))));
    opt->check_transport = [this](const CheckRequest& q, CheckResponse* p, scc::TransportDoneFunc d) { OnTransport(kCheck, nullptr, q, p, d); };
    opt->quota_transport = [this](const AllocateQuotaRequest& q, AllocateQuotaResponse* p, scc::TransportDoneFunc d) { OnTransport(kQuota, nullptr, q, p, d); };
    opt->report_transport = [this](const ReportRequest& q, ReportResponse* p, scc::TransportDoneFunc d) { OnTransport(kReport, nullptr, q, p, d); };
    opt->metric_kinds = std::make_shared<scc::MetricKindMap>();
    (*opt->metric_kinds)["int_delta"] = MetricDescriptor::DELTA;
    ticker = c21 ? s.Chance(1, 3) : s.Chance(3, 4);
    if (ticker)
      opt->periodic_timer = [this](int, std::function<void()> f) { tick = f; return std::unique_ptr<scc::PeriodicTimer>(new Timer(this)); };
    int ncallers = c21 ? s.Range(2, 6) : s.Range(2, 4);
    int ncompleters = s.Range(c21 ? 1 : 0, c21 ? 3 : 2);
    inplace_pct = ncompleters ? s.OneOf({c21 ? 10 : 30, 0, 60}) : 100;
    fail_pct = s.OneOf({15, 0, 50});
    wait_pct = s.OneOf({0, 50});
    advance_max = s.OneOf({1, 10, 40});
    end_mode = c.Focus("C11") ? s.Pick({1, 3, 3}) : c.Focus("C12") ? s.Pick({8, 1, 1}) : s.Pick({3, 2, 2});
    ticker_us = s.OneOf({100, 20, 400});
    g_perturb = s.OneOf({0, 20, 100, 300});
    case_seed = s.Bits64();
#ifdef VP_SCHED
    sched::Config schedule;
    schedule.seed = case_seed;
    int how = s.Pick({5, 2, 2, 2});
    if (how == 0) {
      while (s.More(schedule.nchange, 8, 60)) {
        pbt::Span sp(s);
        int bits = s.Range(0, 13);
        schedule.gap[schedule.nchange] = 1 + s.Below(1ull << bits);
        schedule.target[schedule.nchange++] = s.Below(24);
      }
    } else {
      if (how != 2) schedule.p_sync = s.OneOf({50, 200, 500});
      if (how != 1) schedule.p_block = s.OneOf({1, 5, 30});
    }
    c.Label(how == 0 ? "schedules by priority with chosen preemptions" : "schedules with random switches");
#endif
    if (c.Focus("C28")) {
      c.any = true;
      step_pct = s.OneOf({30, 10, 60});
      leaps = s.Chance(1, 3);
      if (leaps) for (bool& x : roomy) x = false;   // months may have passed
    }
    bool count = c.Focus("C12") || s.Chance(1, 2);
    int quota_bits[3] = {0, 0, 0};
    int avg = s.OneOf({10, 3, 2, 20});
    if (s.Chance(1, 2)) { hot = s.Below(4); hot_mode = s.Chance(1, 2) ? s.Pick({4, 1, 2}) : -1; }
    programs.resize(ncallers);
    for (int i = 0; i < ncallers; ++i) {
      pbt::Span sp(s);
      while (s.More(programs[i].size(), avg, 40)) {
        pbt::Span sp2(s);
        programs[i].push_back(GenCall(true, end_mode == 0, quota_bits));
      }
    }
#ifdef VP_SCHED
    PBT_LOG(c, "schedule: %d chosen preemptions, switching at %d/1000 of the synchronisations and %d/1000 of the other points", schedule.nchange, schedule.p_sync, schedule.p_block);
#endif
    PBT_LOG(c, "entries/intervals: check %d %d %d, quota %d %d %d, report %d %d; %d callers, %d completers, ticker %d, in place %d%%, failing %d%%, end mode %d, perturbation %d/1000",
            opt->check_options.num_entries, cf, ce, opt->quota_options.num_entries, qr, qe, opt->report_options.num_entries, opt->report_options.flush_interval_ms,
            ncallers, ncompleters, ticker, inplace_pct, fail_pct, end_mode, g_perturb);
    for (int i = 0; i < ncallers; ++i)
      for (auto& call : programs[i])
        PBT_LOG(c, "thread %d: %s%s%s%s%s call %d, identity %d%s", i, call->sync ? "sync " : "", call->invalid ? "invalid " : "", call->high ? "important " : "", call->own ? "own-transport " : "", kName[call->kind], call->no, call->ident,
                call->nested ? (", then " + std::string(kName[call->nested->kind]) + " " + std::to_string(call->nested->no)).c_str() : "");

    if (c.Focus("C27")) {
      c.any = true;
      for (int n = s.Range(1, 2); n > 0; --n) {
        auto o = std::make_unique<Neighbour>();
        int i = others.size();
        o->cfg = s.Chance(1, 2) ? "cfg" : "cfgn" + std::to_string(i);
        int f = s.OneOf({5, 20, 1000000, 1}), q = s.OneOf({5, 20, 1000000});
        o->opt.reset(new scc::ServiceControlClientOptions(scc::CheckAggregationOptions(s.OneOf({1000, 1, 2, 0}), f, f + s.OneOf({20, 5, 100000000})),
                                                          scc::QuotaAggregationOptions(s.OneOf({1000, 1, 2, 0}), q, q + s.OneOf({20, 5, 100000000})),
                                                          scc::ReportAggregationOptions(s.OneOf({1000, 1, 2, 0}), s.OneOf({5, 20, 1000000, 1}))));
        PBT_LOG(c, "another client (%s): check %d %d %d, quota %d %d %d, report %d %d", o->cfg.c_str(), o->opt->check_options.num_entries, o->opt->check_options.flush_interval_ms, o->opt->check_options.expiration_ms,
                o->opt->quota_options.num_entries, o->opt->quota_options.refresh_interval_ms, o->opt->quota_options.expiration_interval_ms, o->opt->report_options.num_entries, o->opt->report_options.flush_interval_ms);
        while (s.More(o->steps.size(), 10, 40)) {
          pbt::Span sp(s);
          Neighbour::Step x{s.Pick({6, 4, 6, 2, 1}), (int)s.Below(3), s.Range(1, 1000)};
          static const char* kWhat[] = {"check", "quota", "report", "tick", "new client"};
          PBT_LOG(c, "another client, step %zu: %s, identity %d", o->steps.size(), kWhat[x.what], x.ident);
          o->steps.push_back(x);
        }
        others.push_back(std::move(o));
      }
    }

    // Run.
    for (int i = 0; i < ncompleters; ++i) queues.push_back(std::make_unique<Queue>());
    recs.push_back(std::make_unique<Recorder>());
    Recorder* mine = recs.back().get();
    Rng mine_rng(case_seed);
    t_rng = &mine_rng; t_rec = mine;
#ifdef VP_SCHED
    sched::Begin(schedule);
#endif
    client = scc::CreateServiceControlClient("svc", "cfg", *opt);
    std::vector<sched::Thread> callers, completers;
    for (int i = 0; i < ncompleters; ++i) completers.push_back(Spawn([this, i] { Completer(i); }));
    if (tick) ticker_thread = Spawn([this] { Ticker(); });
    std::vector<sched::Thread> neighbours;
    for (auto& o : others) { Neighbour* n = o.get(); neighbours.push_back(Spawn([n] { n->Main(); })); }
    for (int i = 0; i < ncallers; ++i) callers.push_back(Spawn([this, i] { Caller(i); }));
    for (auto& t : callers) t.join();
    auto join = [&] { stop_completers.store(true, kRelaxed); for (auto& t : completers) t.join(); completers.clear(); };
    bool overlap = false;
    if (end_mode == 0) {
      join();
      Drain();   // callbacks may have made calls whose requests were queued again
      if (count) {   // nothing is going on: the statistics are exact
        StopTicker();
        Drain();
        CheckCounts();
      }
      destroy_seq = Seq();
      client.reset();
    } else if (end_mode == 1) {
      overlap = ncompleters > 0;
      destroy_seq = Seq();
      client.reset();
      join();
    } else {
      // Leave some for later: pull what is queued while the completers stop.
      std::vector<std::unique_ptr<Flight>> later;
      for (auto& q : queues) { std::lock_guard<std::mutex> l(q->m); for (auto& f : q->q) later.push_back(std::move(f)); q->q.clear(); }
      join();
      destroy_seq = Seq();
      client.reset();
      size_t half = later.size() / 2;
      std::vector<sched::Thread> ts;
      for (int k = 0; k < 2; ++k)
        ts.push_back(Spawn([this, &later, half, k] { for (size_t i = k ? half : 0; i < (k ? later.size() : half); ++i) Complete(std::move(later[i])); }));
      for (auto& t : ts) t.join();
    }
    // What destruction sent may be queued as well.
    Drain();
    tick = nullptr;
    for (auto& t : neighbours) t.join();
#ifdef VP_SCHED
    sched::Finish();
    c.Label("preemptions", sched::g.preemptions);
    c.Label("switches", sched::g.switches);
    c.Label("possible switch points", sched::g.step);
#endif
    t_rng = nullptr; t_rec = nullptr;
    Balance(overlap);
  }

  // ---- the balance -----------------------------------------------------------
  void Fail(const char* tags, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    c.Fail(tags, "%s", buf);
  }
  void Balance(bool overlap) {
    const char* both = "C20 C21";
    for (auto& r : recs) for (auto& e : r->errors) Fail(e.first, "%s", e.second.c_str());
    std::map<std::string, const Answer*> by_id;
    std::vector<const Answer*> answers;
    uint64_t inplace = 0, deferred = 0, waited = 0;
    for (auto& r : recs) {
      for (auto& a : r->answers) { by_id[a.id] = &a; answers.push_back(&a); }
      inplace += r->n_inplace; deferred += r->n_deferred; waited += r->n_waited;
    }
    std::map<int, int> direct, flushed_check;
    std::map<std::pair<int, std::string>, int> flushed_report;
    std::map<int, std::map<uint64_t, int>> quota_verbatim;
    uint64_t agg_bits[3] = {0, 0, 0}, verb_bits[3] = {0, 0, 0};
    uint64_t flushes = 0, report_ops_direct = 0, multi = 0;
    std::vector<const Sent*> qsent;
    for (auto& r : recs)
      for (auto& x : r->sent) {
        if (x.direct) { direct[x.call]++; continue; }
        ++flushes;
        if (x.kind == kQuota) {
          qsent.push_back(&x);
          if (x.ident < 0 || x.ident > 2) { Fail(both, "a quota request for an unknown method was sent"); continue; }
          if (x.call >= 0) verb_bits[x.ident] |= x.tokens;
          else {
            if (agg_bits[x.ident] & x.tokens) Fail("C20", "quota tokens %llx of method m%d were sent twice", (unsigned long long)(agg_bits[x.ident] & x.tokens), x.ident);
            agg_bits[x.ident] |= x.tokens;
          }
          continue;
        }
        for (auto& o : x.ops) {
          int64_t want = 0;
          for (int id : o.ids) {
            if (id < 1 || id > (int)all.size()) { Fail("C20", "a flushed %s has an unknown log entry", kName[x.kind]); continue; }
            Call* call = all[id - 1];
            want += call->value;
            if (call->kind != x.kind) Fail("C20", "call %d was flushed as a %s", id, kName[x.kind]);
            if (x.kind == kCheck) {
              flushed_check[id]++;
              if (o.ident != IdentName(kCheck, call->ident)) Fail("C20", "check call %d for %s was flushed under %s", id, IdentName(kCheck, call->ident).c_str(), o.ident.c_str());
            } else {
              flushed_report[{id, o.ident}]++;
            }
          }
          if (o.ids.size() > 1) ++multi;
          if (o.sum != want) Fail("C20", "a flushed %s for %s adds up to %lld, its %zu calls to %lld", kName[x.kind], o.ident.c_str(), (long long)o.sum, o.ids.size(), (long long)want);
          if (x.kind == kReport && o.dist_count != (int64_t)o.ids.size()) Fail("C20", "a flushed report for %s counts %lld samples, its calls %zu", o.ident.c_str(), (long long)o.dist_count, o.ids.size());
        }
      }
    (void)report_ops_direct;
    uint64_t n_cached = 0, n_sync_sent = 0, n_direct = 0;
    for (Call* call : all) {
      bool issued = call->begin != 0;
      const char* k = kName[call->kind];
      if (!issued) continue;
      if (call->done.load() != 1) { Fail("C20 C21 C11", "the callback of %s call %d ran %d times", k, call->no, call->done.load()); continue; }
      int d = direct[call->no];
      if (call->invalid) {
        if (call->code != StatusCode::kInvalidArgument) Fail(both, "invalid %s call %d got code %d", k, call->no, (int)call->code);
        if (d || flushed_check[call->no]) Fail(both, "invalid %s call %d was sent", k, call->no);
        continue;
      }
      bool must = call->high || (call->kind == kCheck ? opt->check_options.num_entries : call->kind == kQuota ? opt->quota_options.num_entries : opt->report_options.num_entries) <= 0;
      if (must && d != 1) Fail(both, "%s call %d had to be sent once, was sent %d times", k, call->no, d);
      if (d) {
        ++n_direct;
        if (call->sync) ++n_sync_sent;
        if (call->code != call->want_code || call->msg != call->want_msg)
          Fail(both, "%s call %d got status %d '%s', its completion had %d '%s'", k, call->no, (int)call->code, call->msg.c_str(), (int)call->want_code, call->want_msg.c_str());
        else if (Det(*call->resp) != call->want_resp)
          Fail(both, "%s call %d got another response than its completion delivered: %s", k, call->no, Short(*call->resp).c_str());
      } else {
        ++n_cached;
        if (call->code != StatusCode::kOk) Fail(both, "cached %s call %d got code %d '%s'", k, call->no, (int)call->code, call->msg.c_str());
        if (call->kind != kReport) CachedAnswer(call, by_id, answers);
      }
      if (call->kind == kCheck) {
        int n = flushed_check[call->no];
        bool pass = static_cast<CheckResponse&>(*call->resp).check_errors_size() == 0;
        int lo = 0, hi = 0;
        if (d) hi = must ? 0 : 1;
        else if (pass) lo = hi = 1;
        if (n > hi) Fail("C20", "check call %d (%s) was flushed %d times, at most %d expected", call->no, d ? "sent" : pass ? "admitted" : "denied", n, hi);
        if (n < lo) Fail("C20 C11", "the usage of check call %d, admitted from cache, was never sent%s", call->no, overlap ? " (destroyed during completions)" : "");
      }
      if (call->kind == kReport) {
        for (int i = 0; i < call->nops; ++i) {
          int ident = i == 0 ? call->ident : (call->ident + i) % 3;
          int n = flushed_report[{call->no, IdentName(kReport, ident)}], want = d ? 0 : 1;
          if (n != want) Fail("C20 C11", "operation %d of report call %d (%s) was flushed %d times", i, call->no, d ? "sent" : "cached", n);
        }
      }
      if (call->kind == kQuota && !d) {
        // Tokens of a denied call are never sent, those of others at most once (above).
        bool pass = static_cast<AllocateQuotaResponse&>(*call->resp).allocate_errors_size() == 0;
        if (!pass && (agg_bits[call->ident] | verb_bits[call->ident]) & call->value) Fail("C20", "tokens of the denied quota call %d were sent", call->no);
        if ((agg_bits[call->ident] & verb_bits[call->ident]) & call->value) Fail("C20", "tokens of quota call %d were sent both as initial request and aggregated", call->no);
      }
    }
    // With room for everything and no expiry, one allocation at a time per method.
    if (roomy[kQuota]) {
      for (size_t i = 0; i < qsent.size(); ++i)
        for (size_t j = 0; j < qsent.size(); ++j) {
          if (i == j || qsent[i]->ident != qsent[j]->ident) continue;
          uint64_t e = qsent[i]->end->load();
          if (qsent[i]->begin < qsent[j]->begin && (e == 0 || e > qsent[j]->begin)) { Fail("C20", "two allocations for method m%d were outstanding at once", qsent[i]->ident); break; }
        }
    }
    // Nothing leaves a cache with room for everything before it is due or the client is destroyed.
    const bool calm[3] = {roomy[kCheck], roomy[kQuota] && opt->quota_options.refresh_interval_ms >= 1000000,
                          roomy[kReport] && opt->report_options.flush_interval_ms >= 1000000};
    int ncheck[3] = {0, 0, 0}, nquota[3] = {0, 0, 0}, nreport = 0;
    for (auto& r : recs)
      for (auto& x : r->sent) {
        if (x.direct || !calm[x.kind] || x.ident > 2) continue;
        size_t most = 0;
        for (auto& o : x.ops) most = std::max(most, o.ids.size());
        if (x.kind == kReport ? most < 100 && ++nreport > 1 : x.kind == kCheck ? x.ident >= 0 && ++ncheck[x.ident] > 1 : x.ident >= 0 && ++nquota[x.ident] > 1)
          Fail("C20", "a cache with room for everything and nothing due sent %s twice", x.kind == kReport ? "reports" : IdentName(x.kind, x.ident).c_str());
        if (x.kind != kQuota && x.begin < destroy_seq && most < 100)
          Fail("C20", "a cache with room for everything sent %s%s although nothing was due", kName[x.kind], x.kind == kCheck ? (" identity " + std::to_string(x.ident)).c_str() : "");
      }
    // With room for everything and no expiry, a cached check identity is refreshed at most once per interval.
    if (roomy[kCheck] && !overlap) {
      for (int id = 0; id < 3; ++id) {
        uint64_t first = 0;
        for (auto* a : answers) if (a->kind == kCheck && a->ident == id && (!first || a->end < first)) {
          first = a->end;
        }
        if (!first) continue;
        int64_t n = 0, max = total_advance.load() / 1000 / opt->check_options.flush_interval_ms;
        for (Call* call : all) if (call->kind == kCheck && call->ident == id && !call->high && !call->invalid && call->begin > first && direct[call->no]) ++n;
        if (n > max) Fail("C20", "cached check identity %d was sent %lld times for refresh, at most %lld intervals had passed", id, (long long)n, (long long)max);
      }
    }
    // Likewise a quota method, by a call and by the timer.
    if (roomy[kQuota] && !overlap) {
      int64_t n[3] = {0, 0, 0}, max = total_advance.load() / 1000 / opt->quota_options.refresh_interval_ms;
      for (auto* x : qsent) if (x->ident >= 0 && x->ident < 3) ++n[x->ident];
      for (int id = 0; id < 3; ++id)
        if (n[id] > 2 * max + 2) Fail("C20", "quota method m%d was sent %lld times, although only %lld intervals had passed", id, (long long)n[id], (long long)max);
    }
    uint64_t n = 0;
    for (Call* call : all) n += call->begin != 0;
    c.Label("calls", n);
    c.Label("answered from cache", n_cached);
    c.Label("sent to the server", n_direct);
    c.Label("blocking calls sent", n_sync_sent);
    c.Label("completed in place", inplace);
    c.Label("completed by another thread", deferred);
    c.Label("transport waited for its completion", waited);
    c.Label("flushed requests", flushes);
    c.Label("flushed operations of several calls", multi);
    c.Label(end_mode == 0 ? "destroyed after all completions" : end_mode == 1 ? "destroyed during completions" : "destroyed before completions");
    if (ticker) c.Label("cases with a timer thread");
    if (!others.empty()) {
      bool all = true;
      uint64_t flushed = 0, cached = 0;
      for (auto& o : others) { flushed += o->n_flush; cached += o->n_cached; all = all && o->n_flush; }
      c.Label("requests flushed by other clients", flushed);
      c.Label("checks other clients answered from cache", cached);
      c.nontrivial = all && flushes >= 1 && n_cached >= 1;
      return;
    }
    if (n_back) c.Label("clock set back", n_back);
    if (leaps) c.Label("cases with leaps ahead");
    if (c.Focus("C28")) { c.nontrivial = n_back && flushes >= 1 && n_cached >= 1; return; }
    c.nontrivial = c.Focus("C21") ? n_sync_sent >= 2 && deferred >= 2 : n_cached >= 2 && flushes >= 1 && deferred + inplace >= 2;
  }
  // A cached answer is one delivered for the identity, and not one that had
  // been replaced before the call began.
  void CachedAnswer(Call* call, std::map<std::string, const Answer*>& by_id, const std::vector<const Answer*>& answers) {
    std::string id = call->kind == kCheck ? static_cast<CheckResponse&>(*call->resp).operation_id() : static_cast<AllocateQuotaResponse&>(*call->resp).operation_id();
    if (id.empty()) {
      if (call->kind == kCheck) Fail("C20 C21", "check call %d was answered from cache without a response", call->no);
      return;   // quota: the answer before the first response arrives, or fail open
    }
    auto it = by_id.find(id);
    if (it == by_id.end() || it->second->kind != call->kind) { Fail("C20 C21", "%s call %d was answered with the unknown response %s", kName[call->kind], call->no, id.c_str()); return; }
    const Answer* a = it->second;
    if (a->ident != call->ident) { Fail("C20 C21", "%s call %d for identity %d was answered with a response for identity %d", kName[call->kind], call->no, call->ident, a->ident); return; }
    bool pass = call->kind == kCheck ? static_cast<CheckResponse&>(*call->resp).check_errors_size() == 0 : static_cast<AllocateQuotaResponse&>(*call->resp).allocate_errors_size() == 0;
    if (pass != a->pass) { Fail("C20 C21", "%s call %d was answered with a changed response", kName[call->kind], call->no); return; }
    if (a->begin > call->end) { Fail("C20", "%s call %d was answered from the future", kName[call->kind], call->no); return; }
    for (auto* b : answers)
      if (b->kind == a->kind && b->ident == a->ident && b->begin > a->end && b->end < call->begin) {
        Fail("C20", "%s call %d was answered with %s although %s had replaced it", kName[call->kind], call->no, a->id.c_str(), b->id.c_str());
        return;
      }
  }
};

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  vclock::Start();
#ifdef VP_SCHED
  g_seq = 1;
#endif
  vclock::g_hook = Perturb;
  Run* run = new Run(s, c);
  run->Go();
  if (!c.failed) delete run;
  g_perturb = 0;
}

#ifdef VP_SCHED
#define HOW "under a generated schedule: one thread runs at a time and may be switched at every basic block, lock and atomic operation, either at chosen points (up to 60, anywhere) or at random with a chosen density"
#else
#define HOW "on the system's scheduler, perturbed at allocations and clock reads"
#endif
const char* PbtRule(const std::string& p) {
  return p == "C28"
    ? "Programs as for C20 in which callers and the timer thread set the clock back (by a microsecond up to a month) and, in some cases, ahead by as much; assertions are compiled out as in a release build; " HOW ". Non-trivial: the clock was set back, something was flushed and something answered from cache."
    : p == "C27"
    ? "Programs of 2-4 caller threads on one client, as for C20, and 1-2 further clients, each used by a thread of its own, replaced by new ones and destroyed meanwhile; " HOW ". Non-trivial: every client flushed something and the first one answered from cache."
    : p == "C21"
    ? "Programs of 2-6 threads, mostly blocking calls, on one client; 1-3 completer threads complete them in random order, sometimes before the transport returns; " HOW ". Non-trivial: at least two blocking calls were sent and at least two completions came from other threads."
    : "Programs of 2-4 caller threads (async, blocking, nested, per-request transports, statistics) on one client with a timer thread, 0-2 completer threads and destruction before, during or after the last completions; " HOW ". Non-trivial: at least two calls answered from cache, at least one flush and at least two completions.";
}
#include "pbt.h"
