// C01, C09-C12, C22-C24: whole clients under generated call histories, transport
// behaviour, timer ticks and destruction, against models of the three caches.
#include <limits.h>
#include <functional>
#include "cache_models.h"
#include "track.h"
#include "src/service_control_client_factory_impl.h"

typedef google::protobuf::Message Message;
static const char* const kSend = "C01 C09 C10 C11 C22 C23 C24";

struct Run;

struct Timer : scc::PeriodicTimer {
  explicit Timer(int* stops) : stops(stops) {}
  void Stop() override { ++*stops; }
  int* stops;
};

struct Call {
  int no;
  Kind kind;
  bool sync = false;
  int tid = 0;                        // transport to use, 0: the configured one
  std::unique_ptr<Message> req, resp;
  std::string req_det;
  bool direct = false;                // has to go to the server
  bool in_api = false;
  int sent = 0, done = 0;
  bool completing = false;
  Status want;                        // status it has to get
  bool want_message = false;
  std::string want_resp;
  bool check_resp = false;
};

struct Flight {
  Kind kind;
  Call* call = nullptr;               // null: sent by a flush
  const Message* req = nullptr;       // must stay readable until completion
  std::string req_det;
  std::unique_ptr<Message> copy;
  Message* resp = nullptr;
  scc::TransportDoneFunc done;
};

struct Run {
  pbt::Src& s;
  pbt::Ctx& c;
  scc::ServiceControlClientOptions opt;
  std::shared_ptr<KindMap> kinds;
  std::unique_ptr<scc::ServiceControlClient> client;
  CheckModel check;
  QuotaModel quota;
  ReportModel report;
  bool has[3];                        // configured transports
  Dues due;
  std::vector<std::unique_ptr<Call>> calls;
  std::vector<Call*> stack;           // calls being made
  std::vector<std::unique_ptr<Flight>> flights;
  scc::Statistics want{}, last{};
  bool alive = true, in_dtor = false;
  static inline int frozen = 0;       // time must not pass now
  Run* other = nullptr;               // C27: another client
  const char* cfg = "cfg";
  std::string tag;                    // C27: which client, for the trace
  int api_depth = 0, serial = 0, cb_depth = 0, tid_serial = 0;
  int inplace_pct = 30, fail_pct = 20, nest_pct = 15, slow_pct = 20, slow_ms = 30, nest_max = 3;
  // timer
  std::shared_ptr<int> token = std::make_shared<int>(0);   // captured by everything handed to the client
  int timers = 0, stops = 0, timer_ms = 0;
  std::function<void()> tick;
  bool timer_null = false, auto_ticks = false;
  int64_t until_tick = 0;
  // what happened
  uint64_t n_direct = 0, n_cached = 0, n_failed = 0, n_deferred = 0, n_flush = 0, n_tick_sent = 0, n_nested = 0, n_inplace = 0, n_late = 0, n_dtor_sent = 0,
           n_sync = 0, n_rejected = 0, n_multi = 0, n_disabled = 0, n_crossed = 0, n_late_tick = 0, n_own = 0, n_failed_quota_flush = 0, n_slow = 0, n_empty = 0;

  Run(pbt::Src& s, pbt::Ctx& c, scc::ServiceControlClientOptions o) : s(s), c(c), opt(o) {
    kinds = opt.metric_kinds;
    opt.metric_kinds = Given(kinds);
    check = CheckModel{opt.check_options.num_entries, opt.check_options.flush_interval_ms, opt.check_options.expiration_ms, kinds.get()};
    quota = QuotaModel{opt.quota_options.num_entries, opt.quota_options.refresh_interval_ms, opt.quota_options.expiration_interval_ms};
    report = ReportModel{opt.report_options.num_entries, opt.report_options.flush_interval_ms, kinds.get()};
  }
  bool Disabled(Kind k) { return (k == kCheck ? check.num : k == kQuota ? quota.num : report.num) <= 0; }
  bool Pct(int p) { return (int)s.Below(100) >= 100 - p; }

  // ---- time ----------------------------------------------------------------
  // Every step adds one microsecond, so no age is ever a whole interval.
  void Advance(int64_t ms) {
    if (auto_ticks && tick && alive && api_depth == 0 && ms / std::max(1, timer_ms) <= 12) {
      while (ms > 0 && alive && !c.stop) {
        int64_t d = std::min(ms, until_tick);
        vclock::AdvanceUs(d * 1000 + 1);
        ms -= d;
        until_tick -= d;
        if (until_tick == 0) { until_tick = timer_ms; Tick(); }
      }
      return;
    }
    vclock::AdvanceUs(ms * 1000 + 1);
    until_tick = std::max<int64_t>(1, until_tick - ms);
  }

  // ---- model side ----------------------------------------------------------
  void AddDue(Dues d) {
    for (auto& x : d) {
      if (alive && has[x.kind]) { due.push_back(x); continue; }
      // Without a transport a flushed quota request fails open at once.
      if (alive && x.kind == kQuota) { Dues more; quota.Answer(x.id, AllocateQuotaResponse(), &more); AddDue(more); }
    }
  }
  std::string ShowDue(const Due& d) {
    return std::string(kKindName[d.kind]) + " " + d.id + (d.op ? " (first operation " + d.op->base.operation_id() + ")" : d.verbatim ? " (initial request)" : " (aggregated tokens)");
  }

  // ---- transports ----------------------------------------------------------
  void OnTransport(Kind kind, int tid, const Message& req, Message* resp, scc::TransportDoneFunc done) {
    track::Out out;
    auto f = std::make_unique<Flight>();
    f->kind = kind;
    f->copy.reset(req.New());
    f->copy->CopyFrom(req);
    f->req_det = Det(req);
    f->resp = resp;
    f->done = std::move(done);
    PBT_LOG(c, "%*s-> transport %d of %s: %s", api_depth, "", tid, kKindName[kind], Short(req, 600).c_str());
    if (!alive) { c.Fail("C11 C01", "the %s transport was called after the client was destroyed: %s", kKindName[kind], Short(req).c_str()); return; }
    for (size_t i = stack.size(); i-- > 0;)
      if (stack[i]->resp.get() == resp) f->call = stack[i];
    if (!f->done) c.Fail("C09", "the transport was called without a completion callback");
    bool sync = false;
    if (f->call) {
      Call* call = f->call;
      if (!call->direct) c.Fail(call->kind == kReport ? "C01 C09 C24" : call->kind == kCheck ? "C04 C05 C09 C10 C23 C24" : "C06 C08 C09 C10 C23 C24",
                                "%s call %d was sent to the server, expected status %d at once", kKindName[kind], call->no, (int)call->want.code());
      else if (call->sent++) c.Fail("C01 C09 C12 C24", "%s call %d was sent twice", kKindName[kind], call->no);
      else if (tid != call->tid) c.Fail("C09 C24", "%s call %d was sent through transport %d, expected %d", kKindName[kind], call->no, tid, call->tid);
      else if (f->req_det != call->req_det) c.Fail("C01 C09 C24", "%s call %d was sent as %s, the caller's request is %s", kKindName[kind], call->no, Short(req).c_str(), Short(*call->req).c_str());
      f->req = &req;
      sync = call->sync;
      ++n_direct;
      if (tid) ++n_own;
      (kind == kCheck ? want.send_checks_in_flight : kind == kQuota ? want.send_quotas_in_flight : want.send_reports_in_flight)++;
    } else {
      if (tid != 0) c.Fail("C09 C24", "a flushed %s was sent through per-request transport %d", kKindName[kind], tid);
      MatchFlush(kind, req);
      if (kind == kQuota) f->req = &req;
      ++n_flush;
      if (in_dtor) ++n_dtor_sent;
      (kind == kCheck ? want.send_checks_by_flush : kind == kQuota ? want.send_quotas_by_flush : want.send_reports_by_flush)++;
    }
    if (kind == kReport) want.send_report_operations += static_cast<const ReportRequest&>(req).operations_size();
    if (c.stop) { if (sync) f->done(OkStatus()); return; }
    // Behaviour of this transport call.
    bool here = sync || Pct(inplace_pct);
    if (!here) { ++n_deferred; flights.push_back(std::move(f)); return; }
    ++n_inplace;
    if (frozen == 0 && Pct(slow_pct)) { int64_t ms = s.Range(1, slow_ms); PBT_LOG(c, "%*s   takes %lld ms", api_depth, "", (long long)ms); Advance(ms); ++n_slow; }
    if (!in_dtor && !flights.empty() && Pct(15)) { ++n_crossed; size_t i = s.Below(flights.size()); auto o = std::move(flights[i]); flights.erase(flights.begin() + i); Complete(std::move(o)); }
    Complete(std::move(f));
  }
  void MatchFlush(Kind kind, const Message& req) {
    if (std::string(cfg) != "cfg") {   // compared as if it were the first client
      const google::protobuf::Reflection* rf = req.GetReflection();
      const google::protobuf::FieldDescriptor* fd = req.GetDescriptor()->FindFieldByName("service_config_id");
      std::string id = rf->GetString(req, fd);
      std::unique_ptr<Message> m(req.New());
      m->CopyFrom(req);
      rf->SetString(m.get(), fd, id == cfg ? "cfg" : id == "cfg" ? "another client's" : id);
      MatchFlush1(kind, *m);
    } else {
      MatchFlush1(kind, req);
    }
  }
  void MatchFlush1(Kind kind, const Message& req) {
    if (kind == kReport) {
      auto& r = static_cast<const ReportRequest&>(req);
      if (r.operations_size() < 1 || r.operations_size() > 10) c.Fail("C02 C01", "a flushed report has %d operations", r.operations_size());
      if (r.service_name() != "svc" || r.service_config_id() != "cfg") c.Fail("C02", "a flushed report has a wrong service name or config id");
      for (auto& op : r.operations()) {
        std::string why;
        size_t i = 0;
        for (; i < due.size(); ++i) {
          if (due[i].kind != kReport) continue;
          std::string d = DiffOp(*due[i].op, op);
          if (d.empty()) break;
          if (due[i].id == ReportIdOf(op)) why = d;
        }
        if (i < due.size()) due.erase(due.begin() + i);
        else c.Fail("C01 C02 C09 C11 C22 C23 C24", "flushed report operation %s: %s", Short(op).c_str(), why.empty() ? "not due" : why.c_str());
      }
      return;
    }
    std::string why;
    for (size_t i = 0; i < due.size(); ++i) {
      if (due[i].kind != kind) continue;
      std::string d = DiffDue(due[i], req);
      if (d.empty()) { due.erase(due.begin() + i); return; }
      why = d + " (" + ShowDue(due[i]) + ")";
    }
    c.Fail(std::string(kSend) + (kind == kCheck ? " C05" : " C06 C07 C08"), "flushed %s request %s: %s", kKindName[kind], Short(req).c_str(), why.empty() ? "not due" : why.c_str());
  }

  // ---- completion ----------------------------------------------------------
  std::unique_ptr<Message> GenResponse(Kind k) {
    pbt::Span sp(s);
    std::string id = "resp" + std::to_string(serial++);
    int errors = s.Pick({4, 2, 1});
    if (s.Chance(1, 12)) id.clear();     // with no errors, a response without any content
    if (k == kCheck) {
      auto r = std::make_unique<CheckResponse>();
      r->set_operation_id(id);
      while (errors-- > 0) r->add_check_errors()->set_code(GenCheckCode(s));
      return r;
    }
    if (k == kQuota) {
      auto r = std::make_unique<AllocateQuotaResponse>();
      r->set_operation_id(id);
      while (errors-- > 0) r->add_allocate_errors()->set_code(GenQuotaCode(s));
      return r;
    }
    auto r = std::make_unique<ReportResponse>();
    if (s.Chance(1, 2)) r->add_report_errors()->set_operation_id(id);
    return r;
  }
  void Complete(std::unique_ptr<Flight> f) {
    pbt::Span sp(s);
    bool fail = Pct(fail_pct);
    std::unique_ptr<Message> resp = GenResponse(f->kind);
    Status st;
    if (fail) {
      st = Status((StatusCode)s.Range(1, 16), s.Chance(1, 8) ? "" : "failure " + std::to_string(serial));
      ++n_failed;
    }
    if (!fail || s.Chance(1, 3)) f->resp->CopyFrom(*resp);
    if (f->req && Det(*f->req) != f->req_det) c.Fail("C09 C23", "the request of an outstanding %s call has changed: %s", kKindName[f->kind], Short(*f->req).c_str());
    Call* call = f->call;
    PBT_LOG(c, "%*scomplete %s %s: code %d %s", api_depth, "", call ? "call" : "flushed", call ? std::to_string(call->no).c_str() : kKindName[f->kind], (int)st.code(), Short(*f->resp).c_str());
    // What the client makes of it.
    Dues d;
    if (f->kind == kCheck && call && st.ok() && alive) check.Answer(static_cast<CheckRequest&>(*f->copy), static_cast<CheckResponse&>(*resp), &d);
    if (f->kind == kQuota && alive) {
      std::string id = QuotaId(static_cast<AllocateQuotaRequest&>(*f->copy));
      if (!st.ok()) ++n_failed_quota_flush;
      quota.Answer(id, st.ok() ? static_cast<AllocateQuotaResponse&>(*resp) : AllocateQuotaResponse(), &d);
    }
    AddDue(d);
    if (call) {
      call->completing = true;
      call->want = st;
      call->want_message = true;
      if (st.ok()) { call->want_resp = Det(*resp); call->check_resp = true; }
      else { call->want_resp = Det(*f->resp); call->check_resp = true; }   // whatever the transport left
    }
    if (!alive) ++n_late;
    ++api_depth;
    scc::TransportDoneFunc done = std::move(f->done);
    bool top = api_depth == 1;
    f.reset();
    if (done) { track::In in; done(st); }
    done = nullptr;
    --api_depth;
    if (call) {
      if (call->done != 1 && !call->sync) c.Fail("C09 C10 C11 C23 C24", "the callback of %s call %d ran %d times after its completion", kKindName[call->kind], call->no, call->done);
      call->completing = false;
    }
    if (top) Quiet("completion");
  }

  // ---- calls ---------------------------------------------------------------
  static void Note(Run* r, Call* call, const Status& st) { r->OnDone(call, st); }
  void OnDone(Call* call, const Status& st) {
    track::Out out;
    PBT_LOG(c, "%*s   callback of call %d: code %d", api_depth, "", call->no, (int)st.code());
    if (call->done++) { c.Fail("C09 C10 C11 C23 C24", "the callback of %s call %d ran twice", kKindName[call->kind], call->no); return; }
    CheckResult(call, st);
    call->req.reset();
    // The response is the caller's again: it may be changed or freed.
    if (s.Chance(1, 3)) call->resp.reset();
    else if (s.Chance(1, 2)) call->resp = nullptr, call->resp = GenResponse(call->kind);
    if (c.stop) return;
    // The caller reacts: more calls, or the end of the client.
    if (other && other->api_depth == 0 && s.Chance(1, 12)) {   // another client comes or goes
      if (!other->started) { PBT_LOG(c, "   (starts the other client)"); other->Begin(); n_nested_life++; }
      else if (other->alive && s.Chance(1, 3)) { PBT_LOG(c, "   (destroys the other client)"); other->Destroy(); n_nested_life++; }
      if (c.stop) return;
    }
    if (alive && !in_dtor && cb_depth < nest_max && Pct(nest_pct)) {
      ++cb_depth; ++n_nested;
      for (int n = cb_depth > 3 ? 1 : s.Range(1, 2); n > 0 && !c.stop; --n) {
        if (other && other->alive && !other->in_dtor && other->cb_depth < 3 && s.Chance(1, 3)) { ++other->cb_depth; PBT_LOG(c, "   (on the other client:)"); other->DoCall(); --other->cb_depth; } else DoCall();
      }
      --cb_depth;
    } else if (alive && !in_dtor && api_depth == 1 && call->completing && stack.empty() && s.Chance(1, 40)) {
      PBT_LOG(c, "   (destroys the client from a completion)");
      --api_depth;
      Destroy();
      ++api_depth;
    }
  }
  void CheckResult(Call* call, const Status& st) {
    if (call->direct && !call->completing) {
      c.Fail(call->kind == kCheck ? "C04 C09 C10 C23 C24" : call->kind == kQuota ? "C06 C09 C10 C23 C24" : "C01 C09 C10 C23 C24", "%s call %d completed with code %d without a completion of its transport", kKindName[call->kind], call->no, (int)st.code());
      return;
    }
    if (!call->direct && !call->in_api) c.Fail("C09", "%s call %d completed late", kKindName[call->kind], call->no);
    if (st.code() != call->want.code() || (call->want_message && st.message() != call->want.message()))
      c.Fail("C09 C10 C24", "%s call %d completed with code %d '%s', expected %d '%s'", kKindName[call->kind], call->no, (int)st.code(), std::string(st.message()).c_str(),
             (int)call->want.code(), std::string(call->want.message()).c_str());
    else if (call->check_resp && Det(*call->resp) != call->want_resp)
      c.Fail(call->kind == kCheck ? "C04 C09 C10 C23 C24" : "C06 C09 C10 C23 C24", "%s call %d got the response %s", kKindName[call->kind], call->no, Short(*call->resp).c_str());
  }

  std::unique_ptr<Message> GenRequest(Kind k, bool* invalid) {
    pbt::Span sp(s);
    GenOpt o;
    o.labels = 2;
    o.metrics = 2;
    o.odd_values = false;
    int odd = s.Pick({24, 2, 1, 1});   // 1: important, 2: wrong service, 3: no operation
    *invalid = odd == 2 || (odd == 3 && k != kReport);
    std::string svc = odd == 2 ? s.OneOf({"", "other", "svcx"}) : "svc";
    if (k == kQuota) {
      auto r = std::make_unique<AllocateQuotaRequest>();
      r->set_service_name(svc);
      if (odd == 3) return r;
      auto* op = r->mutable_allocate_operation();
      op->set_operation_id(GenOpId(s, &serial));
      op->set_method_name("method" + std::to_string(s.Below(3)));
      op->set_consumer_id(s.Chance(1, 6) ? "project:b" : "project:a");
      if (s.Chance(1, 6)) r->set_service_config_id("other");
      if (s.Chance(1, 4)) op->set_quota_mode(QuotaOperation::BEST_EFFORT);
      for (int n = s.Pick({4, 1}) + 1, i = 0; i < n; ++i) {
        auto* set = op->add_quota_metrics();
        set->set_metric_name("q" + std::to_string(s.Chance(1, 12) ? 0 : i));
        set->add_metric_values()->set_int64_value(s.Range(1, 9));
      }
      return r;
    }
    if (k == kCheck) {
      auto r = std::make_unique<CheckRequest>();
      r->set_service_name(svc);
      if (s.Chance(1, 6)) r->set_service_config_id("other");
      if (odd == 3) return r;
      Operation op = MakeOp(s, GenIdentity(s, o), &serial, o);
      if (s.Chance(1, 4)) { auto* set = op.add_metric_value_sets(); set->set_metric_name("int_delta"); *set->add_metric_values() = GenValue(s, 0, o); }
      if (odd == 1) op.set_importance(Operation::HIGH);
      *r->mutable_operation() = op;
      return r;
    }
    auto r = std::make_unique<ReportRequest>();
    r->set_service_name(svc);
    if (s.Chance(1, 6)) r->set_service_config_id("other");
    int n = s.Pick({12, 6, 2, 1});
    n = n == 0 ? 1 : n == 1 ? s.Range(2, 4) : n == 2 ? (s.Chance(1, 6) ? s.Range(15, 60) : s.Range(5, 14)) : 0;
    if (n == 0) {   // whether a report of nothing makes due ones leave is left open
      if (report.AnyDue()) n = 1; else ++n_empty;
    }
    GenOpt w = o;
    w.names = n > 4 ? 12 : 3;
    for (int i = 0; i < n; ++i) {
      pbt::Span sp2(s);
      Operation op = MakeOp(s, GenIdentity(s, w), &serial, w);
      AddMetrics(s, w, &op);
      if (s.Chance(1, 4)) AddLogs(s, s.Range(1, 2), &serial, &op);
      if (odd == 1 && i == n / 2) op.set_importance(Operation::HIGH);
      *r->add_operations() = op;
    }
    return r;
  }
  void DoCall() {
    pbt::Span sp(s);
    calls.push_back(std::make_unique<Call>());
    Call* call = calls.back().get();
    call->no = calls.size();
    call->kind = (Kind)s.Below(3);
    bool invalid;
    // The same request again, or a new one.
    call->req = GenRequest(call->kind, &invalid);
    call->req_det = Det(*call->req);
    call->resp = GenResponse(call->kind);   // whatever the caller's object held
    int mode = s.Pick({8, 3, 1, 2});         // configured, own transport, null transport, sync
    call->sync = mode == 3;
    if (mode == 1) call->tid = ++tid_serial;
    bool null = mode == 2 || (mode != 1 && !has[call->kind]);
    uint64_t* total = call->kind == kCheck ? &want.total_called_checks : call->kind == kQuota ? &want.total_called_quotas : &want.total_called_reports;
    ++*total;
    // What has to happen.
    Dues d;
    if (null) {
      call->want = Status(StatusCode::kInvalidArgument, "");
      ++n_rejected;
    } else if (invalid) {
      call->want = Status(StatusCode::kInvalidArgument, "");
      ++n_rejected;
    } else if (call->kind == kCheck) {
      CheckResponse resp;
      if (check.Check(static_cast<CheckRequest&>(*call->req), &resp, &d)) { call->want_resp = Det(resp); call->check_resp = true; ++n_cached; }
      else call->direct = true;
    } else if (call->kind == kQuota) {
      AllocateQuotaResponse resp;
      if (quota.Quota(static_cast<AllocateQuotaRequest&>(*call->req), &resp, &d)) { call->want_resp = Det(resp); call->check_resp = true; ++n_cached; }
      else call->direct = true;
    } else {
      if (report.Report(static_cast<ReportRequest&>(*call->req), &d)) ++n_cached;
      else call->direct = true;
    }
    if (call->direct && Disabled(call->kind)) ++n_disabled;
    if (d.size() > 1) ++n_multi;
    AddDue(d);
    PBT_LOG(c, "%*scall %d: %s%s%s %s%s", api_depth, "", call->no, call->sync ? "sync " : "", kKindName[call->kind],
            mode == 1 ? (" through transport " + std::to_string(call->tid)).c_str() : mode == 2 ? " through no transport" : "", Short(*call->req, 900).c_str(),
            call->direct ? "  [to the server]" : "");
    stack.push_back(call);
    call->in_api = true;
    ++api_depth;
    Issue(call, mode);
    --api_depth;
    call->in_api = false;
    stack.pop_back();
    if (!c.stop) {
      if (call->direct && call->sent != 1) c.Fail(call->kind == kReport ? "C01 C09 C10 C12 C23 C24" : "C04 C06 C09 C10 C12 C23 C24", "%s call %d was sent %d times, expected once", kKindName[call->kind], call->no, call->sent);
      if (!call->direct && call->done != 1) c.Fail("C09 C10 C23 C24", "the callback of %s call %d ran %d times, expected at once", kKindName[call->kind], call->no, call->done);
    }
    if (api_depth == 0) Quiet("call");
  }
  void Issue(Call* call, int mode) {
    auto cb = [this, call, token = token](const Status& st) { OnDone(call, st); };
    if (call->kind == kCheck) {
      auto& req = static_cast<CheckRequest&>(*call->req);
      auto* resp = static_cast<CheckResponse*>(call->resp.get());
      if (mode == 3) { Status st; { track::In in; st = client->Check(req, resp); } Sync(call, st); return; }
      track::In in;
      if (mode == 0) client->Check(req, resp, cb);
      else client->Check(req, resp, cb, mode == 2 ? scc::TransportCheckFunc() : scc::TransportCheckFunc([this, t = call->tid, token = token](const CheckRequest& q, CheckResponse* p, scc::TransportDoneFunc d) { OnTransport(kCheck, t, q, p, d); }));
      call->req.reset();   // the client keeps a copy
    } else if (call->kind == kQuota) {
      auto& req = static_cast<AllocateQuotaRequest&>(*call->req);
      auto* resp = static_cast<AllocateQuotaResponse*>(call->resp.get());
      if (mode == 3) { Status st; { track::In in; st = client->Quota(req, resp); } Sync(call, st); return; }
      track::In in;
      if (mode == 0) client->Quota(req, resp, cb);
      else client->Quota(req, resp, cb, mode == 2 ? scc::TransportQuotaFunc() : scc::TransportQuotaFunc([this, t = call->tid, token = token](const AllocateQuotaRequest& q, AllocateQuotaResponse* p, scc::TransportDoneFunc d) { OnTransport(kQuota, t, q, p, d); }));
      call->req.reset();
    } else {
      auto& req = static_cast<ReportRequest&>(*call->req);
      auto* resp = static_cast<ReportResponse*>(call->resp.get());
      if (mode == 3) { Status st; { track::In in; st = client->Report(req, resp); } Sync(call, st); return; }
      track::In in;
      if (mode == 0) client->Report(req, resp, cb);
      else client->Report(req, resp, cb, mode == 2 ? scc::TransportReportFunc() : scc::TransportReportFunc([this, t = call->tid, token = token](const ReportRequest& q, ReportResponse* p, scc::TransportDoneFunc d) { OnTransport(kReport, t, q, p, d); }));
    }
  }
  void Sync(Call* call, Status st) {
    ++n_sync;
    ++call->done;
    call->completing = call->direct;
    if (!c.stop) CheckResult(call, st);
    call->completing = false;
    call->req.reset();
  }

  void Stats(bool quiet) {
    scc::Statistics g;
    memset(&g, 0xa5, sizeof g);
    bool ok;
    { track::In in; ok = client->GetStatistics(&g).ok(); }
    if (!ok) c.Fail("C12", "GetStatistics failed");
    struct { const char* name; uint64_t scc::Statistics::*m; } f[] = {
        {"total_called_quotas", &scc::Statistics::total_called_quotas}, {"send_quotas_by_flush", &scc::Statistics::send_quotas_by_flush},
        {"send_quotas_in_flight", &scc::Statistics::send_quotas_in_flight}, {"total_called_checks", &scc::Statistics::total_called_checks},
        {"send_checks_by_flush", &scc::Statistics::send_checks_by_flush}, {"send_checks_in_flight", &scc::Statistics::send_checks_in_flight},
        {"total_called_reports", &scc::Statistics::total_called_reports}, {"send_reports_by_flush", &scc::Statistics::send_reports_by_flush},
        {"send_reports_in_flight", &scc::Statistics::send_reports_in_flight}, {"send_report_operations", &scc::Statistics::send_report_operations}};
    for (auto& x : f) {
      if (quiet && g.*x.m != want.*x.m) c.Fail("C12", "%s is %llu, expected %llu", x.name, (unsigned long long)(g.*x.m), (unsigned long long)(want.*x.m));
      if (g.*x.m > want.*x.m) c.Fail("C12", "%s is %llu before it should be (at most %llu)", x.name, (unsigned long long)(g.*x.m), (unsigned long long)(want.*x.m));
      if (g.*x.m < last.*x.m) c.Fail("C12", "%s decreased to %llu", x.name, (unsigned long long)(g.*x.m));
    }
    last = g;
  }
  // No call is being made: everything due has been sent.
  void Quiet(const char* what) {
    if (c.stop) return;
    if (!due.empty()) {
      const char* k = due[0].kind == kReport ? " C01 C02" : due[0].kind == kCheck ? " C05" : " C06 C07 C08";
      c.Fail(std::string(kSend) + k, "after the %s, still not sent: %s", what, ShowDue(due[0]).c_str());
    }
    if (alive && !c.stop && s.Chance(1, 4)) Stats(true);
  }
  void Tick() {
    if (!tick) return;
    PBT_LOG(c, "tick at %lld us", (long long)(vclock::Now() - vclock::kBase));
    Dues d;
    if (alive) { check.Flush(&d); quota.Flush(&d); report.Flush(&d); if (d.size() > 1) ++n_multi; if (d.size()) ++n_tick_sent; AddDue(d); }
    else ++n_late_tick;
    ++frozen; ++api_depth;
    { track::In in; tick(); }
    --frozen; --api_depth;
    if (alive) Quiet("tick");
  }
  void Destroy() {
    PBT_LOG(c, "destroy the client");
    if (s.Chance(1, 2)) Stats(true);
    if (c.stop) return;
    Dues d;
    check.FlushAll(&d); quota.FlushAll(&d); report.FlushAll(&d);
    AddDue(d);
    ++frozen; ++api_depth;
    in_dtor = true;
    { track::In in; client.reset(); }
    in_dtor = false;
    --frozen; --api_depth;
    if (!due.empty() && !c.stop)
      c.Fail("C01 C05 C11", "destroying the client did not send %s", ShowDue(due[0]).c_str());
    due.clear();
    alive = false;
    if (timers && !timer_null && stops != 1) c.Fail("C22 C11", "the timer was stopped %d times", stops);
  }
  void Start() {
    scc::ServiceControlClientOptions opt = this->opt;
    if (has[kCheck]) opt.check_transport = [this, token = token](const CheckRequest& q, CheckResponse* p, scc::TransportDoneFunc d) { OnTransport(kCheck, 0, q, p, d); };
    if (has[kQuota]) opt.quota_transport = [this, token = token](const AllocateQuotaRequest& q, AllocateQuotaResponse* p, scc::TransportDoneFunc d) { OnTransport(kQuota, 0, q, p, d); };
    if (has[kReport]) opt.report_transport = [this, token = token](const ReportRequest& q, ReportResponse* p, scc::TransportDoneFunc d) { OnTransport(kReport, 0, q, p, d); };
    int expect = INT_MAX;
    if (check.num > 0) expect = std::min(expect, check.expire_ms);
    if (quota.num > 0) expect = std::min(expect, quota.refresh_ms);
    if (report.num > 0) expect = std::min(expect, report.flush_ms);
    bool factory = !s.Chance(1, 8);
    if (factory)
      opt.periodic_timer = [this, token = token](int ms, std::function<void()> f) -> std::unique_ptr<scc::PeriodicTimer> {
        ++timers;
        timer_ms = ms;
        tick = f;
        if (timer_null) return nullptr;
        return std::unique_ptr<scc::PeriodicTimer>(new Timer(&stops));
      };
    if (s.Chance(1, 6)) {
      scc::ServiceControlClientFactoryImpl factory_impl;
      const scc::ServiceControlClientFactory& f = factory_impl;
      track::In in;
      client = f.CreateClient("svc", cfg, opt);
    } else {
      track::In in;
      client = scc::CreateServiceControlClient("svc", cfg, opt);
    }
    this->opt.metric_kinds.reset();   // only the client's now
    if (factory && expect != INT_MAX) {
      if (timers != 1) c.Fail("C22", "%d timers were created", timers);
      else if (timer_ms != expect) c.Fail("C22", "the timer has an interval of %d ms, expected %d", timer_ms, expect);
      else if (!tick) c.Fail("C22", "the timer has no callback");
    } else if (timers > 1) {
      c.Fail("C22", "%d timers were created", timers);
    }
    until_tick = timer_ms;
    if (timer_ms < 5) auto_ticks = false;
  }
  void Step() {
    pbt::Span sp(s);
    int iv[] = {check.flush_ms, check.expire_ms, quota.refresh_ms, report.flush_ms, std::min(quota.expire_ms, 3000)};
    switch (s.Pick({8, 3, 3})) {
      case 1: { int64_t ms = s.Range(1, 40); PBT_LOG(c, "%lld ms pass", (long long)ms); Advance(ms); break; }
      case 2: { int64_t ms = std::max<int64_t>(1, (int64_t)iv[s.Below(5)] + s.OneOf({0, 1, -1})); PBT_LOG(c, "%lld ms pass", (long long)ms); Advance(ms); break; }
    }
    if (c.stop || !alive) return;
    switch (s.Pick({14, 6, 2})) {
      case 0: DoCall(); break;
      case 1: if (!flights.empty()) { size_t i = s.Chance(1, 2) ? 0 : s.Below(flights.size()); auto f = std::move(flights[i]); flights.erase(flights.begin() + i); Complete(std::move(f)); } break;
      case 2: Tick(); break;
    }
  }
  void All() {
    PBT_LOG(c, "check: %d entries, flush %d, expire %d; quota: %d, refresh %d, expire %d; report: %d, flush %d; transports %d%d%d", check.num, check.flush_ms, check.expire_ms,
            quota.num, quota.refresh_ms, quota.expire_ms, report.num, report.flush_ms, has[0], has[1], has[2]);
    Start();
    for (int n = 0; s.More(n, 30, 120) && !c.stop && alive; ++n) Step();
    Finish();
  }
  bool started = false;
  int n_nested_life = 0;
  void Begin() { started = alive = true; Start(); }
  uint64_t out_at_end = 0, cached_at_end = 0;
  void Finish() {
    out_at_end = flights.size();
    cached_at_end = report.e.size();
    for (auto& e : check.e) if (e.pending) ++cached_at_end;
    if (!c.stop && alive) Destroy();
    // Late completions and ticks, in any order.
    while (!c.stop && !flights.empty()) {
      if (tick && s.Chance(1, 6)) Tick();
      if (tick && s.Chance(1, 8)) tick = nullptr;
      if (s.Chance(1, 6)) vclock::AdvanceUs(s.Range(1, 3000) * 1000 + 1);
      size_t i = s.Below(flights.size());
      auto f = std::move(flights[i]);
      flights.erase(flights.begin() + i);
      Complete(std::move(f));
    }
    if (!c.stop && tick && s.Chance(1, 2)) Tick();
    tick = nullptr;
    if (c.stop) { Leak(); return; }
    for (auto& call : calls)
      if (call->done != 1) c.Fail("C09 C10 C11 C23", "the callback of %s call %d ran %d times", kKindName[call->kind], call->no, call->done);
    if (n_direct) c.Label("call sent to the server");
    if (n_own) c.Label("call sent through its own transport");
    if (n_cached) c.Label("call answered from cache");
    if (n_deferred) c.Label("completed later");
    if (n_inplace) c.Label("completed in place");
    if (n_crossed) c.Label("transport completed another call first");
    if (n_empty) c.Label("report without operations");
    if (n_slow) c.Label("time passed inside a transport");
    if (n_failed) c.Label("transport failure");
    if (n_failed_quota_flush) c.Label("quota failed open");
    if (n_flush) c.Label("flushed");
    if (n_multi) c.Label("several requests flushed by one step");
    if (n_tick_sent) c.Label("tick with something due");
    if (n_nested) c.Label("calls from callbacks");
    if (n_late) c.Label("completion after destruction");
    if (n_late_tick) c.Label("tick after destruction");
    if (n_dtor_sent) c.Label("destruction sent something");
    if (n_sync) c.Label("synchronous call");
    if (n_rejected) c.Label("rejected call");
    if (n_disabled) c.Label("call with its cache disabled");
    if (c.Focus("C01")) c.nontrivial = report.merged && n_flush;
    else if (c.Focus("C09")) c.nontrivial = n_deferred && n_cached && n_direct;
    else if (c.Focus("C10")) c.nontrivial = n_failed && n_cached;
    else if (c.Focus("C11")) c.nontrivial = (out_at_end && n_late) || cached_at_end;
    else if (c.Focus("C12")) c.nontrivial = n_flush && n_direct;
    else if (c.Focus("C22")) c.nontrivial = n_tick_sent;
    else if (c.Focus("C23")) c.nontrivial = n_inplace && (n_nested || n_multi);
    else if (c.Focus("C26")) c.nontrivial = n_direct && n_flush && n_deferred;
    else if (c.Focus("C24")) c.nontrivial = n_disabled > 1;
    else c.nontrivial = n_flush > 0;
  }
  void Leak() {
    // The state is not to be trusted any more: nothing is destroyed.
    (void)client.release();
    new std::function<void()>(tick);
    for (auto& f : flights) (void)f.release();
    for (auto& x : calls) (void)x.release();
  }
};

// C26, memory while the client lives: the same calls over and over, with all
// intervals run down in between, must not take more memory every time.
struct Soak {
  pbt::Src& s;
  pbt::Ctx& c;
  struct Out { Kind kind; Message* resp; scc::TransportDoneFunc done; int no; };
  std::vector<Out> flights;
  std::function<void()> tick;
  int stops = 0, no = 0;
  bool inplace = false;
  std::vector<Status> answers;
  uint64_t sent = 0;
  void Finish(Out o) {
    Status st = answers[o.no % answers.size()];
    if (st.ok() && o.kind == kCheck) {
      auto* r = static_cast<CheckResponse*>(o.resp);
      r->Clear();
      if (o.no % 3 == 1) r->add_check_errors()->set_code(CheckError::NOT_FOUND);
    }
    if (st.ok() && o.kind == kQuota) {
      auto* r = static_cast<AllocateQuotaResponse*>(o.resp);
      r->Clear();
      if (o.no % 4 == 1) r->add_allocate_errors()->set_code(QuotaError::RESOURCE_EXHAUSTED);
    }
    scc::TransportDoneFunc done = std::move(o.done);
    { track::In in; done(st); }
  }
  void FinishAll() {
    for (int n = 0; !flights.empty() && n < 1000; ++n) { Out o = std::move(flights.front()); flights.erase(flights.begin()); Finish(std::move(o)); }
  }
  void Transport(Kind k, Message* resp, scc::TransportDoneFunc d) {
    track::Out out;
    ++sent;
    Out o{k, resp, std::move(d), no++};
    if (inplace) Finish(std::move(o)); else flights.push_back(std::move(o));
  }
  void All(scc::ServiceControlClientOptions opt, Run* gen) {
    inplace = s.Chance(1, 4);
    for (int n = s.Range(1, 4); n > 0; --n) answers.push_back(s.Chance(2, 3) ? OkStatus() : Status(StatusCode::kUnavailable, "down"));
    opt.check_transport = [this](const CheckRequest&, CheckResponse* p, scc::TransportDoneFunc d) { Transport(kCheck, p, std::move(d)); };
    opt.quota_transport = [this](const AllocateQuotaRequest&, AllocateQuotaResponse* p, scc::TransportDoneFunc d) { Transport(kQuota, p, std::move(d)); };
    opt.report_transport = [this](const ReportRequest&, ReportResponse* p, scc::TransportDoneFunc d) { Transport(kReport, p, std::move(d)); };
    opt.periodic_timer = [this](int, std::function<void()> f) -> std::unique_ptr<scc::PeriodicTimer> { tick = f; return std::unique_ptr<scc::PeriodicTimer>(new Timer(&stops)); };
    std::unique_ptr<scc::ServiceControlClient> client;
    { track::In in; client = scc::CreateServiceControlClient("svc", "cfg", opt); }
    struct Item { Kind k; std::unique_ptr<Message> req; int wait; };
    std::vector<Item> prog;
    for (int n = s.Range(1, 8); n > 0; --n) {
      Kind k = (Kind)s.Below(3);
      bool invalid;
      prog.push_back({k, gen->GenRequest(k, &invalid), (int)s.Pick({4, 1, 1})});
      // Each is issued one to three times.
      for (int m = s.Pick({3, 1, 1}); m > 0; --m) { std::unique_ptr<Message> copy(prog.back().req->New()); copy->CopyFrom(*prog.back().req); prog.push_back({k, std::move(copy), (int)s.Pick({4, 1, 1})}); }
    }
    int64_t longest = 3000;
    for (int64_t ms : {opt.check_options.expiration_ms, opt.quota_options.expiration_interval_ms, opt.quota_options.refresh_interval_ms, opt.report_options.flush_interval_ms}) longest = std::max(longest, ms + 1000);
    uint64_t callbacks = 0;
    std::vector<int64_t> live;
    std::string trace;
    constexpr int kRounds = 9;
    for (int r = 0; r < kRounds; ++r) {
      no = 0;   // the same answers every round
      for (auto& it : prog) {
        CheckResponse cr; AllocateQuotaResponse qr; ReportResponse rr;
        // Responses outlive the calls they are for: everything is answered first.
        auto cb = [&callbacks](const Status&) { ++callbacks; };
        {
          track::In in;
          if (it.k == kCheck) client->Check(static_cast<CheckRequest&>(*it.req), &cr, cb);
          else if (it.k == kQuota) client->Quota(static_cast<AllocateQuotaRequest&>(*it.req), &qr, cb);
          else client->Report(static_cast<ReportRequest&>(*it.req), &rr, cb);
        }
        FinishAll();
        if (it.wait) vclock::AdvanceUs(it.wait == 1 ? 11000 : 120000);
      }
      for (int k = 0; k < 3; ++k) {
        vclock::AdvanceUs(longest * 1000);
        if (tick) { track::In in; tick(); }
        FinishAll();
      }
      live.push_back(track::live);
      trace += " " + std::to_string(track::live);
    }
    PBT_LOG(c, "%zu calls a round, check %d/%d/%d, quota %d/%d/%d, report %d/%d; blocks in use after each round:%s", prog.size(), opt.check_options.num_entries, opt.check_options.flush_interval_ms,
            opt.check_options.expiration_ms, opt.quota_options.num_entries, opt.quota_options.refresh_interval_ms, opt.quota_options.expiration_interval_ms, opt.report_options.num_entries,
            opt.report_options.flush_interval_ms, trace.c_str());
    bool grows = true;
    for (int r = 3; r < kRounds; ++r) grows = grows && live[r] > live[r - 1];
    if (grows) {
      for (auto& it : prog) PBT_LOG(c, "  call: %s %s", kKindName[it.k], Short(*it.req, 500).c_str());
      c.Fail("C26", "the client takes more memory with every repetition of the same calls: blocks in use after each round:%s", trace.c_str());
    }
    { track::In in; client.reset(); }
    FinishAll();
    tick = nullptr;
    c.Label("same calls repeated");
    c.nontrivial = sent > 2 * kRounds;
  }
};

const char* PbtRule(const std::string& p) {
  static std::string r;
  r = "A case is one client with generated cache options, transports (some missing) and timer, and a history of up to 120 steps: Check/Quota/Report calls (async, sync, with own "
      "or no transport, invalid, important), completions in place, later, out of order, failing or after time has passed, calls from callbacks, timer ticks, elapsed time, "
      "destruction with requests outstanding, late completions and ticks. Every transport call, callback and statistic is compared with models of the three caches. Non-trivial: ";
  r += p == "C01" ? "reports were merged and flushed." : p == "C09" ? "calls were answered from cache, sent, and completed later." : p == "C10" ? "a transport failed and calls were answered from cache."
     : p == "C11" ? "the client was destroyed with usage cached or requests outstanding that completed later." : p == "C12" ? "requests were sent directly and by flushes."
     : p == "C22" ? "a tick had something to send." : p == "C23" ? "transports completed in place, and callbacks made calls or one step flushed several requests."
     : p == "C27" ? "two or three such clients were used in turn (and from each other's callbacks) and each flushed something."
     : p == "C26" ? "requests were sent by calls and by flushes and completed later."
     : p == "C24" ? "calls were made whose cache is disabled." : "something was sent by a flush.";
  return r.c_str();
}
// Returns what stays allocated at the end (C26).
static std::string OneCase(pbt::Src& s, pbt::Ctx& c, bool fresh) {
  QuietLogs();
  vclock::Scope clock;
  int off = c.Focus("C24") ? 2 : 8;
  auto num = [&] { return s.Below(off) == (uint64_t)off - 1 ? s.OneOf({0, -1}) : s.OneOf({2, 1, 3, 50}); };
  auto ms = [&] { return s.OneOf({50, 10, 100, 500, 7}); };
  int cf = ms();
  int qr = ms();
  int rf, ce = cf * s.OneOf({2, 1, 4}), qe = qr * s.OneOf({10, 2, 1});
  if (s.Chance(1, 40)) {   // hours and days
    cf = s.OneOf({3600000, 2147484, 86400000}); ce = s.OneOf({86400000, 3600000, 7200000, INT_MAX});
    qr = s.OneOf({3600000, 2147484, 86400000}); qe = s.OneOf({86400000, 3600000, 604800000, INT_MAX});
    rf = s.OneOf({3600000, 2147484, 86400000});
  } else {
    rf = ms();
  }
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(num(), cf, ce), scc::QuotaAggregationOptions(num(), qr, qe), scc::ReportAggregationOptions(num(), rf));
  if (!s.Chance(1, 6)) o.metric_kinds = Kinds();
  bool mem = c.Focus("C26");
  if (mem) {
    track::In::enabled = track::Install();
    if (!track::In::enabled) { fprintf(stderr, "C26 needs a build with AddressSanitizer\n"); abort(); }
    if (fresh) track::Forget();
  }
  int64_t base = track::live;
  Run::frozen = 0;
  if (c.Focus("C27")) {
    // Several clients, used in turn and from each other's callbacks.
    c.any = true;
    std::vector<Run*> rs;
    for (int i = s.Range(2, 3); i > 0; --i) {
      scc::ServiceControlClientOptions oi = o;
      if (s.Chance(1, 2)) {
        int f = ms(), q = ms();
        scc::ServiceControlClientOptions other(scc::CheckAggregationOptions(num(), f, f * 2), scc::QuotaAggregationOptions(num(), q, q * s.OneOf({10, 2})), scc::ReportAggregationOptions(num(), ms()));
        if (s.Chance(1, 2)) { other.metric_kinds = oi.metric_kinds; }
        else if (!s.Chance(1, 4)) { other.metric_kinds = Kinds(); (*other.metric_kinds)["int_delta"] = MetricDescriptor::CUMULATIVE; (*other.metric_kinds)["gauge"] = MetricDescriptor::DELTA; }
        Run* r = new Run(s, c, other);
        rs.push_back(r);
      } else {
        rs.push_back(new Run(s, c, oi));
      }
      Run* r = rs.back();
      static const char* kCfg[] = {"cfg", "cfg2", "cfg3"};
      r->cfg = kCfg[s.Chance(1, 3) ? 0 : rs.size() - 1];
      for (bool& h : r->has) h = !s.Chance(1, 12);
      r->inplace_pct = s.OneOf({30, 0, 100, 60});
      r->fail_pct = s.OneOf({10, 0, 40});
      r->nest_pct = s.OneOf({25, 0});
    }
    for (size_t i = 0; i < rs.size(); ++i) rs[i]->other = rs[(i + 1) % rs.size()];
    auto turn = [&](size_t i) { PBT_LOG(c, "client %zu (%s):", i, rs[i]->cfg); };
    for (auto* r : rs) r->alive = false;
    rs[0]->Begin();
    for (int n = 0; s.More(n, 40, 150) && !c.stop; ++n) {
      size_t i = s.Below(rs.size());
      turn(i);
      Run* r = rs[i];
      if (!r->started) {
        if (s.Chance(1, 2)) r->Begin();
      } else if (!r->alive) {   // what is left of a destroyed one
        if (!r->flights.empty()) { size_t k = s.Below(r->flights.size()); auto f = std::move(r->flights[k]); r->flights.erase(r->flights.begin() + k); r->Complete(std::move(f)); }
        else r->Tick();
      } else if (s.Chance(1, 40)) {
        r->Destroy();
      } else {
        r->Step();
      }
    }
    int n_flushed = 0, n_started = 0, n_life = 0;
    for (size_t i = 0; i < rs.size() && !c.stop; ++i) {
      if (!rs[i]->started) continue;
      turn(i);
      rs[i]->Finish();
      ++n_started; n_flushed += rs[i]->n_flush > 0; n_life += rs[i]->n_nested_life;
    }
    c.nontrivial = n_started > 1 && n_flushed == n_started;
    if (n_started > 2) c.Label("three clients");
    if (n_life) c.Label("client started or destroyed in another's callback");
    if (c.stop) { for (auto* r : rs) if (r->started) r->Leak(); return ""; }
    for (auto* r : rs) delete r;
    return "";
  }
  Run* r = new Run(s, c, o);
  std::weak_ptr<int> token = r->token;
  for (bool& h : r->has) h = !s.Chance(1, c.Focus("C11") ? 6 : 12);
  r->inplace_pct = s.OneOf({30, 0, 100, 60});
  if (c.Focus("C23") && r->inplace_pct == 0) r->inplace_pct = 80;
  r->fail_pct = c.Focus("C10") ? 45 : s.OneOf({10, 0, 40});
  r->nest_pct = c.Focus("C23") ? 40 : s.OneOf({15, 0});
  if (s.Chance(1, 6)) { r->slow_pct = 70; r->slow_ms = 120; }
  if (s.Chance(1, 6)) { r->nest_max = 9; r->nest_pct = 60; }
  r->timer_null = s.Chance(1, 20);
  r->auto_ticks = s.Chance(1, 2);
  if (mem && s.Chance(1, 5)) {
    Soak k{s, c};
    scc::ServiceControlClientOptions ko = o;
    k.All(ko, r);
  } else {
    r->All();
  }
  if (c.stop) return "";
  delete r;
  if (!mem) return "";
  if (!token.expired()) return "copies of callbacks or transports (" + std::to_string(token.use_count()) + ")";
  if (track::live > base) return std::to_string(track::live - base) + " blocks of memory (" + std::to_string(track::Bytes()) + " bytes in all)" + (track::Where().empty() ? "" : ", one allocated in " + track::Where());
  return "";
}
void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  std::string left = OneCase(s, c, true);
  if (left.empty() || c.stop) return;
  // Something is left. Objects created once per process and buffers kept for the
  // next use are not meant: there are not more of them whenever the case is repeated.
  std::vector<uint64_t> drawn = s.Drawn();
  static pbt::Shared* scratch = pbt::NewShared();
  for (int i = 0; i < 10; ++i) {
    pbt::Src again(scratch, drawn);
    pbt::Ctx quiet;
    quiet.prop = c.prop;
    left = OneCase(again, quiet, false);
    if (left.empty() || quiet.stop) { c.Label("something left the first time only"); return; }
  }
  c.Fail("C26", "the client is destroyed and everything completed, but these still exist: %s", left.c_str());
}
