// Reactive models of the three caches for the client harnesses: each call
// returns what has to be sent.  The harness keeps exact boundaries apart.
#ifndef CACHE_MODELS_H_
#define CACHE_MODELS_H_
#include "quota_model.h"
#include "vclock.h"

enum Kind { kCheck, kQuota, kReport };
static const char* const kKindName[] = {"check", "quota", "report"};

struct Due {
  Kind kind;
  std::string id;
  std::shared_ptr<const RefOp> op;                        // check, report
  std::shared_ptr<const AllocateQuotaRequest> verbatim;   // quota
  std::shared_ptr<const RefQuota> tokens;
  bool normal = false;
};
typedef std::vector<Due> Dues;

inline std::string CheckIdOf(const Operation& op) {
  std::map<std::string, std::string> m;
  for (auto& set : op.metric_value_sets()) {
    std::string& t = m[set.metric_name()];
    for (auto& v : set.metric_values()) t += LabelStr(LabelsOf(v));
  }
  return op.operation_name() + "|" + op.consumer_id() + "|" + LabelStr(LabelsOf(op)) + "|" + LabelStr(m);
}
inline std::string ReportIdOf(const Operation& op) {
  return op.consumer_id() + "|" + op.operation_name() + "|" + LabelStr(LabelsOf(op));
}

struct CheckModel {
  int num, flush_ms, expire_ms;
  const KindMap* kinds;
  struct Entry { std::string id; CheckResponse resp; int64_t checked, used; std::shared_ptr<const RefOp> pending; };
  std::vector<Entry> e;  // least recently used first

  void Gone(size_t i, Dues* d) {
    if (e[i].pending) d->push_back(Due{kCheck, e[i].id, e[i].pending});
    e.erase(e.begin() + i);
  }
  void Flush(Dues* d) {
    for (size_t i = 0; i < e.size();) if (vclock::Now() - e[i].used > expire_ms * 1000ll) Gone(i, d); else ++i;
  }
  void FlushAll(Dues* d) { while (!e.empty()) Gone(0, d); }
  Entry* Lookup(const std::string& id) {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].id == id) {
        std::rotate(e.begin() + i, e.begin() + i + 1, e.end());
        e.back().used = vclock::Now();
        return &e.back();
      }
    return nullptr;
  }
  // True if answered from cache.
  bool Check(const CheckRequest& r, CheckResponse* resp, Dues* d) {
    if (num <= 0 || r.operation().importance() != Operation::LOW) return false;
    Flush(d);
    Entry* x = Lookup(CheckIdOf(r.operation()));
    if (!x) return false;
    if (x->resp.check_errors_size() == 0) {
      auto n = std::make_shared<RefOp>();
      if (x->pending) *n = *x->pending;
      n->Merge(r.operation(), kinds);
      x->pending = n;
    }
    if (vclock::Now() - x->checked >= flush_ms * 1000ll) { x->checked = vclock::Now(); return false; }
    *resp = x->resp;
    return true;
  }
  void Answer(const CheckRequest& r, const CheckResponse& resp, Dues* d) {
    if (num <= 0) return;
    Flush(d);
    std::string id = CheckIdOf(r.operation());
    if (Entry* x = Lookup(id)) { x->resp = resp; x->checked = vclock::Now(); return; }
    e.push_back(Entry{id, resp, vclock::Now(), vclock::Now(), nullptr});
    if ((int)e.size() > num) Gone(0, d);
  }
};

struct QuotaModel {
  int num, refresh_ms, expire_ms;
  struct Entry {
    std::string id; std::shared_ptr<const AllocateQuotaRequest> initial; AllocateQuotaResponse resp; bool in_flight; int64_t refreshed, inserted;
    std::shared_ptr<const RefQuota> pending;
    bool negative() const { return resp.allocate_errors_size() > 0; }
  };
  std::vector<Entry> e;  // oldest insertion first

  bool Drop(const Entry& x) const { return vclock::Now() - x.refreshed >= expire_ms * 1000ll; }
  void Flush(Dues* d) {
    std::vector<Entry> due, rest;
    for (auto& x : e) (vclock::Now() - x.inserted > refresh_ms * 1000ll ? due : rest).push_back(x);
    for (auto& x : due) {
      if (Drop(x)) continue;
      x.inserted = vclock::Now();
      if (!x.in_flight && x.pending) {
        d->push_back(Due{kQuota, x.id, nullptr, nullptr, x.pending});
        x.in_flight = true; x.refreshed = vclock::Now(); x.pending = nullptr;
      }
      rest.push_back(x);
    }
    e.swap(rest);
  }
  void FlushAll(Dues*) { e.clear(); }
  bool Quota(const AllocateQuotaRequest& r, AllocateQuotaResponse* resp, Dues* d) {
    if (num <= 0) return false;
    Flush(d);
    std::string id = QuotaId(r);
    size_t i = 0;
    while (i < e.size() && e[i].id != id) ++i;
    if (i == e.size()) {
      auto copy = std::make_shared<AllocateQuotaRequest>(r);
      e.push_back(Entry{id, copy, AllocateQuotaResponse(), true, vclock::Now(), vclock::Now(), nullptr});
      d->push_back(Due{kQuota, id, nullptr, copy});
      if ((int)e.size() > num) {
        if (!Drop(e[0]) && e[0].pending) d->push_back(Due{kQuota, e[0].id, nullptr, nullptr, e[0].pending});
        e.erase(e.begin());
      }
      resp->Clear();
      return true;
    }
    Entry& x = e[i];
    if (!x.in_flight && vclock::Now() - x.refreshed >= refresh_ms * 1000ll) {
      x.in_flight = true;
      x.refreshed = vclock::Now();
      if (x.pending) d->push_back(Due{kQuota, id, nullptr, nullptr, x.pending, x.negative()});
      else d->push_back(Due{kQuota, id, nullptr, x.initial, nullptr, x.negative()});
      x.pending = nullptr;
    }
    if (!x.negative()) {
      auto n = std::make_shared<RefQuota>();
      if (x.pending) *n = *x.pending;
      n->Merge(r.allocate_operation());
      x.pending = n;
    }
    *resp = x.resp;
    return true;
  }
  void Answer(const std::string& id, const AllocateQuotaResponse& resp, Dues* d) {
    if (num <= 0) return;
    Flush(d);
    for (auto& x : e) if (x.id == id) {
      x.in_flight = false;
      x.resp = resp;
      if (x.negative()) x.pending = nullptr;
    }
  }
};

struct ReportModel {
  int num, flush_ms;
  const KindMap* kinds;
  struct Entry { std::string id; std::shared_ptr<const RefOp> op; int64_t at; };
  std::vector<Entry> e;  // oldest insertion first
  uint64_t merged = 0;

  void Gone(size_t i, Dues* d) { d->push_back(Due{kReport, e[i].id, e[i].op}); e.erase(e.begin() + i); }
  void Flush(Dues* d) {
    for (size_t i = 0; i < e.size();) if (vclock::Now() - e[i].at > flush_ms * 1000ll) Gone(i, d); else ++i;
  }
  bool AnyDue() const {
    for (auto& x : e) if (vclock::Now() - x.at > flush_ms * 1000ll) return true;
    return false;
  }
  void FlushAll(Dues* d) { while (!e.empty()) Gone(0, d); }
  // True if cached.
  bool Report(const ReportRequest& r, Dues* d) {
    if (num <= 0) return false;
    for (auto& op : r.operations()) if (op.importance() != Operation::LOW) return false;
    for (auto& op : r.operations()) {
      Flush(d);
      std::string id = ReportIdOf(op);
      size_t i = 0;
      while (i < e.size() && e[i].id != id) ++i;
      auto n = std::make_shared<RefOp>();
      if (i < e.size()) { *n = *e[i].op; ++merged; }
      n->Merge(op, kinds);
      if (i < e.size()) {
        e[i].op = n;
        if (n->base.log_entries_size() >= 100) Gone(i, d);
      } else {
        e.push_back(Entry{id, n, vclock::Now()});
        if ((int)e.size() > num) Gone(0, d);
      }
    }
    return true;
  }
};

// Empty if the request is what is due.
inline std::string DiffDue(const Due& due, const google::protobuf::Message& m) {
  if (due.kind == kCheck) {
    auto& r = static_cast<const CheckRequest&>(m);
    if (r.service_name() != "svc" || r.service_config_id() != "cfg") return "wrong service name or config id";
    return DiffOp(*due.op, r.operation());
  }
  auto& r = static_cast<const AllocateQuotaRequest&>(m);
  if (due.verbatim) {
    AllocateQuotaRequest w = *due.verbatim;
    if (due.normal) w.mutable_allocate_operation()->set_quota_mode(QuotaOperation::NORMAL);
    return Det(w) == Det(r) ? "" : "is not the initial request " + Short(w);
  }
  if (r.service_name() != "svc" || r.service_config_id() != "cfg") return "wrong service name or config id";
  RefQuota w = *due.tokens;
  if (due.normal) w.base.set_quota_mode(QuotaOperation::NORMAL);
  return DiffQuota(w, r.allocate_operation());
}
#endif
