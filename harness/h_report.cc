// C01, C02: the report cache against a model, over generated histories.
#include <functional>
#include "common.h"
#include "model.h"
#include "vclock.h"
#include "src/aggregator_interface.h"

// The aggregate is shared between copies of the model and replaced on change.
struct Entry { std::string id; std::shared_ptr<const RefOp> op; int64_t at; };
struct Cache {
  std::vector<Entry> e;      // oldest insertion first
  std::vector<Entry> out;    // left the cache in this call
};

static std::string IdOf(const Operation& op) {
  return op.consumer_id() + "|" + op.operation_name() + "|" + LabelStr(LabelsOf(op));
}

struct Run {
  pbt::Src& s;
  pbt::Ctx& c;
  int num_entries, interval_ms;
  std::shared_ptr<KindMap> kinds = Kinds();
  std::unique_ptr<scc::ReportAggregator> agg;
  Cache m;
  std::vector<ReportRequest> sent;   // by the flush callback
  bool wide = true;
  int serial = 0;
  uint64_t reported = 0, flushed = 0;
  bool boundary = false;
  bool by_age = false, by_size = false, by_logs = false, merged = false, many = false;

  // An entry exactly flush_interval old may stay or leave.
  void Expire(Cache* m, bool inclusive) {
    int64_t iv = (int64_t)interval_ms * 1000;
    for (size_t i = 0; i < m->e.size();) {
      int64_t age = vclock::Now() - m->e[i].at;
      if (age == iv) boundary = true;
      if (age > iv || (inclusive && age == iv)) { m->out.push_back(m->e[i]); m->e.erase(m->e.begin() + i); by_age = true; }
      else ++i;
    }
  }
  void ModelReport(Cache* m, const ReportRequest& r, bool inclusive) {
    for (auto& op : r.operations()) {
      Expire(m, inclusive);
      std::string id = IdOf(op);
      size_t i = 0;
      while (i < m->e.size() && m->e[i].id != id) ++i;
      if (i < m->e.size()) {
        auto next = std::make_shared<RefOp>(*m->e[i].op);
        next->Merge(op, kinds.get());
        m->e[i].op = next;
        merged = true;
        if (m->e[i].op->base.log_entries_size() >= 100) { m->out.push_back(m->e[i]); m->e.erase(m->e.begin() + i); by_logs = true; }
      } else {
        Entry e; e.id = id; e.at = vclock::Now();
        auto first = std::make_shared<RefOp>();
        first->Merge(op, kinds.get());
        e.op = first;
        m->e.push_back(e);
        if ((int)m->e.size() > num_entries) { m->out.push_back(m->e[0]); m->e.erase(m->e.begin()); by_size = true; }
      }
    }
  }

  // What was sent is what left the model's cache.
  std::string Match(const Cache& m, std::string* tags) {
    std::vector<const Operation*> got;
    std::vector<std::string> ids;
    for (auto& r : sent) for (auto& op : r.operations()) { got.push_back(&op); ids.push_back(IdOf(op)); }
    std::vector<bool> used(got.size());
    std::vector<const Entry*> missing;
    for (auto& e : m.out) {
      bool ok = false;
      for (size_t i = 0; i < got.size() && !ok; ++i)
        if (!used[i] && ids[i] == e.id && DiffOp(*e.op, *got[i]).empty()) { used[i] = true; ok = true; }
      if (!ok) missing.push_back(&e);
    }
    for (auto* e : missing)
      for (size_t i = 0; i < got.size(); ++i)
        if (!used[i] && ids[i] == e->id) {
          *tags = "C01";
          return "operation " + e->id + " was sent with other content: " + DiffOp(*e->op, *got[i]);
        }
    for (size_t i = 0; i < got.size(); ++i)
      if (!used[i]) {
        for (auto& e : m.e)
          if (e.id == ids[i]) {
            std::string d = DiffOp(*e.op, *got[i]);
            *tags = d.empty() ? "C02" : "C01 C02";
            return "operation " + e.id + " was sent before it was due" + (d.empty() ? "" : " and differs: " + d);
          }
        *tags = "C01";
        return "operation " + ids[i] + " was sent though it is not cached (sent twice, or made up)";
      }
    if (!missing.empty()) { *tags = "C01 C02"; return "operation " + missing[0]->id + " should have been sent and was not"; }
    return "";
  }
  void Batches(const char* op) {
    size_t total = 0;
    for (auto& r : sent) {
      total += r.operations_size();
      if (r.service_name() != "svc" || r.service_config_id() != "cfg")
        c.Fail("C02", "%s: a flushed report has service name '%s', config id '%s'", op, r.service_name().c_str(), r.service_config_id().c_str());
      if (r.operations_size() < 1 || r.operations_size() > 10) c.Fail("C02", "%s: a flushed report has %d operations", op, r.operations_size());
    }
    if (sent.size() > 1) many = true;
    if (sent.size() != (total + 9) / 10) c.Fail("C02", "%s: %zu operations flushed in %zu reports", op, total, sent.size());
    flushed += total;
  }
  // Tries the readings the statements leave open.
  typedef std::function<void(Cache*)> Reading;
  void Compare(const char* op, const std::vector<Reading>& readings) {
    std::string why, tags, w, t;
    for (auto& reading : readings) {
      Cache r = m;
      reading(&r);
      w = Match(r, &t);
      if (w.empty()) { m = r; m.out.clear(); Batches(op); sent.clear(); return; }
      if (why.empty()) { why = w; tags = t; }
    }
    c.Fail(tags, "%s: %s", op, why.c_str());
  }

  ReportRequest GenRequest() {
    pbt::Span sp(s);
    ReportRequest r;
    r.set_service_name("svc");
    if (s.Chance(1, 3)) r.set_service_config_id("other");
    GenOpt o;
    if (num_entries > 8) o.names = wide ? (num_entries > 60 ? 400 : 40) : 6;
    else o.names = s.Chance(1, 3) ? 2 : 4;
    o.odd_values = false;
    o.labels = 3;
    int n = s.Pick({8, 4, 1, 1});
    n = n == 0 ? 1 : n == 1 ? s.Range(2, 4) : n == 2 ? 0 : (int)s.Range(5, 25);
    if (num_entries > 60 && n > 4) n *= 10;
    for (int i = 0; i < n; ++i) {
      pbt::Span sp2(s);
      Operation op = MakeOp(s, GenIdentity(s, o), &serial, o);
      AddMetrics(s, o, &op);
      switch (s.Pick({6, 2, 1})) {
        case 1: AddLogs(s, s.Range(1, 3), &serial, &op); break;
        case 2: AddLogs(s, s.OneOf({49, 50, 51, 98, 99, 100, 101}), &serial, &op); break;
      }
      *r.add_operations() = op;
    }
    return r;
  }

  void Step() {
    pbt::Span sp(s);
    switch (s.Pick({12, 3, 3})) {
      case 1: vclock::AdvanceUs(s.Range(1, 5) * 1000ll * std::max(1, interval_ms / 10)); break;
      case 2: vclock::AdvanceUs(std::max<int64_t>(0, interval_ms * 1000ll + s.OneOf({0, 1, -1, 1000, -1000}))); break;
    }
    PBT_LOG(c, "t=%lld us", (long long)(vclock::Now() - vclock::kBase));
    switch (s.Pick({12, 4, 1, 1, 1})) {
      case 0: {
        ReportRequest r = GenRequest();
        PBT_LOG(c, "Report %s", Short(r, 1500).c_str());
        Status st = agg->Report(r);
        if (num_entries <= 0) { Refused(st, StatusCode::kNotFound, "Report with caching disabled"); break; }
        if (!st.ok()) { c.Fail("C01", "a cacheable report gives code %d", (int)st.code()); return; }
        reported += r.operations_size();
        std::vector<Reading> readings = {[&](Cache* x) { ModelReport(x, r, false); }, [&](Cache* x) { ModelReport(x, r, true); }};
        // A report without operations may or may not look for due entries.
        if (r.operations_size() == 0) { readings.push_back([&](Cache* x) { Expire(x, false); }); readings.push_back([&](Cache* x) { Expire(x, true); }); }
        Compare("Report", readings);
        break;
      }
      case 1: {
        PBT_LOG(c, "Flush");
        if (!agg->Flush().ok()) c.Fail("C02", "Flush failed");
        Compare("Flush", {[&](Cache* x) { Expire(x, false); }, [&](Cache* x) { Expire(x, true); }});
        break;
      }
      case 2: {
        PBT_LOG(c, "FlushAll");
        if (!agg->FlushAll().ok()) c.Fail("C01", "FlushAll failed");
        Compare("FlushAll", {[](Cache* x) { x->out = x->e; x->e.clear(); }});
        break;
      }
      case 3: {  // handed back untouched
        ReportRequest r = GenRequest();
        if (!r.operations_size()) break;
        r.mutable_operations(s.Below(r.operations_size()))->set_importance(s.Chance(1, 3) ? (Operation::Importance)2 : Operation::HIGH);
        PBT_LOG(c, "Report with an important operation %s", Short(r, 600).c_str());
        std::string before = Det(r);
        Status st = agg->Report(r);
        if (Det(r) != before) c.Fail("C01", "an important report was changed");
        Refused(st, StatusCode::kNotFound, "Report with an important operation");
        c.Label("important report");
        break;
      }
      case 4: {
        ReportRequest r = GenRequest();
        r.set_service_name(s.OneOf({"", "other", "sv", "svcx"}));
        if (r.operations_size() && s.Chance(1, 2)) r.mutable_operations(0)->set_importance(Operation::HIGH);
        PBT_LOG(c, "Report for service '%s'", r.service_name().c_str());
        Refused(agg->Report(r), StatusCode::kInvalidArgument, "Report for another service");
        break;
      }
    }
    int iv = agg->GetNextFlushInterval(), want = num_entries > 0 ? interval_ms : -1;
    if (iv != want) c.Fail("C02 C22", "flush interval is %d, expected %d", iv, want);
  }
  void Refused(Status st, StatusCode want, const char* op) {
    if (st.code() != want) { c.Fail("C01", "%s gives code %d, expected %d", op, (int)st.code(), (int)want); return; }
    Compare(op, {[](Cache*) {}, [&](Cache* x) { Expire(x, false); }, [&](Cache* x) { Expire(x, true); }});
  }
  void All() {
    if (s.Chance(1, 8)) kinds.reset();
    agg = scc::CreateReportAggregator("svc", "cfg", scc::ReportAggregationOptions(num_entries, interval_ms), Given(kinds));
    agg->SetFlushCallback([this](const ReportRequest& r) { PBT_LOG(c, "    flushed %s", Short(r, 1500).c_str()); sent.push_back(r); });
    wide = s.Chance(1, 2);
    PBT_LOG(c, "num_entries=%d flush_interval=%d ms", num_entries, interval_ms);
    for (int n = 0; s.More(n, 14, 60) && !c.stop; ++n) Step();
    if (c.stop) return;
    agg->FlushAll();
    Compare("final FlushAll", {[](Cache* x) { x->out = x->e; x->e.clear(); }});
    if (c.stop) return;
    agg.reset();
    if (!sent.empty()) c.Fail("C01", "destroying the empty aggregator sent %zu reports", sent.size());
    if (by_age) c.Label("left by age");
    if (by_size) c.Label("left by cache pressure");
    if (by_logs) c.Label("left with 100 log entries");
    if (merged) c.Label("operations merged");
    if (many) c.Label("several batches at once");
    if (num_entries <= 0) c.Label("caching disabled");
    if (c.Focus("C02") ? (by_age || by_size || by_logs) : (merged && flushed > 0)) c.nontrivial = true;
  }
};

const char* PbtRule(const std::string& p) {
  return p == "C02" ? "A case is a history of up to 60 Report/Flush/FlushAll calls with time steps around the flush interval, for a generated cache size "
                      "and interval; which operations leave, when and in which batches is compared with a model after every call. Non-trivial: an "
                      "operation left by age, cache pressure or its log entries."
                    : "A case is a history of up to 60 Report/Flush/FlushAll calls (0-25 operations per report, all metric kinds, log entries up to past "
                      "the limit, important and misaddressed reports mixed in) with elapsed time and cache pressure; every flushed operation is compared with "
                      "the reference aggregate of exactly the operations it stands for. Non-trivial: operations were merged and flushed.";
}
// Many identities in a large cache, or many values and merges of one.
static void Crowd(pbt::Src& s, pbt::Ctx& c) {
  int n = s.OneOf({256, 255, 300, 1000, 1024, 4096, 10000});
  int k = n + s.OneOf({0, 1, -1, 5, 100});
  bool one = s.Chance(1, 3);
  int values = one ? s.OneOf({300, 1, 70, 1000}) : 1, times = one ? s.OneOf({300, 70000, 1, 1000}) : 1;
  if (one && values > 70) times = std::min(times, 300);
  if (one) PBT_LOG(c, "crowd: %d merges of up to %d values", times, values);
  else PBT_LOG(c, "crowd: room for %d entries, %d identities", n, k);
  c.Label(one ? "large operations" : "large caches");
  auto agg = scc::CreateReportAggregator("svc", "cfg", scc::ReportAggregationOptions(n, 60000), nullptr);
  std::map<std::string, int64_t> sent;
  size_t ops = 0;
  agg->SetFlushCallback([&](const ReportRequest& r) {
    if (r.operations_size() < 1 || r.operations_size() > 10) c.Fail("C02 C01", "a flushed report has %d operations", r.operations_size());
    ops += r.operations_size();
    for (auto& op : r.operations())
      for (auto& set : op.metric_value_sets())
        for (auto& x : set.metric_values()) {
          auto l = x.labels().find("l");
          sent[op.operation_name() + (l == x.labels().end() ? "" : "/" + l->second)] += x.int64_value();
        }
  });
  auto report = [&](const std::string& name, int from, int count, int64_t v) {
    ReportRequest r;
    r.set_service_name("svc");
    auto* op = r.add_operations();
    op->set_operation_name(name);
    op->set_consumer_id("project:a");
    auto* set = op->add_metric_value_sets();
    set->set_metric_name("m");
    for (int i = 0; i < count; ++i) {
      auto* x = set->add_metric_values();
      x->set_int64_value(v);
      if (one) (*x->mutable_labels())["l"] = std::to_string(from + i);
    }
    Status st = agg->Report(r);
    if (!st.ok()) c.Fail("C01 C02", "a report was refused with code %d", (int)st.code());
  };
  if (one) {
    for (int t = 0; t < times && !c.stop; ++t) report("op", 0, t % 2 ? values : 1, 3);
    if (ops) c.Fail("C02 C01", "an operation was flushed before it was due");
    (void)agg->FlushAll();
    int64_t odd = times / 2;
    for (int i = 0; i < values && !c.stop; ++i) {
      int64_t want = 3 * (i == 0 ? times : odd);
      if (sent["op/" + std::to_string(i)] != want) c.Fail("C01 C03", "value %d of %d after %d merges is %lld, expected %lld", i, values, times, (long long)sent["op/" + std::to_string(i)], (long long)want);
    }
  } else {
    for (int i = 0; i < k && !c.stop; ++i) {
      report("op" + std::to_string(i), 0, 1, i + 1);
      size_t want = std::max(0, i + 1 - n);
      if (ops != want) c.Fail("C02 C01", "%zu operations were flushed after %d reports to a cache of %d", ops, i + 1, n);
      else if (want && !sent.count("op" + std::to_string(want - 1))) c.Fail("C02", "operation %zu was the oldest and was not flushed", want - 1);
    }
    if (s.Chance(1, 2)) {
      vclock::AdvanceUs(60000001);
      (void)agg->Flush();
      if (!c.stop && ops != (size_t)k) c.Fail("C02", "%zu operations were flushed when all %d were due", ops, k);
    }
    (void)agg->FlushAll();
    for (int i = 0; i < k && !c.stop; ++i)
      if (sent["op" + std::to_string(i)] != i + 1) c.Fail("C01", "usage %lld of operation %d was flushed", (long long)sent["op" + std::to_string(i)], i);
    if (!c.stop && ops != (size_t)k) c.Fail("C01 C02", "%zu operations were flushed, %d reported", ops, k);
  }
  c.nontrivial = true;
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  vclock::Scope clock;
  if (s.Chance(1, 1500)) { Crowd(s, c); return; }
  int n = s.Chance(1, 12) ? s.OneOf({0, -1}) : s.Chance(1, 60) ? s.OneOf({200, 1000}) : s.OneOf({3, 1, 2, 5, 15, 60, 60});
  int iv = s.Chance(1, 24) ? s.OneOf({60000, 3600000, 2147484, 86400000, INT_MAX}) : s.OneOf({100, 1, 10, 1000, 57, 0});
  Run r{s, c, n, iv};
  r.All();
}
