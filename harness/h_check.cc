// C04, C05: the check cache against a model, over generated histories.
#include "common.h"
#include "model.h"
#include "vclock.h"
#include "src/aggregator_interface.h"

struct Ident {
  Identity id;
  std::vector<std::pair<int, std::vector<Labels>>> metrics;   // distinct metrics, labels of their values
};
static std::string IdStr(const Ident& i) {
  std::map<std::string, std::string> m;
  for (auto& x : i.metrics) { std::string t; for (auto& l : x.second) for (auto& p : l) t += p.first + "=" + p.second + ","; m[MetricName(x.first)] = t; }
  return i.id.name + "|" + i.id.consumer + "|" + LabelStr(i.id.labels) + "|" + LabelStr(m);
}

struct Entry {
  std::string id;
  std::shared_ptr<const CheckResponse> resp;
  int64_t checked, used;
  std::shared_ptr<const RefOp> pending;
};
typedef std::pair<std::string, std::shared_ptr<const RefOp>> Out;
struct Model {
  std::vector<Entry> e;      // least recently used first
  std::vector<Out> out;      // sent in this call
  StatusCode code = StatusCode::kOk;
  std::shared_ptr<const CheckResponse> resp;   // expected response, if any
  bool forked = false;
};

struct Run {
  pbt::Src& s;
  pbt::Ctx& c;
  int num_entries;
  scc::CheckAggregationOptions opt;
  std::shared_ptr<KindMap> kinds;
  std::unique_ptr<scc::CheckAggregator> agg;
  std::vector<Model> cand;
  std::vector<CheckRequest> sent;
  std::vector<Ident> pool;
  struct Flight { CheckRequest r; size_t ident; };
  std::vector<Flight> flights;
  int serial = 0;
  uint64_t hits = 0, neg_hits = 0, refresh = 0, flushed = 0, evicted = 0, expired = 0, kept = 0;

  void Gone(Model* m, size_t i) {
    if (m->e[i].pending) m->out.emplace_back(m->e[i].id, m->e[i].pending);
    m->e.erase(m->e.begin() + i);
  }
  // An entry idle for exactly the expiration may stay or leave.
  void Expire(Model* m, bool inclusive) {
    int64_t iv = (int64_t)opt.expiration_ms * 1000;
    for (size_t i = 0; i < m->e.size();) {
      int64_t idle = vclock::Now() - m->e[i].used;
      if (idle == iv) m->forked = true;
      if (idle > iv || (inclusive && idle == iv)) { Gone(m, i); ++expired; }
      else ++i;
    }
  }
  Entry* Lookup(Model* m, const std::string& id) {
    for (size_t i = 0; i < m->e.size(); ++i)
      if (m->e[i].id == id) {
        Entry x = m->e[i];
        x.used = vclock::Now();
        m->e.erase(m->e.begin() + i);
        m->e.push_back(x);
        return &m->e.back();
      }
    return nullptr;
  }
  void ModelCheck(Model* m, const CheckRequest& r, const std::string& id, bool inclusive) {
    Expire(m, inclusive);
    m->code = StatusCode::kNotFound;
    Entry* e = Lookup(m, id);
    if (!e) return;
    bool bad = e->resp->check_errors_size() > 0;
    if (!bad) {
      auto n = std::make_shared<RefOp>();
      if (e->pending) *n = *e->pending;
      n->Merge(r.operation(), kinds.get());
      e->pending = n;
    }
    if (vclock::Now() - e->checked >= (int64_t)opt.flush_interval_ms * 1000) { e->checked = vclock::Now(); ++refresh; return; }
    m->code = StatusCode::kOk;
    m->resp = e->resp;
    ++hits;
    if (bad) ++neg_hits;
  }
  void ModelCache(Model* m, const std::string& id, std::shared_ptr<const CheckResponse> resp, bool inclusive) {
    Expire(m, inclusive);
    if (Entry* e = Lookup(m, id)) {
      if (e->pending) ++kept;
      e->resp = resp;
      e->checked = vclock::Now();
      return;
    }
    m->e.push_back(Entry{id, resp, vclock::Now(), vclock::Now(), nullptr});
    if ((int)m->e.size() > num_entries) { Gone(m, 0); ++evicted; }
  }

  std::string MatchSent(const Model& m, std::string* tags) {
    std::vector<bool> used(sent.size());
    for (auto& o : m.out) {
      bool ok = false;
      std::string why;
      for (size_t i = 0; i < sent.size() && !ok; ++i) {
        if (used[i]) continue;
        std::string d = DiffOp(*o.second, sent[i].operation());
        if (d.empty()) { used[i] = true; ok = true; }
        else if (sent[i].operation().operation_id() == o.second->base.operation_id()) why = d;
      }
      if (!ok) {
        *tags = "C04 C05";
        if (!why.empty()) { *tags = "C05"; return "usage of " + o.first + " was flushed with other content: " + why; }
        return "usage of " + o.first + " should have been flushed and was not";
      }
    }
    for (size_t i = 0; i < sent.size(); ++i)
      if (!used[i]) { *tags = "C04 C05"; return "an unexpected check request was flushed: " + Short(sent[i], 900); }
    return "";
  }
  static bool SamePending(const RefOp* a, const RefOp* b) {
    if (a == b) return true;
    return a && b && a->merged == b->merged && Det(a->base) == Det(b->base) && a->metrics.size() == b->metrics.size();
  }
  // Keeps the candidates that explain it.
  template <class F> void Settle(const char* op, StatusCode code, const CheckResponse* resp, F apply, bool idle_may_expire = false) {
    std::vector<Model> next;
    std::string why, tags;
    auto consider = [&](Model m) {
      std::string w, t;
      if (m.code != code) {
        w = "code " + std::to_string((int)code) + ", expected " + std::to_string((int)m.code);
        if (m.code == StatusCode::kOk) w += " (answer from cache: " + Short(*m.resp) + ")";
        if (code == StatusCode::kOk && resp) w += " (answered " + Short(*resp) + ")";
        t = "C04";
        // Sending or keeping a call that is not to be counts its usage wrongly.
        if (m.code == StatusCode::kOk || code == StatusCode::kOk) t = "C04 C05";
      } else if (m.resp && resp && Det(*m.resp) != Det(*resp)) {
        w = "answered " + Short(*resp) + ", the latest one is " + Short(*m.resp);
        t = "C04";
      } else {
        w = MatchSent(m, &t);
      }
      if (!w.empty()) { if (why.empty()) { why = w; tags = t; } return; }
      m.out.clear(); m.resp.reset(); m.code = StatusCode::kOk; m.forked = false;
      next.push_back(m);
    };
    for (auto& m0 : cand) {
      Model a = m0;
      apply(&a, false);
      consider(a);
      Model b = m0;
      apply(&b, true);
      if (a.forked || idle_may_expire) consider(b);
      if (idle_may_expire) { Model d = m0; apply(&d, false); Expire(&d, false); consider(d); Model e = m0; apply(&e, false); Expire(&e, true); consider(e); }
    }
    if (next.empty()) { c.Fail(tags, "%s: %s", op, why.c_str()); return; }
    for (auto& r : sent)
      if (r.service_name() != "svc" || r.service_config_id() != "cfg" || !r.has_operation())
        c.Fail("C05", "%s: a flushed check has service name '%s', config id '%s'", op, r.service_name().c_str(), r.service_config_id().c_str());
    flushed += sent.size();
    sent.clear();
    // Equal candidates are one.
    std::vector<Model> uniq;
    for (auto& m : next) {
      bool dup = false;
      for (auto& u : uniq) {
        if (u.e.size() != m.e.size()) continue;
        bool same = true;
        for (size_t i = 0; i < m.e.size() && same; ++i)
          same = u.e[i].id == m.e[i].id && u.e[i].checked == m.e[i].checked && u.e[i].used == m.e[i].used && u.e[i].resp == m.e[i].resp && SamePending(u.e[i].pending.get(), m.e[i].pending.get());
        dup = dup || same;
      }
      if (!dup) uniq.push_back(m);
    }
    if (uniq.size() > 8) uniq.resize(8);
    cand.swap(uniq);
  }

  Ident GenIdent() {
    pbt::Span sp(s);
    GenOpt o; o.names = 3; o.labels = 3;
    Ident i;
    if (!pool.empty() && s.Chance(2, 3)) {  // close to another one
      i = pool[s.Below(pool.size())];
      switch (s.Below(5)) {
        case 0: i.id.name += "x"; break;
        case 1: i.id.consumer += "x"; break;
        case 2: i.id.labels["more"] = s.OneOf({"1", "2"}); break;
        case 3: if (i.metrics.empty()) i.metrics.push_back({0, {Labels()}}); else i.metrics.pop_back(); break;
        case 4: if (!i.metrics.empty()) { auto& l = i.metrics[0].second[0]; l["code"] = l.count("code") && l["code"] == "200" ? "404" : "200"; } break;
      }
      return i;
    }
    i.id = GenIdentity(s, o);
    for (int k = 0, m = s.Below(6); s.More(k, 1, 3); ++k, m = (m + 1 + s.Below(2)) % 6) {
      bool dup = false;
      for (auto& x : i.metrics) dup = dup || x.first == m;
      if (dup) continue;
      std::vector<Labels> v;
      for (int n = s.Pick({5, 1}) + 1; n > 0; --n) v.push_back(GenValueLabels(s));
      i.metrics.emplace_back(m, v);
    }
    return i;
  }
  CheckRequest Build(const Ident& i) {
    pbt::Span sp(s);
    CheckRequest r;
    r.set_service_name("svc");
    if (s.Chance(1, 4)) r.set_service_config_id("other");
    GenOpt o;
    Operation op = MakeOp(s, i.id, &serial, o);
    if (s.Chance(1, 8)) AddLogs(s, s.Range(1, 3), &serial, &op);
    size_t n = i.metrics.size(), rot = n ? s.Below(n) : 0;   // the order of metrics does not matter
    for (size_t k = 0; k < n; ++k) {
      auto& m = i.metrics[(k + rot) % n];
      auto* set = op.add_metric_value_sets();
      set->set_metric_name(MetricName(m.first));
      static const int types[] = {0, 1, 2, 0, 0, 0};
      for (auto& l : m.second) {
        MetricValue v = GenValue(s, s.Chance(1, 16) ? s.Below(5) : types[m.first], o);
        v.clear_labels();
        for (auto& p : l) (*v.mutable_labels())[p.first] = p.second;
        *set->add_metric_values() = v;
      }
    }
    *r.mutable_operation() = op;
    return r;
  }
  CheckResponse GenResponse() {
    pbt::Span sp(s);
    CheckResponse r;
    if (!s.Chance(1, 12)) r.set_operation_id("resp" + std::to_string(serial++));   // else possibly empty
    if (s.Chance(1, 3)) r.set_service_config_id("2016");
    for (int n = s.Pick({4, 2, 1}); n > 0; --n) {
      auto* e = r.add_check_errors();
      e->set_code(GenCheckCode(s));
      if (s.Chance(1, 2)) e->set_detail("why");
    }
    return r;
  }

  void DoCheck() {
    size_t k = s.Below(pool.size());
    CheckRequest r = Build(pool[k]);
    std::string id = IdStr(pool[k]);
    CheckResponse resp = GenResponse();   // whatever the caller's object held before
    int odd = s.Pick({30, 2, 1, 1});
    if (odd == 1) r.mutable_operation()->set_importance(s.Chance(1, 3) ? (Operation::Importance)2 : Operation::HIGH);
    if (odd == 2) r.set_service_name(s.OneOf({"", "other", "sv", "svcx"}));
    if (odd == 3) r.clear_operation();
    PBT_LOG(c, "Check %s", Short(r, 1500).c_str());
    std::string before = Det(r);
    Status st = agg->Check(r, &resp);
    PBT_LOG(c, "    code %d%s%s", (int)st.code(), st.ok() ? " " : "", st.ok() ? Short(resp).c_str() : "");
    if (Det(r) != before) c.Fail("C04", "Check changed the request");
    if (odd >= 1 || num_entries <= 0) {
      StatusCode want = odd >= 2 ? StatusCode::kInvalidArgument : StatusCode::kNotFound;
      Settle(odd == 1 ? "Check of an important operation" : odd ? "invalid Check" : "Check with caching disabled", st.code(), nullptr,
             [&](Model* m, bool) { m->code = want; }, true);
      if (odd == 1) flights.push_back(Flight{r, k});
      return;
    }
    Settle("Check", st.code(), st.ok() ? &resp : nullptr, [&](Model* m, bool in) { ModelCheck(m, r, id, in); });
    if (st.code() == StatusCode::kNotFound) flights.push_back(Flight{r, k});
  }
  void DoResponse() {
    CheckRequest r;
    size_t k;
    if (!flights.empty() && s.Chance(9, 10)) {
      size_t f = s.Chance(1, 2) ? flights.size() - 1 : s.Below(flights.size());
      r = flights[f].r; k = flights[f].ident;
      if (!s.Chance(1, 8)) flights.erase(flights.begin() + f);
    } else {
      k = s.Below(pool.size());
      r = Build(pool[k]);
    }
    auto resp = std::make_shared<CheckResponse>(GenResponse());
    std::string id = IdStr(pool[k]);
    PBT_LOG(c, "CacheResponse for %s: %s", id.c_str(), Short(*resp).c_str());
    Status st = agg->CacheResponse(r, *resp);
    if (num_entries <= 0) { Settle("CacheResponse with caching disabled", st.code(), nullptr, [](Model*, bool) {}); return; }
    Settle("CacheResponse", st.code(), nullptr, [&](Model* m, bool in) { ModelCache(m, id, resp, in); });
  }
  void Step() {
    pbt::Span sp(s);
    int64_t fl = opt.flush_interval_ms * 1000ll, ex = opt.expiration_ms * 1000ll;
    switch (s.Pick({10, 4, 3, 2})) {
      case 1: vclock::AdvanceUs(s.Range(1, 6) * std::max<int64_t>(1, fl / 5)); break;
      case 2: vclock::AdvanceUs(std::max<int64_t>(0, fl + s.OneOf({0, 1, -1, 1000}))); break;
      case 3: vclock::AdvanceUs(std::max<int64_t>(0, ex + s.OneOf({0, 1, -1, -1000}))); break;
    }
    PBT_LOG(c, "t=%lld us", (long long)(vclock::Now() - vclock::kBase));
    switch (s.Pick({12, 7, 2, 1})) {
      case 0: DoCheck(); break;
      case 1: DoResponse(); break;
      case 2: {
        PBT_LOG(c, "Flush");
        Status st = agg->Flush();
        Settle("Flush", st.code(), nullptr, [&](Model* m, bool in) { Expire(m, in); });
        break;
      }
      case 3: {
        PBT_LOG(c, "FlushAll");
        Status st = agg->FlushAll();
        Settle("FlushAll", st.code(), nullptr, [&](Model* m, bool) { while (!m->e.empty()) Gone(m, 0); });
        break;
      }
    }
    int iv = agg->GetNextFlushInterval(), want = num_entries > 0 ? opt.expiration_ms : -1;
    if (iv != want) c.Fail("C04 C05 C22", "flush interval is %d, expected %d", iv, want);
  }
  void All() {
    cand.emplace_back();
    agg = scc::CreateCheckAggregator("svc", "cfg", opt, Given(kinds));
    agg->SetFlushCallback([this](const CheckRequest& r) { PBT_LOG(c, "    flushed %s", Short(r, 1500).c_str()); sent.push_back(r); });
    PBT_LOG(c, "num_entries=%d flush_interval=%d ms expiration=%d ms", num_entries, opt.flush_interval_ms, opt.expiration_ms);
    int np = num_entries > 30 ? s.Range(100, 250) : num_entries > 5 ? s.Range(6, 40) : s.Range(1, 6);
    std::set<std::string> ids;
    for (int i = 0; i < np; ++i) { Ident d = GenIdent(); if (ids.insert(IdStr(d)).second) pool.push_back(d); }
    for (int n = 0; s.More(n, 30, 120) && !c.stop; ++n) Step();
    if (c.stop) { (void)agg.release(); return; }
    PBT_LOG(c, "final FlushAll");
    Status st = agg->FlushAll();
    Settle("final FlushAll", st.code(), nullptr, [&](Model* m, bool) { while (!m->e.empty()) Gone(m, 0); });
    if (c.stop) return;
    agg.reset();
    if (!sent.empty()) c.Fail("C05", "destroying the empty aggregator sent %zu requests", sent.size());
    if (hits) c.Label("answered from cache");
    if (neg_hits) c.Label("failing answer from cache");
    if (refresh) c.Label("refreshed after the flush interval");
    if (flushed) c.Label("usage flushed");
    if (evicted) c.Label("evicted by cache pressure");
    if (expired) c.Label("expired");
    if (kept) c.Label("response recorded over pending usage");
    if (num_entries <= 0) c.Label("caching disabled");
    c.nontrivial = c.Focus("C05") ? flushed > 0 && hits > 0 : hits > 0 && refresh > 0;
  }
};

const char* PbtRule(const std::string& p) {
  return p == "C05" ? "A case is a history of up to 120 Check/CacheResponse/Flush/FlushAll calls over generated near-equal identities with time steps around the "
                      "intervals and cache pressure; every flushed request is compared with the reference aggregate of the calls admitted since. Non-trivial: "
                      "calls were answered from cache and their usage was flushed."
                    : "A case is a history of up to 120 Check/CacheResponse/Flush/FlushAll calls over generated near-equal identities with time steps around the "
                      "flush and expiration intervals, answers arriving late, out of order or twice; each status and response is compared with a model. "
                      "Non-trivial: a call was answered from cache and one was sent on to refresh the answer.";
}
// Many identities in a large cache: it holds as many as it was given room for,
// and those that leave are the ones used longest ago.
static void Crowd(pbt::Src& s, pbt::Ctx& c) {
  int n = s.OneOf({256, 255, 300, 1000, 1024, 4096, 10000});
  int extra = s.OneOf({1, 0, 7, 300});
  int k = n + s.OneOf({0, 1, -1, 5, 100});
  PBT_LOG(c, "crowd: room for %d entries, %d identities, then %d more", n, k, extra);
  c.Label("large caches");
  auto agg = scc::CreateCheckAggregator("svc", "cfg", scc::CheckAggregationOptions(n, 60000, 600000), nullptr);
  std::map<std::string, int64_t> sent;
  agg->SetFlushCallback([&](const CheckRequest& r) {
    int64_t v = 0;
    for (auto& set : r.operation().metric_value_sets()) for (auto& x : set.metric_values()) v += x.int64_value();
    sent[r.operation().operation_name()] += v;
  });
  auto req = [](int i) {
    CheckRequest r;
    r.set_service_name("svc");
    auto* op = r.mutable_operation();
    op->set_operation_name("op" + std::to_string(i));
    op->set_consumer_id("project:a");
    auto* set = op->add_metric_value_sets();
    set->set_metric_name("m");
    set->add_metric_values()->set_int64_value(i + 1);
    return r;
  };
  auto add = [&](int i) {
    CheckRequest r = req(i);
    CheckResponse p;
    Status st = agg->Check(r, &p);
    if (st.code() != StatusCode::kNotFound) { c.Fail("C04", "identity %d was answered with code %d before its first response", i, (int)st.code()); return; }
    p.set_operation_id("r" + std::to_string(i));
    (void)agg->CacheResponse(r, p);
  };
  for (int i = 0; i < k && !c.stop; ++i) add(i);
  if (!sent.empty() && !c.stop) c.Fail("C05 C04", "identities without usage were flushed");
  int first = std::max(0, k - n);
  int64_t now = 0;
  for (int i = 0; i < k && !c.stop; ++i) {
    CheckResponse p;
    Status st = agg->Check(req(i), &p);
    if (i < first ? st.code() != StatusCode::kNotFound : !st.ok() || p.operation_id() != "r" + std::to_string(i))
      c.Fail("C04 C05", "identity %d of %d in a cache of %d got code %d '%s'", i, k, n, (int)st.code(), p.operation_id().c_str());
  }
  for (int i = 0; i < extra && !c.stop; ++i) {
    add(k + i);
    if (k - first + i + 1 > n) {   // the one used longest ago has left
      int gone = first + (k - first + i - n);
      if (gone < k && (sent.size() != (size_t)++now || sent["op" + std::to_string(gone)] != gone + 1))
        c.Fail("C05 C04", "adding identity %d to a cache of %d did not flush the usage of identity %d", k + i, n, gone);
    }
  }
  bool idle = s.Chance(1, 2);
  if (idle) { vclock::AdvanceUs(600000001); (void)agg->Flush(); } else (void)agg->FlushAll();
  for (int i = first; i < k && !c.stop; ++i)
    if (sent["op" + std::to_string(i)] != i + 1) c.Fail("C05", "the usage of identity %d is %d and %lld was flushed", i, i + 1, (long long)sent["op" + std::to_string(i)]);
  if (sent.size() != (size_t)(k - first) && !c.stop) c.Fail("C05", "%zu identities were flushed, %d had usage", sent.size(), k - first);
  c.nontrivial = true;
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  vclock::Scope clock;
  if (s.Chance(1, 1500)) { Crowd(s, c); return; }
  int n = s.Chance(1, 16) ? s.OneOf({0, -1}) : s.Chance(1, 100) ? 150 : s.OneOf({2, 1, 3, 4, 8, 30});
  int fl = s.OneOf({100, 1, 10, 57, 1000, 0});
  int ex = s.Pick({3, 1}) == 0 ? fl * s.OneOf({2, 1, 5}) + s.Below(3) : s.OneOf({0, 1, 100, 3000});
  if (s.Chance(1, 24)) {   // hours and days
    fl = s.OneOf({60000, 3600000, 2147484, 86400000, 1000});
    ex = s.OneOf({86400000, 3600000, 4294968, INT_MAX, 604800000});
  }
  Run r{s, c, n, scc::CheckAggregationOptions(n, fl, ex)};
  r.kinds = s.Chance(1, 5) ? nullptr : Kinds();
  r.All();
}
