// C06, C07, C08: the quota cache against a model, over generated histories.
#include "quota_model.h"
#include "vclock.h"
#include "src/aggregator_interface.h"

struct Entry {
  std::string id;
  std::shared_ptr<const AllocateQuotaRequest> initial;
  std::shared_ptr<const AllocateQuotaResponse> resp;
  bool in_flight;
  int64_t refreshed, inserted;
  std::shared_ptr<const RefQuota> pending;
};
struct Out {
  std::string id;
  std::shared_ptr<const AllocateQuotaRequest> verbatim;
  std::shared_ptr<const RefQuota> tokens;
  bool normal = false;       // forced NORMAL mode
  const char* why;
};
struct Model {
  std::vector<Entry> e;      // oldest insertion first
  std::vector<Out> out;
  StatusCode code = StatusCode::kOk;
  std::shared_ptr<const AllocateQuotaResponse> resp;
  bool forked = false;
};

struct Run {
  pbt::Src& s;
  pbt::Ctx& c;
  scc::QuotaAggregationOptions opt;
  std::unique_ptr<scc::QuotaAggregator> agg;
  std::vector<Model> cand;
  std::vector<AllocateQuotaRequest> sent, flights;
  struct Ident { std::string method, consumer; std::vector<std::string> metrics; };
  std::vector<Ident> pool;
  int serial = 0;
  std::shared_ptr<const AllocateQuotaResponse> empty = std::make_shared<AllocateQuotaResponse>();
  uint64_t first = 0, hits = 0, neg = 0, charged = 0, resent = 0, aged = 0, dropped = 0, evicted = 0, discarded = 0, flush_all = 0, kept_normal = 0;

  static bool Negative(const Entry& e) { return e.resp->allocate_errors_size() > 0; }

  void Expire(Model* m, bool inclusive) {
    int64_t iv = opt.refresh_interval_ms * 1000ll, ex = opt.expiration_interval_ms * 1000ll;
    std::vector<Entry> due, rest;
    for (auto& e : m->e) {
      int64_t age = vclock::Now() - e.inserted;
      if (age == iv) m->forked = true;
      (age > iv || (inclusive && age == iv) ? due : rest).push_back(e);
    }
    for (auto& e : due) {
      if (vclock::Now() - e.refreshed >= ex) { ++dropped; continue; }
      e.inserted = vclock::Now();
      if (!e.in_flight && e.pending) {
        m->out.push_back(Out{e.id, nullptr, e.pending, false, "aged"});
        e.in_flight = true; e.refreshed = vclock::Now(); e.pending = nullptr;
        ++aged; ++charged;
      }
      rest.push_back(e);
    }
    m->e.swap(rest);
  }
  Entry* Find(Model* m, const std::string& id) {
    for (auto& e : m->e) if (e.id == id) return &e;
    return nullptr;
  }
  void ModelQuota(Model* m, std::shared_ptr<const AllocateQuotaRequest> r, const std::string& id, bool inclusive) {
    Expire(m, inclusive);
    Entry* e = Find(m, id);
    if (!e) {
      ++first;
      m->e.push_back(Entry{id, r, empty, true, vclock::Now(), vclock::Now(), nullptr});
      m->out.push_back(Out{id, r, nullptr, false, "first call"});
      m->resp = empty;
      if ((int)m->e.size() > opt.num_entries) {
        Entry& old = m->e[0];
        ++evicted;
        if (vclock::Now() - old.refreshed < opt.expiration_interval_ms * 1000ll && old.pending)
          m->out.push_back(Out{old.id, nullptr, old.pending, false, "cache pressure"});
        m->e.erase(m->e.begin());
      }
      return;
    }
    ++hits;
    if (!e->in_flight && vclock::Now() - e->refreshed >= opt.refresh_interval_ms * 1000ll) {
      e->in_flight = true;
      e->refreshed = vclock::Now();
      if (e->pending) { m->out.push_back(Out{id, nullptr, e->pending, Negative(*e), "refresh"}); ++charged; }
      else { m->out.push_back(Out{id, e->initial, nullptr, Negative(*e), "refresh"}); ++resent; }
      e->pending = nullptr;
    }
    if (!Negative(*e)) {
      auto n = std::make_shared<RefQuota>();
      if (e->pending) *n = *e->pending;
      n->Merge(r->allocate_operation());
      e->pending = n;
    } else {
      ++neg;
    }
    m->resp = e->resp;
  }
  void ModelCache(Model* m, const std::string& id, std::shared_ptr<const AllocateQuotaResponse> resp, bool inclusive) {
    Expire(m, inclusive);
    Entry* e = Find(m, id);
    if (!e) return;
    e->in_flight = false;
    e->resp = resp;
    if (Negative(*e) && e->pending) { e->pending = nullptr; ++discarded; }
  }

  std::string Same(const Out& o, const AllocateQuotaRequest& got) {
    if (o.verbatim) {
      AllocateQuotaRequest w = *o.verbatim;
      if (o.normal) w.mutable_allocate_operation()->set_quota_mode(QuotaOperation::NORMAL);
      return Det(w) == Det(got) ? "" : "sent " + Short(got) + ", expected the initial request " + Short(w);
    }
    if (got.service_name() != "svc" || got.service_config_id() != "cfg") return "has service name '" + got.service_name() + "', config id '" + got.service_config_id() + "'";
    RefQuota w = *o.tokens;
    if (o.normal) w.base.set_quota_mode(QuotaOperation::NORMAL);
    AllocateQuotaRequest rest = got;
    rest.clear_allocate_operation(); rest.clear_service_name(); rest.clear_service_config_id();
    if (rest.ByteSizeLong()) return "has other fields: " + Short(rest);
    return DiffQuota(w, got.allocate_operation());
  }
  std::string MatchSent(const Model& m, std::string* tags) {
    std::vector<bool> used(sent.size());
    std::vector<const Out*> missing;
    for (auto& o : m.out) {
      bool ok = false;
      for (size_t i = 0; i < sent.size() && !ok; ++i)
        if (!used[i] && QuotaId(sent[i]) == o.id && Same(o, sent[i]).empty()) { used[i] = true; ok = true; }
      if (!ok) missing.push_back(&o);
    }
    for (auto* o : missing)
      for (size_t i = 0; i < sent.size(); ++i)
        if (!used[i] && QuotaId(sent[i]) == o->id) {
          *tags = o->verbatim && std::string(o->why) == "first call" ? "C06 C07" : "C07";
          return std::string(o->why) + " request for " + o->id + ": " + Same(*o, sent[i]);
        }
    if (!missing.empty()) {
      *tags = "C06 C07 C08";
      return std::string(missing[0]->why) + " request for " + missing[0]->id + " should have been sent and was not";
    }
    for (size_t i = 0; i < sent.size(); ++i)
      if (!used[i]) { *tags = "C06 C07 C08"; return "a request was sent that is not due: " + Short(sent[i]); }
    return "";
  }
  static bool SamePending(const RefQuota* a, const RefQuota* b) {
    if (a == b) return true;
    return a && b && a->merged == b->merged && a->Tokens() == b->Tokens() && Det(a->base) == Det(b->base);
  }
  template <class F> void Settle(const char* op, StatusCode code, const AllocateQuotaResponse* resp, F apply, bool may_age = false) {
    std::vector<Model> next;
    std::string why, tags;
    auto consider = [&](Model m) {
      std::string w, t;
      if (m.code != code) {
        w = "code " + std::to_string((int)code) + ", expected " + std::to_string((int)m.code);
        t = "C06 C24";
      } else if (m.resp && resp && Det(*m.resp) != Det(*resp)) {
        w = "answered " + Short(*resp) + ", expected " + Short(*m.resp);
        t = "C06";
      } else {
        w = MatchSent(m, &t);
      }
      if (!w.empty()) { if (why.empty()) { why = w; tags = t; } return; }
      m.out.clear(); m.resp.reset(); m.code = StatusCode::kOk; m.forked = false;
      next.push_back(m);
    };
    for (auto& m0 : cand) {
      Model a = m0;
      apply(&a, false);
      consider(a);
      if (a.forked) { Model b = m0; apply(&b, true); consider(b); }
      if (may_age) { Model d = m0; apply(&d, false); Expire(&d, false); consider(d); d = m0; apply(&d, false); Expire(&d, true); consider(d); }
    }
    if (next.empty()) { c.Fail(tags, "%s: %s", op, why.c_str()); return; }
    for (auto& r : sent) flights.push_back(r);
    sent.clear();
    std::vector<Model> uniq;
    for (auto& m : next) {
      bool dup = false;
      for (auto& u : uniq) {
        bool same = u.e.size() == m.e.size();
        for (size_t i = 0; i < m.e.size() && same; ++i)
          same = u.e[i].id == m.e[i].id && u.e[i].refreshed == m.e[i].refreshed && u.e[i].inserted == m.e[i].inserted && u.e[i].in_flight == m.e[i].in_flight &&
                 u.e[i].resp == m.e[i].resp && u.e[i].initial == m.e[i].initial && SamePending(u.e[i].pending.get(), m.e[i].pending.get());
        dup = dup || same;
      }
      if (!dup) uniq.push_back(m);
    }
    if (uniq.size() > 8) uniq.resize(8);
    cand.swap(uniq);
  }

  void GenPool() {
    int np = opt.num_entries > 20 ? s.Range(60, 150) : opt.num_entries > 5 ? s.Range(5, 30) : s.Range(1, 5);
    std::set<std::string> ids;
    for (int i = 0; i < np; ++i) {
      pbt::Span sp(s);
      Ident d;
      if (!pool.empty() && s.Chance(1, 2)) {
        d = pool[s.Below(pool.size())];
        switch (s.Below(4)) {
          case 0: d.method += "x"; break;
          case 1: d.consumer += "x"; break;
          case 2: if (d.metrics.size() > 1) d.metrics.pop_back(); else d.metrics.push_back("extra"); break;
          case 3: if (!d.metrics.empty()) d.metrics[0] += "x"; else d.metrics.push_back("m"); break;
        }
      } else {
        d.method = s.OneOf({"GetX", "ListX", "DelX"});
        d.consumer = s.OneOf({"project:a", "project:b"});
        for (int k = 0, m = s.Below(2); s.More(k, 2, 3); ++k) d.metrics.push_back("metric" + std::to_string(m + k));
      }
      std::string key = d.method + d.consumer;
      std::set<std::string> n(d.metrics.begin(), d.metrics.end());
      for (auto& x : n) key += "," + x;
      if (n.size() == d.metrics.size() && ids.insert(key).second) pool.push_back(d);
    }
  }
  AllocateQuotaRequest Build(const Ident& d) {
    pbt::Span sp(s);
    AllocateQuotaRequest r;
    r.set_service_name("svc");
    if (s.Chance(1, 3)) r.set_service_config_id(s.OneOf({"other", "cfg"}));
    auto* op = r.mutable_allocate_operation();
    op->set_operation_id(GenOpId(s, &serial));
    op->set_method_name(d.method);
    op->set_consumer_id(d.consumer);
    if (s.Chance(1, 3)) (*op->mutable_labels())["zone"] = s.OneOf({"us", "eu"});
    op->set_quota_mode(s.OneOf({QuotaOperation::BEST_EFFORT, QuotaOperation::NORMAL, QuotaOperation::CHECK_ONLY, QuotaOperation::UNSPECIFIED}));
    size_t n = d.metrics.size(), rot = n ? s.Below(n) : 0;
    // A request may name a metric twice: the identity is the set of names.
    size_t more = n && s.Chance(1, 12) ? 1 + s.Below(2) : 0;
    for (size_t i = 0; i < n + more; ++i) {
      auto* set = op->add_quota_metrics();
      set->set_metric_name(d.metrics[(i + rot) % n]);
      auto* v = set->add_metric_values();
      v->set_int64_value(s.Pick({8, 1, 1}) == 0 ? s.Range(1, 9) : s.OneOf<int64_t>({0, 1000000000000ll, 4294967297ll, -2}));
      if (s.Chance(1, 4)) *v->mutable_start_time() = GenTime(s);
      if (s.Chance(1, 4)) *v->mutable_end_time() = GenTime(s);
      if (s.Chance(1, 8)) (*v->mutable_labels())["l"] = "1";
    }
    return r;
  }
  AllocateQuotaResponse GenResponse() {
    pbt::Span sp(s);
    AllocateQuotaResponse r;
    if (s.Chance(9, 10)) r.set_operation_id("resp" + std::to_string(serial++));
    for (int n = s.Pick({4, 2, 1}); n > 0; --n) {
      auto* e = r.add_allocate_errors();
      e->set_code(GenQuotaCode(s));
      if (s.Chance(1, 2)) e->set_description("d");
    }
    if (s.Chance(1, 4)) r.add_quota_metrics()->set_metric_name("q");
    return r;
  }
  void DoQuota() {
    auto r = std::make_shared<AllocateQuotaRequest>(Build(pool[s.Below(pool.size())]));
    AllocateQuotaResponse resp = GenResponse();
    int odd = s.Pick({30, 1, 1});
    if (odd == 1) r->set_service_name(s.OneOf({"", "other", "sv", "svcx"}));
    if (odd == 2) r->clear_allocate_operation();
    PBT_LOG(c, "Quota %s", Short(*r, 1500).c_str());
    std::string before = Det(*r);
    Status st = agg->Quota(*r, &resp);
    PBT_LOG(c, "    code %d%s%s", (int)st.code(), st.ok() ? " " : "", st.ok() ? Short(resp).c_str() : "");
    if (Det(*r) != before) c.Fail("C06", "Quota changed the request");
    if (odd || opt.num_entries <= 0) {
      StatusCode want = odd ? StatusCode::kInvalidArgument : StatusCode::kNotFound;
      Settle(odd ? "invalid Quota" : "Quota with caching disabled", st.code(), nullptr, [&](Model* m, bool) { m->code = want; }, true);
      return;
    }
    std::string id = QuotaId(*r);
    Settle("Quota", st.code(), &resp, [&](Model* m, bool in) { ModelQuota(m, r, id, in); });
  }
  void DoResponse() {
    AllocateQuotaRequest r;
    if (!flights.empty() && s.Chance(12, 13)) {
      size_t f = s.Chance(1, 2) ? flights.size() - 1 : s.Below(flights.size());
      r = flights[f];
      if (!s.Chance(1, 10)) flights.erase(flights.begin() + f);
    } else {
      r = Build(pool[s.Below(pool.size())]);
    }
    auto resp = std::make_shared<AllocateQuotaResponse>(GenResponse());
    std::string id = QuotaId(r);
    PBT_LOG(c, "CacheResponse for %s: %s", id.c_str(), Short(*resp).c_str());
    Status st = agg->CacheResponse(r, *resp);
    if (opt.num_entries <= 0) { Settle("CacheResponse with caching disabled", st.code(), nullptr, [](Model*, bool) {}); return; }
    Settle("CacheResponse", st.code(), nullptr, [&](Model* m, bool in) { ModelCache(m, id, resp, in); });
  }
  void Step() {
    pbt::Span sp(s);
    int64_t iv = opt.refresh_interval_ms * 1000ll, ex = opt.expiration_interval_ms * 1000ll;
    switch (s.Pick({10, 4, 3, 1})) {
      case 1: vclock::AdvanceUs(s.Range(1, 6) * std::max<int64_t>(1, iv / 5)); break;
      case 2: vclock::AdvanceUs(std::max<int64_t>(0, iv + s.OneOf({0, 1, -1, 1000}))); break;
      case 3: vclock::AdvanceUs(std::max<int64_t>(0, ex + s.OneOf({0, 1, -1}))); break;
    }
    PBT_LOG(c, "t=%lld us", (long long)(vclock::Now() - vclock::kBase));
    switch (s.Pick({14, 7, 3, 1})) {
      case 0: DoQuota(); break;
      case 1: DoResponse(); break;
      case 2: {
        PBT_LOG(c, "Flush");
        Status st = agg->Flush();
        Settle("Flush", st.code(), nullptr, [&](Model* m, bool in) { Expire(m, in); });
        break;
      }
      case 3: {
        if (!s.Chance(1, 2)) break;
        PBT_LOG(c, "FlushAll");
        Status st = agg->FlushAll();
        Settle("FlushAll", st.code(), nullptr, [&](Model* m, bool) { m->e.clear(); });
        ++flush_all;
        break;
      }
    }
    int want = opt.num_entries > 0 ? opt.refresh_interval_ms : -1, got = agg->GetNextFlushInterval();
    if (got != want) c.Fail("C08 C22", "flush interval is %d, expected %d", got, want);
  }
  void All() {
    cand.emplace_back();
    agg = scc::CreateAllocateQuotaAggregator("svc", "cfg", opt);
    agg->SetFlushCallback([this](const AllocateQuotaRequest& r) { PBT_LOG(c, "    sent %s", Short(r, 1500).c_str()); sent.push_back(r); });
    PBT_LOG(c, "num_entries=%d refresh_interval=%d ms expiration_interval=%d ms", opt.num_entries, opt.refresh_interval_ms, opt.expiration_interval_ms);
    GenPool();
    for (int n = 0; s.More(n, 35, 150) && !c.stop; ++n) Step();
    if (c.stop) { (void)agg.release(); return; }
    agg.reset();
    if (!sent.empty()) c.Fail("C07", "destroying the aggregator sent %zu requests", sent.size());
    if (hits) c.Label("answered from cache");
    if (neg) c.Label("negative answer from cache");
    if (charged) c.Label("aggregated tokens sent");
    if (resent) c.Label("initial request sent again");
    if (aged) c.Label("refreshed by ageing");
    if (dropped) c.Label("dropped after the expiration interval");
    if (evicted) c.Label("evicted by cache pressure");
    if (discarded) c.Label("pending tokens discarded by a negative answer");
    if (flush_all) c.Label("FlushAll");
    if (opt.num_entries <= 0) c.Label("caching disabled");
    if (c.Focus("C06")) c.nontrivial = hits > 0 && (charged || resent);
    else if (c.Focus("C07")) c.nontrivial = charged > 0;
    else c.nontrivial = aged || dropped || evicted;
  }
};

const char* PbtRule(const std::string& p) {
  if (p == "C06") return "A case is a history of up to 150 Quota/CacheResponse/Flush/FlushAll calls over generated near-equal identities, with time steps around the intervals, "
                         "answers late, out of order, repeated or unsolicited; answers and sent requests are compared with a model after each call. Non-trivial: a call was "
                         "answered from cache and a refresh was sent.";
  if (p == "C07") return "A case is a history of up to 150 Quota/CacheResponse/Flush/FlushAll calls; every sent request is compared with the reference sum of exactly the calls "
                         "it stands for. Non-trivial: aggregated tokens were sent.";
  return "A case is a history of up to 150 Quota/CacheResponse/Flush/FlushAll calls for generated cache size and intervals; what is sent, kept and dropped is compared with a "
         "model after each call. Non-trivial: an entry was refreshed by ageing, dropped after the expiration interval or evicted by cache pressure.";
}
// Many methods in a large cache: it holds as many as it was given room for,
// the oldest leave first, and their tokens are sent.
static void Crowd(pbt::Src& s, pbt::Ctx& c) {
  int n = s.OneOf({256, 255, 300, 1000, 1024, 4096, 10000});
  int extra = s.OneOf({1, 0, 7, 300});
  int k = n + s.OneOf({0, 1, -1, 5, 100});
  PBT_LOG(c, "crowd: room for %d entries, %d methods, then %d more", n, k, extra);
  c.Label("large caches");
  auto agg = scc::CreateAllocateQuotaAggregator("svc", "cfg", scc::QuotaAggregationOptions(n, 60000, 600000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  auto tokens = [](const AllocateQuotaRequest& r) {
    int64_t v = 0;
    for (auto& set : r.allocate_operation().quota_metrics()) for (auto& x : set.metric_values()) v += x.int64_value();
    return v;
  };
  auto req = [](int i, int64_t v) {
    AllocateQuotaRequest r;
    r.set_service_name("svc");
    auto* op = r.mutable_allocate_operation();
    op->set_method_name("m" + std::to_string(i));
    op->set_consumer_id("project:a");
    auto* set = op->add_quota_metrics();
    set->set_metric_name("q");
    set->add_metric_values()->set_int64_value(v);
    return r;
  };
  auto is = [&](const AllocateQuotaRequest& r, int i, int64_t v) { return r.allocate_operation().method_name() == "m" + std::to_string(i) && tokens(r) == v; };
  // The first call of a method sends it, after what had to leave.
  auto add = [&](int i, int gone) {
    AllocateQuotaResponse p;
    sent.clear();
    Status st = agg->Quota(req(i, 1), &p);
    bool left = gone < 0, itself = false;
    for (auto& r : sent) { if (is(r, i, 1)) itself = true; else if (gone >= 0 && is(r, gone, gone + 2)) left = true; }
    if (!st.ok() || !itself || !left || sent.size() != (gone < 0 ? 1 : 2))
      c.Fail("C08 C07 C06", "adding method %d to a cache of %d gave code %d and sent %zu requests; method %d had to leave", i, n, (int)st.code(), sent.size(), gone);
    p.set_operation_id("r" + std::to_string(i));
    (void)agg->CacheResponse(req(i, 1), p);
  };
  for (int i = 0; i < k && !c.stop; ++i) add(i, -1);
  int first = std::max(0, k - n);
  sent.clear();
  for (int i = first; i < k && !c.stop; ++i) {
    AllocateQuotaResponse p;
    Status st = agg->Quota(req(i, i + 2), &p);
    if (!st.ok() || p.operation_id() != "r" + std::to_string(i) || !sent.empty())
      c.Fail("C06 C07 C08", "method %d of %d in a cache of %d got code %d '%s' and %zu requests were sent", i, k, n, (int)st.code(), p.operation_id().c_str(), sent.size());
  }
  int at = first;
  for (int i = 0; i < extra && !c.stop; ++i) {
    bool full = k - first + i + 1 > n;
    add(k + i, full && at < k ? at : -1);
    if (full) ++at;
  }
  sent.clear();
  vclock::AdvanceUs(60000001);
  (void)agg->Flush();
  std::map<std::string, int64_t> by;
  for (auto& r : sent) by[r.allocate_operation().method_name()] += tokens(r);
  for (int i = at; i < k && !c.stop; ++i)
    if (by["m" + std::to_string(i)] != i + 2) c.Fail("C07 C08", "%lld of %d tokens of method %d were sent when due", (long long)by["m" + std::to_string(i)], i + 2, i);
  if (!c.stop && sent.size() != (size_t)std::max(0, k - at)) c.Fail("C07 C08", "%zu requests were sent, %d were due", sent.size(), k - at);
  c.nontrivial = true;
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  vclock::Scope clock;
  if (s.Chance(1, 1500)) { Crowd(s, c); return; }
  int n = s.Chance(1, 20) ? s.OneOf({0, -1}) : s.Chance(1, 100) ? 100 : s.OneOf({3, 1, 2, 5, 20});
  int iv = s.OneOf({100, 1, 10, 57, 1000, 0});
  int ex = s.Pick({4, 1}) == 0 ? iv * s.OneOf({10, 3, 2, 1}) + s.Below(2) : s.OneOf({600000, 0, 50});
  if (s.Chance(1, 24)) {   // hours and days
    iv = s.OneOf({60000, 3600000, 2147484, 86400000});
    ex = s.OneOf({86400000, 3600000, 4294968, INT_MAX, 604800000});
  }
  Run r{s, c, scc::QuotaAggregationOptions(n, iv, ex)};
  r.All();
}
