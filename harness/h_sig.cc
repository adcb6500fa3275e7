// C13: cache identity of requests.
#include <algorithm>
#include "common.h"
#include "src/aggregator_interface.h"
#include "src/signature.h"

// The identifying content, independent of the order in which it is written.
struct Id {
  std::string a, b;                                     // check: operation name, consumer; report: consumer, name; quota: method, consumer
  Labels labels;
  std::vector<std::pair<std::string, std::vector<Labels>>> metrics;  // unique names, in writing order
};
enum Kind { kCheck, kReport, kValue, kQuota };
static const char* kKindName[] = {"check", "report", "metric value", "quota"};

// Long words are told apart at any place.
static std::string LongWord(pbt::Src& s) {
  std::string r(s.OneOf({15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 5000}), 'w');
  if (s.Chance(2, 3)) r[s.Chance(1, 2) ? r.size() - 1 : s.Below(r.size())] = 'x';
  return r;
}
static std::string Word(pbt::Src& s) {
  switch (s.Pick({16, 4, 6, 6, 2, 1})) {
    case 0: return s.OneOf({"a", "b", "c", "ab", "bc", "abc"});
    case 1: return "";
    case 2: return s.OneOf({"project:p", "api_key:k", "/type", "servicecontrol.googleapis.com/user_agent", "us-central1", "ba", "\xc3\xa9t\xc3\xa9", "a/b?c=1&d=%20#e", "caf\xc3\xa9"});
    case 3: { std::string r; for (int i = s.Range(0, 5); i > 0; --i) r += "abAB0:/= "[s.Below(9)]; return r; }
    case 5: return LongWord(s);
    default: return s.OneOf({std::string("\0", 1), std::string("a\0b", 3), std::string("\0a", 2), std::string("a\0\0b", 4), std::string("b\0", 2)});
  }
}
static Labels GenLabels(pbt::Src& s, int max) {
  Labels l;
  if (s.Chance(1, 60)) for (int i = s.OneOf({10, 20, 40}); i > 0; --i) l["k" + std::to_string(i)] = "v";
  for (int i = 0; s.More(i, 1, max); ++i) { 
    pbt::Span sp(s);
    std::string k = Word(s);
    if (!l.empty() && s.Chance(1, 6)) {   // a name close to its neighbour's
      k = l.rbegin()->first;
      if (k.empty() || s.Chance(1, 2)) k += s.OneOf({"a", " ", "A", "-"}); else k.back() ^= s.OneOf({1, 0x20});
    }
    l[k] = Word(s);
  }
  return l;
}
static Id Gen(pbt::Src& s, Kind k) {
  Id id;
  if (k != kValue) { id.a = Word(s); id.b = Word(s); }
  if (k != kQuota) id.labels = GenLabels(s, 4);
  if (k == kCheck || k == kQuota) {
    std::set<std::string> names;
    if (s.Chance(1, 60))
      for (int i = s.OneOf({8, 12, 30}); i > 0; --i) { names.insert("m" + std::to_string(i)); id.metrics.emplace_back("m" + std::to_string(i), std::vector<Labels>(1)); }
    for (int i = 0; s.More(i, 1, 4); ++i) {
      pbt::Span sp(s);
      std::string n = Word(s);
      if (!names.insert(n).second) continue;
      std::vector<Labels> vals;
      int nv = k == kQuota ? 1 : 1 + (s.Chance(1, 4) ? 1 : 0);
      for (int j = 0; j < nv; ++j) vals.push_back(k == kQuota ? Labels() : GenLabels(s, 2));
      id.metrics.emplace_back(n, vals);
    }
  }
  return id;
}
// Same identity if equal, different if they do not even agree when the labels of
// each metric's values are taken together (Loose).  In between - the same labels
// split over values differently, or values in another order - nothing is claimed.
typedef std::pair<std::vector<std::string>, std::map<std::string, std::vector<std::pair<std::string, std::string>>>> Canon;
static Canon CanonOf(const Id& id, Kind k) {
  Canon c;
  c.first = {id.a, id.b};
  for (auto& l : id.labels) { c.first.push_back(l.first); c.first.push_back(l.second); }
  for (auto& m : id.metrics) {
    auto& v = c.second[m.first];
    if (k == kCheck) for (auto& ls : m.second) for (auto& l : ls) v.push_back(l);
  }
  return c;
}
static bool Undecided(const Id& x, const Id& y, Kind k) {
  if (k != kCheck) return false;
  auto loose = [&](const Id& id) { Canon c = CanonOf(id, k); for (auto& m : c.second) std::sort(m.second.begin(), m.second.end()); return c; };
  auto strict = [&](const Id& id) { std::map<std::string, std::vector<Labels>> r; for (auto& m : id.metrics) r[m.first] = m.second; return r; };
  return loose(x) == loose(y) && strict(x) != strict(y);
}
// The delimited byte stream of the pinned wire of identities (signature_test
// pins its digests).  Used only to recognise the recorded finding: two
// different identities whose delimited streams coincide.
static std::string Flat(const Id& id, Kind k) {
  const std::string d(1, '\0');
  std::string r;
  if (k == kValue) { for (auto& l : id.labels) r += d + l.first + d + l.second; return r; }
  r = id.a + d + id.b;
  if (k == kCheck) r += d;
  for (auto& l : id.labels) r += d + l.first + d + l.second;
  auto c = CanonOf(id, k);
  for (auto& m : c.second) { r += d + m.first; for (auto& l : m.second) r += d + l.first + d + l.second; }
  if (k == kCheck) r += d;
  return r;
}
static bool HasNul(const Id& id) {
  auto nul = [](const std::string& x) { return x.find('\0') != std::string::npos; };
  bool r = nul(id.a) || nul(id.b);
  for (auto& l : id.labels) r = r || nul(l.first) || nul(l.second);
  for (auto& m : id.metrics) { r = r || nul(m.first); for (auto& ls : m.second) for (auto& l : ls) r = r || nul(l.first) || nul(l.second); }
  return r;
}
static std::string ShowId(const Id& id, Kind k) {
  std::string r = std::string(kKindName[k]) + "(" + Esc(id.a) + "|" + Esc(id.b) + "|" + Esc(LabelStr(id.labels)) + "|";
  for (auto& m : id.metrics) { r += Esc(m.first) + "["; for (auto& l : m.second) r += Esc(LabelStr(l)); r += "] "; }
  return r + ")";
}

// Random order of the written parts and random non-identifying fields.
template <class T> void Shuffle(pbt::Src& s, std::vector<T>& v) {
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.Below(i)]);
}
static void PutLabels(pbt::Src& s, const Labels& l, google::protobuf::Map<std::string, std::string>* m) {
  std::vector<std::pair<std::string, std::string>> v(l.begin(), l.end());
  Shuffle(s, v);
  if (s.Chance(1, 3)) {  // same content, another history of the map
    for (int i = 0; i < 20; ++i) (*m)["tmp" + std::to_string(i)] = "x";
    for (auto& p : v) (*m)[p.first] = p.second;
    for (int i = 0; i < 20; ++i) m->erase("tmp" + std::to_string(i));
  } else {
    for (auto& p : v) (*m)[p.first] = p.second;
  }
}
static void Noise(pbt::Src& s, MetricValue* v) {
  if (s.Chance(1, 3)) v->mutable_start_time()->set_seconds(s.Range(0, 99));
  if (s.Chance(1, 3)) v->mutable_end_time()->set_nanos(s.Range(0, 99));
  switch (s.Pick({2, 1, 1, 1})) {
    case 0: v->set_int64_value(s.Range(0, 9)); break;
    case 1: v->set_double_value(s.Range(0, 9)); break;
    case 2: v->set_string_value("x"); break;
    default: break;
  }
}
static Operation BuildOp(pbt::Src& s, const Id& id, Kind k) {
  Operation op;
  if (s.Chance(1, 2)) op.set_operation_id("id" + std::to_string(s.Range(0, 9)));
  if (s.Chance(1, 3)) op.mutable_start_time()->set_seconds(s.Range(0, 99));
  if (s.Chance(1, 3)) op.mutable_end_time()->set_seconds(s.Range(0, 99));
  if (s.Chance(1, 6)) op.add_log_entries()->set_name("log");
  PutLabels(s, id.labels, op.mutable_labels());
  if (k == kCheck) {
    op.set_operation_name(id.a); op.set_consumer_id(id.b);
    auto ms = id.metrics;
    Shuffle(s, ms);
    for (auto& m : ms) {
      auto* set = op.add_metric_value_sets();
      set->set_metric_name(m.first);
      for (auto& l : m.second) { auto* v = set->add_metric_values(); PutLabels(s, l, v->mutable_labels()); Noise(s, v); }
    }
  } else {
    op.set_consumer_id(id.a); op.set_operation_name(id.b);
    if (s.Chance(1, 3)) {  // metrics do not identify a report operation
      auto* set = op.add_metric_value_sets();
      set->set_metric_name(s.OneOf({"m1", "m2"}));
      Noise(s, set->add_metric_values());
    }
  }
  return op;
}
static QuotaOperation BuildQuota(pbt::Src& s, const Id& id) {
  QuotaOperation op;
  op.set_method_name(id.a); op.set_consumer_id(id.b);
  if (s.Chance(1, 2)) op.set_operation_id("id" + std::to_string(s.Range(0, 9)));
  if (s.Chance(1, 3)) (*op.mutable_labels())[Word(s)] = Word(s);
  if (s.Chance(1, 3)) op.set_quota_mode(s.OneOf({QuotaOperation::NORMAL, QuotaOperation::BEST_EFFORT, QuotaOperation::CHECK_ONLY}));
  auto ms = id.metrics;
  // The metrics are a set: naming one again does not matter.
  while (!id.metrics.empty() && ms.size() < 6 && s.Chance(1, 6)) ms.push_back(id.metrics[s.Below(id.metrics.size())]);
  Shuffle(s, ms);
  for (auto& m : ms) {
    auto* set = op.add_quota_metrics();
    set->set_metric_name(m.first);
    set->add_metric_values()->set_int64_value(s.Range(0, 9));
  }
  return op;
}

static std::string Mutated(pbt::Src& s, const std::string& w) {
  switch (s.Below(8)) {
    case 6: {   // some character more, anywhere, perhaps followed by a tail
      std::string r = w;
      std::string ins(1, (char)(s.Chance(1, 2) ? "?/:#@%&=+.,;-_*|~ \t\n\r\"'"[s.Below(22)] : s.Range(1, 255)));
      if (s.Chance(1, 3)) ins += Word(s);
      r.insert(s.Chance(1, 2) ? r.size() : s.Below(r.size() + 1), ins);
      return r;
    }
    case 7: {   // some other character
      if (w.empty()) return "\xc3\xa9";
      std::string r = w;
      r[s.Below(r.size())] = (char)s.Range(1, 255);
      return r;
    }
    case 4: if (!w.empty()) { std::string r = w; char& ch = r[s.Chance(1, 2) ? r.size() - 1 : s.Below(r.size())]; ch = s.Chance(1, 2) ? ch ^ 0x20 : ch ^ 1; return r; } return "d";
    case 5: return s.Chance(1, 2) ? w + " " : w + w;
    case 0: return w + "a";
    case 1: return w.empty() ? "b" : w.substr(1);
    case 2: return w.empty() ? "c" : w.substr(0, w.size() - 1);
    default: return Word(s);
  }
}
static Id Mutate(pbt::Src& s, Id id, Kind k, std::string* what) {
  std::vector<std::string*> words;
  if (k != kValue) { words.push_back(&id.a); words.push_back(&id.b); }
  for (auto& m : id.metrics) words.push_back(&m.first);
  std::vector<std::pair<Labels*, int>> lab;
  if (k != kQuota) lab.push_back({&id.labels, 0});
  if (k == kCheck) for (auto& m : id.metrics) for (auto& l : m.second) lab.push_back({&l, 1});
  switch (s.Pick({3, 2, 3, 3, 2, 2, 2, 2, 2})) {
    case 0: if (!words.empty()) { *what = "word changed"; auto* w = words[s.Below(words.size())]; *w = Mutated(s, *w); } break;
    case 1: if (words.size() > 1) { *what = "adjacent words swapped"; size_t i = s.Below(words.size() - 1); std::swap(*words[i], *words[i + 1]); } break;
    case 2: if (words.size() > 1) {  // move the boundary between two fields
      *what = "boundary moved";
      size_t i = s.Below(words.size() - 1);
      std::string t = *words[i] + *words[i + 1];
      size_t cut = s.Below(t.size() + 1);
      *words[i] = t.substr(0, cut); *words[i + 1] = t.substr(cut);
    } break;
    case 3: if (!lab.empty()) {
      auto* l = lab[s.Below(lab.size())].first;
      if (l->empty() || s.Chance(1, 3)) { *what = "label added"; std::string key = Word(s); (*l)[key] = Word(s); }
      else if (s.Chance(1, 2)) { *what = "label removed"; l->erase(std::next(l->begin(), s.Below(l->size()))); }
      else { *what = "label value changed"; auto it = std::next(l->begin(), s.Below(l->size())); it->second = Mutated(s, it->second); }
    } break;
    case 4: if (!lab.empty()) {
      auto* l = lab[s.Below(lab.size())].first;
      if (!l->empty()) { *what = "key and value swapped"; auto it = std::next(l->begin(), s.Below(l->size())); auto p = *it; l->erase(it); (*l)[p.second] = p.first; }
    } break;
    case 5: if (!lab.empty()) {
      auto* l = lab[s.Below(lab.size())].first;
      if (!l->empty()) { *what = "boundary in label moved"; auto it = std::next(l->begin(), s.Below(l->size())); std::string t = it->first + it->second; l->erase(it); size_t cut = s.Below(t.size() + 1); (*l)[t.substr(0, cut)] = t.substr(cut); }
    } break;
    case 6: if (lab.size() > 1) {  // label moves between operation and metric, or between metrics
      auto* l = lab[s.Below(lab.size())].first; auto* t = lab[s.Below(lab.size())].first;
      if (!l->empty() && l != t) { *what = "label moved"; auto it = std::next(l->begin(), s.Below(l->size())); (*t)[it->first] = it->second; l->erase(it); }
    } break;
    case 7: if (!id.metrics.empty()) { *what = "metric removed"; id.metrics.erase(id.metrics.begin() + s.Below(id.metrics.size())); } break;
    default: if (k == kCheck || k == kQuota) { *what = "metric added"; id.metrics.emplace_back(Word(s), std::vector<Labels>(1)); }
  }
  // Metric names stay unique.
  std::set<std::string> seen;
  auto& ms = id.metrics;
  ms.erase(std::remove_if(ms.begin(), ms.end(), [&](auto& m) { return !seen.insert(m.first).second; }), ms.end());
  return id;
}

const char* PbtRule(const std::string&) {
  return "A case is a pair of identities of one kind (check, report operation, metric value, quota), each written with a "
         "random order of labels and metric sets and random other fields; the second is the same identity, a small "
         "mutation of it (word, one character of it, boundary, key/value, label, metric) or independent. Their signatures, and in a quarter of "
         "the cases their sharing of a real cache entry, must agree with equality of the identities. Non-trivial: the pair "
         "is a mutation that differs, or the same identity with at least two labels or metrics.";
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  Kind k = (Kind)s.Pick({4, 3, 2, 3});
  Id x, y;
  std::string what = "same";
  bool recorded = s.Chance(1, 2000);
  if (recorded) {  // the recorded findings, always tried
    k = kCheck;
    if (s.Chance(1, 2)) {
      x.a = y.a = "op"; x.b = y.b = "project:p"; x.labels = {{"a", "b"}};
      y.metrics = {{"a", {Labels()}}, {"b", {Labels()}}};
    } else {
      k = kReport;
      x.a = "c"; x.b = "op"; x.labels = {{"a", "b"}};
      y.a = "c"; y.b = std::string("op\0a\0b", 6);
    }
    what = "recorded finding";
  } else {
    x = Gen(s, k);
    switch (s.Pick({3, 6, 2})) {
      case 0: y = x; break;
      case 1: y = Mutate(s, x, k, &what); if (s.Chance(1, 5)) y = Mutate(s, y, k, &what); break;
      default: y = Gen(s, k); what = "independent";
    }
  }
  const bool same = CanonOf(x, k) == CanonOf(y, k);
  if (Undecided(x, y, k)) { c.Label("undecided: values split or ordered differently"); return; }
  c.Label(std::string(kKindName[k]) + (same ? ": same identity" : ": different identity"));
  c.Label("pair: " + what);
  if ((!same && what != "independent") || (same && x.labels.size() + x.metrics.size() > 1)) c.nontrivial = true;
  PBT_LOG(c, "%s: %s vs %s", what.c_str(), ShowId(x, k).c_str(), ShowId(y, k).c_str());

  auto verdict = [&](bool got, const char* how) {
    if (got == same) return;
    std::string msg = ShowId(x, k) + (got ? " and " : " is split from ") + ShowId(y, k) + (got ? " share the identity (" : " (") + how + ")";
    if (got && Flat(x, k) == Flat(y, k)) {
      if (HasNul(x) || HasNul(y)) c.Finding("identity-embedded-nul", "C13", msg);
      else c.Finding("check-identity-token-ambiguity", "C13", msg);
      c.Label("recorded finding hit");
    } else {
      c.Fail("C13", "%s", msg.c_str());
    }
  };

  std::string sx, sy, sx2;
  CheckRequest cx, cy; ReportRequest rx, ry; AllocateQuotaRequest qx, qy;
  for (int i = 0; i < 2; ++i) {
    const Id& id = i ? y : x;
    std::string sig, again;
    if (k == kCheck) {
      CheckRequest& r = i ? cy : cx;
      r.set_service_name("svc"); *r.mutable_operation() = BuildOp(s, id, k);
      if (s.Chance(1, 4)) r.set_service_config_id("cfg" + std::to_string(i));
      sig = scc::GenerateCheckRequestSignature(r); again = scc::GenerateCheckRequestSignature(r);
    } else if (k == kReport) {
      ReportRequest& r = i ? ry : rx;
      r.set_service_name("svc"); *r.add_operations() = BuildOp(s, id, k);
      sig = scc::GenerateReportOperationSignature(r.operations(0)); again = scc::GenerateReportOperationSignature(r.operations(0));
    } else if (k == kValue) {
      MetricValue v; PutLabels(s, id.labels, v.mutable_labels()); Noise(s, &v);
      sig = scc::GenerateReportMetricValueSignature(v); again = scc::GenerateReportMetricValueSignature(v);
    } else {
      AllocateQuotaRequest& r = i ? qy : qx;
      r.set_service_name("svc"); *r.mutable_allocate_operation() = BuildQuota(s, id);
      if (s.Chance(1, 4)) r.set_service_config_id("cfg" + std::to_string(i));
      sig = scc::GenerateAllocateQuotaRequestSignature(r); again = scc::GenerateAllocateQuotaRequestSignature(r);
    }
    if (sig != again) c.Fail("C13", "the identity of %s changes between calls", ShowId(id, k).c_str());
    (i ? sy : sx) = sig;
  }
  verdict(sx == sy, "signature");
  if (c.failed || !s.Chance(1, 4)) return;

  // The same through the caches.
  c.Label("checked through a cache");
  if (k == kCheck) {
    auto agg = scc::CreateCheckAggregator("svc", "cfg", scc::CheckAggregationOptions(10, 1000000, 2000000), nullptr);
    CheckResponse resp, got; resp.set_operation_id("r");
    (void)agg->CacheResponse(cx, resp);
    Status st = agg->Check(cy, &got);
    verdict(st.ok(), "check cache");
  } else if (k == kReport) {
    auto agg = scc::CreateReportAggregator("svc", "cfg", scc::ReportAggregationOptions(10, 1000000), nullptr);
    int ops = 0;
    agg->SetFlushCallback([&](const ReportRequest& r) { ops += r.operations_size(); });
    (void)agg->Report(rx); (void)agg->Report(ry);
    (void)agg->FlushAll();
    verdict(ops == 1, "report cache");
  } else if (k == kQuota) {
    auto agg = scc::CreateAllocateQuotaAggregator("svc", "cfg", scc::QuotaAggregationOptions(10, 1000000, 2000000));
    int sends = 0;
    agg->SetFlushCallback([&](const AllocateQuotaRequest&) { ++sends; });
    AllocateQuotaResponse r;
    (void)agg->Quota(qx, &r); (void)agg->Quota(qy, &r);
    verdict(sends == 1, "quota cache");
  } else {
    auto agg = scc::CreateReportAggregator("svc", "cfg", scc::ReportAggregationOptions(10, 1000000), nullptr);
    ReportRequest a; a.set_service_name("svc");
    auto* set = a.add_operations()->add_metric_value_sets();
    set->set_metric_name("m");
    for (int i = 0; i < 2; ++i) { auto* v = set->add_metric_values(); PutLabels(s, i ? y.labels : x.labels, v->mutable_labels()); v->set_int64_value(1); }
    int vals = 0;
    agg->SetFlushCallback([&](const ReportRequest& r) { vals += r.operations(0).metric_value_sets(0).metric_values_size(); });
    (void)agg->Report(a);
    (void)agg->FlushAll();
    verdict(vals == 1, "metric values of a report");
  }
}
