// C17, C18: the LRU cache against a model, over generated histories.
#include "pbt.h"
#include "vclock.h"

#include <list>
#include <memory>
#include <tuple>

#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"

namespace scc = google::service_control_client;

static int64_t g_live = 0;   // values that exist
struct Val {
  int id;
  explicit Val(int i) : id(i) { ++g_live; }
  ~Val() { --g_live; }
};

// What the model knows of one inserted value.
struct Ent {
  int id, key;
  size_t units;
  int pins = 0;
  bool off_list = false;   // pinned by a lookup that counts as a use
  int64_t used;            // last use (LRU) or insertion (age-based)
  bool in_table = true;    // else removed; alive only while pinned
  bool dead = false;
};

static std::vector<int>* g_deleted = nullptr;   // ids handed to the deleter
static std::vector<std::string>* g_delkeys = nullptr;
static std::string Key(int k) { return "key" + std::to_string(k); }

// What DebugOutput lists: the id, the pins, the time, whether it is deferred.
typedef std::tuple<int, int, int64_t, bool> Listed;
static std::vector<Listed>* g_listed = nullptr;

typedef scc::SimpleLRUCache<std::string, Val> PlainBase;
class Plain : public PlainBase {
 public:
  Plain(int64_t n, int64_t max_entries) : PlainBase(n), max_entries_(max_entries) {}
  bool IsOverfull() const override { return max_entries_ >= 0 ? Entries() > max_entries_ : PlainBase::IsOverfull(); }
 protected:
  void RemoveElement(const std::string& k, Val* v) override {
    g_deleted->push_back(v->id);
    g_delkeys->push_back(k);
    if (v->id % 2) PlainBase::RemoveElement(k, v);   // deletes it
    else delete v;
  }
  void DebugIterator(const std::string&, const Val* v, int pins, int64_t t, bool deferred, std::string*) const override {
    g_listed->push_back(Listed(v->id, pins, t, deferred));
  }
 private:
  int64_t max_entries_;
};
struct Deleter {
  void operator()(Val* v) const { g_deleted->push_back(v->id); g_delkeys->push_back(""); delete v; }
};
class WithDeleter : public scc::SimpleLRUCacheWithDeleter<std::string, Val, Deleter> {
 public:
  WithDeleter(int64_t n, Deleter d) : scc::SimpleLRUCacheWithDeleter<std::string, Val, Deleter>(n, d) {}
 protected:
  void DebugIterator(const std::string&, const Val* v, int pins, int64_t t, bool deferred, std::string*) const override {
    g_listed->push_back(Listed(v->id, pins, t, deferred));
  }
};

template <class Cache>
struct Run {
  pbt::Src& s;
  pbt::Ctx& c;
  Cache& cache;
  bool lru;
  int64_t max_units, max_entries, max_idle = -1;  // microseconds
  std::vector<Ent> ents;
  std::map<int, Val*> vals;             // id -> live value
  std::list<int> order;                 // evictable candidates, most recent first
  struct Pin { int id; bool upd; };
  std::vector<Pin> pins;
  std::vector<int> deleted;
  std::vector<std::string> delkeys;
  std::vector<int> expect;              // ids the model deletes in this operation
  std::set<int> expired_now;
  int nkeys;
  bool ties = false;                    // several calls in one microsecond, all updating the order
  int64_t scale = 1;                    // size of one unit
  bool evicted = false, expired = false, pinned_removed = false;

  Ent* Find(int key) {
    for (auto& e : ents) if (!e.dead && e.in_table && e.key == key) return &e;
    return nullptr;
  }
  int64_t Units() { int64_t u = 0; for (auto& e : ents) if (!e.dead) u += e.units; return u; }
  int64_t Entries() { int64_t n = 0; for (auto& e : ents) if (!e.dead && e.in_table) ++n; return n; }
  bool Overfull() { return Units() > max_units || (max_entries >= 0 && Entries() > max_entries); }
  void Kill(Ent* e) { e->dead = true; e->in_table = false; order.remove(e->id); expect.push_back(e->id); }
  void RemoveEnt(Ent* e) {
    order.remove(e->id);
    if (e->pins > 0) { e->in_table = false; pinned_removed = true; } else Kill(e);
  }
  void Collect() {
    std::vector<int> o(order.rbegin(), order.rend());
    for (int id : o) {
      if (!Overfull()) break;
      if (ents[id].pins == 0) { Kill(&ents[id]); evicted = true; }
    }
  }
  void Expire() {
    if (max_idle < 0) return;
    std::vector<int> o(order.rbegin(), order.rend());
    for (int id : o)
      if (vclock::Now() - ents[id].used > max_idle) { expired = true; expired_now.insert(id); RemoveEnt(&ents[id]); }
  }
  void LinkByUse(Ent* e) {
    auto it = order.begin();
    while (it != order.end() && ents[*it].used > e->used) ++it;
    order.insert(it, e->id);
  }
  void DoRelease(Pin p) {
    Ent* e = &ents[p.id];
    --e->pins;
    if (!e->in_table) { if (e->pins == 0) Kill(e); return; }
    if (lru && p.upd) e->used = vclock::Now();
    if (e->pins == 0) {
      if (lru && e->off_list) { LinkByUse(e); e->off_list = false; }
      if (Overfull()) { evicted = true; RemoveEnt(e); }
    }
  }

  // Compares what the operation deleted with what it should have deleted.
  void Settle(const char* op) {
    std::vector<int> d = deleted, x = expect;
    std::sort(d.begin(), d.end()); std::sort(x.begin(), x.end());
    std::string ds, xs;
    for (int i : d) ds += "#" + std::to_string(i) + " ";
    for (int i : x) xs += "#" + std::to_string(i) + " ";
    if (!d.empty()) PBT_LOG(c, "    deleted %s", ds.c_str());
    for (size_t i = 0; i < deleted.size(); ++i) {
      Ent& e = ents[deleted[i]];
      if (!delkeys[i].empty() && delkeys[i] != Key(e.key)) c.Fail("C17", "%s: value #%d handed to the deleter with key %s", op, e.id, delkeys[i].c_str());
      if (e.pins > 0) c.Fail("C17", "%s: value #%d (%s) deleted while pinned", op, e.id, Key(e.key).c_str());
      vals.erase(e.id);
    }
    if (d != x) {
      bool exp = false;
      for (int i : x) if (expired_now.count(i)) exp = true;
      for (int i : d) if (max_idle >= 0 && !ents[i].dead) exp = true;
      bool both = !d.empty() && !x.empty();
      const char* tags = exp ? "C17 C18" : both ? "C18" : "C17 C18";
      for (size_t i = 1; i < d.size(); ++i) if (d[i] == d[i - 1]) tags = "C17";
      c.Fail(tags, "%s: deleted { %s}, expected { %s}", op, ds.c_str(), xs.c_str());
    }
    deleted.clear(); delkeys.clear(); expect.clear(); expired_now.clear();
    if (c.stop) return;
    // Every count the cache reports.
    int64_t units = 0, n = 0, dn = 0, du = 0, pu = 0;
    for (auto& e : ents) if (!e.dead) {
      units += e.units;
      if (e.in_table) { ++n; if (e.pins) pu += e.units; } else { ++dn; du += e.units; }
    }
#define EQ(what, got, want) \
    if ((int64_t)(got) != (int64_t)(want)) c.Fail("C17", "%s: " what " is %lld, expected %lld", op, (long long)(got), (long long)(want))
    EQ("Size", cache.Size(), units);
    EQ("Entries", cache.Entries(), n);
    EQ("DeferredEntries", cache.DeferredEntries(), dn);
    EQ("DeferredSize", cache.DeferredSize(), du);
    EQ("PinnedSize", cache.PinnedSize(), pu);
    EQ("MaxSize", cache.MaxSize(), max_units);
    std::ostringstream sum;
    sum << pu << "/" << du << "/" << units << " p/d/a";
    if (cache.Summary() != sum.str()) c.Fail("C17", "%s: Summary is %s, expected %s", op, cache.Summary().c_str(), sum.str().c_str());
    if (Overfull()) {
      for (int id : order) if (!ents[id].pins) c.Fail("C17", "%s: over the maximum though #%d could be evicted", op, id);
    }
    std::map<std::string, std::pair<Val*, int64_t>> it_have;
    for (auto it = cache.begin(); it != cache.end(); ++it) {
      if (it_have.count(it->first)) c.Fail("C17", "%s: iteration visits %s twice", op, it->first.c_str());
      it_have[it->first] = {it->second, lru ? it.last_use_time() : it.insertion_time()};
    }
    EQ("number of iterated entries", it_have.size(), n);
    for (auto& e : ents) if (!e.dead && e.in_table) {
      auto f = it_have.find(Key(e.key));
      if (f == it_have.end()) c.Fail("C17", "%s: %s is missing from the iteration", op, Key(e.key).c_str());
      else if (f->second.first != vals[e.id]) c.Fail("C17", "%s: iteration has another value for %s", op, Key(e.key).c_str());
      else if (f->second.second != e.used) c.Fail("C17 C18", "%s: time of %s (#%d) is %lld, expected %lld", op, Key(e.key).c_str(), e.id, (long long)f->second.second, (long long)e.used);
    }
  }

  void Step() {
    pbt::Span sp(s);
    // Time moves, so that "least recently used" is unambiguous even after lookups
    // that do not update the order.  Without those it is the order of the calls.
    int64_t dt = ties ? s.Below(2) : 1;
    switch (s.Pick({10, 3, 2, 2, max_idle > 0 && max_idle < 100000000000000000 ? 1 : 0})) {
      case 4: dt = std::max<int64_t>(1, max_idle / 8 * s.Range(1, 7)); break;
      case 1: dt = s.Range(1, 10); break;
      case 2: dt = s.Range(1, 3) * 100; break;
      case 3: dt = max_idle > 0 && max_idle < 100000000000000000 ? std::max<int64_t>(1, max_idle + s.Range(-2, 2)) : 50; break;
    }
    vclock::AdvanceUs(dt);
    int k = s.Below(nkeys);
    int op = s.Pick({12, 4, 14, 12, 4, 2, 2, 3, 2, 2, 2, 1, 4, 3, nkeys > 6 ? 10 : 0});
    switch (op) {
      case 0: case 1: {  // Insert, InsertPinned
        size_t units = s.Pick({6, 3, 1, 1}) == 0 ? 1 : s.OneOf({2, 3, 0, 7});
        units *= scale;
        int id = ents.size();
        Val* v = new Val(id);
        vals[id] = v;
        PBT_LOG(c, "t+%lld %s(%s, #%d, %zu units)", (long long)dt, op ? "InsertPinned" : "Insert", Key(k).c_str(), id, units);
        if (Ent* old = Find(k)) RemoveEnt(old);
        Ent e; e.id = id; e.key = k; e.units = units; e.pins = 1; e.used = vclock::Now(); e.off_list = lru;
        ents.push_back(e);
        if (!lru) order.push_front(id);
        Collect();
        if (op == 0) { DoRelease({id, true}); cache.Insert(Key(k), v, units); }
        else { pins.push_back({id, true}); cache.InsertPinned(Key(k), v, units); }
        Settle("Insert");
        break;
      }
      case 2: {  // Lookup
        bool upd = ties || !s.Chance(1, 3);
        Expire();
        Ent* e = Find(k);
        if (e) {
          ++e->pins;
          if (lru && upd && !e->off_list) { order.remove(e->id); e->off_list = true; }
        }
        scc::SimpleLRUCacheOptions opt;
        opt.set_update_eviction_order(upd);
        if (s.Chance(1, 4)) {  // looked up and released at once
          if (e) DoRelease({e->id, upd});
          int id = -1;
          {
            typename Cache::ScopedLookup l(&cache, Key(k), opt);
            if (l.Found() != (l.value() != nullptr)) c.Fail("C17", "Found() disagrees with value()");
            if (l.Found()) id = l.value()->id;
          }
          PBT_LOG(c, "t+%lld ScopedLookup(%s%s) -> #%d", (long long)dt, Key(k).c_str(), upd ? "" : ", no update", id);
          if (id != (e ? e->id : -1)) c.Fail("C17 C18", "lookup of %s gives #%d, expected #%d", Key(k).c_str(), id, e ? e->id : -1);
          Settle("ScopedLookup");
          break;
        }
        if (e) pins.push_back({e->id, upd});
        Val* v = upd && s.Chance(1, 2) ? cache.Lookup(Key(k)) : cache.LookupWithOptions(Key(k), opt);
        PBT_LOG(c, "t+%lld Lookup(%s%s) -> #%d", (long long)dt, Key(k).c_str(), upd ? "" : ", no update", v ? v->id : -1);
        int want = e ? e->id : -1;
        if ((v != nullptr) != (e != nullptr) || (v && v->id != want)) c.Fail("C17 C18", "lookup of %s gives #%d, expected #%d", Key(k).c_str(), v ? v->id : -1, want);
        Settle("Lookup");
        break;
      }
      case 3: {  // Release
        if (pins.empty()) break;
        size_t i = s.Below(pins.size());
        Pin p = pins[i];
        pins.erase(pins.begin() + i);
        Val* v = vals[p.id];
        int key = ents[p.id].key;
        DoRelease(p);
        PBT_LOG(c, "t+%lld Release(%s, #%d%s)", (long long)dt, Key(key).c_str(), p.id, p.upd ? "" : ", no update");
        if (p.upd && s.Chance(1, 2)) cache.Release(Key(key), v);
        else { scc::SimpleLRUCacheOptions opt; opt.set_update_eviction_order(p.upd); cache.ReleaseWithOptions(Key(key), v, opt); }
        Settle("Release");
        break;
      }
      case 4: if (Ent* e = Find(k)) RemoveEnt(e); PBT_LOG(c, "t+%lld Remove(%s)", (long long)dt, Key(k).c_str()); cache.Remove(Key(k)); Settle("Remove"); break;
      case 5: for (size_t i = 0; i < ents.size(); ++i) if (!ents[i].dead && ents[i].in_table) RemoveEnt(&ents[i]);
        PBT_LOG(c, "t+%lld RemoveAll", (long long)dt); cache.RemoveAll(); Settle("RemoveAll"); break;
      case 6: {
        std::vector<int> o(order.begin(), order.end());
        for (int id : o) if (!ents[id].pins) Kill(&ents[id]);
        PBT_LOG(c, "t+%lld RemoveUnpinned", (long long)dt); cache.RemoveUnpinned(); Settle("RemoveUnpinned"); break;
      }
      case 7: {  // UpdateSize of the current value, of a removed one, or of whatever is there
        size_t units = s.OneOf({1, 2, 0, 5, 9}) * scale;
        int how = s.Pick({3, 2, 2});
        Val* v = nullptr;
        if (how == 0 && !vals.empty()) {
          auto it = vals.begin(); std::advance(it, s.Below(vals.size()));
          v = it->second; k = ents[it->first].key;
        }
        PBT_LOG(c, "t+%lld UpdateSize(%s, #%d, %zu)", (long long)dt, Key(k).c_str(), v ? v->id : -1, units);
        Ent* cur = Find(k);
        if (cur && (!v || v == vals[cur->id])) cur->units = units;
        else for (auto& e : ents) if (!e.dead && !e.in_table && e.key == k && (!v || v == vals[e.id])) e.units = units;
        Collect();
        cache.UpdateSize(Key(k), v, units);
        Settle("UpdateSize");
        break;
      }
      case 8: max_units = s.OneOf({4, 8, 2, 1, 0, 3, 20}) * scale * (nkeys > 6 ? s.OneOf({20, 100, 1}) : 1); Collect(); PBT_LOG(c, "t+%lld SetMaxSize(%lld)", (long long)dt, (long long)max_units); cache.SetMaxSize(max_units); Settle("SetMaxSize"); break;
      case 9: {  // another limit in the same mode
        double sec = GenSeconds();
        PBT_LOG(c, "t+%lld Set%s(%g s)", (long long)dt, lru ? "MaxIdleSeconds" : "AgeBasedEviction", sec);
        SetLimit(sec);
        if (lru) cache.SetMaxIdleSeconds(sec); else cache.SetAgeBasedEviction(sec);
        Settle("SetTimeout");
        break;
      }
      case 10: Expire(); PBT_LOG(c, "t+%lld RemoveExpiredEntries", (long long)dt); cache.RemoveExpiredEntries(); Settle("RemoveExpiredEntries"); break;
      case 11: {  // everything released, then Clear
        if (!pins.empty()) break;
        for (auto& e : ents) if (!e.dead) Kill(&e);
        PBT_LOG(c, "t+%lld Clear", (long long)dt);
        cache.Clear();
        Settle("Clear");
        break;
      }
      case 12: {  // queries
        Ent* e = Find(k);
        int64_t t = lru ? cache.GetLastUseTime(Key(k)) : cache.GetInsertionTime(Key(k));
        if (t != (e ? e->used : -1)) c.Fail("C17 C18", "time of %s is %lld, expected %lld", Key(k).c_str(), (long long)t, (long long)(e ? e->used : -1));
        bool use = e != nullptr;
        for (auto& x : ents) if (!x.dead && x.key == k) use = true;
        if (cache.StillInUse(Key(k)) != use) c.Fail("C17", "StillInUse(%s) is %d", Key(k).c_str(), !use);
        if (s.Chance(1, 2)) {
          std::vector<Listed> got, want;
          g_listed = &got;
          std::string text;
          cache.DebugOutput(&text);
          for (auto& x : ents) if (!x.dead) want.push_back(Listed(x.id, x.pins, x.in_table ? x.used : 0, !x.in_table));
          // The time of a removed entry says nothing.
          for (auto& l : got) if (std::get<3>(l)) std::get<2>(l) = 0;
          std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
          if (got != want) c.Fail("C17", "DebugOutput lists %zu values, or others than the %zu cached and removed ones", got.size(), want.size());
        }
        if (!vals.empty()) {
          auto it = vals.begin(); std::advance(it, s.Below(vals.size()));
          bool in = ents[it->first].key == k && !ents[it->first].dead;
          if (cache.StillInUse(Key(k), it->second) != in) c.Fail("C17", "StillInUse(%s, #%d) is %d", Key(k).c_str(), it->first, !in);
        }
        int64_t age = order.empty() ? 0 : vclock::Now() - ents[order.back()].used;
        if (cache.AgeOfLRUItemInMicroseconds() != age) c.Fail("C18", "AgeOfLRUItemInMicroseconds is %lld, expected %lld", (long long)cache.AgeOfLRUItemInMicroseconds(), (long long)age);
        Settle("queries");
        break;
      }
      case 14: {  // many at once
        for (int n = s.Range(5, 60); n > 0 && !c.stop; --n) {
          if (!ties) vclock::AdvanceUs(1);
          k = (k + 1) % nkeys;
          int id = ents.size();
          Val* v = new Val(id);
          vals[id] = v;
          if (Ent* old = Find(k)) RemoveEnt(old);
          Ent e; e.id = id; e.key = k; e.units = scale; e.pins = 1; e.used = vclock::Now(); e.off_list = lru;
          ents.push_back(e);
          if (!lru) order.push_front(id);
          Collect();
          DoRelease({id, true}); cache.Insert(Key(k), v, scale);
        }
        PBT_LOG(c, "t+%lld Insert of many up to %s", (long long)dt, Key(k).c_str());
        Settle("Inserts");
        break;
      }
      case 13: {  // releases most pins, so that entries become evictable
        while (pins.size() > 1 && !c.stop) {
          Pin p = pins.back(); pins.pop_back();
          if (!ties) vclock::AdvanceUs(1);
          Val* v = vals[p.id];
          DoRelease(p);
          scc::SimpleLRUCacheOptions opt; opt.set_update_eviction_order(p.upd);
          PBT_LOG(c, "Release(%s, #%d%s)", Key(ents[p.id].key).c_str(), p.id, p.upd ? "" : ", no update");
          cache.ReleaseWithOptions(Key(ents[p.id].key), v, opt);
          Settle("Release");
        }
        break;
      }
    }
  }
  double GenSeconds() {
    switch (s.Pick({5, nkeys > 6 ? 1 : 3, nkeys > 6 ? 0 : 2, 1, 1, 2})) {
      case 5: return s.Range(1, 240) * 0.25;
      case 0: return s.Range(1, 40) * 1e-5;   // 10 us .. 400 us
      case 1: return -s.OneOf({1.0, 0.5, 100.0});
      case 2: return 0;
      case 3: return s.OneOf({1e13, 9223372036854.0, 1e300, 3600.0, 2147.0, 2148.0, 4295.0, 86400.0, 2592000.0});
      default: return std::numeric_limits<double>::infinity();
    }
  }
  void SetLimit(double sec) {
    if (sec < 0 || std::isinf(sec)) { max_idle = -1; return; }
    double us = sec * 1e6;
    max_idle = us >= 9.2233720368547758e18 ? INT64_MAX : (int64_t)us;
    Expire();
  }
  void All() {
    g_deleted = &deleted; g_delkeys = &delkeys;
    g_live = 0;
    ties = s.Chance(1, 4);
    if (ties) c.Label("several calls at one time");
    nkeys = s.Chance(1, 25) ? s.OneOf({100, 40, 300}) : s.Range(2, 6);
    if (nkeys > 6) { c.Label("many keys"); if (s.Chance(3, 4)) { max_units = (s.Chance(1, 2) ? nkeys / 2 : nkeys * 3) * scale; cache.SetMaxSize(max_units); } }
    if (!lru || nkeys > 6 || s.Chance(1, 2)) {
      double sec = GenSeconds();
      SetLimit(sec);
      if (lru) cache.SetMaxIdleSeconds(sec); else cache.SetAgeBasedEviction(sec);
    }
    PBT_LOG(c, "%s mode, max %lld units, %lld entries, limit %lld us, %d keys", lru ? "LRU" : "age-based", (long long)max_units,
          (long long)max_entries, (long long)max_idle, nkeys);
    for (int n = 0; s.More(n, 30, 150) && !c.stop; ++n) Step();
    // Wind down: everything must have been deleted exactly once.
    while (!pins.empty() && !c.stop) {
      Pin p = pins.back(); pins.pop_back();
      vclock::AdvanceUs(1);
      DoRelease(p);
      scc::SimpleLRUCacheOptions opt; opt.set_update_eviction_order(p.upd);
      cache.ReleaseWithOptions(Key(ents[p.id].key), vals[p.id], opt);
      Settle("final Release");
    }
    if (!c.stop) {
      for (auto& e : ents) if (!e.dead) Kill(&e);
      cache.Clear();
      Settle("final Clear");
      if (!c.stop && vals.empty() && g_live != 0) c.Fail("C17", "%lld values were handed to the deleter and not deleted", (long long)g_live);
      if (!c.stop && !vals.empty()) c.Fail("C17", "%zu values never reached the deleter", vals.size());
    }
    if (evicted) c.Label("evicted under pressure");
    if (expired) c.Label("expired");
    if (pinned_removed) c.Label("removed while pinned");
    if (c.Focus("C18") ? (evicted || expired) : (evicted || expired || pinned_removed)) c.nontrivial = true;
  }
};

const char* PbtRule(const std::string& p) {
  return "A case is a history of up to 150 operations (insert, pinned insert, lookup with and without updating the order, release in any "
         "order, remove, remove all/unpinned, resize, new limits, expiry, clear, queries) on 2-6 keys (sometimes 40-300, or sizes beyond 32 bits) at a virtual clock, LRU or age-based, some "
         "with a subclass limiting the number of entries; deletions, counts, iteration and times are compared after every operation. "
         "Non-trivial: something was evicted, expired or (C17) removed while pinned.";
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  vclock::Scope clock;
  int64_t scale = s.Chance(1, 16) ? s.OneOf<int64_t>({1ll << 32, 1ll << 31, 1000000007, 1ll << 40}) : 1;
  int64_t units = s.OneOf({4, 8, 2, 1, 6, 20, 0}) * scale;
  bool lru = !s.Chance(2, 5);
  c.Label(lru ? "LRU" : "age-based");
  if (s.Chance(1, 4)) {
    c.Label("with deleter");
    // Left alone after a divergence: the destructor insists on an empty cache.
    WithDeleter* cache = new WithDeleter(units, Deleter());
    Run<WithDeleter> r{s, c, *cache, lru, units, -1};
    r.scale = scale;
    r.All();
    if (!c.stop) delete cache;
  } else {
    int64_t me = s.Chance(1, 4) ? s.Range(1, 4) : -1;
    if (me >= 0) c.Label("limited by entries");
    Plain* cache = new Plain(units, me);
    Run<Plain> r{s, c, *cache, lru, units, me};
    r.scale = scale;
    r.All();
    if (!c.stop) delete cache;
  }
}
