// Property-based testing engine: a case is a list of integer choices.
//
// A harness defines
//   void PbtCase(pbt::Src& s, pbt::Ctx& c);     one generated case
//   const char* PbtRule(const std::string& p);  what is generated / non-trivial
// and includes this header in exactly one translation unit.
//
// Every random decision goes through Src, so the recorded list of choices
// reproduces, shrinks and documents the case.
#ifndef PBT_H_
#define PBT_H_

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#ifndef PBT_ASAN_EXTRA
#define PBT_ASAN_EXTRA ""
#endif

namespace pbt {

// Monotonic wall time that the virtual clock cannot influence.
inline double RealNow() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline void RealSleepMs(int ms) {
  struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
  nanosleep(&ts, nullptr);
}

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

const uint32_t kMaxChoices = 1 << 15;
const uint32_t kMaxSpans = 1 << 14;
const uint32_t kMaxMsg = 1 << 15;

// Lives in shared memory so that the parent still has it after a crash.
struct Shared {
  volatile uint64_t case_index;
  volatile uint64_t case_started;  // bumped at every case start
  volatile uint32_t n;
  volatile uint32_t nspans;
  volatile uint32_t msg_len;
  volatile uint32_t failed;
  uint64_t choices[kMaxChoices];
  uint32_t span_begin[kMaxSpans];
  uint32_t span_end[kMaxSpans];
  char msg[kMaxMsg];
};

inline Shared* NewShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shared*>(p);
}

class Src {
 public:
  Src(Shared* sh, uint64_t seed) : sh_(sh), state_(Mix(seed)), mode_(kRandom) { Reset(); }
  Src(Shared* sh, const std::vector<uint64_t>& v) : sh_(sh), state_(0), mode_(kReplay), rep_(v) { Reset(); }
  Src(Shared* sh, const uint8_t* d, size_t n) : sh_(sh), state_(0), mode_(kBytes), data_(d), size_(n) { Reset(); }

  // Uniform in [0, n).  0 is the simplest value.
  uint64_t Below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v = 0;
    if (mode_ == kRandom) {
      v = Next();
      if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    } else if (mode_ == kReplay) {
      v = pos_ < rep_.size() ? rep_[pos_] : 0;
      if (v >= n) v %= n;
    } else {
      uint64_t m = n - 1;
      while (m) { v = (v << 8) | (dpos_ < size_ ? data_[dpos_] : 0); ++dpos_; m >>= 8; }
      v %= n;
    }
    Record(v);
    return v;
  }
  uint64_t Bits64() {
    uint64_t v = 0;
    if (mode_ == kRandom) v = Next();
    else if (mode_ == kReplay) v = pos_ < rep_.size() ? rep_[pos_] : 0;
    else for (int i = 0; i < 8; ++i) { v = (v << 8) | (dpos_ < size_ ? data_[dpos_] : 0); ++dpos_; }
    Record(v);
    return v;
  }
  // Uniform in [lo, hi], lo simplest.
  int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)Below((uint64_t)(hi - lo) + 1); }
  // True with probability num/den; false is simplest.
  bool Chance(uint32_t num, uint32_t den) { return Below(den) >= den - num; }
  // Index with the given weights; index 0 simplest.
  int Pick(std::initializer_list<int> w) {
    uint64_t total = 0;
    for (int x : w) total += x;
    uint64_t v = Below(total);
    int i = 0;
    for (int x : w) { if (v < (uint64_t)x) return i; v -= x; ++i; }
    return 0;
  }
  template <class T> T OneOf(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }

  // A span marks choices that belong together; the shrinker removes whole spans.
  void Begin() { open_.push_back(pos_); }
  void End() {
    if (open_.empty()) return;
    uint32_t b = open_.back();
    open_.pop_back();
    if (sh_->nspans < kMaxSpans && pos_ > b) {
      sh_->span_begin[sh_->nspans] = b;
      sh_->span_end[sh_->nspans] = pos_;
      sh_->nspans = sh_->nspans + 1;
    }
  }
  // True if enough choices were drawn: generators of lists stop then.
  bool Exhausted() const { return pos_ > kMaxChoices - 2000 || (mode_ == kBytes && dpos_ >= size_); }
  // "One more element?" for lists; average length avg, hard limit max.
  bool More(uint32_t have, uint32_t avg, uint32_t max) {
    if (have >= max || Exhausted()) return false;
    return Chance(avg, avg + 1);
  }

  // What was drawn so far.
  std::vector<uint64_t> Drawn() const { return std::vector<uint64_t>(sh_->choices, sh_->choices + sh_->n); }

 private:
  enum Mode { kRandom, kReplay, kBytes };
  void Reset() { sh_->n = 0; sh_->nspans = 0; pos_ = 0; }
  void Record(uint64_t v) {
    if (pos_ < kMaxChoices) { sh_->choices[pos_] = v; sh_->n = pos_ + 1; }
    ++pos_;
  }
  uint64_t Next() {  // splitmix64
    uint64_t z = (state_ += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  Shared* sh_;
  uint64_t state_;
  Mode mode_;
  std::vector<uint64_t> rep_;
  const uint8_t* data_ = nullptr;
  size_t size_ = 0, dpos_ = 0;
  uint32_t pos_ = 0;
  std::vector<uint32_t> open_;
};

struct Span {
  explicit Span(Src& s) : s_(s) { s_.Begin(); }
  ~Span() { s_.End(); }
  Src& s_;
};

class Ctx {
 public:
  std::string prop;                        // property in focus
  bool tracing = false;
  bool nontrivial = false;
  bool stop = false;                       // the case should end
  bool failed = false;
  bool foreign = false;                    // diverged, but in another property
  bool any = false;                        // the property in focus includes all others
  std::string trace;
  std::string message;
  std::map<std::string, uint64_t>* classes = nullptr;
  const std::set<std::string>* known = nullptr;
  std::map<std::string, std::string>* known_hit = nullptr;
  Shared* sh = nullptr;
  bool thorough = false;

  bool Focus(const char* p) const { return prop == p; }
  void Label(const std::string& l, uint64_t n = 1) { if (classes) (*classes)[l] += n; }

  void Log(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!tracing) return;
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    trace += buf; trace += '\n';
    if (live) { fprintf(stdout, "  %s\n", buf); fflush(stdout); }
  }
  // Reports a divergence from the oracle.  tags: properties it contradicts.
  // Does not throw: it may run inside callbacks of the code under test.
  void Fail(const std::string& tags, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    if (failed) return;
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    std::istringstream is(tags);
    std::string t; bool mine = any;
    while (is >> t) if (t == prop || t == "*") mine = true;
    stop = true;
    if (!mine) {
      if (!foreign) { foreign = true; Label("diverged-in-other-property"); Log("(other property %s: %s)", tags.c_str(), buf); }
      return;
    }
    if (foreign) return;  // the model is no longer trustworthy
    failed = true;
    message = buf;
    Log("FAIL: %s", buf);
    if (sh) {
      sh->failed = 1;
      uint32_t n = std::min<size_t>(message.size(), kMaxMsg - 1);
      memcpy(sh->msg, message.data(), n);
      sh->msg_len = n;
    }
  }
  // A divergence that may be listed as a known finding.
  void Finding(const std::string& key, const std::string& tags, const std::string& what) {
    if (known && known->count(key)) { if (known_hit) (*known_hit)[key] = what; return; }
    Fail(tags, "%s", what.c_str());
  }
  bool live = false;
};

// Arguments are only evaluated when somebody will read the trace.
#define PBT_LOG(c, ...) do { if ((c).tracing) (c).Log(__VA_ARGS__); } while (0)

}  // namespace pbt

void PbtCase(pbt::Src& s, pbt::Ctx& c);
const char* PbtRule(const std::string& prop);

#ifndef PBT_NO_MAIN
namespace pbt {

struct Options {
  std::string prop, out = ".", result, replay, bytes;
  uint64_t cases = 1000, seed = 1;
  int workers = 8;
  double max_seconds = 240;
  double hang_seconds = 30;
  bool thorough = false;
  bool racy = false;   // threads: the same choices may fail only sometimes
  std::set<std::string> known;
};

inline std::string JsonEscape(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}

inline std::string ReadTail(const std::string& path, size_t n) {
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  // Prefer the sanitizer summary or the assertion text.
  std::string keep;
  std::istringstream is(s);
  std::string line;
  while (std::getline(is, line)) {
    if (line.find("ERROR: ") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
        line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos ||
        line.find("CHECK failed") != std::string::npos || line.find("terminate called") != std::string::npos ||
        line.find("what():") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos)
      keep += line + " | ";
  }
  if (keep.empty()) keep = s.size() > n ? s.substr(s.size() - n) : s;
  if (keep.size() > n) keep = keep.substr(0, n);
  return keep;
}

enum Outcome { kPass, kFail, kCrash, kHang };

struct RunResult {
  Outcome outcome = kPass;
  bool killed = false;   // by the system, say for its memory
  std::string message;
  std::vector<uint64_t> choices;
  std::vector<std::pair<uint32_t, uint32_t>> spans;
};

inline void QuietStdout() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 1); close(fd); }
}

// A process that has just started takes paths that it never takes again (lazy
// initialisation).  Harnesses whose cases count steps let it settle first.
inline void Settle(const Options& o) {
#ifdef PBT_WARMUP
  Shared* sh = NewShared();
  for (int i = 0; i < PBT_WARMUP; ++i) {
    Src s(sh, 1000 + i);
    Ctx c;
    c.prop = o.prop;
    PbtCase(s, c);
  }
#endif
}

// Runs one case from choices in a child process.
inline RunResult RunChild(const Options& o, Shared* sh, const std::vector<uint64_t>& choices,
                          double hang_seconds, bool live = false) {
  sh->failed = 0; sh->msg_len = 0; sh->n = 0; sh->nspans = 0;
  std::string err = o.out + "/child.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (!live) {
      QuietStdout();
      int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
    Settle(o);
    Src s(sh, choices);
    Ctx c;
    c.prop = o.prop; c.sh = sh; c.thorough = o.thorough; c.tracing = live; c.live = live;
    c.known = &o.known;
    std::map<std::string, std::string> kh; c.known_hit = &kh;
    PbtCase(s, c);
    if (live && c.nontrivial) printf("  (non-trivial)\n");
    fflush(stdout);
    _exit(c.failed ? 3 : 0);
  }
  double start = RealNow();
  int st = 0;
  bool hang = false;
  for (int i = 0;; ++i) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (RealNow() - start > hang_seconds) {
      hang = true;
      kill(-pid, SIGKILL); kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    if (i < 200) usleep(200); else usleep(5000);
  }
  RunResult r;
  uint32_t n = std::min<uint32_t>((uint32_t)sh->n, kMaxChoices);
  r.choices.assign(sh->choices, sh->choices + n);
  for (uint32_t i = 0; i < sh->nspans && i < kMaxSpans; ++i)
    r.spans.emplace_back(sh->span_begin[i], sh->span_end[i]);
  if (hang) {
    r.outcome = kHang; r.message = "the operation does not return (deadlock or endless loop)";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    r.outcome = kPass;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
    r.outcome = kFail; r.message.assign(sh->msg, sh->msg_len);
  } else {
    r.outcome = kCrash;
    char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash, signal %d: ", WTERMSIG(st));
    else snprintf(b, sizeof b, "crash, exit %d: ", WEXITSTATUS(st));
    r.message = b + ReadTail(err, 1500);
  }
  return r;
}

inline bool Simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

inline RunResult Shrink(const Options& o, Shared* sh, RunResult best) {
  const bool is_hang = best.outcome == kHang;
  const double hang = is_hang ? 3.0 : 10.0;
  const double deadline = RealNow() + (o.thorough ? 120 : 60);
  int attempts = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (RealNow() > deadline || ++attempts > 4000) return false;
    RunResult r = RunChild(o, sh, cand, hang);
    for (int i = 0; o.racy && i < 9 && r.outcome == kPass && RealNow() < deadline; ++i) r = RunChild(o, sh, cand, hang);
    if (r.outcome == kPass) return false;
    if ((r.outcome == kHang) != is_hang) return false;
    // Drop choices the case never consumed.
    if (r.outcome == kHang) r.choices = cand;
    if (!Simpler(r.choices, best.choices) ) return false;
    best = r;
    return true;
  };
  bool progress = true;
  while (progress && RealNow() < deadline && attempts <= 4000) {
    progress = false;
    // 1. Remove spans, the largest first.
    bool again = true;
    while (again && RealNow() < deadline && attempts <= 4000) {
      again = false;
      auto spans = best.spans;
      std::sort(spans.begin(), spans.end(), [](auto& a, auto& b) {
        return (a.second - a.first) > (b.second - b.first); });
      for (auto& sp : spans) {
        if (sp.second > best.choices.size()) continue;
        std::vector<uint64_t> c(best.choices);
        c.erase(c.begin() + sp.first, c.begin() + sp.second);
        if (attempt(c)) { again = progress = true; break; }
      }
    }
    // 2. Remove chunks.
    for (size_t len = std::min<size_t>(64, best.choices.size()); len >= 1; len /= 2) {
      for (size_t i = best.choices.size(); i >= len && i > 0;) {
        size_t b = i - len;
        if (b + len <= best.choices.size()) {
          std::vector<uint64_t> c(best.choices);
          c.erase(c.begin() + b, c.begin() + b + len);
          if (attempt(c)) { progress = true; i = std::min(b + len, best.choices.size()); continue; }
        }
        if (i <= len) break;
        i -= len;
        if (RealNow() > deadline || attempts > 4000) break;
      }
      if (len == 1) break;
    }
    // 3. Lower values.
    for (size_t i = 0; i < best.choices.size(); ++i) {
      uint64_t v = best.choices[i];
      if (!v) continue;
      if (RealNow() > deadline || attempts > 4000) break;
      std::vector<uint64_t> c(best.choices);
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = v;  // lo passes, hi fails
      while (hi - lo > 1) {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= best.choices.size()) break;
        c = best.choices; c[i] = mid;
        if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
        if (RealNow() > deadline || attempts > 4000) break;
      }
    }
  }
  return best;
}

struct WorkerResult {
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> classes;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, std::string> known_hit;
};

inline void WriteWorker(const std::string& path, const WorkerResult& w) {
  std::ofstream f(path, std::ios::binary);
  f << "E " << w.evaluations << "\n";
  for (auto& k : w.classes) f << "C " << k.second << " " << k.first << "\n";
  for (auto& k : w.known_hit) f << "K " << k.first << " " << k.second << "\n";
  for (auto& s : w.samples) {
    std::string e = s; std::replace(e.begin(), e.end(), '\n', '\x01');
    f << "S " << e << "\n";
  }
  for (auto d : w.distinct) f << "D " << d << "\n";
}

inline void ReadWorker(const std::string& path, WorkerResult* w) {
  std::ifstream f(path, std::ios::binary);
  std::string line;
  while (std::getline(f, line)) {
    if (line.size() < 2) continue;
    std::string rest = line.substr(2);
    if (line[0] == 'E') w->evaluations += strtoull(rest.c_str(), nullptr, 10);
    else if (line[0] == 'C') {
      size_t sp = rest.find(' ');
      w->classes[rest.substr(sp + 1)] += strtoull(rest.c_str(), nullptr, 10);
    } else if (line[0] == 'K') {
      size_t sp = rest.find(' ');
      w->known_hit[rest.substr(0, sp)] = rest.substr(sp + 1);
    } else if (line[0] == 'S') {
      std::replace(rest.begin(), rest.end(), '\x01', '\n');
      if (w->samples.size() < 6) w->samples.push_back(rest);
    } else if (line[0] == 'D') w->distinct.insert(strtoull(rest.c_str(), nullptr, 10));
  }
}

inline uint64_t CaseSeed(const Options& o, uint64_t i) {
  uint64_t h = Mix(o.seed);
  for (char ch : o.prop) h = Mix(h ^ (unsigned char)ch);
  return Mix(h ^ Mix(i));
}

// A worker runs cases first, first+step, ... and exits 3 at the first failure.
inline void Worker(const Options& o, Shared* sh, uint64_t first, uint64_t step, double deadline,
                   const std::string& base) {
  setpgid(0, 0);
  QuietStdout();
  int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  WorkerResult w;
  Settle(o);
  for (uint64_t i = first; i < o.cases; i += step) {
    if (RealNow() > deadline) break;
    sh->case_index = i;
    sh->case_started = sh->case_started + 1;
    Src s(sh, CaseSeed(o, i));
    Ctx c;
    c.prop = o.prop; c.sh = sh; c.thorough = o.thorough;
    c.classes = &w.classes; c.known = &o.known; c.known_hit = &w.known_hit;
    c.tracing = w.samples.size() < 3 && w.evaluations < 60;
    PbtCase(s, c);
    ++w.evaluations;
    if (c.failed) { WriteWorker(base + ".res", w); _exit(3); }
    if (c.nontrivial) {
      uint64_t h = 0;
      for (uint32_t k = 0; k < sh->n; ++k) h = Mix(h ^ sh->choices[k]);
      w.distinct.insert(h);
      ++w.classes["nontrivial"];
      if (c.tracing && w.samples.size() < 3) w.samples.push_back(c.trace.substr(0, 3000));
    }
  }
  WriteWorker(base + ".res", w);
  _exit(0);
}

inline std::vector<uint64_t> ReadReplay(const std::string& path) {
  // The choices are the integers after "choices": in the JSON file.
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  std::vector<uint64_t> v;
  size_t p = s.find("\"choices\"");
  if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", path.c_str()); exit(2); }
  p = s.find('[', p);
  size_t e = s.find(']', p);
  const char* q = s.c_str() + p + 1;
  const char* end = s.c_str() + e;
  while (q < end) {
    char* n;
    uint64_t x = strtoull(q, &n, 10);
    if (n == q) { ++q; continue; }
    v.push_back(x);
    q = n;
  }
  return v;
}

inline std::string TraceOf(const Options& o, Shared* sh, const std::vector<uint64_t>& choices) {
  // Re-runs live in a child with stdout captured.
  std::string path = o.out + "/trace.txt";
  fflush(stdout);
  int save = dup(1), save2 = dup(2);
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(fd, 1); dup2(fd, 2); close(fd);
  RunChild(o, sh, choices, 10, true);
  fflush(stdout);
  dup2(save, 1); close(save); dup2(save2, 2); close(save2);
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  return s.substr(0, 20000);
}

inline int Main(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") o.prop = val();
    else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--max-seconds") o.max_seconds = atof(val().c_str());
    else if (a == "--hang-seconds") o.hang_seconds = atof(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--result") o.result = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--bytes") o.bytes = val();
    else if (a == "--thorough") o.thorough = true;
    else if (a == "--racy") o.racy = true;
    else if (a == "--known") { std::istringstream is(val()); std::string k; while (std::getline(is, k, ',')) if (!k.empty()) o.known.insert(k); }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  mkdir(o.out.c_str(), 0755);
  Shared* sh = NewShared();

  if (!o.replay.empty()) {
    std::vector<uint64_t> choices = ReadReplay(o.replay);
    RunResult r = RunChild(o, sh, choices, o.hang_seconds, true);
    for (int i = 0; i < 300 && r.outcome == kPass; ++i) r = RunChild(o, sh, choices, o.hang_seconds, false);
    printf("replay: %s %s\n", r.outcome == kPass ? "PASS" : "FAIL", r.message.c_str());
    return r.outcome == kPass ? 0 : 1;
  }

  WorkerResult total;
  RunResult fail;
  bool have_fail = false;
  uint64_t fail_case = 0;
  if (!o.bytes.empty()) {
    // An input saved by libFuzzer: convert it to choices, then go on as usual.
    std::ifstream f(o.bytes, std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      QuietStdout();
      Src s(sh, reinterpret_cast<const uint8_t*>(d.data()), d.size());
      Ctx c; c.prop = o.prop; c.sh = sh; c.known = &o.known;
      alarm(30);
      PbtCase(s, c);
      _exit(c.failed ? 3 : 0);
    }
    int st; waitpid(pid, &st, 0);
    fail.choices.assign(sh->choices, sh->choices + sh->n);
    have_fail = true;
  } else {
    double deadline = RealNow() + o.max_seconds;
    struct W { pid_t pid; Shared* sh; uint64_t seen; double since; bool done; std::string base; };
    std::vector<W> ws(o.workers);
    for (int i = 0; i < o.workers; ++i) {
      W& w = ws[i];
      w.sh = NewShared();
      w.seen = 0; w.since = 0; w.done = false;
      w.base = o.out + "/w" + std::to_string(i);
      unlink((w.base + ".res").c_str());
      fflush(stdout);
      w.pid = fork();
      if (w.pid == 0) Worker(o, w.sh, i, o.workers, deadline, w.base);
    }
    int left = o.workers;
    double last = RealNow();
    while (left > 0) {
      usleep(20000);
      double step = std::min(RealNow() - last, 0.1);
      last = RealNow();
      for (auto& w : ws) {
        if (w.done) continue;
        int st;
        if (waitpid(w.pid, &st, WNOHANG) == w.pid) {
          w.done = true; --left;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !have_fail) {
            have_fail = true;
            fail_case = w.sh->case_index;
            fail.choices.assign(w.sh->choices, w.sh->choices + w.sh->n);
            fail.killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            fail.outcome = (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? kFail : kCrash;
            if (fail.outcome == kFail) fail.message.assign(w.sh->msg, w.sh->msg_len);
            else fail.message = "crash: " + ReadTail(w.base + ".err", 1500);
          }
        } else {
          // Time this process could not see pass (a paused machine) does not count.
          if (w.sh->case_started != w.seen) { w.seen = w.sh->case_started; w.since = 0; }
          else w.since += step;
          if (w.since > o.hang_seconds) {
            if (!have_fail) {
              have_fail = true;
              fail_case = w.sh->case_index;
              fail.choices.assign(w.sh->choices, w.sh->choices + w.sh->n);
              fail.outcome = kHang;
              fail.message = "the operation does not return (deadlock or endless loop)";
            }
            kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL);
            waitpid(w.pid, &st, 0);
            w.done = true; --left;
          }
        }
      }
      if (have_fail) {
        for (auto& w : ws) if (!w.done) {
          int st;
          kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0);
          w.done = true; --left;
        }
      }
    }
    for (auto& w : ws) ReadWorker(w.base + ".res", &total);
  }

  bool violation = false, flaky = false;
  std::string trace;
  if (have_fail) {
    // Confirm before shrinking, so that the failure reproduces from its choices.
    RunResult r = RunChild(o, sh, fail.choices, o.hang_seconds);
    // What was observed counts even if it does not recur at once: the iteration
    // order of the maps differs from run to run.
    if (r.outcome == kPass && o.bytes.empty() && fail.outcome != kHang && !fail.killed) o.racy = true;
    const double until = RealNow() + 60;
    for (int i = 0; i < (o.racy ? 300 : 2) && r.outcome == kPass && RealNow() < until; ++i) r = RunChild(o, sh, fail.choices, o.hang_seconds);
    if (o.racy) {
      // What was observed is conclusive even if this schedule does not recur.
      violation = true;
      if (r.outcome == kPass) {
        fail.message += "  [seen once; it did not recur in further runs of the same case]";
      } else {
        if (r.outcome == kHang) r.choices = fail.choices;
        else r = Shrink(o, sh, r);
        fail = r;
      }
      trace = TraceOf(o, sh, fail.choices);
    } else if (r.outcome != kPass) {
      if (r.outcome == kHang) r.choices = fail.choices;
      fail = Shrink(o, sh, r);
      violation = true;
      for (int i = 0; i < 3; ++i) {
        RunResult q = RunChild(o, sh, fail.choices, o.hang_seconds);
        if (q.outcome == kPass) flaky = true; else fail.message = q.message;
      }
      if (flaky) {  // the shrunk case is unstable: fall back to the original
        fail = r; flaky = false;
        for (int i = 0; i < 3; ++i)
          if (RunChild(o, sh, fail.choices, o.hang_seconds).outcome == kPass) flaky = true;
      }
      trace = TraceOf(o, sh, fail.choices);
    } else {
      flaky = true;
    }
  }

  std::ofstream f(o.result.empty() ? o.out + "/result.json" : o.result, std::ios::binary);
  f << "{\"property\":" << JsonEscape(o.prop) << ",\"evaluations\":" << total.evaluations
    << ",\"distinct_nontrivial\":" << total.distinct.size() << ",\"rule\":" << JsonEscape(PbtRule(o.prop))
    << ",\"classes\":{";
  bool firstc = true;
  for (auto& k : total.classes) { f << (firstc ? "" : ",") << JsonEscape(k.first) << ":" << k.second; firstc = false; }
  f << "},\"samples\":[";
  for (size_t i = 0; i < total.samples.size(); ++i) f << (i ? "," : "") << JsonEscape(total.samples[i]);
  f << "],\"known\":{";
  firstc = true;
  for (auto& k : total.known_hit) { f << (firstc ? "" : ",") << JsonEscape(k.first) << ":" << JsonEscape(k.second); firstc = false; }
  f << "},\"violation\":" << (violation ? "true" : "false") << ",\"flaky\":" << (flaky ? "true" : "false");
  if (have_fail) {
    f << ",\"case\":" << fail_case << ",\"message\":" << JsonEscape(fail.message) << ",\"trace\":" << JsonEscape(trace)
      << ",\"choices\":[";
    for (size_t i = 0; i < fail.choices.size(); ++i) f << (i ? "," : "") << fail.choices[i];
    f << "]";
  }
  f << "}\n";
  f.close();
  if (violation) printf("violated: %s\n", fail.message.c_str());
  return 0;
}

}  // namespace pbt

#ifdef PBT_FUZZER
// Coverage-guided mode: the bytes are decoded into the same choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static pbt::Shared* sh = pbt::NewShared();
  static const char* prop = getenv("PBT_PROP");
  static std::set<std::string> known = [] {
    std::set<std::string> k; const char* e = getenv("PBT_KNOWN");
    std::istringstream is(e ? e : ""); std::string x;
    while (std::getline(is, x, ',')) if (!x.empty()) k.insert(x);
    return k; }();
  sh->failed = 0;
  pbt::Src s(sh, data, size);
  pbt::Ctx c;
  c.prop = prop ? prop : ""; c.sh = sh; c.known = &known;
  PbtCase(s, c);
  if (c.failed) { fprintf(stderr, "PBT-FAIL: %s\n", c.message.c_str()); abort(); }
  return 0;
}
#else
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_segv=1:symbolize=0:malloc_context_size=0:quarantine_size_mb=2" PBT_ASAN_EXTRA;
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=98:halt_on_error=1"; }
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
#endif  // PBT_NO_MAIN
#endif  // PBT_H_
