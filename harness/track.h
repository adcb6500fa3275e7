// Blocks of memory allocated by the code under test and not yet freed.
//
// AddressSanitizer reports every allocation. Those made while a track::In is
// the innermost scope (a call into the library, and no callback out of it) are
// remembered until they are freed, by whomever. The table is mapped memory: no
// allocation happens here.
#ifndef TRACK_H_
#define TRACK_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <string>

extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

extern "C" __attribute__((weak)) size_t __asan_get_alloc_stack(void*, void**, size_t, int*);
extern "C" __attribute__((weak)) void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);

namespace track {
struct Slot { uintptr_t p; size_t n; };
constexpr size_t kSlots = 1 << 20;
inline Slot* table = nullptr;
inline bool on = false;
inline int64_t live = 0, overflow = 0;
inline size_t Hash(uintptr_t p) { return (p * 0x9e3779b97f4a7c15ull) >> 44; }
__attribute__((no_sanitize("address", "undefined"))) inline void OnMalloc(const volatile void* q, size_t n) {
  if (!on || !table || !q) return;
  if (live > (int64_t)kSlots / 2) { ++overflow; return; }
  uintptr_t p = (uintptr_t)q;
  size_t i = Hash(p);
  while (table[i].p && table[i].p != p) i = (i + 1) & (kSlots - 1);
  if (!table[i].p) ++live;
  table[i] = Slot{p, n};
}
__attribute__((no_sanitize("address", "undefined"))) inline void OnFree(const volatile void* q) {
  if (!live || !q) return;
  uintptr_t p = (uintptr_t)q;
  size_t i = Hash(p);
  while (table[i].p && table[i].p != p) i = (i + 1) & (kSlots - 1);
  if (!table[i].p) return;
  --live;
  // Close the gap.
  size_t j = i;
  for (;;) {
    table[i].p = 0;
    for (;;) {
      j = (j + 1) & (kSlots - 1);
      if (!table[j].p) return;
      size_t h = Hash(table[j].p);
      if (i <= j ? (i < h && h <= j) : (i < h || h <= j)) continue;
      break;
    }
    table[i] = table[j];
    i = j;
  }
}
inline bool Install() {
  if (table) return true;
  if (!__sanitizer_install_malloc_and_free_hooks) return false;
  void* m = mmap(nullptr, kSlots * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return false;
  table = (Slot*)m;
  return __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree) > 0;
}
// Forgets what is left: for the next case.
inline void Forget() {
  if (!table || !live) return;
  for (size_t i = 0; i < kSlots; ++i) table[i].p = 0;
  live = 0;
}
inline size_t Bytes() {
  size_t n = 0;
  if (live) for (size_t i = 0; i < kSlots; ++i) if (table[i].p) n += table[i].n;
  return n;
}
// Where one of the blocks was allocated, as AddressSanitizer knows it.
inline std::string Where() {
  std::string r;
  for (size_t i = 0; live && i < kSlots; ++i) {
    if (!table[i].p) continue;
    void* pc[20];
    int tid;
    size_t n = __asan_get_alloc_stack ? __asan_get_alloc_stack((void*)table[i].p, pc, 20, &tid) : 0;
    for (size_t k = 0; k < n; ++k) {
      char b[600] = "";
      if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc(pc[k], "%f (%s:%l)", b, sizeof b);
      if (strstr(b, "/src/") || strstr(b, "/utils/")) { r += r.empty() ? "" : " < "; r += b; }
      if (r.size() > 600) break;
    }
    break;
  }
  return r;
}
struct Set {
  explicit Set(bool v) : old(on) { on = v; }
  ~Set() { on = old; }
  bool old;
};
struct In : Set { In() : Set(enabled) {} static inline bool enabled = false; };
struct Out : Set { Out() : Set(false) {} };
}  // namespace track
#endif
