// C19: MD5 wrapper against the one-shot EVP digest.
#include "pbt.h"

#include <openssl/evp.h>
#include "utils/md5.h"

typedef google::service_control_client::MD5 Hasher;

const char* PbtRule(const std::string&) {
  return "A case is a byte string (up to 6000 bytes, biased to lengths around the 64-byte block and to zero bytes; some chunks are a power of two or ten up to 128K, or one off) fed in 0-20 "
         "chunks through the void*, std::string, C-string, int and call-operator overloads. Non-trivial: at least two "
         "non-empty chunks.";
}

static std::string Bytes(pbt::Src& s, size_t n) {
  std::string r;
  int mode = s.Pick({3, 2, 1});
  if (mode == 0 || n > 200) {
    uint64_t x = s.Bits64();
    for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) x = pbt::Mix(x + i); r += (char)(x >> (8 * (i % 8))); }
    if (mode == 1) for (size_t i = 0; i < n; i += 3) r[i] = 0;
  } else {
    for (size_t i = 0; i < n; ++i) r += mode == 1 ? (char)s.Below(2) : (char)s.Below(256);
  }
  return r;
}
static size_t Len(pbt::Src& s) {
  switch (s.Pick({60, 60, 60, 20, 3})) {
    case 0: return s.Range(0, 8);
    case 1: return s.Range(0, 130);
    case 2: return s.OneOf({55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129});
    case 3: return s.Range(0, 6000);
    default: return s.OneOf({256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 131072}) + s.Range(-1, 1);
  }
}
static std::string Hex(const std::string& d) {
  std::string r; char b[3];
  for (unsigned char ch : d) { snprintf(b, sizeof b, "%02x", ch); r += b; }
  return r;
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  std::string all;
  Hasher h;
  int nonempty = 0;
  Hasher* p = &h;
  for (int k = 0; s.More(k, 4, 20); ++k) {
    pbt::Span sp(s);
    int how = s.Pick({3, 3, 2, 2});
    std::string d;
    if (how == 3) {
      int v = (int)s.Bits64();
      d.assign(reinterpret_cast<char*>(&v), sizeof v);
      p = &p->Update(v);
    } else {
      d = Bytes(s, Len(s));
      if (how == 0) p = &p->Update(d.data(), d.size());
      else if (how == 1) p = &p->Update(d);
      else { d = std::string(d.c_str()); p = &p->Update(d.c_str()); }
    }
    if (p != &h) { c.Fail("C19", "Update does not return the hasher"); return; }
    PBT_LOG(c, "update via %s, %zu bytes %s", how == 3 ? "int" : how == 2 ? "char*" : how == 1 ? "string" : "void*", d.size(), Hex(d.substr(0, 16)).c_str());
    if (!d.empty()) ++nonempty;
    all += d;
  }
  if (nonempty > 1) c.nontrivial = true;
  if (all.size() > 64) c.Label("longer than a block");
  if (all.find('\0') != std::string::npos) c.Label("has zero bytes");
  std::string got;
  if (s.Chance(1, 4)) {
    std::string last = Bytes(s, Len(s));
    all += last;
    got = h(last.data(), last.size());
    c.Label("call operator");
  } else {
    got = h.Digest();
  }
  unsigned char md[EVP_MAX_MD_SIZE]; unsigned n = 0;
  EVP_Digest(all.data(), all.size(), md, &n, EVP_md5(), nullptr);
  std::string want(reinterpret_cast<char*>(md), n);
  PBT_LOG(c, "digest %s", Hex(got).c_str());
  if (got != want) c.Fail("C19", "digest of %zu bytes is %s, MD5 is %s", all.size(), Hex(got).c_str(), Hex(want).c_str());
  for (int i = 0; i < 2; ++i) if (h.Digest() != want) c.Fail("C19", "asking for the digest again gives another value");
  if (Hasher::DebugString(got) != Hex(want)) c.Fail("C19", "debug string %s for digest %s", Hasher::DebugString(got).c_str(), Hex(want).c_str());
  Hasher one;
  if (one(all.data(), all.size()) != want) c.Fail("C19", "one-shot digest differs from MD5");
}
