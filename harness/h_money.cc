// C16: money arithmetic against 128-bit integers.
#include "pbt.h"

#include "google/protobuf/stubs/logging.h"
#include "src/money_utils.h"

using google::type::Money;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
namespace scc = google::service_control_client;
typedef __int128 i128;

static const i128 kE9 = 1000000000;

static std::string Show(const Money& m) {
  char b[160];
  snprintf(b, sizeof b, "{%s %lld %d}", m.currency_code().c_str(), (long long)m.units(), m.nanos());
  return b;
}

static int64_t GenUnits(pbt::Src& s) {
  switch (s.Pick({4, 4, 4, 4, 3, 3, 3})) {
    case 0: return 0;
    case 1: return s.Range(0, 5);
    case 2: return -s.Range(0, 5);
    case 3: return INT64_MAX - s.Range(0, 3);
    case 4: return INT64_MIN + s.Range(0, 3);
    case 5: return (int64_t)s.Bits64();
    default: {  // near +-2^62: two of them reach the limits
      int64_t v = (int64_t(1) << 62) + s.Range(-3, 3);
      return s.Chance(1, 2) ? -v : v;
    }
  }
}
static int32_t GenNanosAbs(pbt::Src& s) {
  switch (s.Pick({4, 3, 4, 3, 2})) {
    case 0: return 0;
    case 1: return s.Range(1, 3);
    case 2: return 999999999 - s.Range(0, 3);
    case 3: return s.Range(0, 999999999);
    default: return 500000000 + s.Range(-1, 1);
  }
}
static Money GenValid(pbt::Src& s) {
  pbt::Span sp(s);
  Money m;
  // Mostly one currency, else another or one that nearly is the same.
  m.set_currency_code(s.Pick({6, 1}) == 0 ? "USD" : s.OneOf({"EUR", "usd", "USd", "UsD", "uSD", "UST", "UAD", "XSD", "US ", "DSU", "123", "\xc3\xa9x"}));
  int64_t u = GenUnits(s);
  int32_t n = GenNanosAbs(s);
  bool neg = u < 0 || (u == 0 && s.Chance(1, 2));
  m.set_units(u);
  m.set_nanos(neg ? -n : n);
  return m;
}
static i128 Total(const Money& m) { return (i128)m.units() * kE9 + m.nanos(); }

const char* PbtRule(const std::string&) {
  return "A case is a pair of amounts (units and nanos biased to 0, small, the int64 limits, +-2^62 and +-0.999999999) "
         "added in both orders, plus one arbitrary amount for validation and sign. Non-trivial: the nanos carry or borrow, "
         "or the sum over- or underflows, or the currencies (also by one letter or its case) differ.";
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  Money a = GenValid(s), b = GenValid(s);
  const i128 kMax = (i128)INT64_MAX * kE9 + 999999999, kMin = (i128)INT64_MIN * kE9 - 999999999;
  PBT_LOG(c, "a=%s b=%s", Show(a).c_str(), Show(b).c_str());
  for (int order = 0; order < 2; ++order) {
    const Money& x = order ? b : a;
    const Money& y = order ? a : b;
    Money x0 = x, y0 = y, sum;
    if (s.Chance(1, 2)) {  // the result object may hold anything before
      sum.set_currency_code("XXX"); sum.set_units(77); sum.set_nanos(-3);
    }
    Status st = scc::TryAddMoney(x, y, &sum);
    PBT_LOG(c, "sum=%s code=%d", Show(sum).c_str(), (int)st.code());
    if (x.SerializeAsString() != x0.SerializeAsString() || y.SerializeAsString() != y0.SerializeAsString())
      c.Fail("C16", "adding changed an operand");
    if (x.currency_code() != y.currency_code()) {
      c.nontrivial = true;
      c.Label("currencies differ");
      if (st.code() != StatusCode::kInvalidArgument) c.Fail("C16", "%s + %s: different currencies give code %d", Show(x).c_str(), Show(y).c_str(), (int)st.code());
      if (!sum.currency_code().empty() || sum.units() || sum.nanos()) c.Fail("C16", "%s + %s: result not cleared: %s", Show(x).c_str(), Show(y).c_str(), Show(sum).c_str());
      continue;
    }
    i128 t = Total(x) + Total(y);
    int64_t eu; int32_t en; StatusCode ec = StatusCode::kOk;
    if (t > kMax) { eu = INT64_MAX; en = 999999999; ec = StatusCode::kOutOfRange; c.Label("overflow"); }
    else if (t < kMin) { eu = INT64_MIN; en = -999999999; ec = StatusCode::kOutOfRange; c.Label("underflow"); }
    else { eu = (int64_t)(t / kE9); en = (int32_t)(t % kE9); c.Label("representable"); }
    if (ec != StatusCode::kOk || x.nanos() + (int64_t)y.nanos() >= kE9 || x.nanos() + (int64_t)y.nanos() <= -kE9 ||
        (x.units() > 0) != (y.units() > 0)) c.nontrivial = true;
    if (eu == 0 && en != 0) c.Label("sum below one unit");
    if (st.code() != ec) c.Fail("C16", "%s + %s: code %d, expected %d", Show(x).c_str(), Show(y).c_str(), (int)st.code(), (int)ec);
    if (sum.units() != eu || sum.nanos() != en || sum.currency_code() != x.currency_code())
      c.Fail("C16", "%s + %s = %s, exact: {%lld %d}", Show(x).c_str(), Show(y).c_str(), Show(sum).c_str(), (long long)eu, en);
    Money sat = scc::SaturatedAddMoney(x, y);
    if (sat.units() != eu || sat.nanos() != en || sat.currency_code() != x.currency_code())
      c.Fail("C16", "saturated %s + %s = %s, exact: {%lld %d}", Show(x).c_str(), Show(y).c_str(), Show(sat).c_str(), (long long)eu, en);
    Status v = scc::ValidateMoney(sum);
    if (!v.ok()) c.Fail("C16", "the sum %s of valid amounts is not valid", Show(sum).c_str());
    if (c.failed) return;
  }
  for (const Money* m : {&a, &b}) {
    i128 t = Total(*m);
    int want = t > 0 ? 1 : t < 0 ? -1 : 0;
    if (scc::GetAmountSign(*m) != want) c.Fail("C16", "sign of %s is %d", Show(*m).c_str(), scc::GetAmountSign(*m));
  }
  // Validation on arbitrary values.
  Money m;
  m.set_currency_code(s.OneOf({"USD", "", "U", "US", "USDX", "usd", "123", "\xc3\xa9x", "DOLLARS"}));
  m.set_units(GenUnits(s));
  int32_t n;
  switch (s.Pick({3, 3, 2, 2, 2, 1})) {
    case 0: n = GenNanosAbs(s); break;
    case 1: n = -GenNanosAbs(s); break;
    case 2: n = 1000000000 + (int)s.Range(-1, 1); break;
    case 3: n = -1000000000 + (int)s.Range(-1, 1); break;
    case 4: n = (int32_t)s.Bits64(); break;
    default: n = s.Chance(1, 2) ? INT32_MIN : INT32_MAX;
  }
  m.set_nanos(n);
  bool valid = m.currency_code().size() == 3 && n >= -999999999 && n <= 999999999 &&
               !(m.units() > 0 && n < 0) && !(m.units() < 0 && n > 0);
  Status st = scc::ValidateMoney(m);
  c.Label(valid ? "valid amounts" : "invalid amounts");
  PBT_LOG(c, "validate %s -> %d", Show(m).c_str(), (int)st.code());
  if (valid != st.ok() || (!valid && st.code() != StatusCode::kInvalidArgument))
    c.Fail("C16", "validation of %s gives code %d, the amount is %s", Show(m).c_str(), (int)st.code(), valid ? "valid" : "invalid");
}
