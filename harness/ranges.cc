// I01: integer ranges yield exactly the integers they denote.
#include <string>
#include <type_traits>
#include <vector>

#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "mc.h"

namespace {
using mc::Ctx;
using I = __int128;

template <typename T>
struct Lim {
  static constexpr I max = std::is_signed_v<T> ? (I(1) << (sizeof(T) * 8 - 1)) - 1 : (I(1) << (sizeof(T) * 8)) - 1;
  static constexpr I min = std::is_signed_v<T> ? -max - 1 : I(0);
};

// Checks an iterator that should yield lo, lo+1, ..., lo+n-1 when it is
// consumed in the pattern given by `pat` (bits: 1 = from the back).
template <typename T, typename It>
void consume(It it, I lo, I n, unsigned pat, bool hints) {
  I hi = lo + n;
  if (n < 2000) {
    unsigned p = pat;
    for (int guard = 0; guard < 3000; ++guard) {
      if (hints) {
        auto h = it.size_hint();
        CHECK(I(h.lower) == hi - lo && h.upper && I(*h.upper) == hi - lo, "size hint %zu, expected %lld", h.lower, (long long)(hi - lo));
      }
      bool back = p & 1;
      p = (p >> 1) | ((p & 1) << 5);
      auto x = back ? it.next_back() : it.next();
      CHECK(x.has_value() == (lo < hi), "%s after %lld of %lld elements", x ? "extra element" : "ended",
            (long long)(n - (hi - lo)), (long long)n);
      if (!x) break;
      I want = back ? --hi : lo++;
      CHECK(I(*x) == want, "yields %lld, expected %lld", (long long)*x, (long long)want);
    }
    CHECK(it.next().is_empty() && it.next_back().is_empty(), "yields again after its end");
  } else {  // too many to exhaust: look at both ends
    for (int k = 0; k < 8; ++k) {
      auto x = it.next();
      CHECK(x && I(*x) == lo, "yields the wrong first elements");
      ++lo;
      auto y = it.next_back();
      CHECK(y && I(*y) == --hi, "yields the wrong last elements");
    }
    if (hints) {
      auto h = it.size_hint();
      CHECK(I(h.lower) == hi - lo && h.upper && I(*h.upper) == hi - lo, "size hint");
    }
  }
}

template <typename T>
void all(best::int_range<T> r, I lo, I n, bool pats) {
  bool hints = n <= I(~size_t(0));
  if (hints) CHECK(I(r.iter().count()) == n, "count %zu, expected %lld", r.iter().count(), (long long)n);
  auto la = r.iter().last();
  CHECK(la.has_value() == (n > 0), "last()");
  if (n > 0) CHECK(I(*la) == lo + n - 1, "last() is %lld, expected %lld", (long long)*la, (long long)(lo + n - 1));
  consume<T>(r.iter(), lo, n, 0, hints);
  consume<T>(r.iter(), lo, n, 63, hints);
  if (pats) {
    consume<T>(r.iter(), lo, n, 0b010101, hints);
    consume<T>(r.iter(), lo, n, 0b001011, hints);
  }
  if (n < 600) {
    I k = lo;
    for (auto x : r) CHECK(I(x) == k++);
    CHECK(k == lo + n);
  }
}

// kind 0: end, 1: including_end, 2: count
template <typename T>
void one(Ctx& c, I s, int kind, I z, bool pats) {
  best::int_range<T> r{.start = T(s)};
  I n;
  if (kind == 0) r.end = T(z), n = z - s;
  else if (kind == 1) r.including_end = T(z), n = z + 1 - s;
  else {
    if (z < 0 || s + z > Lim<T>::max) return;  // beyond the type: unspecified
    r.count = T(z), n = z;
  }
  if (n < 0) n = 0;
  all<T>(r, s, n, pats);
}
template <typename T>
void small_body(Ctx& c) {
  // All ranges of an 8-bit type.
  int kind = c.pick(3);
  c.bulk(65536, 256, [&](u_int64_t i) {
    I s = Lim<T>::min + I(i >> 8), z = Lim<T>::min + I(i & 255);
    bool pats = c.thorough() || z - s < 40 || z > Lim<T>::max - 8;
    c.note("[%lld, %s %lld", (long long)s, kind == 0 ? "<" : kind == 1 ? "<=" : "count", (long long)z);
    one<T>(c, s, kind, z, pats);
  });
}
SCENARIO_T(u8, "every range of uint8_t: all starts x all end/including_end/count values, four consumption patterns", 0, small_body<uint8_t>);
SCENARIO_T(i8, "every range of int8_t: same", 0, small_body<int8_t>);

template <typename T>
void wide_body(Ctx& c) {
  constexpr I P = std::is_signed_v<T> ? 0 : Lim<T>::max / 2;
  std::vector<I> v;
  for (int d = 0; d <= 3; ++d) {
    v.push_back(Lim<T>::min + d);
    v.push_back(Lim<T>::max - d);
    v.push_back(P + d);
    v.push_back(P - d);
  }
  for (I x : {I(100), I(255), I(256), I(1000)}) if (x <= Lim<T>::max) v.push_back(x);
  int kind = c.pick(3);
  I s = v[size_t(c.pick(int(v.size())))], z = v[size_t(c.pick(int(v.size())))];
  c.step();
  c.state(Ctx::mix(Ctx::mix(u_int64_t(s), u_int64_t(z)), u_int64_t(kind)));
  c.note("start %lld %s %lld", (long long)s, kind == 0 ? "<" : kind == 1 ? "<=" : "count", (long long)z);
  one<T>(c, s, kind, z, true);
}
SCENARIO_T(u16, "uint16_t ranges between all edge values", 0, wide_body<uint16_t>);
SCENARIO_T(i16, "int16_t ranges between all edge values", 0, wide_body<int16_t>);
SCENARIO_T(u32, "uint32_t ranges between all edge values", 0, wide_body<uint32_t>);
SCENARIO_T(i32, "int32_t ranges between all edge values", 0, wide_body<int32_t>);
SCENARIO_T(u64, "uint64_t ranges between all edge values", 0, wide_body<uint64_t>);
SCENARIO_T(i64, "int64_t ranges between all edge values", 0, wide_body<int64_t>);

template <typename T>
void full_body(Ctx& c) {
  // The whole type.
  c.step();
  best::int_range<T> r{.start = T(Lim<T>::min)};
  all<T>(r, Lim<T>::min, Lim<T>::max - Lim<T>::min + 1, true);
  best::int_range<T> q{.start = T(Lim<T>::min), .including_end = T(Lim<T>::max)};
  all<T>(q, Lim<T>::min, Lim<T>::max - Lim<T>::min + 1, true);
}
SCENARIO(full, "the range holding every value of each 8- and 16-bit type", 0) {
  switch (c.pick(4)) {
    case 0: return full_body<uint8_t>(c);
    case 1: return full_body<int8_t>(c);
    case 2: return full_body<uint16_t>(c);
    default: return full_body<int16_t>(c);
  }
}

SCENARIO(message, "the bounds-check message names the length and an offending index, for every bad range over a span of 0..3", 0) {
  size_t n = size_t(c.pick(4));
  int kind = c.pick(4);
  auto pick = [&] { static const size_t far[] = {100, 1000}; int k = c.pick(int(n) + 5); return k < int(n) + 3 ? size_t(k) : far[size_t(k) - n - 3]; };
  size_t s = pick();
  best::bounds b{.start = s};
  size_t z = 0;
  if (kind) z = pick();
  if (kind == 1) b.end = z;
  if (kind == 2) b.including_end = z;
  if (kind == 3) b.count = z;
  if (b.try_compute_count(n)) throw mc::Skip{};
  c.step();
  mc::take_output();
  CHECK(mc::crashes([&] { (void)b.compute_count(n); }));
  std::string o = mc::take_output();
  auto has = [&](size_t v) { return o.find(std::to_string(v)) != std::string::npos; };
  bool inverted = (kind == 1 || kind == 2) && z < s;
  CHECK(inverted || has(n), "message lacks the length %zu: %s", n, o.c_str());
  if (inverted) CHECK(has(s) && (has(z) || s > n), "message lacks %zu and %zu: %s", s, z, o.c_str());
  else CHECK((s >= n && has(s)) || has(z), "message names neither offender: %s", o.c_str());
}
}  // namespace
