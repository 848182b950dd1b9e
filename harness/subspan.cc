// S01: every access through a span stays inside it; I01: index ranges.
#include <memory>
#include <string>
#include <vector>

#include "best/iter/bounds.h"
#include "best/memory/span.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
using I = __int128;
constexpr size_t Big = ~size_t(0);

// Interesting indices for a span of size n: everything near it, and the values
// at which index arithmetic wraps.
std::vector<size_t> edges(size_t n) {
  std::vector<size_t> v;
  for (size_t i = 0; i <= n + 2; ++i) v.push_back(i);
  for (size_t i = 0; i <= n + 2; ++i) v.push_back(Big - i);
  for (size_t p : {size_t(1) << 63, size_t(1) << 62, size_t(1) << 61, size_t(1) << 32, size_t(1) << 31})
    v.insert(v.end(), {p - 1, p, p + 1});
  return v;
}

// An exactly-sized heap buffer, so ASan sees any overrun.
template <typename T>
struct Buf {
  size_t n;
  T* p;
  explicit Buf(size_t n) : n(n) {
    mc::Internal in;
    p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
    for (size_t i = 0; i < n; ++i) new (p + i) T(el::make<T>(int(i + 1)));
  }
  ~Buf() {
    mc::Internal in;
    for (size_t i = 0; i < n; ++i) p[i].~T();
    ::operator delete(p, std::align_val_t(alignof(T)));
  }
  best::span<T> span() { return best::span<T>(p, n); }
};

template <typename T, typename S>
void expect_span(const char* what, S sp, T* p, size_t n) {
  CHECK(sp.size() == n, "%s: size %zu, expected %zu", what, sp.size(), n);
  CHECK(n == 0 || (const void*)sp.data().raw() == (const void*)p, "%s: begins at the wrong element", what);
  CHECK(sp.is_empty() == (n == 0), "%s: is_empty", what);
}

// ---------------------------------------------------------------- indexing
template <typename T>
void index_body(Ctx& c) {
  el::reset();
  size_t n = size_t(c.pick(7));
  Buf<T> b(n);
  auto sp = b.span();
  best::span<const T> cs = sp;
  auto es = edges(n);
  size_t i = es[size_t(c.pick(int(es.size())))];
  c.note("span of %zu, index %zu", n, i);
  c.step();
  c.state(Ctx::mix(n, i));
  if (i < n) {
    CHECK(&sp[i] == b.p + i && &cs[i] == b.p + i);
    auto o = sp.at(i);
    CHECK(o.has_value() && &*o == b.p + i);
    CHECK(&sp.at(best::unsafe("test"), i) == b.p + i);
  } else {
    mc::take_output();
    CHECK(mc::crashes([&] { (void)sp[i]; }), "index out of range did not crash");
    std::string out = mc::take_output();
    CHECK(out.find(std::to_string(i)) != std::string::npos && out.find(std::to_string(n)) != std::string::npos,
          "message does not name index and length: %s", out.c_str());
    CHECK(out.find("subspan.cc") != std::string::npos, "message does not say where the access is: %s", out.c_str());
    CHECK(mc::crashes([&] { (void)cs[i]; }));
    CHECK(sp.at(i).is_empty() && cs.at(i).is_empty());
  }
}
SCENARIO_T(index_int, "spans of 0..6 ints, every index near the bounds and near every wrap point", mc::LeakCheck, index_body<int>);
SCENARIO_T(index_byte, "spans of 0..6 bytes, same indices", mc::LeakCheck, index_body<unsigned char>);
SCENARIO_T(index_trk, "spans of 0..6 non-trivial elements, same indices", mc::LeakCheck, index_body<el::Trk>);

// ------------------------------------------------------------ subspans
struct Range {
  size_t start = 0;
  bool he = false, hi = false, hc = false;
  size_t e = 0, i = 0, c = 0;
  bool none_specified() const { return !he && !hi && !hc; }
  // The half-open interval the range denotes in a sequence of `len`.
  std::pair<I, I> interval(I len) const {
    I s = start;
    if (he) return {s, I(e)};
    if (hi) return {s, I(i) + 1};
    if (hc) return {s, s + I(c)};
    return {s, len};
  }
};

// A failed bounds check explains itself: the comparison in its message is true, and of the values of this access.
void check_message(const std::string& out, const Range& r, size_t n) {
  const char* tag = "bounds-check failed: ";
  size_t at = out.find(tag);
  CHECK(at != std::string::npos, "no explanation of a failed bounds check: %s", out.c_str());
  const char* p = out.c_str() + at + strlen(tag);
  auto value = [&](const char* what, size_t v) {
    std::string w = what;
    if (w == "start") return v == r.start;
    if (w == "len") return v == n;
    if (w == "end") return (r.he && v == r.e) || (r.hi && v == r.i);
    return true;
  };
  size_t a = 0, b = 0, d = 0;
  char x[32], op[4], y[32];
  if (sscanf(p, "%zu + %zu (start + count) %3[<>=] %zu (%31[a-z])", &a, &b, op, &d, y) == 5) {
    CHECK(a == r.start && b == r.c && value(y, d), "message about other values: %s", out.c_str());
    I l = I(a) + I(b);
    CHECK((std::string(op) == ">" && l > I(d)) || (std::string(op) == ">=" && l >= I(d)), "message is not true: %s", out.c_str());
  } else if (sscanf(p, "%zu (%31[a-z]) %3[<>=] %zu (%31[a-z])", &a, x, op, &d, y) == 5) {
    CHECK(value(x, a) && value(y, d), "message about other values: %s", out.c_str());
    CHECK((std::string(op) == ">" && a > d) || (std::string(op) == ">=" && a >= d), "message is not true: %s", out.c_str());
  } else {
    mc::fail("message cannot be understood: %s", out.c_str());
  }
}

template <typename T>
void check_sub(Ctx& c, Buf<T>& b, Range r) {
  size_t n = b.n;
  auto sp = b.span();
  best::span<const T> cs = sp;
  best::bounds bd{.start = r.start};
  if (r.he) bd.end = r.e;
  if (r.hi) bd.including_end = r.i;
  if (r.hc) bd.count = r.c;
  auto [s, e] = r.interval(I(n));
  // {.start = k + 1, .including_end = k}: the documentation calls this
  // [k+1, k+1), the implementation rejects it; not specified here.
  if (!r.he && r.hi && I(r.start) == I(r.i) + 1) return;
  bool ok = s <= e && e <= I(n);
  c.step();
  auto got = bd.try_compute_count(n);
  CHECK(got.has_value() == ok, "range [%lld, %lld) of %zu %s", (long long)s, (long long)e, n,
        ok ? "rejected" : "accepted");
  auto at = sp.at(bd);
  CHECK(at.has_value() == ok);
  if (ok) {
    size_t cnt = size_t(e - s);
    CHECK(*got == cnt);
    CHECK(bd.compute_count(n) == cnt);
    expect_span("at(bounds)", *at, b.p + r.start, cnt);
    expect_span("span[bounds]", sp[best::bounds::with_location(bd)], b.p + r.start, cnt);
    expect_span("const span[bounds]", cs[best::bounds::with_location(bd)], b.p + r.start, cnt);
    expect_span("at(unsafe, bounds)", sp.at(best::unsafe("test"), bd), b.p + r.start, cnt);
  } else {
    CHECK(mc::crashes([&] { (void)sp[best::bounds::with_location(bd)]; }), "out of range subspan did not crash");
    mc::take_output();
    CHECK(mc::crashes([&] { (void)bd.compute_count(n); }));
    std::string out = mc::take_output();
    check_message(out, r, n);
    CHECK(out.find("subspan.cc") != std::string::npos, "message does not say where the access is: %s", out.c_str());
  }
  // Without a known length.
  auto free = bd.try_compute_count({});
  if (r.none_specified()) {
    CHECK(!free.has_value(), "a range without an end has a count");
  } else {
    bool fits = s <= e && e - s <= I(Big) && (!r.hc || r.he || r.hi || e <= I(Big));
    CHECK(free.has_value() == fits, "range [%lld, %lld) without a length", (long long)s, (long long)e);
    if (fits) CHECK(*free == size_t(e - s));
  }
}

template <typename T>
void sub_body(Ctx& c) {
  el::reset();
  size_t n = size_t(c.pick(6));
  Buf<T> b(n);
  auto es = edges(n);
  Range r;
  r.start = es[size_t(c.pick(int(es.size())))];
  int kind = c.pick(4);
  size_t z = 0;
  if (kind) z = es[size_t(c.pick(int(es.size())))];
  if (kind == 1) r.he = true, r.e = z;
  if (kind == 2) r.hi = true, r.i = z;
  if (kind == 3) r.hc = true, r.c = z;
  c.note("span of %zu, start %zu, %s %zu", n, r.start, kind == 1 ? "end" : kind == 2 ? "including_end" : kind ? "count" : "-", z);
  c.state(Ctx::mix(Ctx::mix(n, r.start), Ctx::mix(z, u_int64_t(kind))));
  check_sub(c, b, r);
}
SCENARIO_T(sub_int, "spans of 0..5 ints, every range with start and end/including_end/count at every edge value", mc::LeakCheck, sub_body<int>);
SCENARIO_T(sub_trk, "spans of 0..5 non-trivial elements, same ranges", mc::LeakCheck, sub_body<el::Trk>);

SCENARIO(sub_many, "spans of 0..4, every combination of start and several end specifications from {0..n+1, max}", mc::LeakCheck) {
  size_t n = size_t(c.pick(5));
  Buf<int> b(n);
  auto val = [&] { int k = c.pick(int(n) + 3); return k == int(n) + 2 ? Big : size_t(k); };
  Range r;
  r.start = val();
  if ((r.he = c.flip())) r.e = val();
  if ((r.hi = c.flip())) r.i = val();
  if ((r.hc = c.flip())) r.c = val();
  c.state(Ctx::mix(Ctx::mix(n, r.start), Ctx::mix(r.e * 3 + r.i * 5, r.c * 8 + r.he * 4 + r.hi * 2 + r.hc)));
  check_sub(c, b, r);
}

// ------------------------------------------- fixed-size heads and tails
template <size_t m, typename S, typename T>
void head_tail(S sp, T* p) {
  size_t n = sp.size();
  auto f = sp.first(best::index<m>);
  auto l = sp.last(best::index<m>);
  auto sf = sp.split_first(best::index<m>);
  auto sl = sp.split_last(best::index<m>);
  bool ok = m <= n;
  CHECK(f.has_value() == ok && l.has_value() == ok, "first/last %zu of %zu", m, n);
  CHECK(sf.has_value() == ok && sl.has_value() == ok, "split_first/last %zu of %zu", m, n);
  if (!ok) return;
  expect_span("first<m>", *f, p, m);
  expect_span("last<m>", *l, p + (n - m), m);
  expect_span("split_first<m> head", sf->first(), p, m);
  expect_span("split_first<m> rest", sf->second(), p + m, n - m);
  expect_span("split_last<m> tail", sl->first(), p + (n - m), m);
  expect_span("split_last<m> rest", sl->second(), p, n - m);
}
template <typename S, typename T>
void head_tail1(S sp, T* p) {
  size_t n = sp.size();
  auto f = sp.first();
  auto l = sp.last();
  auto sf = sp.split_first();
  auto sl = sp.split_last();
  CHECK(f.has_value() == (n > 0) && l.has_value() == (n > 0) && sf.has_value() == (n > 0) && sl.has_value() == (n > 0));
  if (!n) return;
  CHECK(&*f == p && &*l == p + n - 1);
  CHECK(&sf->first() == p && &sl->first() == p + n - 1);
  expect_span("split_first rest", sf->second(), p + 1, n - 1);
  expect_span("split_last rest", sl->second(), p, n - 1);
}
template <typename S, typename T>
void heads(S sp, T* p) {
  head_tail1(sp, p);
  head_tail<0>(sp, p);
  head_tail<1>(sp, p);
  head_tail<2>(sp, p);
  head_tail<3>(sp, p);
  head_tail<4>(sp, p);
  head_tail<5>(sp, p);
}
template <typename T>
void heads_body(Ctx& c) {
  el::reset();
  size_t n = size_t(c.pick(6));
  int kind = c.pick(2);
  Buf<T> b(n);
  c.step();
  c.state(Ctx::mix(n, u_int64_t(kind)));
  c.note("heads and tails of a %s span of %zu", kind ? "const" : "mutable", n);
  if (kind == 0) heads(b.span(), b.p);
  else heads(best::span<const T>(b.span()), b.p);
}
SCENARIO_T(heads_int, "first/last/split_first/split_last of 0..5 elements of spans of 0..5 ints", mc::LeakCheck, heads_body<int>);
SCENARIO_T(heads_trk, "the same for non-trivial elements", mc::LeakCheck, heads_body<el::Trk>);

template <size_t n, size_t m>
void fixed_head(best::span<int, n> sp, int* p) {
  if constexpr (m <= n) head_tail<m>(sp, p);
}
template <size_t n>
void fixed(Ctx& c) {
  Buf<int> b(n);
  best::span<int, n> sp(b.p, n);
  c.step();
  static_assert(sp.size() == n);
  CHECK(n == 0 || sp.data().raw() == b.p);
  if constexpr (n > 0) head_tail1(sp, b.p);
  fixed_head<n, 0>(sp, b.p);
  fixed_head<n, 1>(sp, b.p);
  fixed_head<n, 2>(sp, b.p);
  fixed_head<n, 3>(sp, b.p);
  fixed_head<n, 4>(sp, b.p);
  fixed_head<n, 5>(sp, b.p);
  for (size_t i : edges(n)) {
    c.step();
    c.state(Ctx::mix(n, i));
    auto h = sp.split_at(i);
    CHECK(h.has_value() == (i <= n), "split_at(%zu) of a static span of %zu", i, n);
    if (h) {
      expect_span("split_at head", (*h)[0], b.p, i);
      expect_span("split_at rest", (*h)[1], b.p + i, n - i);
    }
    if (i < n) CHECK(&sp[i] == b.p + i && &*sp.at(i) == b.p + i);
    else CHECK(mc::crashes([&] { (void)sp[i]; }) && sp.at(i).is_empty());
  }
  // Construction from the wrong size crashes.
  for (size_t k = 0; k <= n + 2; ++k) {
    Buf<int> d(k);
    c.step();
    bool crash = mc::crashes([&] { best::span<int, n> bad(d.p, k); (void)bad; });
    CHECK(crash == (k != n), "static span of %zu from a buffer of %zu", n, k);
    crash = mc::crashes([&] { best::span<const int, n> bad(d.span()); (void)bad; });
    CHECK(crash == (k != n), "static span of %zu from a span of %zu", n, k);
  }
  if constexpr (n >= 3) {
    CHECK(&sp[best::index<2>] == b.p + 2);
    auto s1 = sp[best::vals<best::bounds{.start = 1, .end = 3}>];
    expect_span("static subspan", s1, b.p + 1, 2);
    static_assert(s1.size() == 2);
    auto s2 = sp[best::vals<best::bounds{.start = 1}>];
    expect_span("static subspan", s2, b.p + 1, n - 1);
    auto s3 = sp[best::vals<best::bounds{.start = 0, .including_end = 1}>];
    expect_span("static subspan", s3, b.p, 2);
    auto s4 = sp[best::vals<best::bounds{.start = 2, .count = 1}>];
    expect_span("static subspan", s4, b.p + 2, 1);
  }
  best::span<int> dyn = sp;
  expect_span("static to dynamic", dyn, b.p, n);
  size_t k = 0;
  for (int& x : sp) CHECK(&x == b.p + k++);
  CHECK(k == n);
}
SCENARIO(fixed_size, "static spans of 0..5: construction, indexing, split_at at every edge index, static heads/tails", 0) {
  switch (c.pick(6)) {
    case 0: return fixed<0>(c);
    case 1: return fixed<1>(c);
    case 2: return fixed<2>(c);
    case 3: return fixed<3>(c);
    case 4: return fixed<4>(c);
    default: return fixed<5>(c);
  }
}

// ------------------------------------------------- shrinking in place
SCENARIO(take, "every sequence of 3 (quick) or 5 take_first/take_last/split_at/strip steps with every count, on spans of 0..5", mc::LeakCheck) {
  size_t n = size_t(c.pick(6));
  Buf<int> b(n);
  auto sp = b.span();
  size_t lo = 0, hi = n;
  int depth = c.thorough() ? 5 : 3;
  for (int d = 0; d < depth; ++d) {
    c.step();
    c.state(Ctx::mix(Ctx::mix(n, lo), hi));
    size_t k = size_t(c.pick(int(hi - lo) + 3));
    size_t m = k == hi - lo + 2 ? Big : k;
    bool ok = m <= hi - lo;
    switch (c.pick(5)) {
      case 0: {
        c.note("take_first(%zu)", m);
        auto r = sp.take_first(m);
        CHECK(r.has_value() == ok);
        if (ok) expect_span("take_first", *r, b.p + lo, m), lo += m;
        break;
      }
      case 1: {
        c.note("take_last(%zu)", m);
        auto r = sp.take_last(m);
        CHECK(r.has_value() == ok);
        if (ok) expect_span("take_last", *r, b.p + hi - m, m), hi -= m;
        break;
      }
      case 2: {
        c.note("split_at(%zu)", m);
        auto r = sp.split_at(m);
        CHECK(r.has_value() == ok);
        if (ok) {
          expect_span("split_at head", (*r)[0], b.p + lo, m);
          expect_span("split_at rest", (*r)[1], b.p + lo + m, hi - lo - m);
          sp = (*r)[1];
          lo += m;
        }
        break;
      }
      case 3: {
        if (!ok) throw mc::Skip{};
        c.note("consume_prefix of %zu", m);
        best::span<const int> p(b.p + lo, m);
        bool r = sp.consume_prefix(p);
        CHECK(r);
        lo += m;
        break;
      }
      default: {
        if (!ok) throw mc::Skip{};
        c.note("consume_suffix of %zu", m);
        best::span<const int> p(b.p + hi - m, m);
        bool r = sp.consume_suffix(p);
        CHECK(r);
        hi -= m;
        break;
      }
    }
    expect_span("remaining", sp, b.p + lo, hi - lo);
  }
}

// --------------------------------------------------------- iteration
SCENARIO(iterate, "every interleaving of next/next_back over spans of 0..6, then exhaustion, size hints, count, last, rest", mc::LeakCheck) {
  size_t n = size_t(c.pick(7));
  Buf<int> b(n);
  auto it = b.span().iter();
  size_t lo = 0, hi = n;
  for (;;) {
    c.step();
    c.state(Ctx::mix(Ctx::mix(n, lo), hi));
    auto h = it.size_hint();
    CHECK(h.lower == hi - lo && h.upper == hi - lo, "size hint");
    auto r = it->rest();
    expect_span("rest", r, b.p + lo, hi - lo);
    auto i2 = it;
    CHECK(BEST_MOVE(i2).count() == hi - lo);
    auto i3 = it;
    auto la = BEST_MOVE(i3).last();
    CHECK(la.has_value() == (hi > lo));
    if (la) CHECK(&*la == b.p + hi - 1);
    bool back = c.flip();
    c.note(back ? "next_back" : "next");
    auto x = back ? it.next_back() : it.next();
    CHECK(x.has_value() == (lo < hi));
    if (!x) break;
    if (back) CHECK(&*x == b.p + --hi);
    else CHECK(&*x == b.p + lo++);
  }
  CHECK(it.next().is_empty() && it.next_back().is_empty());
}

SCENARIO(subarray, "has_subarray for every pair of intervals of a buffer of 5", 0) {
  Buf<int> b(5);
  size_t v[4];
  for (auto& x : v) x = size_t(c.pick(6));
  if (v[0] > v[1] || v[2] > v[3]) throw mc::Skip{};
  c.step();
  best::span<int> a(b.p + v[0], v[1] - v[0]), d(b.p + v[2], v[3] - v[2]);
  CHECK(a.has_subarray(d) == (v[0] <= v[2] && v[3] <= v[1]));
}

template <typename T>
void nul_body(Ctx& c) {
  // Strings of length 0..4 over {1, 0x80...}, followed by NUL then garbage.
  size_t n = size_t(c.pick(5));
  T* p;
  {
    mc::Internal in;
    p = static_cast<T*>(malloc((n + 1) * sizeof(T)));
  }
  for (size_t i = 0; i < n; ++i) p[i] = c.flip() ? T(1) : T(T(1) << (sizeof(T) * 8 - 8));
  p[n] = T(0);
  c.step();
  auto sp = best::span<T>::from_nul(p);
  CHECK(sp.data().raw() == p && sp.size() == n, "from_nul found %zu elements, expected %zu", sp.size(), n);
  mc::Internal in;
  free(p);
}
SCENARIO_T(nul_char, "from_nul of every string of up to 4 over two chars", 0, nul_body<char>);
SCENARIO_T(nul_u16, "from_nul of char16_t strings including units with a zero byte", 0, nul_body<char16_t>);
SCENARIO_T(nul_u32, "from_nul of char32_t strings", 0, nul_body<char32_t>);
SCENARIO_T(nul_int, "from_nul of int strings", 0, nul_body<int>);
SCENARIO(nul_null, "from_nul(nullptr) is empty", 0) {
  c.step();
  CHECK(best::span<char>::from_nul(nullptr).is_empty());
  CHECK(best::span<int>::from_nul(nullptr).is_empty());
}
}  // namespace
