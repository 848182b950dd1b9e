// N01: number parsing. N02: overflow arithmetic. N03: bits and comparisons.
#include <string>
#include <vector>

#include "best/math/bit.h"
#include "best/text/format.h"
#include "best/text/utf16.h"
#include "best/math/conv.h"
#include "best/math/int.h"
#include "best/math/overflow.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "mc.h"

#ifndef MATH_PART
#define MATH_PART 1
#endif

namespace {
using mc::Ctx;
using W = __int128;
using s8 = signed char;
using u8 = unsigned char;
using s16 = short;
using u16 = unsigned short;
using s32 = int;
using u32 = unsigned;
using s64 = long;
using u64 = unsigned long;

template <typename T>
constexpr W lo = std::is_signed_v<T> ? -(W(1) << (8 * sizeof(T) - 1)) : W(0);
template <typename T>
constexpr W hi = (W(1) << (8 * sizeof(T) - std::is_signed_v<T>)) - 1;
template <typename T>
T wrap(W w) {
  return T(std::make_unsigned_t<T>(w));
}
template <typename T>
bool fits(W w) {
  return w >= lo<T> && w <= hi<T>;
}
std::string dec(W w) {
  if (w < 0) return "-" + dec(-w);
  std::string s;
  do s.insert(s.begin(), char('0' + int(w % 10))), w /= 10;
  while (w);
  return s;
}
#define D(x) dec(W(x)).c_str()

// The type all arithmetic happens in: the widest, unsigned if any is.
template <typename A, typename B>
struct CommonT {
  using Wide = std::conditional_t<(sizeof(A) > sizeof(B)), A, B>;
  using type = std::conditional_t<std::is_unsigned_v<A> || std::is_unsigned_v<B>, std::make_unsigned_t<Wide>, std::make_signed_t<Wide>>;
};
template <typename A, typename B>
using Common = typename CommonT<A, B>::type;

template <typename T>
const char* tn() {
  static const char* n[] = {"u8", "i8", "u16", "i16", "u32", "i32", "", "", "u64", "i64"};
  return sizeof(T) == 8 ? n[8 + std::is_signed_v<T>] : n[(sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 2 : 4) + std::is_signed_v<T>];
}

// Everything for 8 bits, the interesting values of the wider types.
template <typename T>
const std::vector<T>& values() {
  static const std::vector<T> v = [] {
    mc::Internal in;
    std::vector<T> v;
    if constexpr (sizeof(T) == 1) {
      for (W w = lo<T>; w <= hi<T>; ++w) v.push_back(T(w));
    } else {
      auto add = [&](W w) {
        if (fits<T>(w)) v.push_back(T(w));
      };
      for (W d = -3; d <= 3; ++d) {
        add(d), add(lo<T> + d), add(hi<T> + d), add(hi<T> / 2 + d), add(hi<T> / 3 + d);
        for (int b : {7, 8, 15, 16, 31, 32, 62, 63})
          add((W(1) << b) + d), add(-(W(1) << b) + d);
      }
      add(W(46340)), add(W(46341)), add(W(3037000499)), add(W(3037000500)), add(W(255) * 255), add(W(1000000007));
      for (int b = 0; b < int(8 * sizeof(T)); b += 5) add(W(1) << b);
    }
    return v;
  }();
  return v;
}

// ------------------------------------------------------------- arithmetic
template <typename R>
struct Ans {
  R value;
  bool of;
};

#define CHECK_OF(got_, type_, val_, of_, what_)                                                                                     \
  do {                                                                                                                              \
    auto g = (got_);                                                                                                                \
    static_assert(std::is_same_v<decltype(g), best::overflow<type_>>);                                                             \
    CHECK(g.value == (val_) && g.overflowed == (of_), "%s %s %s %s: %s%s, expected %s%s", tn<A>(), D(a), what_, D(b), D(g.value),   \
          g.overflowed ? " (overflowed)" : "", D(val_), (of_) ? " (overflowed)" : "");                                              \
  } while (0)

template <typename A, typename B>
void one_pair(A a, B b) {
  using C = Common<A, B>;
  static_assert(std::is_same_v<best::common_int<A, B>, C>);
  C ca = C(a), cb = C(b);
  best::overflow<A> oa(a);
  best::overflow<B> ob(b);
  W sum = W(ca) + cb, dif = W(ca) - cb, mul = W(ca) * cb;
  auto bin = [&](auto op, W exact, const char* what) {
    C v = wrap<C>(exact);
    bool of = !fits<C>(exact);
    CHECK_OF(op(oa, ob), C, v, of, what);
    CHECK_OF(op(oa, b), C, v, of, what);
    CHECK_OF(op(a, ob), C, v, of, what);
    // Overflow sticks.
    CHECK_OF(op(best::overflow<A>(a, true), ob), C, v, true, what);
    CHECK_OF(op(oa, best::overflow<B>(b, true)), C, v, true, what);
    auto g = op(oa, ob);
    CHECK(g.wrap() == v && g.checked().has_value() == !of && (of || *g.checked() == v), "%s %s %s: wrap/checked", D(a), what, D(b));
    return of;
  };
  bin([](auto x, auto y) { return x + y; }, sum, "+");
  bin([](auto x, auto y) { return x - y; }, dif, "-");
  bin([](auto x, auto y) { return x * y; }, mul, "*");
  bin([](auto x, auto y) { return x & y; }, W(C(ca & cb)), "&");
  bin([](auto x, auto y) { return x | y; }, W(C(ca | cb)), "|");
  bin([](auto x, auto y) { return x ^ y; }, W(C(ca ^ cb)), "^");
  if (cb != 0) {
    W q = W(ca) / W(cb), r = W(ca) % W(cb);
    bool of = !fits<C>(q);
    bin([](auto x, auto y) { return x / y; }, q, "/");
    if (!of) {
      bin([](auto x, auto y) { return x % y; }, r, "%%");
      auto d = best::div(a, b);
      CHECK(d.quot.value == C(q) && d.rem.value == C(r) && !d.quot.overflowed && !d.rem.overflowed, "div(%s, %s)", D(a), D(b));
      W up = q + (r != 0 && (r < 0) == (cb < 0));
      CHECK_OF(best::ceildiv(a, b), C, C(up), false, "ceildiv");
      CHECK_OF(best::ceildiv(best::overflow<A>(a, true), ob), C, C(up), true, "ceildiv");
    } else {
      CHECK((oa % ob).overflowed && best::div(a, b).quot.overflowed && best::ceildiv(a, b).overflowed, "%s / %s: overflow not noticed", D(a), D(b));
    }
  }
  auto sat = [](W w) { return w < lo<C> ? C(lo<C>) : w > hi<C> ? C(hi<C>) : C(w); };
  CHECK(best::saturating_add(a, b) == sat(sum), "saturating_add(%s, %s) = %s", D(a), D(b), D(best::saturating_add(a, b)));
  CHECK(best::saturating_sub(a, b) == sat(dif), "saturating_sub(%s, %s) = %s", D(a), D(b), D(best::saturating_sub(a, b)));
  CHECK(best::saturating_mul(a, b) == sat(mul), "saturating_mul(%s, %s) = %s", D(a), D(b), D(best::saturating_mul(a, b)));

  // Shifts: modulo the width, overflowing for any other amount.
  {
    unsigned bits = 8 * sizeof(A), sh = unsigned(u64(b) & (bits - 1));
    bool of = !(W(b) >= 0 && W(b) < W(bits));
    A l = wrap<A>(W(std::make_unsigned_t<A>(a)) << sh), r = A(a >> sh);
    CHECK_OF(oa << ob, A, l, of, "<<");
    CHECK_OF(oa << b, A, l, of, "<<");
    CHECK_OF(oa >> ob, A, r, of, ">>");
    CHECK_OF(oa >> b, A, r, of, ">>");
  }

  // Compound assignment: the result must fit into the left-hand side.
  auto comp = [&](auto f, W exact, const char* what) {
    C v = wrap<C>(exact);
    bool of = !fits<C>(exact) || !fits<A>(W(v));
    auto x = oa;
    f(x, b);
    CHECK(x.value == wrap<A>(W(v)) && x.overflowed == of, "%s %s %s= %s: %s%s", tn<A>(), D(a), what, D(b), D(x.value), x.overflowed ? " (overflowed)" : "");
    auto y = oa;
    f(y, ob);
    CHECK(y.value == x.value && y.overflowed == of, "%s %s= %s", D(a), what, D(b));
  };
  comp([](auto& x, auto y) { x += y; }, sum, "+");
  comp([](auto& x, auto y) { x -= y; }, dif, "-");
  comp([](auto& x, auto y) { x *= y; }, mul, "*");
  comp([](auto& x, auto y) { x |= y; }, W(C(ca | cb)), "|");

  // Conversion.
  {
    best::overflow<B> conv(oa);
    CHECK(conv.value == wrap<B>(a) && conv.overflowed == !fits<B>(a), "converting %s %s to %s: %s%s", tn<A>(), D(a), tn<B>(), D(conv.value), conv.overflowed ? " (overflowed)" : "");
    best::overflow<B> sticky(best::overflow<A>(a, true));
    CHECK(sticky.overflowed, "converting loses the overflow");
  }
  (void)ca;
}

template <typename A>
void one(A a) {
  best::overflow<A> oa(a);
  auto b = a;
  W neg = -W(a);
  CHECK_OF(-oa, A, wrap<A>(neg), !fits<A>(neg), "negated");
  CHECK((-best::overflow<A>(a, true)).overflowed && (~best::overflow<A>(a, true)).overflowed && (+best::overflow<A>(a, true)).overflowed, "unary operators lose the overflow of %s", D(a));
  CHECK_OF(~oa, A, A(~a), false, "inverted");
  CHECK_OF(+oa, A, a, false, "unary plus");
  CHECK((oa == a) && !(best::overflow<A>(a, true) == a) && oa == best::overflow<A>(a) && !(oa == best::overflow<A>(a, true)), "equality");
}

template <typename A, typename B>
void arith(Ctx& c) {
  auto& as = values<A>();
  auto& bs = values<B>();
  c.bulk(as.size() * bs.size(), 4096, [&](u64 i) {
    A a = as[i / bs.size()];
    B b = bs[i % bs.size()];
    one_pair(a, b);
    if (i % bs.size() == 0) one(a);
  });
}
template <typename A>
void strict(Ctx& c) {
  // strict() and division by zero crash; nothing else does.
  auto& as = values<A>();
  c.bulk(as.size(), 64, [&](u64 i) {
    A a = as[i];
    bool crashed = mc::crashes([&] { (void)(best::overflow<A>(a) + A(1)).strict(); });
    bool succ_fits = fits<Common<A, A>>(W(a) + 1);
    CHECK(crashed == !succ_fits, "(%s + 1).strict() %s", D(a), crashed ? "crashed" : "did not crash");
    CHECK(mc::crashes([&] { (void)(best::overflow<A>(a) / A(0)); }), "%s / 0 did not crash", D(a));
    CHECK(mc::crashes([&] { (void)(best::overflow<A>(a) % A(0)); }), "%s %% 0 did not crash", D(a));
    CHECK(mc::crashes([&] { (void)best::div(a, A(0)); }), "div(%s, 0) did not crash", D(a));
    CHECK(mc::crashes([&] { (void)best::ceildiv(a, A(0)); }), "ceildiv(%s, 0) did not crash", D(a));
    mc::take_output();
  });
}

// ---------------------------------------------------------- bits, comparison
template <typename A>
void bits_of_one(A a) {
  using U = std::make_unsigned_t<A>;
  using S = std::make_signed_t<A>;
  constexpr int N = 8 * sizeof(A);
  U u = U(a);
  int ones = 0, lz = 0, tz = 0, l1 = 0, t1 = 0;
  for (int i = 0; i < N; ++i) ones += u >> i & 1;
  while (lz < N && !(u >> (N - 1 - lz) & 1)) ++lz;
  while (tz < N && !(u >> tz & 1)) ++tz;
  while (l1 < N && (u >> (N - 1 - l1) & 1)) ++l1;
  while (t1 < N && (u >> t1 & 1)) ++t1;
  CHECK(int(best::count_ones(a)) == ones && int(best::count_zeros(a)) == N - ones, "counting the bits of %s %s", tn<A>(), D(a));
  CHECK(int(best::leading_zeros(a)) == lz && int(best::trailing_zeros(a)) == tz, "zeros at the ends of %s %s", tn<A>(), D(a));
  CHECK(int(best::leading_ones(a)) == l1 && int(best::trailing_ones(a)) == t1, "ones at the ends of %s %s", tn<A>(), D(a));
  for (unsigned s = 0; s < 140; ++s) {
    bool in = s < unsigned(N);
    CHECK(best::shift_left(a, s) == (in ? A(U(u << s)) : A(0)), "shift_left(%s %s, %u)", tn<A>(), D(a), s);
    CHECK(best::shift_right(a, s) == (in ? A(U(u >> s)) : A(0)), "shift_right(%s %s, %u)", tn<A>(), D(a), s);
    CHECK(best::shift_sign(a, s) == (in ? A(S(S(a) >> s)) : A(S(a) < 0 ? -1 : 0)), "shift_sign(%s %s, %u)", tn<A>(), D(a), s);
    unsigned k = s % unsigned(N);
    U rl = k ? U(u << k | u >> (unsigned(N) - k)) : u, rr = k ? U(u >> k | u << (unsigned(N) - k)) : u;
    CHECK(best::rotate_left(a, s) == A(rl) && best::rotate_right(a, s) == A(rr), "rotating %s %s by %u", tn<A>(), D(a), s);
  }
  for (unsigned s : {256u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
    CHECK(best::shift_left(a, s) == 0 && best::shift_right(a, s) == 0 && best::shift_sign(a, s) == A(S(a) < 0 ? -1 : 0), "shifting %s %s by %u", tn<A>(), D(a), s);
  CHECK(best::to_unsigned(a) == u && best::to_signed(a) == S(a), "sign casts of %s %s", tn<A>(), D(a));
  if constexpr (std::is_unsigned_v<A>) {
    CHECK(best::is_pow2(a) == (ones == 1), "is_pow2(%s %s)", tn<A>(), D(a));
    int need = N - lz;  // bits to store a
    W next = W(1) << need;
    CHECK(int(best::bits_for(a)) == need, "bits_for(%s %s) = %u", tn<A>(), D(a), best::bits_for(a));
    CHECK(best::next_pow2_minus1(a) == A(next - 1), "next_pow2_minus1(%s %s)", tn<A>(), D(a));
    bool of = !fits<A>(next);
    CHECK(best::wrapping_next_pow2(a) == wrap<A>(next), "wrapping_next_pow2(%s %s)", tn<A>(), D(a));
    auto ck = best::checked_next_pow2(a);
    CHECK(ck.has_value() == !of && (of || *ck == A(next)), "checked_next_pow2(%s %s)", tn<A>(), D(a));
    if (!of) CHECK(best::next_pow2(a) == A(next), "next_pow2(%s %s)", tn<A>(), D(a));
    else if (need == N && (a == A(hi<A>) || tz == N - 1 || sizeof(A) > 2)) {
      CHECK(mc::crashes([&] { (void)best::next_pow2(a); }), "next_pow2(%s %s) did not crash", tn<A>(), D(a));
      mc::take_output();
    }
  }
}
template <typename A>
void bits(Ctx& c) {
  if constexpr (sizeof(A) == 2) {
    c.bulk(65536, 4096, [&](u64 i) { bits_of_one(A(i)); });
  } else {
    c.bulk(values<A>().size(), 64, [&](u64 i) { bits_of_one(values<A>()[i]); });
  }
}

template <typename A, typename B>
void cmp_pair(A a, B b) {
  auto o = W(a) <=> W(b);
  CHECK(best::int_cmp(a, b) == o, "int_cmp(%s %s, %s %s)", tn<A>(), D(a), tn<B>(), D(b));
  CHECK(best::int_fits<B>(a) == fits<B>(a), "int_fits<%s>(%s %s)", tn<B>(), tn<A>(), D(a));
  auto k = best::checked_cast<B>(a);
  CHECK(k.has_value() == fits<B>(a) && (!k || W(*k) == W(a)), "checked_cast<%s>(%s %s)", tn<B>(), tn<A>(), D(a));
  if constexpr (sizeof(A) == sizeof(B)) {
    using U = std::make_unsigned_t<A>;
    using S = std::make_signed_t<A>;
    CHECK(best::unsigned_cmp(a, b) == (U(a) <=> U(b)), "unsigned_cmp(%s, %s)", D(a), D(b));
    CHECK(best::signed_cmp(a, b) == (S(a) <=> S(b)), "signed_cmp(%s, %s)", D(a), D(b));
  }
  if constexpr (std::is_signed_v<A> == std::is_signed_v<B>) {
    CHECK(W(best::min(a, b)) == (o < 0 ? W(a) : W(b)), "min(%s %s, %s %s) = %s", tn<A>(), D(a), tn<B>(), D(b), D(best::min(a, b)));
    CHECK(W(best::max(a, b)) == (o > 0 ? W(a) : W(b)), "max(%s %s, %s %s) = %s", tn<A>(), D(a), tn<B>(), D(b), D(best::max(a, b)));
    A third = A(a ^ A(1));
    W mn = W(a) < W(b) ? W(a) : W(b), mx = W(a) > W(b) ? W(a) : W(b);
    mn = mn < W(third) ? mn : W(third), mx = mx > W(third) ? mx : W(third);
    CHECK(W(best::min(a, b, third)) == mn && W(best::min(third, b, a)) == mn && W(best::min(b, third, a)) == mn, "min of three: %s %s %s", D(a), D(b), D(third));
    CHECK(W(best::max(a, b, third)) == mx && W(best::max(third, b, a)) == mx && W(best::max(b, third, a)) == mx, "max of three: %s %s %s", D(a), D(b), D(third));
  }
}
template <typename A, typename B>
void cmp(Ctx& c) {
  auto& as = values<A>();
  auto& bs = values<B>();
  c.bulk(as.size() * bs.size(), 8192, [&](u64 i) { cmp_pair(as[i / bs.size()], bs[i % bs.size()]); });
}
template <typename T>
void limits(Ctx& c) {
  c.step();
  CHECK(W(best::min_of<T>) == lo<T> && W(best::max_of<T>) == hi<T> && best::bits_of<T> == 8 * sizeof(T), "limits of %s", tn<T>());
}

// ---------------------------------------------------------------- parsing
int digit(char ch) {
  if (ch >= '0' && ch <= '9') return ch - '0';
  if (ch >= 'a' && ch <= 'z') return ch - 'a' + 10;
  if (ch >= 'A' && ch <= 'Z') return ch - 'A' + 10;
  return 99;
}
// The value of s, or nothing: an optional sign and one or more digits.
bool ref_digits(const std::string& s, bool neg, int radix, W lo_, W hi_, W& out) {
  if (s.empty()) return false;
  W v = 0;
  for (char ch : s) {
    int d = digit(ch);
    if (d >= radix) return false;
    if (v <= (W(1) << 70)) v = v * radix + d;
  }
  if (neg) v = -v;
  out = v;
  return v >= lo_ && v <= hi_;
}
template <typename T>
bool ref_parse(std::string s, int radix, W& out) {
  bool neg = !s.empty() && s[0] == '-';
  if (neg || (!s.empty() && s[0] == '+')) s.erase(0, 1);
  return ref_digits(s, neg, radix, lo<T>, hi<T>, out);
}
template <typename T>
bool ref_prefix(std::string s, W& out) {
  bool neg = !s.empty() && s[0] == '-';
  if (neg || (!s.empty() && s[0] == '+')) s.erase(0, 1);
  int radix = 10;
  if (s.substr(0, 2) == "0x") radix = 16, s.erase(0, 2);
  else if (s.substr(0, 2) == "0b") radix = 2, s.erase(0, 2);
  else if (s.substr(0, 2) == "0o") radix = 8, s.erase(0, 2);
  else if (s.size() > 1 && s[0] == '0') radix = 8, s.erase(0, 1);
  return ref_digits(s, neg, radix, lo<T>, hi<T>, out);
}

template <typename T, typename R>
void same(const R& got, bool ok, W want, const char* what, const std::string& s, int radix) {
  CHECK(bool(got.ok()) == ok, "%s<%s>(\"%s\", %d) %s", what, tn<T>(), s.c_str(), radix, ok ? "failed" : "succeeded");
  if (ok) CHECK(W(*got.ok()) == want, "%s<%s>(\"%s\", %d) = %s", what, tn<T>(), s.c_str(), radix, D(*got.ok()));
}

template <typename T>
void parse_one(const std::string& s, int radix) {
  best::pretext<best::utf8> p(best::span<const char>(s.data(), s.size()));
  W w = 0;
  bool ok = ref_parse<T>(s, radix, w);
  same<T>(best::atoi<T>(p, uint32_t(radix)), ok, w, "atoi", s, radix);
  auto t = best::str::from(p);
  if (t) same<T>(best::atoi<T>(*t, uint32_t(radix)), ok, w, "atoi", s, radix);
  for (bool neg : {false, true}) {
    bool ok2 = ref_digits(s, neg, radix, lo<T>, hi<T>, w);
    same<T>(best::atoi_with_sign<T>(p, neg, uint32_t(radix)), ok2, w, neg ? "atoi_with_sign(negative)" : "atoi_with_sign", s, radix);
    if (t) same<T>(best::atoi_with_sign<T>(*t, neg, uint32_t(radix)), ok2, w, neg ? "atoi_with_sign(negative)" : "atoi_with_sign", s, radix);
  }
  if (radix == 10) {
    ok = ref_prefix<T>(s, w);
    same<T>(best::atoi_with_prefix<T>(p), ok, w, "atoi_with_prefix", s, 0);
  }
  if (s.size() <= 4 || radix == 10) {
    std::u16string u(s.begin(), s.end());
    best::pretext<best::utf16> q(best::span<const char16_t>(u.data(), u.size()));
    ok = ref_parse<T>(s, radix, w);
    same<T>(best::atoi<T>(q, uint32_t(radix)), ok, w, "UTF-16 atoi", s, radix);
  }
}

template <typename T>
void parse_strings(Ctx& c, const std::string& xs, int len, std::vector<int> radices) {
  u64 n = 0, pw = 1;
  for (int l = 0; l <= len; ++l) n += pw, pw *= xs.size();
  c.bulk(n, 16384, [&](u64 i) {
    std::string s;
    u64 k = i, p = 1;
    int l = 0;
    while (k >= p) k -= p, p *= xs.size(), ++l;
    for (int j = 0; j < l; ++j) s += xs[k % xs.size()], k /= xs.size();
    for (int r : radices) parse_one<T>(s, r);
  });
}

std::string render(W v, int radix, bool upper) {
  if (v == 0) return "0";
  bool neg = v < 0;
  if (neg) v = -v;
  std::string s;
  while (v) {
    int d = int(v % radix);
    s.insert(s.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10));
    v /= radix;
  }
  return neg ? "-" + s : s;
}
// Numbers around every power of the radix and the limits of the type.
template <typename T>
void parse_limits(Ctx& c) {
  int radix = 2 + c.pick(35);
  std::vector<W> at{0, lo<T>, hi<T>, hi<T> / 2, lo<T> * 2, hi<T> * 2, hi<T> * radix, lo<T> * radix};
  for (W p = 1; p <= hi<T> * radix && p < (W(1) << 66); p *= radix) at.push_back(p), at.push_back(-p);
  for (W w : at)
    for (W d = -2; d <= 2; ++d)
      for (bool upper : {false, true})
        for (int zeros : {0, 1, 3}) {
          auto s = render(w + d, radix, upper);
          bool neg = s[0] == '-';
          if (neg) s.erase(0, 1);
          s = std::string(size_t(zeros), '0') + s;
          for (const char* sign : {"", "-", "+"}) {
            if (neg && !*sign) continue;
            parse_one<T>(sign + s, radix);
            if (radix == 16) parse_one<T>(std::string(sign) + "0x" + s, 10);
            if (radix == 2) parse_one<T>(std::string(sign) + "0b" + s, 10);
            if (radix == 8) parse_one<T>(std::string(sign) + "0o" + s, 10), parse_one<T>(std::string(sign) + "0" + s, 10);
            c.step();
          }
          c.state(Ctx::mix(std::hash<std::string>()(s), u64(radix)));
        }
}
// Every value of a 16-bit type and beyond.
template <typename T>
void parse_all(Ctx& c) {
  c.bulk(200000, 8192, [&](u64 i) {
    W v = W(i) - 100000;
    for (int r : {2, 3, 8, 10, 16, 36}) parse_one<T>(render(v, r, i & 1), r);
  });
}

void radix_limit(Ctx& c) {
  for (uint32_t r : {37u, 38u, 255u, 256u, 0xffffffffu}) {
    c.step();
    CHECK(mc::crashes([&] { (void)best::atoi<int>("1", r); }), "radix %u did not crash", r);
    CHECK(mc::crashes([&] { (void)best::atoi_with_sign<int>("1", false, r); }), "radix %u did not crash", r);
    mc::take_output();
  }
}
}  // namespace

#define A(x, y) SCENARIO_T(arith_##x##_##y, "all pairs of 8-bit values, pairs of edge values of wider types: " #x " with " #y ", every operator", 0, arith<x, y>)
#define STRICT(x) SCENARIO_T(strict_##x, "strict() and division by zero, " #x, 0, strict<x>)
#define BITS(x) SCENARIO_T(bits_##x, "every 8/16-bit value, edge values of wider types, every shift and rotation 0..139: " #x, 0, bits<x>); SCENARIO_T(limits_##x, "limits of " #x, 0, limits<x>)
#define CMP(x, y) SCENARIO_T(cmp_##x##_##y, "all pairs of 8-bit values, pairs of edge values of wider types: " #x " with " #y, 0, cmp<x, y>)
#if MATH_PART == 1
A(u8, u8); A(u8, s8); A(s8, u8); A(s8, s8);
A(u16, u16); A(s16, s16); A(u16, s8); A(s8, u16); A(s16, s8);
STRICT(u8); STRICT(s8); STRICT(s32);
#elif MATH_PART == 2
A(u32, u32); A(s32, s32); A(u32, s32); A(s32, u32); A(s32, s8); A(u8, s32); A(s16, u32); A(char, s32);
#elif MATH_PART == 3
A(u64, u64); A(s64, s64); A(u64, s64); A(s64, u32); A(s32, s64); A(u64, s8); A(s64, u64);
#elif MATH_PART == 4
BITS(u8); BITS(s8); BITS(u16); BITS(s16); BITS(u32); BITS(s32); BITS(u64); BITS(s64);
#elif MATH_PART == 5
CMP(u8, u8); CMP(u8, s8); CMP(s8, u8); CMP(s8, s8); CMP(u16, s8); CMP(s8, u16); CMP(u16, s16); CMP(s16, u16); CMP(u32, s32); CMP(s32, u32);
CMP(u32, s8); CMP(s8, u32); CMP(s64, u64); CMP(u64, s64); CMP(s64, s32); CMP(s32, s64); CMP(u64, u8); CMP(u8, u64); CMP(s64, u32); CMP(u32, s64); CMP(s16, s64); CMP(u64, u64); CMP(s64, s64);
#elif MATH_PART == 6
#define TXT "every string of up to 4 (thorough 5) of 15 characters in six radices, two encodings, with and without sign and prefix: "
#define PARSE(x) SCENARIO_T(parse_##x, TXT #x, 0, [](Ctx& c) { parse_strings<x>(c, "0127" "9aAfzZ" "x-+b ", c.thorough() ? 5 : 4, {2, 8, 10, 16, 11, 36}); })
PARSE(s8); PARSE(u8);
SCENARIO_T(more_s16, "every string of up to 5 (thorough 6) of {0,1,3,8,-,+,x}", 0, [](Ctx& c) { parse_strings<s16>(c, "0138-+x", c.thorough() ? 6 : 5, {2, 8, 10, 16, 36}); });
SCENARIO_T(more_u32, "every string of up to 5 (thorough 6) of {0,1,3,8,-,+,x}", 0, [](Ctx& c) { parse_strings<u32>(c, "0138-+x", c.thorough() ? 6 : 5, {2, 8, 10, 16, 36}); });
SCENARIO_T(more_u64, "every string of up to 5 (thorough 6) of {0,1,3,8,-,+,x}", 0, [](Ctx& c) { parse_strings<u64>(c, "0138-+x", c.thorough() ? 6 : 5, {2, 8, 10, 16, 36}); });
SCENARIO_T(odd_u8, "every string of up to 3 of odd bytes", 0, [](Ctx& c) { parse_strings<u8>(c, std::string("1/:@[`{\x80\xc3\xa9\0", 11), 3, {10, 16, 36}); });
#elif MATH_PART == 7
#define LIM(x) SCENARIO_T(limits_##x, "in every radix 2..36, numbers within 2 of every power of the radix and of the type's limits, with leading zeros, signs, prefixes: " #x, 0, parse_limits<x>)
LIM(s8); LIM(u8); LIM(s16); LIM(u16); LIM(s32); LIM(u32); LIM(s64); LIM(u64);
SCENARIO_T(all_s16, "every number -100000..99999 in six radices", 0, parse_all<s16>);
SCENARIO_T(all_u16, "every number -100000..99999 in six radices", 0, parse_all<u16>);
SCENARIO(radix, "radices beyond 36", 0) { radix_limit(c); }
#endif
