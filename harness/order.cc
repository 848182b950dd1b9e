// S03: spans compare element by element, in lexicographic order.
#include <compare>
#include <limits>
#include <vector>

#include "best/memory/span.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;

struct Desc {  // ordered by its second byte first, descending
  unsigned char a, b;
  Desc(int x = 0) : a((unsigned char)x), b((unsigned char)(x >> 8)) {}
  bool operator==(const Desc& o) const { return a == o.a && b == o.b; }
  std::strong_ordering operator<=>(const Desc& o) const {
    if (b != o.b) return o.b <=> b;
    return o.a <=> a;
  }
};
struct Auto {  // defaulted comparisons
  short x;
  unsigned char y;
  Auto(int v = 0) : x(short(v)), y((unsigned char)(v >> 4)) {}
  bool operator==(const Auto&) const = default;
  auto operator<=>(const Auto&) const = default;
};
enum class En : int16_t {};

template <typename T>
int cmp(const T& a, const T& b) {  // -1, 0, 1; 2 if unordered
  if constexpr (std::is_same_v<T, char>) {
    // Spans of chars are byte strings, and are compared as such.
    return int((unsigned char)a) - int((unsigned char)b) < 0 ? -1 : a != b;
  } else {
    auto o = a <=> b;
    return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
  }
}
template <typename O>
int sign(O o) {
  return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
}

template <typename T>
struct Buf {
  size_t n;
  T* p;
  Buf(const std::vector<T>& v) : n(v.size()) {
    p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
    for (size_t i = 0; i < n; ++i) new (p + i) T(v[i]);
  }
  ~Buf() {
    for (size_t i = 0; i < n; ++i) p[i].~T();
    ::operator delete(p, std::align_val_t(alignof(T)));
  }
};

template <typename T>
void run(Ctx& c, std::vector<T> alpha, size_t max) {
  mc::Internal in;
  size_t a = alpha.size();
  std::vector<std::vector<T>> all{{}};
  for (size_t i = 0; i < all.size() && all[i].size() < max; ++i)
    for (size_t j = 0; j < a; ++j) {
      auto s = all[i];
      s.push_back(alpha[j]);
      all.push_back(s);
    }
  c.bulk(all.size(), 4, [&](u_int64_t i) {
    Buf<T> x(all[i]);
    for (size_t j = 0; j < all.size(); ++j) {
      Buf<T> y(all[j]);
      c.step();
      c.state(Ctx::mix(i, j));
      int want = 0;
      bool eq = x.n == y.n;
      for (size_t k = 0; k < x.n && k < y.n; ++k) {
        eq = eq && x.p[k] == y.p[k];
        if (want == 0) want = cmp(x.p[k], y.p[k]);
      }
      if (want == 0) want = x.n < y.n ? -1 : x.n > y.n;
      best::span<T> s(x.p, x.n), t(y.p, y.n);
      best::span<const T> cs = s, ct = t;
      auto why = [&] { return mc::str("sequences %llu and %zu", (unsigned long long)i, j); };
      CHECK((s == t) == eq && (cs == ct) == eq && (s == ct) == eq, "%s: equality, expected %d", why().c_str(), eq);
      CHECK((s != t) == !eq);
      CHECK(sign(s <=> t) == want && sign(cs <=> ct) == want && sign(s <=> ct) == want, "%s: compares %d, expected %d", why().c_str(),
            sign(s <=> t), want);
      CHECK((s < t) == (want == -1) && (s > t) == (want == 1) && (s <= t) == (want == -1 || want == 0));
      if (i == j) {  // the same storage
        bool self = true;
        for (size_t k = 0; k < x.n; ++k) self = self && x.p[k] == x.p[k];
        CHECK((s == s) == self);
      }
      if (x.n == 2 && y.n == 2) {
        best::span<T, 2> f(x.p, 2), g(y.p, 2);
        CHECK((f == g) == eq && (f == t) == eq && sign(f <=> g) == want && sign(f <=> t) == want, "static spans");
      }
      if constexpr (!std::is_same_v<T, bool>) {
        CHECK((s == all[j]) == eq, "%s: equality with a range", why().c_str());
        CHECK(sign(s <=> all[j]) == want);
      }
    }
  });
}
#define S(name, T, ...) \
  SCENARIO(name, "all pairs of " #T " sequences of up to 3 (thorough 4) over {" #__VA_ARGS__ "}", 0) { run<T>(c, {__VA_ARGS__}, c.thorough() ? 4 : 3); }
S(chr, char, 0, 'a', char(0x80), char(0xff))
S(u8, unsigned char, 0, 1, 127, 128, 255)
S(i8, signed char, -128, -1, 0, 1, 127)
S(u16, uint16_t, 0, 1, 255, 256, 0x0201, 0xffff)
S(i16, int16_t, -32768, -256, -1, 0, 1, 256)
S(u32, uint32_t, 0, 1, 256, 0x01000000, 0xffffffff)
S(i32, int, -2147483647 - 1, -256, -1, 0, 1, 256)
S(i64, long long, -1, 0, 1, 256, 1ll << 40, 1ll << 62)
S(c16, char16_t, 0, 0x61, 0x100, 0xd800, 0xffff)
S(c32, char32_t, 0, 0x61, 0x100, 0x10ffff)
S(boolean, bool, false, true)
S(dbl, double, 0.0, -0.0, 1.0, -1.0, __builtin_nan(""))
S(desc, Desc, 0, 1, 256, 257, 512)
S(autos, Auto, -1, 0, 1, 16, 256)
S(trk, el::Trk, el::Trk(1), el::Trk(2), el::Trk(3))
static int objs[4];
S(ptr, int*, &objs[0], &objs[1], &objs[3])

SCENARIO(enums, "all pairs of enum sequences of up to 3: equality", 0) {
  const En al[] = {En(-1), En(0), En(256)};
  En x[3], y[3];
  int n = c.pick(4), m = c.pick(4);
  for (int i = 0; i < n; ++i) x[i] = c.pick_of(al);
  for (int i = 0; i < m; ++i) y[i] = c.pick_of(al);
  c.step();
  bool eq = n == m && std::equal(x, x + n, y);
  int want = 0;
  for (int k = 0; k < n && k < m && !want; ++k) want = x[k] < y[k] ? -1 : x[k] > y[k];
  if (!want) want = n < m ? -1 : n > m;
  best::span<const En> s(x, size_t(n)), t(y, size_t(m));
  CHECK((s == t) == eq);
  CHECK(sign(s <=> t) == want, "enum order");
}
}  // namespace
