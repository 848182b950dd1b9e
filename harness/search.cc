// S02: searching, splitting and affix tests on spans against a naive search.
#include <functional>
#include <string>
#include <vector>

#include "best/memory/span.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
using Opt = std::ptrdiff_t;  // -1: none

struct Pair {  // plain struct with padding and user-defined equality
  char a;
  int b;
  Pair(int x = 0) : a(char(x)), b(x / 2) {}
  bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
struct Fold {  // equality that ignores part of the representation
  unsigned char v, junk;
  Fold(int x = 0) : v((unsigned char)(x)), junk((unsigned char)(ctr++)) {}
  static inline int ctr = 0;
  bool operator==(const Fold& o) const { return v == o.v; }
};
enum class En : uint16_t {};

template <typename T>
struct Seq {  // exactly sized buffer of elements
  size_t n = 0;
  T* p = nullptr;
  Seq() = default;
  Seq(const Seq&) = delete;
  void set(const std::vector<long long>& v) {
    mc::Internal in;
    clear();
    n = v.size();
    p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
    for (size_t i = 0; i < n; ++i) {
      if constexpr (std::is_class_v<T>) new (p + i) T(int(v[i]));
      else p[i] = T(v[i]);
    }
  }
  void clear() {
    if (!p) return;
    for (size_t i = 0; i < n; ++i) p[i].~T();
    ::operator delete(p, std::align_val_t(alignof(T)));
    p = nullptr;
  }
  ~Seq() {
    mc::Internal in;
    clear();
  }
  best::span<T> mut() { return best::span<T>(p, n); }
  best::span<const T> span() const { return best::span<const T>(best::ptr<const T>(p), n); }
};

using V = std::vector<long long>;
bool match(const V& h, size_t at, const V& n) {
  for (size_t i = 0; i < n.size(); ++i)
    if (h[at + i] != n[i]) return false;
  return true;
}
Opt nfind(const V& h, size_t lo, size_t hi, const V& n) {
  if (n.empty()) return Opt(lo);
  for (size_t i = lo; i + n.size() <= hi; ++i)
    if (match(h, i, n)) return Opt(i);
  return -1;
}
Opt nrfind(const V& h, size_t lo, size_t hi, const V& n) {
  if (n.empty()) return Opt(lo);  // pinned by the existing tests
  for (size_t i = hi; i-- > lo;)
    if (i + n.size() <= hi && match(h, i, n)) return Opt(i);
  return -1;
}
std::string show(const V& v) {
  std::string s = "[";
  for (auto x : v) s += mc::str("%llx ", x);
  return s + "]";
}

struct Case {
  const V& h;
  const V& n;
  std::string str() const { return show(h) + " / " + show(n); }
};
#define AT k.str().c_str()

template <typename O>
void same(const Case& k, const char* what, const O& got, Opt want) {
  CHECK(got.has_value() == (want >= 0) && (want < 0 || *got == size_t(want)), "%s of %s: got %lld, expected %lld", what, AT,
        got ? (long long)*got : -1ll, (long long)want);
}
template <typename O, typename T>
void parts(const Case& k, const char* what, const O& got, T* base, size_t lo, size_t hi, Opt at, size_t n) {
  CHECK(got.has_value() == (at >= 0), "%s of %s", what, AT);
  if (at < 0) return;
  auto a = got->first();
  auto b = got->second();
  CHECK(a.data().raw() == base + lo && a.size() == size_t(at) - lo, "%s of %s: wrong first part", what, AT);
  CHECK(b.data().raw() == base + at + n && b.size() == hi - size_t(at) - n, "%s of %s: wrong second part", what, AT);
}

// Drives a double-ended split iterator with a pattern of front/back requests.
template <typename It, typename T>
void splits(const Case& k, const char* what, It it, T* base, size_t n, const V& h, const V& pat, unsigned dir) {
  size_t lo = 0, hi = n;
  bool done = false;
  unsigned d = dir;
  for (size_t guard = 0; guard < n + 3; ++guard) {
    auto hint = it.size_hint();
    size_t lower = done ? 0 : 1, upper = done ? 0 : hi - lo + 1;
    bool back = d & 1;
    d = (d >> 1) | ((d & 1) << 3);
    auto x = back ? it.next_back() : it.next();
    CHECK(x.has_value() == !done, "%s of %s (dir %x): %s", what, AT, dir, done ? "yields after its end" : "ends early");
    if (done) {
      CHECK(hint.lower == 0 && hint.upper == 0, "%s of %s: size hint at the end", what, AT);
      CHECK(it.next().is_empty() && it.next_back().is_empty());
      return;
    }
    CHECK(hint.lower <= lower && hint.upper && *hint.upper >= lower, "%s: hint", what);
    (void)upper;
    Opt at = back ? nrfind(h, lo, hi, pat) : nfind(h, lo, hi, pat);
    size_t s, e;
    if (at < 0) s = lo, e = hi, done = true;
    else if (back) s = size_t(at) + pat.size(), e = hi, hi = size_t(at);
    else s = lo, e = size_t(at), lo = size_t(at) + pat.size();
    CHECK(x->size() == e - s && (e == s || x->data().raw() == base + s), "%s of %s (dir %x): part [%zu, %zu) expected, got size %zu",
          what, AT, dir, s, e, x->size());
  }
  CHECK(false, "%s of %s does not end", what, AT);
}

template <typename T>
void check(Ctx& c, const V& h, const V& n, Seq<T>& hs, Seq<T>& ns) {
  Case k{h, n};
  c.step();
  const auto H = hs.span();
  const auto N = ns.span();
  size_t hn = h.size(), m = n.size();
  Opt f = nfind(h, 0, hn, n), r = nrfind(h, 0, hn, n);
  same(k, "find", H.find(N), f);
  same(k, "rfind", H.rfind(N), r);
  same(k, "mutable find", hs.mut().find(N), f);
  CHECK(H.contains(N) == (f >= 0), "contains %s", AT);
  parts(k, "split_once", H.split_once(N), H.data().raw(), 0, hn, f, m);
  parts(k, "rsplit_once", H.rsplit_once(N), H.data().raw(), 0, hn, r, m);
  bool sw = m <= hn && match(h, 0, n), ew = m <= hn && match(h, hn - m, n);
  CHECK(H.starts_with(N) == sw, "starts_with %s", AT);
  CHECK(H.ends_with(N) == ew, "ends_with %s", AT);
  auto sp = H.strip_prefix(N);
  auto ss = H.strip_suffix(N);
  CHECK(sp.has_value() == sw && ss.has_value() == ew, "strip %s", AT);
  if (sw) CHECK(sp->size() == hn - m && sp->data().raw() == H.data().raw() + m, "strip_prefix %s", AT);
  if (ew) CHECK(ss->size() == hn - m && ss->data().raw() == H.data().raw(), "strip_suffix %s", AT);
  auto cp = H, cs = H;
  CHECK(cp.consume_prefix(N) == sw && cs.consume_suffix(N) == ew, "consume %s", AT);
  CHECK(cp.size() == (sw ? hn - m : hn) && cp.data().raw() == H.data().raw() + (sw ? m : 0), "consume_prefix %s", AT);
  CHECK(cs.size() == (ew ? hn - m : hn) && cs.data().raw() == H.data().raw(), "consume_suffix %s", AT);
  if (m > 0)
    for (unsigned d : {0u, 15u, 5u, 9u}) splits(k, "split by range", H.split(N), H.data().raw(), hn, h, n, d);
  if (m == 1) {
    const T& x = ns.p[0];
    same(k, "find(value)", H.find(x), f);
    same(k, "rfind(value)", H.rfind(x), r);
    CHECK(H.contains(x) == (f >= 0), "contains(value) %s", AT);
    parts(k, "split_once(value)", H.split_once(x), H.data().raw(), 0, hn, f, 1);
    parts(k, "rsplit_once(value)", H.rsplit_once(x), H.data().raw(), 0, hn, r, 1);
    auto pred = [&](const T& y) { return y == x; };
    same(k, "find(pred)", H.find(pred), f);
    same(k, "rfind(pred)", H.rfind(pred), r);
    CHECK(H.contains(pred) == (f >= 0));
    parts(k, "split_once(pred)", H.split_once(pred), H.data().raw(), 0, hn, f, 1);
    parts(k, "rsplit_once(pred)", H.rsplit_once(pred), H.data().raw(), 0, hn, r, 1);
    for (unsigned d = 0; d < 16; ++d) {
      splits(k, "split by value", H.split(x), H.data().raw(), hn, h, n, d);
      splits(k, "split by predicate", H.split(pred), H.data().raw(), hn, h, n, d);
    }
  }
}

// All haystacks up to `hmax` and needles up to `nmax` over `alpha`.
void decode(u_int64_t i, const V& alpha, V& out) {
  // i enumerates strings by length, then lexicographically.
  size_t a = alpha.size(), len = 0;
  u_int64_t block = 1;
  while (i >= block) i -= block, block *= a, ++len;
  out.assign(len, 0);
  for (size_t j = len; j-- > 0;) out[j] = alpha[i % a], i /= a;
}
u_int64_t total(size_t a, size_t maxlen) {
  u_int64_t t = 0, b = 1;
  for (size_t l = 0; l <= maxlen; ++l) t += b, b *= a;
  return t;
}

template <typename T>
void run(Ctx& c, const V& alpha, size_t hmax, size_t nmax) {
  el::reset();
  u_int64_t hn = total(alpha.size(), hmax), nn = total(alpha.size(), nmax);
  c.bulk(hn, 16, [&](u_int64_t i) {
    V h, n;
    Seq<T> hs, ns;
    {
      mc::Internal in;
      decode(i, alpha, h);
    }
    hs.set(h);
    for (u_int64_t j = 0; j < nn; ++j) {
      mc::Internal in;
      decode(j, alpha, n);
      ns.set(n);
      c.state(Ctx::mix(Ctx::mix(i, j), alpha.size() + sizeof(T) * 7));
      c.note("%s", Case{h, n}.str().c_str());
      check<T>(c, h, n, hs, ns);
    }
  });
}
template <typename T>
void both(Ctx& c, const V& alpha) {
  bool th = c.thorough();
  if (alpha.size() == 2) run<T>(c, alpha, th ? 11 : 8, th ? 5 : 4);
  else run<T>(c, alpha, th ? 7 : 5, 3);
}
#define S(name, T, ...) \
  SCENARIO(name, "every haystack up to 8 (2 symbols; thorough 11) or 5 (3+ symbols; thorough 7) and needle up to 4/3 (thorough 5/3) of " #T " over {" #__VA_ARGS__ "}", 0) { both<T>(c, {__VA_ARGS__}); }
S(char2, char, 'a', 'b')
S(char3, char, 'a', '\x80', 0)
S(u8, unsigned char, 0, 1, 255)
S(i8, signed char, -1, 0, 1)
S(boolean, bool, 0, 1)
S(u16_mis, uint16_t, 0x0101, 0x0102, 0x0201)
S(u16_mis2, uint16_t, 0x0100, 0x0001)
S(c16, char16_t, 0x4141, 0x4241, 0x4142)
S(i16, int16_t, -1, 0x00ff, -256)
S(u32_mis, uint32_t, 0x01010101, 0x01010102, 0x02010101)
S(u32_mis2, uint32_t, 0x01000100, 0x00010001, 0x01000101)
S(c32, char32_t, 0x61, 0x6100, 0x610000)
S(i64, long long, 0x0101010101010101, 0x0101010101010102, 0x0201010101010101)
S(en, En, 0x0101, 0x0201)
S(trk, el::Trk, 1, 2)
S(trk3, el::Trk, 1, 2, 3)
S(pair, Pair, 1, 2, 258)
S(fold, Fold, 1, 2)
S(dbl, double, 0, 1, 2)

// 0.0 == -0.0, NaN != NaN: equality, not representation, decides.
SCENARIO(dbl_zero, "every haystack up to 6 and needle up to 2 over {0.0, -0.0, NaN, 1.0}", 0) {
  const double al[] = {0.0, -0.0, __builtin_nan(""), 1.0};
  double h[6], n[2];
  int hl = c.pick(7), nl = c.pick(3);
  if (hl > 4 && !c.thorough()) hl = 4;
  for (int i = 0; i < hl; ++i) h[i] = c.pick_of(al);
  for (int i = 0; i < nl; ++i) n[i] = c.pick_of(al);
  c.step();
  Opt f = nl == 0 ? 0 : -1;
  for (int i = 0; f < 0 && i + nl <= hl; ++i) {
    bool m = true;
    for (int j = 0; j < nl; ++j) m = m && h[i + j] == n[j];
    if (m) f = i;
  }
  best::span<const double> H(h, size_t(hl)), N(n, size_t(nl));
  auto got = H.find(N);
  CHECK(got.has_value() == (f >= 0) && (f < 0 || *got == size_t(f)), "find of doubles");
  bool eq = hl == nl;
  for (int j = 0; eq && j < nl; ++j) eq = h[j] == n[j];
  CHECK((H == N) == eq, "equality of doubles");
}

// Different element types on the two sides.
SCENARIO(mixed, "haystacks of int/unsigned/long up to 5 with needles of another type over {-1, 0, 1, 255, 65536}", 0) {
  const V al{-1, 0, 1, 255, 65536};
  c.bulk(total(5, c.thorough() ? 5 : 4), 64, [&](u_int64_t i) {
    mc::Internal in;
    V h, n;
    decode(i, al, h);
    Seq<int> hi;
    Seq<long long> hl;
    Seq<short> hs;
    hi.set(h), hl.set(h);
    for (u_int64_t j = 0; j < total(5, 2); ++j) {
      decode(j, al, n);
      Case k{h, n};
      c.step();
      Seq<int> ni;
      Seq<long long> nl;
      Seq<unsigned char> nc;
      ni.set(n), nl.set(n);
      same(k, "int find long", hi.span().find(nl.span()), nfind(h, 0, h.size(), n));
      same(k, "long find int", hl.span().find(ni.span()), nfind(h, 0, h.size(), n));
      same(k, "int rfind long", hi.span().rfind(nl.span()), nrfind(h, 0, h.size(), n));
      CHECK((hi.span() == nl.span()) == (h == n), "int == long %s", AT);
      CHECK(hi.span().starts_with(nl.span()) == (n.size() <= h.size() && match(h, 0, n)), "mixed starts_with %s", AT);
      CHECK(hi.span().ends_with(nl.span()) == (n.size() <= h.size() && match(h, h.size() - n.size(), n)), "mixed ends_with %s", AT);
      V nb;
      for (auto x : n) nb.push_back((unsigned char)x);
      nc.set(nb);
      Case k2{h, nb};
      CHECK(hi.span().find(nc.span()).has_value() == (nfind(h, 0, h.size(), nb) >= 0), "int find uchar %s", k2.str().c_str());
      CHECK((hi.span() == nc.span()) == (h == nb), "int == uchar %s", k2.str().c_str());
    }
  });
}
}  // namespace
