// S04: block operations on elements: copy/move/relocate ranges through
// pointers and spans, swap, reverse; values and lifetimes.
#include <new>
#include <vector>

#include "best/memory/ptr.h"
#include "best/memory/span.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
constexpr int Raw = -1000;  // model: no object here
constexpr int Any = -2000;  // model: moved-from object (value unspecified)

template <typename T>
struct Arena {
  static constexpr size_t N = 6;
  alignas(T) unsigned char bytes[N * sizeof(T)];
  int m[N];
  T* at(size_t i) { return reinterpret_cast<T*>(bytes) + i; }
  Arena() {
    memset(bytes, 0x77, sizeof bytes);
    for (auto& x : m) x = Raw;
  }
  void live(size_t i) {
    new (at(i)) T(el::make<T>(int(i + 1)));
    m[i] = int(i + 1);
  }
  void check(const char* what) {
    int want = 0;
    for (size_t i = 0; i < N; ++i) {
      if (m[i] == Raw) continue;
      ++want;
      int got = el::val(*at(i));
      if (m[i] != Any) CHECK(got == m[i], "%s: element %zu is %d, expected %d", what, i, got, m[i]);
    }
    if constexpr (el::tracked<T>) CHECK(el::g_live == want, "%s: %d live elements, expected %d", what, el::g_live, want);
  }
  ~Arena() {
    for (size_t i = 0; i < N; ++i)
      if (m[i] != Raw) at(i)->~T();
  }
};

template <typename T>
constexpr bool is_trivial = std::is_trivially_copyable_v<T>;

template <typename T>
void block_body(Ctx& c) {
  el::reset();
  Arena<T> a;
  constexpr size_t N = Arena<T>::N;
  size_t dst = size_t(c.pick(int(N) + 1)), src = size_t(c.pick(int(N) + 1)), n = size_t(c.pick(int(N) + 1));
  if (dst + n > N || src + n > N) throw mc::Skip{};
  bool overlap = n && dst < src + n && src < dst + n;
  enum { Copy, Move, Relo, CopyA, MoveA, ReloA, CopyO, MoveO, ReloO, CopyAO, MoveAO, Shift, Ops };
  static const char* names[] = {"copy", "move", "relo", "copy_assign", "move_assign", "relo_assign", "copy_overlapping",
                                "move_overlapping", "relo_overlapping", "copy_assign_overlapping", "move_assign_overlapping", "shift_within"};
  int op = c.pick(Ops);
  bool ok_overlap = op >= CopyO;
  if (overlap && !ok_overlap) throw mc::Skip{};
  bool assign = op == CopyA || op == MoveA || op == ReloA || op == CopyAO || op == MoveAO;
  bool copy = op == Copy || op == CopyA || op == CopyO || op == CopyAO;
  bool relo = op == Relo || op == ReloA || op == ReloO || op == Shift;
  // Constructing over live non-trivial objects is the caller's leak.
  if (overlap && (op == CopyO || op == MoveO) && !is_trivial<T>) throw mc::Skip{};
  for (size_t i = 0; i < N; ++i) {
    bool in_src = i >= src && i < src + n, in_dst = i >= dst && i < dst + n;
    if (in_src || (in_dst && assign) || !in_dst) a.live(i);
  }
  c.note("%s of %zu from %zu to %zu", names[op], n, src, dst);
  c.step();
  c.state(Ctx::mix(Ctx::mix(dst, src), Ctx::mix(n, u_int64_t(op))));
  best::ptr<T> d = a.at(0) + dst, s = a.at(0) + src;
  best::ptr<const T> cs = s;
  bool pc = c.flip();  // copy through a pointer to const
  if (pc && !copy) throw mc::Skip{};
  a.check("before");
  switch (op) {
    case Copy: pc ? d.copy(cs, n) : d.copy(s, n); break;
    case Move: d.move(s, n); break;
    case Relo: d.relo(s, n); break;
    case CopyA: pc ? d.copy_assign(cs, n) : d.copy_assign(s, n); break;
    case MoveA: d.move_assign(s, n); break;
    case ReloA: d.relo_assign(s, n); break;
    case CopyO: pc ? d.copy_overlapping(cs, n) : d.copy_overlapping(s, n); break;
    case MoveO: d.move_overlapping(s, n); break;
    case ReloO: d.relo_overlapping(s, n); break;
    case CopyAO: pc ? d.copy_assign_overlapping(cs, n) : d.copy_assign_overlapping(s, n); break;
    case MoveAO: d.move_assign_overlapping(s, n); break;
    case Shift: best::span<T>(a.at(0), N).shift_within(best::unsafe("test"), dst, src, n); break;
  }
  int old[N];
  memcpy(old, a.m, sizeof old);
  for (size_t i = src; i < src + n; ++i) {
    if (dst == src) break;
    if (relo) a.m[i] = Raw;
    else if (!copy) a.m[i] = is_trivial<T> ? old[i] : Any;
  }
  for (size_t i = 0; i < n; ++i) a.m[dst + i] = old[src + i];
  // A trivially relocated source is gone, a moved trivial one unspecified.
  a.check(names[op]);
}
SCENARIO_T(block_int, "12 block operations x every destination, source and count within 6 ints", mc::LeakCheck, block_body<int>);
SCENARIO_T(block_u8, "same, bytes", mc::LeakCheck, block_body<unsigned char>);
SCENARIO_T(block_trk, "same, address-sensitive elements", mc::LeakCheck, block_body<el::Trk>);
SCENARIO_T(block_sml, "same, two-byte non-relocatable elements", mc::LeakCheck, block_body<el::Sml>);
SCENARIO_T(block_rel, "same, relocatable elements that own an identity", mc::LeakCheck, block_body<el::Rel>);
SCENARIO_T(block_ovr, "same, over-aligned elements", mc::LeakCheck, block_body<el::Ovr>);

// Spans: copy_from / emplace_from take the overlap of the two lengths.
template <typename T>
void from_body(Ctx& c) {
  el::reset();
  Arena<T> a;
  Arena<T> b;
  constexpr size_t N = Arena<T>::N;
  size_t x = size_t(c.pick(int(N) + 1)), y = size_t(c.pick(int(N) + 1));
  bool emplace = c.flip(), cn = c.flip();
  size_t n = x < y ? x : y;
  for (size_t i = 0; i < x; ++i) if (!emplace || i >= n) a.live(i);
  for (size_t i = 0; i < y; ++i) { b.live(i); *b.at(i) = el::make<T>(int(i + 50)); b.m[i] = int(i + 50); }
  c.note("%s %zu <- %zu", emplace ? "emplace_from" : "copy_from", x, y);
  c.step();
  best::span<T> d(a.at(0), x);
  best::span<T> s(b.at(0), y);
  best::span<const T> k = s;
  if (emplace) cn ? d.emplace_from(k) : d.emplace_from(s);
  else cn ? d.copy_from(k) : d.copy_from(s);
  for (size_t i = 0; i < n; ++i) a.m[i] = b.m[i];
  // one arena's check counts all live elements, so combine
  int want = 0;
  for (size_t i = 0; i < N; ++i) {
    if (a.m[i] != Raw) { ++want; CHECK(el::val(*a.at(i)) == a.m[i], "destination %zu is %d, expected %d", i, el::val(*a.at(i)), a.m[i]); }
    if (b.m[i] != Raw) { ++want; CHECK(el::val(*b.at(i)) == b.m[i], "source %zu changed", i); }
  }
  if constexpr (el::tracked<T>) CHECK(el::g_live == want, "%d live, expected %d", el::g_live, want);
}
SCENARIO_T(from_int, "copy_from/emplace_from between spans of every length 0..6, ints", mc::LeakCheck, from_body<int>);
SCENARIO_T(from_trk, "same, address-sensitive elements", mc::LeakCheck, from_body<el::Trk>);
SCENARIO_T(from_rel, "same, relocatable elements", mc::LeakCheck, from_body<el::Rel>);

template <typename T>
void perm_body(Ctx& c) {
  el::reset();
  Arena<T> a;
  size_t n = size_t(c.pick(7));
  for (size_t i = 0; i < n; ++i) a.live(i);
  best::span<T> s(a.at(0), n);
  int steps = c.thorough() ? 3 : 2;
  for (int k = 0; k < steps; ++k) {
    c.step();
    int op = c.pick(3);
    if (op == 0) {
      size_t i = size_t(c.pick(int(n) + 2)), j = size_t(c.pick(int(n) + 2));
      c.note("swap(%zu, %zu)", i, j);
      if (i >= n || j >= n) {
        CHECK(mc::crashes([&] { s.swap(i, j); }), "swap out of range did not crash");
      } else {
        s.swap(i, j);
        std::swap(a.m[i], a.m[j]);
      }
    } else if (op == 1) {
      c.note("reverse");
      s.reverse();
      for (size_t i = 0; i < n / 2; ++i) std::swap(a.m[i], a.m[n - 1 - i]);
    } else {
      size_t lo = size_t(c.pick(int(n) + 1)), hi = size_t(c.pick(int(n) + 1));
      if (lo > hi) throw mc::Skip{};
      c.note("reverse [%zu, %zu)", lo, hi);
      s[{.start = lo, .end = hi}].reverse();
      for (size_t i = lo, j = hi; i + 1 < j; ++i) std::swap(a.m[i], a.m[--j]);
    }
    a.check("permuted");
    u_int64_t h = n;
    for (size_t i = 0; i < n; ++i) h = Ctx::mix(h, u_int64_t(a.m[i]));
    c.state(h);
  }
}
SCENARIO_T(perm_int, "every sequence of 2 (thorough 3) swaps and (sub-)reversals of 0..6 ints", mc::LeakCheck, perm_body<int>);
SCENARIO_T(perm_trk, "same, address-sensitive elements", mc::LeakCheck, perm_body<el::Trk>);

template <typename T>
void destroy_body(Ctx& c) {
  el::reset();
  Arena<T> a;
  constexpr size_t N = Arena<T>::N;
  size_t lo = size_t(c.pick(int(N) + 1)), n = size_t(c.pick(int(N) + 1));
  if (lo + n > N) throw mc::Skip{};
  for (size_t i = 0; i < N; ++i) a.live(i);
  c.note("destroy %zu at %zu", n, lo);
  c.step();
  best::span<T>(a.at(0) + lo, n).destroy();
  for (size_t i = lo; i < lo + n; ++i) a.m[i] = Raw;
  a.check("destroy");
}
SCENARIO_T(destroy_trk, "destroying every subspan of 6 elements", mc::LeakCheck, destroy_body<el::Trk>);
SCENARIO_T(destroy_rel, "same, relocatable elements", mc::LeakCheck, destroy_body<el::Rel>);

// Pointer arithmetic and comparison agree with those of raw pointers.
template <typename T>
void arith_body(Ctx& c) {
  el::reset();
  T* p;
  alignas(T) static unsigned char mem[8 * sizeof(T)];
  p = reinterpret_cast<T*>(mem);
  int i = c.pick(9), j = c.pick(9);
  c.step();
  c.note("%d, %d", i, j);
  best::ptr<T> a = p + i;
  best::ptr<const T> b = p + j;
  CHECK((a == b) == (i == j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j));
  CHECK(a == p + i && (a <=> (p + j)) == (i <=> j));
  CHECK(b - a == j - i && a - b == i - j);
  CHECK((a + (j - i)) == b && (b + (i - j)) == a && (a - (i - j)) == b);
  auto x = a;
  x += j - i;
  CHECK(x == b);
  x -= j - i;
  CHECK(x == a);
  CHECK(b.byte_offset_from(a) == (j - i) * ptrdiff_t(sizeof(T)));
  CHECK(a.offset(j - i).raw() == p + j);
  CHECK(a.scaled_offset((j - i) * ptrdiff_t(sizeof(T))).raw() == p + j);
  if (i < 8) {
    auto y = a, z = a;
    CHECK(y++ == a && y == p + i + 1 && ++z == y);
    CHECK(y-- == z && y == a && --z == a);
  }
  CHECK(a != nullptr && !(a == nullptr) && (a <=> nullptr) > 0);
  best::ptr<T> null;
  CHECK(null == nullptr && null < a);
  CHECK(mc::crashes([&] { (void)*null; }), "dereferencing null did not crash");
  CHECK(best::ptr<T>::from_addr(a.to_addr()) == a);
  CHECK(a.to_addr() == reinterpret_cast<uintptr_t>(p + i));
  CHECK(a.layout() == best::layout::of<T>());
}
SCENARIO_T(arith_int, "pointer arithmetic and comparison at every pair of positions of an array of 8 ints", 0, arith_body<int>);
SCENARIO_T(arith_ovr, "same, over-aligned elements", 0, arith_body<el::Ovr>);
SCENARIO_T(arith_u8, "same, bytes", 0, arith_body<unsigned char>);
}  // namespace
