// P01: best::ptr against an array of slots, over all operations and ranges.
#include <array>
#include <string>
#include <vector>

#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/memory/ptr.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
// No assignment.
struct NoAsg : el::Trk {
  using Trk::Trk;
  NoAsg(const NoAsg&) = default;
  NoAsg(NoAsg&&) = default;
  NoAsg& operator=(const NoAsg&) = delete;
};
// Nothing happens on destruction, but it must know where it is.
struct Bare {
  int v;
  const Bare* self;
  explicit Bare(int v) : v(v), self(this) {}
  Bare(const Bare& o) : v(o.get()), self(this) {}
  Bare(Bare&& o) : v(o.get()), self(this) { o.v = el::Moved; }
  Bare& operator=(const Bare& o) {
    v = o.get();
    get();
    return *this;
  }
  Bare& operator=(Bare&& o) {
    get();
    v = o.get();
    if (this != &o) o.v = el::Moved;
    return *this;
  }
  int get() const {
    CHECK(self == this, "use of an object that was moved bytewise");
    return v;
  }
};
// Cannot be copied.
struct Uniq : el::Trk {
  using Trk::Trk;
  Uniq(Uniq&&) = default;
  Uniq& operator=(Uniq&&) = default;
};

int g_targets[256];
template <typename T>
struct Tr {
  using Slot = T;
  static constexpr bool overlaps = std::is_trivially_destructible_v<T>;
  static void make(best::ptr<T> p, int v) { p.construct(v); }
  static int get(best::ptr<T> p) { return el::val(*p); }
  static int moved(int v) { return std::is_same_v<T, int> || std::is_same_v<T, char> ? v : std::is_same_v<T, el::Sml> ? 0xf9 : el::Moved; }
};
template <>
struct Tr<int&> {
  using Slot = int*;
  static constexpr bool overlaps = true;
  static void make(best::ptr<int&> p, int v) { p.construct(g_targets[v]); }
  static int get(best::ptr<int&> p) { return &*p - g_targets; }
  static int moved(int v) { return v; }
};
template <typename T>
struct Tr<T[2]> {
  using Slot = T[2];
  static constexpr bool overlaps = std::is_trivially_destructible_v<T>;
  static void make(best::ptr<T[2]> p, int v) {
    T src[2] = {T(v), T(v + 100)};
    p.construct(src);
  }
  static int get(best::ptr<T[2]> p) {
    int a = el::val((*p)[0]), b = el::val((*p)[1]);
    if (a == el::Moved && b == el::Moved) return el::Moved;
    CHECK(b == a + 100, "the array holds %d and %d", a, b);
    return a;
  }
  static int moved(int v) { return std::is_same_v<T, int> ? v : el::Moved; }
};

constexpr const char* kOps[] = {"construct", "destroy", "assign", "copy", "move", "relo", "copy_assign", "move_assign", "relo_assign",
                                "copy_overlapping", "move_overlapping", "relo_overlapping", "copy_assign_overlapping", "move_assign_overlapping"};

template <typename T, int N>
void transfers(Ctx& c, int depth) {
  el::reset();
  using R = Tr<T>;
  using P = best::ptr<T>;
  constexpr bool copies = std::is_same_v<T, int&> || best::constructible<T, const T&> || std::is_array_v<T>;
  constexpr size_t size = sizeof(typename R::Slot);
  alignas(64) unsigned char mem[size * (N + 2)];
  memset(mem, 0x77, sizeof mem);
  P base((typename P::pointee*)(mem + size));
  bool live[N];
  int val[N] = {};
  unsigned mask = c.pick(1 << N);
  for (int i = 0; i < N; ++i) {
    live[i] = mask >> i & 1;
    if (live[i]) {
      val[i] = 10 + i;
      R::make(base + i, val[i]);
    }
  }
  int fresh = 20;
  for (int d = 0; d < depth; ++d) {
    c.step();
    int op = c.pick(14);
    int to = c.pick(N);
    if (op < 3) {
      if (live[to] != (op != 0)) throw mc::Skip();
      c.note("%s(%d)", kOps[op], to);
      if (op == 1) {
        (base + to).destroy();
        live[to] = false;
      } else {
        val[to] = fresh++;
        if (op == 0) {
          R::make(base + to, val[to]);
        } else if constexpr (std::is_same_v<T, int&>) {
          (base + to).assign(g_targets[val[to]]);
        } else if constexpr (std::is_array_v<T>) {
          T src = {std::remove_reference_t<decltype((*base)[0])>(val[to]), std::remove_reference_t<decltype((*base)[0])>(val[to] + 100)};
          (base + to).assign(src);
        } else {
          (base + to).assign(T(val[to]));
        }
        live[to] = true;
      }
    } else {
      int from = c.pick(N);
      int n = c.pick(N + 1 - std::max(from, to));
      bool overlapping = op >= 9, assign = op == 6 || op == 7 || op == 8 || op >= 12;
      bool copy = op == 3 || op == 6 || op == 9 || op == 12, relo = op == 5 || op == 8 || op == 11;
      if (copy && !copies) throw mc::Skip();
      bool meet = from < to + n && to < from + n;
      if (meet && !overlapping) throw mc::Skip();
      if (from == to && n > 0 && !relo) throw mc::Skip();
      // Constructing over live objects is only sound where they need no destruction.
      if (meet && (op == 9 || op == 10) && !R::overlaps) throw mc::Skip();
      for (int i = 0; i < n; ++i)
        if (!live[from + i]) throw mc::Skip();
      for (int i = to; i < to + n; ++i) {
        bool src = i >= from && i < from + n;
        if (assign ? !live[i] : live[i] && !src) throw mc::Skip();
      }
      c.note("%s(%d <- %d, %d)", kOps[op], to, from, n);
      P dst = base + to, src = base + from;
      int copies0 = el::g_copies;
      if constexpr (copies) {
        switch (op) {
          case 3: dst.copy(src, n); break;
          case 6: dst.copy_assign(src, n); break;
          case 9: dst.copy_overlapping(src, n); break;
          case 12: dst.copy_assign_overlapping(src, n); break;
        }
      }
      switch (op) {
        case 4: dst.move(src, n); break;
        case 5: dst.relo(src, n); break;
        case 7: dst.move_assign(src, n); break;
        case 8: dst.relo_assign(src, n); break;
        case 10: dst.move_overlapping(src, n); break;
        case 11: dst.relo_overlapping(src, n); break;
        case 13: dst.move_assign_overlapping(src, n); break;
      }
      if (!copy && !std::is_same_v<T, NoAsg>) CHECK(el::g_copies == copies0, "moving made %d copies", el::g_copies - copies0);
      int old[N];
      for (int i = 0; i < n; ++i) old[i] = val[from + i];
      for (int i = from; i < from + n; ++i) {
        if (relo) live[i] = false;
        else if (!copy) val[i] = R::moved(val[i]);
      }
      for (int i = 0; i < n; ++i) {
        live[to + i] = true;
        val[to + i] = old[i];
      }
    }
    int alive = 0;
    uint64_t h = 1;
    for (int i = 0; i < N; ++i) {
      if (!live[i]) {
        h = Ctx::mix(h, 99);
        continue;
      }
      int got = R::get(base + i);
      CHECK(got == val[i], "slot %d holds %d, expected %d", i, got, val[i]);
      alive += std::is_array_v<T> ? 2 : 1;
      h = Ctx::mix(h, val[i] < 20 ? val[i] : 20);
    }
    c.state(h);
    constexpr bool counted = !std::is_trivially_destructible_v<typename R::Slot>;
    if (counted) CHECK(el::g_live == alive, "%d live objects, expected %d", el::g_live, alive);
    for (size_t i = 0; i < size; ++i) CHECK(mem[i] == 0x77 && mem[size * (N + 1) + i] == 0x77, "wrote outside of the range");
  }
  for (int i = 0; i < N; ++i)
    if (live[i]) (base + i).destroy();
}
#define TRANSFER(name, ...) \
  SCENARIO(move_##name, "14 operations on all ranges of slots of " #__VA_ARGS__ " from every set of live slots: single ones on 6 slots, pairs on 4 (thorough 5; triples on 3)", mc::LeakCheck) { \
    switch (c.pick(c.thorough() ? 3 : 2)) { \
      case 0: return transfers<__VA_ARGS__, 6>(c, 1); \
      case 1: return c.thorough() ? transfers<__VA_ARGS__, 5>(c, 2) : transfers<__VA_ARGS__, 4>(c, 2); \
      case 2: return transfers<__VA_ARGS__, 3>(c, 3); \
    } \
  }
#if PTR_PART == 1
TRANSFER(int, int)
TRANSFER(trk, el::Trk)
TRANSFER(sml, el::Sml)
TRANSFER(rel, el::Rel)
TRANSFER(ovr, el::Ovr)
#else
TRANSFER(noasg, NoAsg)
TRANSFER(bare, Bare)
TRANSFER(uniq, Uniq)
TRANSFER(ref, int&)
TRANSFER(arr, int[2])
TRANSFER(arrtrk, el::Trk[2])

#endif
#if PTR_PART == 1
// From one type to another.
template <typename T, typename U>
void converting(Ctx& c) {
  el::reset();
  int n = c.pick(4);
  int how = c.pick(4);
  bool over = c.flip();
  c.step();
  alignas(16) unsigned char a[4 * sizeof(T)];
  U src[3] = {U(1), U(2), U(3)};
  best::ptr<T> d((T*)a);
  best::ptr<U> s(src);
  c.note("%d of them by %d", n, how);
  if (how >= 2)
    for (int i = 0; i < n; ++i) (d + i).construct(77);
  switch (how * 2 + over) {
    case 0: d.copy(s, n); break;
    case 1: d.copy_overlapping(s, n); break;
    case 2: d.move(s, n); break;
    case 3: d.move_overlapping(s, n); break;
    case 4: d.copy_assign(s, n); break;
    case 5: d.copy_assign_overlapping(s, n); break;
    case 6: d.move_assign(s, n); break;
    case 7: d.move_assign_overlapping(s, n); break;
  }
  for (int i = 0; i < n; ++i) {
    CHECK(el::val(*(d + i)) == i + 1, "element %d is %d", i, el::val(*(d + i)));
    (d + i).destroy();
  }
  for (int i = 0; i < 3; ++i) CHECK((int)src[i] == i + 1);
  CHECK(el::g_live == 0);
  c.state(n * 10 + how);
}
SCENARIO(convert, "copying and moving up to 3 values to a type they convert to", mc::LeakCheck) {
  switch (c.pick(6)) {
    case 0: return converting<long, short>(c);
    case 1: return converting<char, long>(c);
    case 2: return converting<el::Trk, int>(c);
    case 3: return converting<int, unsigned>(c);
    case 4: return converting<double, int>(c);
    default: return converting<el::Rel, short>(c);
  }
}

void prints(const best::strbuf& s, std::string want) {
  std::string got(s.data(), s.size());
  CHECK(got == want, "prints as %s, expected %s", got.c_str(), want.c_str());
}
// Arithmetic and comparison.
void func0() {}
template <typename T, typename Slot>
void arith(Ctx& c) {
  constexpr int M = 4;
  alignas(64) static unsigned char mem[sizeof(Slot) * M];
  using P = best::ptr<T>;
  P base((typename P::pointee*)mem);
  int i = c.pick(M + 1), j = c.pick(M + 1);
  c.step();
  c.note("%d and %d of %zu bytes", i, j, sizeof(Slot));
  c.state(i * 10 + j);
  P p = base + i, q = base + j;
  CHECK(P::is_thin() && P::is_sized() && p.layout().size() == sizeof(Slot));
  CHECK((unsigned char*)p.raw() == mem + i * sizeof(Slot) && p.to_addr() == (uintptr_t)mem + i * sizeof(Slot));
  CHECK(P::from_addr(p.to_addr()) == p && p.to_pointee() == p && p.as_const() == p);
  CHECK(q - p == j - i && p - q == i - j && q.byte_offset_from(p) == (j - i) * (ptrdiff_t)sizeof(Slot));
  CHECK(p + (j - i) == q && q - (j - i) == p && p.offset(j - i) == q && p.scaled_offset(j - i, sizeof(Slot)) == q);
  CHECK(p.scaled_offset((j - i) * (ptrdiff_t)sizeof(Slot)) == q);
  P r = p;
  for (int k = i; k < j; ++k) {
    P was = r;
    if (k % 2) CHECK(r++ == was);
    else CHECK(++r == was + 1);
    CHECK(r == was + 1);
  }
  for (int k = i; k > j; --k) {
    P was = r;
    if (k % 2) CHECK(r-- == was);
    else CHECK(--r == was - 1);
    CHECK(r == was - 1);
  }
  CHECK(r == q);
  r = p;
  CHECK((r += j - i) == q && r == q && (r -= j - i) == p && r == p);
  best::ptr<const void> pv = p, qv = q;
  best::ptr<const char> pc = p.cast(best::types<const char>), qc = q.cast(best::types<const char>);
  auto ord = i <=> j;
  auto same = [&](best::partial_ord o, bool eq) { CHECK(o == ord && eq == (i == j), "comparing %d and %d", i, j); };
  same(p <=> q, p == q);
  same(p <=> q.raw(), p == q.raw());
  same(p.as_const() <=> q, p == q.as_const());
  same(pv <=> qv, pv == qv);
  same(p <=> qv, p == qv);
  same(pv <=> q, pv == q);
  same(pc <=> q, pc == q);
  same(p <=> qc, p == qc);
  CHECK((p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j) && (p != q) == (i != j));
  P null;
  CHECK(null == nullptr && p != nullptr && p != null && null == P(nullptr) && (p <=> nullptr) > 0 && (null <=> nullptr) == 0 && (null <=> p) < 0);
  CHECK(P::dangling() != nullptr && P::dangling().to_addr() % alignof(Slot) == 0 && P::dangling() != p && P::dangling() == P::dangling());
  char buf[40];
  snprintf(buf, sizeof buf, "%#lx", (unsigned long)p.to_addr());
  prints(best::format("{}", p), buf);
  prints(best::format("{:?}", p), buf);
  best::option<P> o = p;
  CHECK(o.has_value() && *o == p);
  o = null;
  CHECK(o.has_value() && *o == nullptr);
  }
SCENARIO(arithmetic, "all pairs of places of 5 in arrays of 9 types: differences, steps, comparisons, printing", mc::None) {
  switch (c.pick(9)) {
    case 0: return arith<int, int>(c);
    case 1: return arith<char, char>(c);
    case 2: return arith<const el::Trk, el::Trk>(c);
    case 3: return arith<el::Ovr, el::Ovr>(c);
    case 4: return arith<int[3], int[3]>(c);
    case 5: return arith<int&, int*>(c);
    case 6: return arith<int(), int (*)()>(c);
    case 7: return arith<const short, short>(c);
    default: return arith<long&&, long*>(c);
  }
}

// Fat pointers.
SCENARIO(fat, "all pairs of ranges of an array of 4, their comparison, conversion and printing", mc::None) {
  static int a[4] = {1, 2, 3, 4};
  int i = c.pick(5), n = c.pick(6 - 1 - i), j = c.pick(5), m = c.pick(6 - 1 - j);
  c.step();
  c.state(i * 1000 + n * 100 + j * 10 + m);
  c.note("%d+%d and %d+%d", i, n, j, m);
  using P = best::ptr<int[]>;
  using K = best::ptr<const int[]>;
  P p(best::ptr<int>(a) + i, n), q(best::ptr<int>(a) + j, m);
  K k = p;
  CHECK(!P::is_thin() && !P::is_const() && K::is_const());
  CHECK(p->size() == (size_t)n && p.meta() == (size_t)n && k->size() == (size_t)n && p.layout().size() == n * sizeof(int));
  for (int x = 0; x < n; ++x) CHECK(&p[x] == a + i + x && &k[x] == a + i + x);
  for (int x = n; x < 5; ++x) CHECK(mc::crashes([&] { (void)p[x]; }), "indexing %d of %d", x, n);
  auto s = p[{.start = 0, .count = (size_t)n / 2}];
  CHECK(s.size() == (size_t)n / 2 && s.data() == a + i);
  auto ord = i != j ? i <=> j : n <=> m;
  CHECK((p == q) == (i == j && n == m) && (k == q) == (p == q));
  best::partial_ord o = p <=> q, o2 = k <=> q;
  CHECK(o == ord && o2 == ord && (p < q) == (ord < 0));
  CHECK(p != nullptr && P() == nullptr && (p <=> nullptr) > 0);
  char buf[60];
  snprintf(buf, sizeof buf, "%#lx@%d", (unsigned long)p.to_addr(), n);
  prints(best::format("{}", p), buf);
  CHECK(p.to_pointee() == a + i && p.as_const() == k);
  CHECK(p.cast(best::types<char>) == (char*)(a + i));
  if (i == 0 && n == 0) {
    P one = best::ptr<int>(a + j % 4);
    CHECK(one.meta() == 1 && one.raw() == a + j % 4);
    P all = best::ptr<int[4]>(&a);
    CHECK(all.meta() == 4 && all.raw() == a);
    static std::array<int, 3> arr = {7, 8, 9};
    P three = best::ptr<std::array<int, 3>>(&arr);
    CHECK(three.meta() == 3 && three.raw() == arr.data());
    K kone = best::ptr<const int>(a);
    CHECK(kone.meta() == 1);
    CHECK(mc::crashes([&] { (void)*P(); }) && mc::crashes([&] { (void)P()->size(); }));
  }
}

// Conversions between related classes.
struct A0 {
  int a = 1;
};
struct B0 {
  int b = 2;
  int f() const { return b; }
};
struct D0 : A0, B0 {
  int d = 3;
};
struct V0 {
  virtual ~V0() {}
  virtual int g() const { return 4; }
  int v = 5;
};
struct E0 : D0, V0 {
  int g() const override { return 6; }
};
template <typename T, typename U>
void upcast(T& x, int U::* field, int want) {
  best::ptr<T> p = &x;
  best::ptr<U> q = p;
  best::ptr<const U> k = p;
  best::ptr<U> r;
  r = p;
  U* raw = &x;
  CHECK(q.raw() == raw && k.raw() == raw && r.raw() == raw, "converted to %p, expected %p", (const void*)q.raw(), (const void*)raw);
  CHECK((*q).*field == want && (*k).*field == want && (q.get()->*field) == want);
  best::ptr<U> fromraw = &x;
  CHECK(fromraw == q);
  best::ptr<T> null;
  best::ptr<U> qn = null;
  CHECK(qn == nullptr);
  best::ptr<void> v = p;
  CHECK(v.raw() == &x && v == p);
}
SCENARIO(bases, "conversions among classes with several bases", mc::None) {
  static D0 d;
  static E0 e;
  int i = c.pick(6);
  c.step();
  c.state(i);
  switch (i) {
    case 0: upcast<D0, A0>(d, &A0::a, 1); break;
    case 1: upcast<D0, B0>(d, &B0::b, 2); break;
    case 2: upcast<E0, B0>(e, &B0::b, 2); break;
    case 3: upcast<E0, V0>(e, &V0::v, 5); break;
    case 4: upcast<E0, D0>(e, &D0::d, 3); break;
    case 5: {
      best::ptr<V0> p = &e;
      CHECK(p->g() == 6);
      best::ptr<B0> q = &e;
      CHECK(q->f() == 2);
      static_assert(best::ptr_losslessly_converts_to<int, const int> && !best::ptr_losslessly_converts_to<E0, V0> && !best::ptr_losslessly_converts_to<int, void>);
      static_assert(best::ptr_losslessly_converts_to<int[4], int[]> && best::ptr_losslessly_converts_to<int, int[]>);
      break;
    }
  }
}

// Bad pointers.
template <typename T>
void bad(Ctx& c, best::ptr<T> good) {
  int w = c.pick(5), how = c.pick(10);
  c.step();
  best::ptr<T> p = w == 0   ? best::ptr<T>()
                   : w == 1 ? best::ptr<T>::dangling()
                   : w == 2 ? best::ptr<T>::from_addr(1)
                   : w == 3 ? best::ptr<T>::from_addr(0xfff)
                            : good;
  c.note("pointer %d, access %d", w, how);
  c.state(w * 10 + how);
  bool crashed = mc::crashes([&] {
    if constexpr (best::is_void<T>) {
      (void)p.get();
    } else {
      switch (how) {
        case 0: (void)*p; break;
        case 1: (void)p.get(); break;
        case 2: (void)p.deref(); break;
        case 3: (void)p.operator->(); break;
        case 4: p.destroy(); break;
        case 5: if constexpr (best::is_object<T>) p.copy(good, 1); else (void)*p; break;
        case 6: if constexpr (best::is_object<T>) good.copy(p, 1); else (void)*p; break;
        case 7: if constexpr (best::is_object<T>) p.relo(good, 1); else (void)*p; break;
        case 8: if constexpr (best::is_object<T>) p.construct(*good); else (void)*p; break;
        case 9: if constexpr (best::is_object<T>) p.copy_assign_overlapping(good, 1); else (void)*p; break;
      }
    }
  });
  if (crashed != (w != 4)) {
    // Copying onto itself is fine either way.
    CHECK(false, "access %d through pointer %d %s", how, w, crashed ? "crashed" : "did not crash");
  }
  if constexpr (best::is_object<T>) {
    p.copy(good, 0);
    good.move(p, 0);
    p.relo_overlapping(p, 0);
  }
}
SCENARIO(badness, "10 ways to use null, dangling and good pointers of 5 types", mc::None) {
  static int x = 5, *px = &x;
  alignas(8) static unsigned char mem[sizeof(el::Sml)];
  auto& s = *new (mem) el::Sml(3);
  static long arr[2] = {1, 2};
  static int (*fp)() = [] { return 3; };
  switch (c.pick(5)) {
    case 0: return bad<int>(c, &x);
    case 1: return bad<el::Sml>(c, &s);
    case 2: return bad<int&>(c, &px);
    case 3: return bad<void>(c, (void*)&x);
    default: return bad<int()>(c, &fp);
  }
}

// Niches, calls, arguments.
SCENARIO(misc, "niches, calls and packed arguments", mc::LeakCheck) {
  el::reset();
  int i = c.pick(6);
  c.step();
  c.state(i);
  switch (i) {
    case 0: {
      alignas(8) unsigned char mem[8];
      best::ptr<best::box<int>> p((best::box<int>*)mem);
      p.construct(best::niche{});
      CHECK(p.is_niche());
      p.construct(5);
      CHECK(!p.is_niche() && **p == 5);
      p.destroy();
      break;
    }
    case 1: {
      int* slot = g_targets;
      best::ptr<int&> p(&slot);
      CHECK(!p.is_niche() && &*p == g_targets);
      p.construct(best::niche{});
      CHECK(p.is_niche() && slot == nullptr);
      p.construct(g_targets[3]);
      CHECK(!p.is_niche() && &*p == g_targets + 3);
      p.assign(g_targets[4]);
      CHECK(&*p == g_targets + 4 && slot == g_targets + 4);
      int v = 1;
      best::ptr<int> q(&v);
      CHECK(!q.is_niche());
      break;
    }
    case 2: {
      alignas(16) unsigned char mem[sizeof(el::Trk)];
      best::ptr<el::Trk> p((el::Trk*)mem);
      p.construct(best::args(3, 4));
      CHECK(p->get() == 304);
      p.assign(best::args(5, 6));
      CHECK(p->get() == 506 && el::g_live == 1);
      p.assign(7);
      CHECK(p->get() == 7 && el::g_live == 1);
      p.construct();
      CHECK(p->get() == 0);
      --el::g_live;
      p.destroy();
      CHECK(el::g_live == 0);
      break;
    }
    case 3: {
      int (*slot)(int) = [](int x) { return x + 1; };
      best::ptr<int(int)> p(&slot);
      CHECK(p(4) == 5 && (*p)(5) == 6);
      auto f = [](int a, int b) { return a * b; };
      best::ptr q(&f);
      CHECK(q(4, 5) == 20);
      break;
    }
    case 4: {
      int v[3] = {1, 2, 3}, w[3] = {};
      best::ptr<int[3]> p(&v), q(&w);
      CHECK(q.try_copy(p) == q && w[0] == 1 && w[2] == 3);
      v[1] = 9;
      CHECK(q.try_copy_assign(p) == q && w[1] == 9 && p.can_copy());
      alignas(16) unsigned char mem[sizeof(Uniq)];
      Uniq u(3);
      best::ptr<Uniq> a((Uniq*)mem), b(&u);
      CHECK(!b.can_copy() && a.try_copy(b) == nullptr);
      el::Trk t(4), t2(5);
      best::ptr<el::Trk> x(&t), y(&t2);
      CHECK(y.try_copy_assign(x) == y && t2.get() == 4 && t.get() == 4);
      break;
    }
    case 5: {
      int v[6] = {1, 2, 3, 4, 5, 6};
      best::ptr<int[]> p(best::ptr<int>(v), 3), q(best::ptr<int>(v) + 3, 3);
      p.copy(q);
      CHECK(v[0] == 4 && v[2] == 6);
      auto r = p.try_copy(best::ptr<int[]>(best::ptr<int>(v) + 4, 2));
      CHECK(r.meta() == 2 && r.raw() == v && v[0] == 5 && v[1] == 6 && v[2] == 6);
      q.destroy();
      short s[2] = {1, 2};
      best::ptr<short> sp(s);
      sp.fill(0xff, 2);
      CHECK(s[0] == -1 && s[1] == -1);
      sp.fill(0, 1);
      CHECK(s[0] == 0 && s[1] == -1);
      break;
    }
  }
}
#endif
}  // namespace
