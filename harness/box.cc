// B01: best::box against a single value, over all operation sequences.
#include <array>
#include <string>
#include <vector>

#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "elems.h"
#include "mc.h"

#ifndef BOX_PART
#define BOX_PART 1
#endif

namespace {
using mc::Ctx;

// Cannot be assigned to, only copied.
struct Fix : el::Trk {
  using Trk::Trk;
  Fix(const Fix&) = default;
  Fix(Fix&&) = default;
  Fix& operator=(const Fix&) = delete;
};
// Cannot be copied.
struct Mov : el::Trk {
  using Trk::Trk;
  Mov(Mov&&) = default;
  Mov& operator=(Mov&&) = default;
};
struct Big {
  int v;
  char fill[300];
  Big(int x) : v(x) { memset(fill, x, sizeof fill); }
  int get() const {
    for (char f : fill) CHECK(f == char(v), "bytes of a value changed");
    return v;
  }
  bool operator==(const Big&) const = default;
};
template <typename T>
constexpr bool counted = std::is_base_of_v<el::Trk, T> || std::is_same_v<T, el::Sml> || std::is_same_v<T, el::Rel>;

template <typename A>
A mk(int id) {
  if constexpr (std::is_same_v<A, el::Heap>) return A{id};
  else return A{};
}

template <typename T, typename A>
void single(Ctx& c, int depth) {
  using B = best::box<T, A>;
  constexpr bool heap = std::is_same_v<A, el::Heap>;
  constexpr bool can_copy = std::is_copy_constructible_v<T>;
  el::reset();
  el::Heap::reset();
  struct M {
    int v = 0;
    bool full = true;
    int id = 0;
    const void* at = nullptr;
  } m[2];
  int fresh = 0;
  auto next = [&] { return ++fresh; };
  union Slot {
    B b;
    Slot() {}
    ~Slot() {}
  } s[2];
  auto make = [&](int i, int id, int how) {
    int v = next();
    if (how == 0) new (&s[i].b) B(mk<A>(id), best::in_place, v);
    else if (how == 1) new (&s[i].b) B(mk<A>(id), best::in_place, T(v));
    else {
      // From a raw pointer.
      A al = mk<A>(id);
      best::ptr<T> p = al.alloc(best::layout::of<T>()).cast(best::types<T>);
      p.construct(v);
      new (&s[i].b) B(best::unsafe("allocated for it"), al, p);
    }
    m[i] = {v, true, id, s[i].b.raw()};
  };
  auto check = [&] {
    int live = 0;
    for (int i = 0; i < 2; ++i) {
      B& b = s[i].b;
      const B& k = b;
      if constexpr (heap)
        if (m[i].full) CHECK(b.allocator().id == m[i].id && k.allocator().id == m[i].id, "box %d has allocator %d, expected %d", i, b.allocator().id, m[i].id);
      if (!m[i].full) continue;
      ++live;
      CHECK(b.raw() != nullptr && b.raw() == m[i].at, "box %d is at %p, expected %p", i, (void*)b.raw(), m[i].at);
      CHECK((uintptr_t)b.raw() % alignof(T) == 0, "misaligned");
      CHECK(el::val(*b) == m[i].v, "box %d holds %d, expected %d", i, el::val(*b), m[i].v);
      CHECK(&*b == b.raw() && &*k == b.raw() && b.operator->() == b.raw() && k.operator->() == b.raw());
      CHECK(k.as_ptr() == b.raw() && b.layout() == best::layout::of<T>());
      best::ptr<T> p = b;
      best::ptr<const T> q = k;
      CHECK(p == b.raw() && q == b.raw());
      auto&& r = *std::move(b);
      static_assert(std::is_same_v<decltype(*std::move(b)), T&&> && std::is_same_v<decltype(*b), T&> && std::is_same_v<decltype(*k), const T&>);
      CHECK(&r == b.raw());
    }
    if (m[0].full && m[1].full) CHECK(s[0].b.raw() != s[1].b.raw(), "two boxes share their value");
    if constexpr (counted<T>) CHECK(el::g_live == live, "%d live values, expected %d", el::g_live, live);
    if constexpr (heap) CHECK(int(el::Heap::live()) == live, "%zu live blocks, expected %d", el::Heap::live(), live);
  };
  int id2 = heap ? c.pick(2) : 0;
  make(0, 0, 0);
  make(1, id2, 1);
  check();
  for (int d = 0; d < depth; ++d) {
    c.step();
    int i = c.pick(2), j = 1 - i;
    B &a = s[i].b, &b = s[j].b;
    int copies = el::g_copies;
    int allocs = el::Heap::g_allocs;
    int want = 0, want_allocs = -1;
    const void* at = m[j].at;
    switch (c.pick(14)) {
      case 0: {
        int v = next();
        int id = heap ? c.pick(2) : 0;
        c.note("%c = box(%d)", 'a' + i, v);
        B t(mk<A>(id), best::in_place, v);
        const void* p = t.raw();
        a = std::move(t);
        m[i] = {v, true, id, p};
        break;
      }
      case 1:
        if constexpr (can_copy) {
          if (!m[j].full) throw mc::Skip();
          c.note("%c = %c", 'a' + i, 'a' + j);
          const B& kb = b;
          bool was = m[i].full;
          a = kb;
          m[i].v = m[j].v;
          m[i].full = true;
          // An existing value may be assigned to or replaced; only what it becomes matters.
          m[i].at = a.raw();
          if constexpr (heap) {
            CHECK(a.allocator().id == m[j].id || (was && a.allocator().id == m[i].id), "copying into a box changed its allocator to %d", a.allocator().id);
            m[i].id = a.allocator().id;
          }
          want = 1;
          break;
        } else {
          throw mc::Skip();
        }
      case 2:
        c.note("%c = move(%c)", 'a' + i, 'a' + j);
        if (!m[j].full) throw mc::Skip();
        a = std::move(b);
        m[i] = m[j];
        m[j].full = false;
        want_allocs = 0;
        break;
      case 3:
        if (!m[i].full) throw mc::Skip();
        c.note("%c = move(%c)", 'a' + i, 'a' + i);
        a = std::move(a);
        want_allocs = 0;
        break;
      case 4:
        if constexpr (can_copy) {
          if (!m[i].full) throw mc::Skip();
          c.note("%c = %c", 'a' + i, 'a' + i);
          const B& k = a;
          a = k;
          m[i].at = a.raw();
          break;
        } else {
          throw mc::Skip();
        }
      case 5:
        if constexpr (std::is_move_assignable_v<T>) {
          if (!m[i].full) throw mc::Skip();
          m[i].v = next();
          c.note("*%c = %d", 'a' + i, m[i].v);
          *a = T(m[i].v);
          want_allocs = 0;
          break;
        } else {
          throw mc::Skip();
        }
      case 6: {
        if (!m[j].full) throw mc::Skip();
        c.note("%c = %c.try_copy()", 'a' + i, 'a' + j);
        const B& k = b;
        auto t = k.try_copy();
        constexpr bool both = best::copyable<T>;
        CHECK(t.has_value() == both, "try_copy() of a %scopyable value", both ? "" : "not ");
        if (t.has_value()) {
          want = 1;
          CHECK(t->raw() != b.raw());
          a = *std::move(t);
          m[i] = {m[j].v, true, m[j].id, a.raw()};
        }
        break;
      }
      case 7: {
        if (!m[i].full) throw mc::Skip();
        c.note("%c = box(into_raw(%c))", 'a' + i, 'a' + i);
        {
          auto [p, al] = std::move(a).into_raw();
          CHECK(p.raw() == m[i].at);
          if constexpr (heap) CHECK(al.id == m[i].id);
          a.~B();
          new (&a) B(best::unsafe("just taken"), al, p);
        }
        want_allocs = 0;
        break;
      }
      case 8: {
        if (!m[i].full) throw mc::Skip();
        c.note("%c = box(leak(%c))", 'a' + i, 'a' + i);
        A al = a.allocator();
        auto p = std::move(a).leak();
        a = B(best::unsafe("just taken"), al, p);
        want_allocs = 0;
        break;
      }
      case 9:
        if constexpr (can_copy) {
          if (!m[j].full) throw mc::Skip();
          c.note("new %c(%c)", 'a' + i, 'a' + j);
          a.~B();
          const B& k = b;
          new (&a) B(k);
          m[i] = {m[j].v, true, m[j].id, a.raw()};
          want = 1;
          want_allocs = 1;
          break;
        } else {
          throw mc::Skip();
        }
      case 10:
        if (!m[j].full) throw mc::Skip();
        c.note("new %c(move(%c))", 'a' + i, 'a' + j);
        a.~B();
        new (&a) B(std::move(b));
        m[i] = m[j];
        m[j].full = false;
        CHECK(a.raw() == at);
        want_allocs = 0;
        break;
      case 11:
        c.note("new %c", 'a' + i);
        a.~B();
        make(i, heap ? c.pick(2) : 0, c.pick(3));
        break;
      case 12:
        if (!m[0].full || !m[1].full) throw mc::Skip();
        c.note("swap");
        std::swap(a, b);
        std::swap(m[0], m[1]);
        want_allocs = 0;
        break;
      case 13: {
        // Through an option, where the box has a niche.
        if (!m[i].full) throw mc::Skip();
        c.note("option");
        best::option<B> o;
        CHECK(!o.has_value());
        o = std::move(a);
        CHECK(o.has_value() && o->raw() == m[i].at);
        a = *std::move(o);
        want_allocs = 0;
        break;
      }
    }
    if constexpr (counted<T>) CHECK(el::g_copies - copies == want, "%d copies, expected %d", el::g_copies - copies, want);
    if (heap && want_allocs >= 0) CHECK(el::Heap::g_allocs - allocs == want_allocs, "%d allocations, expected %d", el::Heap::g_allocs - allocs, want_allocs);
    check();
    uint64_t h = 7;
    for (auto& x : m) h = Ctx::mix(h, x.full * 4 + x.id);
    c.state(h);
  }
  for (auto& x : s) x.b.~B();
  if constexpr (counted<T>) CHECK(el::g_live == 0, "%d values left", el::g_live);
  if constexpr (heap) CHECK(el::Heap::live() == 0, "%zu blocks left", el::Heap::live());
}

template <typename T, typename A>
void arrays(Ctx& c, int depth) {
  using B = best::box<T[], A>;
  constexpr bool heap = std::is_same_v<A, el::Heap>;
  el::reset();
  el::Heap::reset();
  struct M {
    std::vector<int> v;
    bool full = true;
    int id = 0;
  } m[2];
  int fresh = 0;
  union Slot {
    B b;
    Slot() {}
    ~Slot() {}
  } s[2];
  auto set = [&](M& x, int n, int id) {
    mc::Internal in;
    x.v.clear();
    for (int i = 0; i < n; ++i) x.v.push_back(++fresh);
    x.full = true;
    x.id = id;
  };
  // A new box with the values of `x`.
  auto mkbox = [&](const M& x, bool list) -> B {
    A al = mk<A>(x.id);
    if (list) {
      switch (x.v.size()) {
        case 0: return B(al, best::in_place);
        case 1: return B(al, best::in_place, std::initializer_list<T>{T(x.v[0])});
        case 2: return B(al, best::in_place, std::initializer_list<T>{T(x.v[0]), T(x.v[1])});
        default: return B(al, best::in_place, std::initializer_list<T>{T(x.v[0]), T(x.v[1]), T(x.v[2])});
      }
    }
    std::vector<T> t;
    {
      mc::Internal in;
      t.reserve(x.v.size());
      for (int v : x.v) t.push_back(T(v));
    }
    B r(al, best::in_place, best::span<T>(t.data(), t.size()));
    mc::Internal in;
    std::vector<T>().swap(t);
    return r;
  };
  auto check = [&] {
    int live = 0, full = 0;
    for (int i = 0; i < 2; ++i) {
      if (!m[i].full) continue;
      B& b = s[i].b;
      const B& k = b;
      ++full;
      size_t n = m[i].v.size();
      live += int(n);
      CHECK(b.meta() == n && b->size() == n && (*b).size() == n && (*k).size() == n && k->size() == n, "box %d has %zu elements, expected %zu", i, b->size(), n);
      CHECK(b.layout() == best::layout::array<T>(n));
      CHECK((*b).data() == b.raw() && (*std::move(b)).size() == n && (*std::move(k)).data() == b.raw());
      for (size_t e = 0; e < n; ++e) {
        CHECK(el::val((*b)[e]) == m[i].v[e], "element %zu of box %d is %d, expected %d", e, i, el::val((*b)[e]), m[i].v[e]);
        CHECK(&b[e] == b.raw() + e && &k[e] == b.raw() + e && &(*k)[e] == b.raw() + e);
        CHECK(b[{.start = e}].size() == n - e && k[{.start = e}].data() == b.raw() + e);
      }
      static_assert(std::is_same_v<decltype(k[0]), const T&> && std::is_same_v<decltype(b[0]), T&>);
      CHECK(mc::crashes([&] { (void)b[n]; }));
      if constexpr (heap) CHECK(b.allocator().id == m[i].id, "box %d has allocator %d, expected %d", i, b.allocator().id, m[i].id);
    }
    if (m[0].full && m[1].full) CHECK(s[0].b.raw() != s[1].b.raw() || heap, "two boxes share their value");
    if constexpr (counted<T>) CHECK(el::g_live == live, "%d live values, expected %d", el::g_live, live);
    if constexpr (heap) CHECK(int(el::Heap::live()) == full, "%zu live blocks, expected %d", el::Heap::live(), full);
  };
  int id2 = heap ? c.pick(2) : 0;
  set(m[0], c.pick(4), 0);
  set(m[1], c.pick(4), id2);
  new (&s[0].b) B(mkbox(m[0], true));
  new (&s[1].b) B(mkbox(m[1], false));
  check();
  for (int d = 0; d < depth; ++d) {
    c.step();
    int i = c.pick(2), j = 1 - i;
    B &a = s[i].b, &b = s[j].b;
    switch (c.pick(9)) {
      case 0: {
        int n = c.pick(4);
        c.note("%c = box of %d", 'a' + i, n);
        set(m[i], n, heap ? c.pick(2) : 0);
        a = mkbox(m[i], c.flip());
        break;
      }
      case 1: {
        if (!m[j].full) throw mc::Skip();
        c.note("%c = %c", 'a' + i, 'a' + j);
        const B& k = b;
        bool was = m[i].full;
        a = k;
        if constexpr (heap) {
          CHECK(a.allocator().id == m[j].id || (was && a.allocator().id == m[i].id));
          m[i].id = a.allocator().id;
        }
        mc::Internal in;
        m[i].v = m[j].v;
        m[i].full = true;
        break;
      }
      case 2: {
        if (!m[j].full) throw mc::Skip();
        c.note("%c = move(%c)", 'a' + i, 'a' + j);
        T* p = b.raw();
        a = std::move(b);
        CHECK(a.raw() == p);
        mc::Internal in;
        m[i] = m[j];
        m[j].full = false;
        break;
      }
      case 3: {
        if (!m[j].full) throw mc::Skip();
        c.note("%c = %c.try_copy()", 'a' + i, 'a' + j);
        auto t = b.try_copy();
        CHECK(t.has_value() == best::copyable<T>);
        if (!t.has_value()) break;
        a = *std::move(t);
        mc::Internal in;
        m[i] = m[j];
        break;
      }
      case 4: {
        if (!m[i].full || m[i].v.empty()) throw mc::Skip();
        int e = c.pick(int(m[i].v.size()));
        c.note("%c[%d] = ..", 'a' + i, e);
        m[i].v[e] = ++fresh;
        a[e] = T(fresh);
        break;
      }
      case 5: {
        if (!m[i].full) throw mc::Skip();
        c.note("%c = box(into_raw(%c))", 'a' + i, 'a' + i);
        auto [p, al] = std::move(a).into_raw();
        CHECK(p->size() == m[i].v.size());
        a = B(best::unsafe("just taken"), al, p);
        break;
      }
      case 6: {
        if (!m[j].full) throw mc::Skip();
        c.note("new %c(%c)", 'a' + i, 'a' + j);
        a.~B();
        const B& k = b;
        new (&a) B(k);
        mc::Internal in;
        m[i] = m[j];
        break;
      }
      case 7: {
        // Self-assignment.
        if (!m[i].full) throw mc::Skip();
        c.note("%c = %c", 'a' + i, 'a' + i);
        const B& k = a;
        a = k;
        a = std::move(a);
        break;
      }
      case 8: {
        if (!m[i].full) throw mc::Skip();
        c.note("option");
        best::option<B> o;
        o = std::move(a);
        CHECK(o.has_value() && o->meta() == m[i].v.size());
        best::option<B> p = o;
        CHECK(p.has_value() && p->meta() == m[i].v.size());
        o = best::none;
        CHECK(!o.has_value());
        a = *std::move(p);
        break;
      }
    }
    check();
    uint64_t h = 7;
    for (auto& x : m) h = Ctx::mix(h, x.full * 64 + x.id * 16 + x.v.size());
    c.state(h);
  }
  for (auto& x : s) x.b.~B();
  if constexpr (counted<T>) CHECK(el::g_live == 0, "%d values left", el::g_live);
  if constexpr (heap) CHECK(el::Heap::live() == 0, "%zu blocks left", el::Heap::live());
  mc::Internal in;
  for (auto& x : m) std::vector<int>().swap(x.v);
}

#if BOX_PART == 1
#define ONE(name, T, A) \
  SCENARIO(one_##name, "all sequences of 3 (thorough 4) of 14 operations on two boxes of " #T " from " #A, mc::LeakCheck) { single<T, A>(c, c.thorough() ? 4 : 3); }
ONE(int, int, best::malloc)
ONE(trk, el::Trk, best::malloc)
ONE(trk_heap, el::Trk, el::Heap)
ONE(rel_heap, el::Rel, el::Heap)
ONE(sml, el::Sml, best::malloc)
ONE(ovr, el::Ovr, best::malloc)
ONE(ovr_heap, el::Ovr, el::Heap)
ONE(fix, Fix, el::Heap)
ONE(mov, Mov, el::Heap)
ONE(big, Big, best::malloc)
#endif
#if BOX_PART == 2
#define ARR(name, T, A) \
  SCENARIO(arr_##name, "all sequences of 2 (thorough 3) of 9 operations on two boxes of 0 to 3 " #T " from " #A, mc::LeakCheck) { arrays<T, A>(c, c.thorough() ? 3 : 2); }
ARR(int, int, best::malloc)
ARR(trk, el::Trk, best::malloc)
ARR(trk_heap, el::Trk, el::Heap)
ARR(rel_heap, el::Rel, el::Heap)
ARR(ovr, el::Ovr, el::Heap)
ARR(sml, el::Sml, best::malloc)

// Conversions.
struct Base {
  int b = 1;
};
struct Derived : Base {
  int d = 2;
};
template <typename To, typename From>
constexpr bool conv = std::is_convertible_v<best::box<From>, best::box<To>>;
static_assert(conv<const int, int> && conv<const el::Trk, el::Trk>);
static_assert(conv<int[], int> && conv<int[], int[3]> && conv<int[], std::array<int, 3>>);
static_assert(!conv<int, const int> && !conv<Base, Derived> && !conv<void, int> && !conv<int, long>);
static_assert(!conv<int, int[]>);
static_assert(!std::is_convertible_v<const best::box<int>&, best::ptr<int>> && std::is_convertible_v<const best::box<int>&, best::ptr<const int>>);
static_assert(!std::is_copy_constructible_v<best::box<Mov>> && std::is_move_constructible_v<best::box<Mov>>);

SCENARIO(convert, "conversions of boxes to boxes of const values and of arrays, of every length, and to pointers", mc::LeakCheck) {
  el::reset();
  c.step();
  int k = c.pick(6);
  c.state(k);
  switch (k) {
    case 0: {
      best::box<el::Trk> a(best::in_place, 4);
      el::Trk* p = a.raw();
      best::box<const el::Trk> b = std::move(a);
      CHECK(b.raw() == p && b->get() == 4 && el::g_live == 1);
      best::box<const el::Trk> d = std::move(b);
      CHECK(d.raw() == p);
      a = best::box<el::Trk>(5);
      CHECK(a->get() == 5 && el::g_live == 2);
      b = std::move(a);
      CHECK(b->get() == 5 && el::g_live == 2);
      break;
    }
    case 1: {
      best::box<el::Trk> a(best::in_place, 4);
      el::Trk* p = a.raw();
      best::box<el::Trk[]> b = std::move(a);
      CHECK(b.raw() == p && b->size() == 1 && b[0].get() == 4 && el::g_live == 1);
      best::box<el::Trk[]> d = b;
      CHECK(d->size() == 1 && d[0].get() == 4 && el::g_live == 2);
      break;
    }
    case 2: {
      el::Trk xs[3]{el::Trk(1), el::Trk(2), el::Trk(3)};
      best::box<el::Trk[3]> a(xs);
      CHECK(el::g_live == 6 && (*a)[2].get() == 3);
      best::box<el::Trk[3]> a2 = a;
      (*a2)[0] = el::Trk(9);
      CHECK((*a)[0].get() == 1 && el::g_live == 9);
      a = a2;
      CHECK((*a)[0].get() == 9 && el::g_live == 9);
      best::box<el::Trk[]> b = std::move(a);
      CHECK(b->size() == 3 && b[0].get() == 9 && b[2].get() == 3 && el::g_live == 9);
      break;
    }
    case 3: {
      best::box<std::array<el::Trk, 2>> a(best::in_place, std::array<el::Trk, 2>{el::Trk(1), el::Trk(2)});
      best::box<el::Trk[]> b = std::move(a);
      CHECK(b->size() == 2 && b[0].get() == 1 && b[1].get() == 2 && el::g_live == 2);
      break;
    }
    case 4: {
      // References.
      int x = 1, y = 2;
      best::box<int&> a(x);
      best::box<int&> b(y);
      CHECK(&*a == &x);
      *a = 7;
      CHECK(x == 7);
      a = std::move(b);
      CHECK(&*a == &y && x == 7);
      best::box<int&> d = a;
      CHECK(&*d == &y && d.raw() != a.raw());
      break;
    }
    case 5: {
      // Deduction.
      best::box a(el::Trk(3));
      static_assert(std::is_same_v<decltype(a), best::box<el::Trk>>);
      best::box b({el::Trk(3), el::Trk(4)});
      static_assert(std::is_same_v<decltype(b), best::box<el::Trk[]>>);
      CHECK(b->size() == 2 && el::g_live == 3);
      best::box<std::vector<int>> v(std::initializer_list<int>{1, 2, 3});
      CHECK(v->size() == 3 && (*v)[2] == 3);
      best::box<std::vector<int>> w(best::in_place, 3, 7);
      CHECK(w->size() == 3 && (*w)[2] == 7);
      auto t = *std::move(w);
      CHECK(t.size() == 3 && w->size() == 0);
      break;
    }
  }
}

template <typename X, typename Y, typename Z>
void cmp(const X& x, const Y& y, const Z& wx, const Z& wy) {
  bool eq = wx == wy;
  CHECK((x == y) == eq && (y == x) == eq && (x != y) == !eq && (y != x) == !eq);
}
template <typename X, typename Y, typename Z>
void ord(const X& x, const Y& y, const Z& wx, const Z& wy) {
  CHECK((x < y) == (wx < wy) && (x > y) == (wx > wy) && (x <= y) == (wx <= wy) && (x >= y) == (wx >= wy));
  CHECK((y < x) == (wy < wx) && (y > x) == (wy > wx) && (y <= x) == (wy <= wx) && (y >= x) == (wy >= wx));
  auto o = x <=> y;
  CHECK((o < 0) == (wx < wy) && (o == 0) == (wx == wy) && (o > 0) == (wx > wy));
}
SCENARIO(compare, "all pairs of boxes of 5 ints, of ints and longs, and of arrays of up to 3 of 2 ints, with each other, with values and with spans", mc::LeakCheck) {
  constexpr int xs[] = {-2147483647 - 1, -1, 0, 1, 2147483647};
  c.step();
  if (c.flip()) {
    int x = c.pick_of(xs), y = c.pick_of(xs);
    c.state(Ctx::mix(x, y));
    best::box<int> a(x), b(y);
    best::box<long> l(best::in_place, long(y));
    cmp(a, b, x, y), ord(a, b, x, y);
    cmp(a, y, x, y), ord(a, y, x, y);
    cmp(a, l, long(x), long(y)), ord(a, l, long(x), long(y));
    best::box<el::Trk> t(best::in_place, x), u(best::in_place, y);
    cmp(t, u, x, y), ord(t, u, x, y), cmp(t, *u, x, y);
    best::option<best::box<int>> oa(a), ob(b);
    cmp(oa, ob, x, y), ord(oa, ob, x, y);
    return;
  }
  std::vector<int> v, w;
  {
    int n = c.pick(4), k = c.pick(4);
    mc::Internal in;
    for (int i = 0; i < n; ++i) v.push_back(c.pick(2) ? 1 : -1);
    for (int i = 0; i < k; ++i) w.push_back(c.pick(2) ? 1 : -1);
  }
  c.state(Ctx::mix(v.size(), w.size()));
  best::box<int[]> a(best::span<int>(v.data(), v.size())), b(best::span<int>(w.data(), w.size()));
  best::span<const int> sw(w.data(), w.size());
  cmp(a, b, v, w), ord(a, b, v, w);
  cmp(a, sw, v, w);
  cmp(a, *b, v, w), ord(a, *b, v, w);
  mc::Internal in;
  std::vector<int>().swap(v);
  std::vector<int>().swap(w);
}
#endif
}  // namespace
