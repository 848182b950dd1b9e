// V01/V02/V03: best::vec against a plain list, over all operation sequences.
#include <compare>
#include <vector>

#include "best/container/box.h"
#include "best/container/vec.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
using List = std::vector<int>;

std::string show(const List& l) {
  std::string s = "[";
  for (int x : l) s += std::to_string(x) + " ";
  return s + "]";
}

// What each property looks at. The exploration is shared; the checks differ.
#ifndef VEC_MODE
#define VEC_MODE 1
#endif
constexpr bool Contents = VEC_MODE == 1;   // V01
constexpr bool Lifetime = VEC_MODE == 2;   // V02
constexpr bool Storage = VEC_MODE == 3;    // V03

template <typename T, size_t N, typename A>
struct Sys {
  using V = best::vec<T, N, A>;
  Ctx& c;
  alignas(V) unsigned char mem[2][sizeof(V) + 64];
  V* v[2];
  List m[2];
  int alloc[2] = {0, 0};
  int fresh = 1;

  A mk(int id) {
    if constexpr (requires { A{id}; }) return A{id};
    else return A{};
  }
  V& a() { return *v[0]; }
  V& b() { return *v[1]; }

  Sys(Ctx& c) : c(c) {
    el::reset();
    el::Heap::reset();
    memset(mem, 0xe7, sizeof mem);
    for (int i = 0; i < 2; ++i) v[i] = nullptr;
  }
  ~Sys() {
    for (auto* p : v)
      if (p) p->~V();
  }

  int next() {
    fresh = fresh % 90 + 1;
    return fresh;
  }

  // Everything observable agrees with the list.
  void check(int i) {
    const V& x = *v[i];
    V& y = *v[i];
    List& l = m[i];
    size_t n = l.size();
    CHECK(x.size() == n, "vector %d has size %zu, expected %zu %s", i, x.size(), n, show(l).c_str());
    CHECK(x.is_empty() == (n == 0));
    CHECK(x.capacity() >= n, "capacity %zu < size %zu", x.capacity(), n);
    if (Contents) {
      for (size_t j = 0; j < n; ++j) {
        int got = el::val(x.data().raw()[j]);
        CHECK(got == l[j], "vector %d element %zu is %d, expected %s", i, j, got, show(l).c_str());
      }
      auto sp = x.as_span();
      CHECK(sp.size() == n && sp.data() == x.data());
      auto f = x.first();
      auto la = x.last();
      CHECK(f.has_value() == (n > 0) && la.has_value() == (n > 0));
      if (n) {
        CHECK(el::val(*f) == l[0]);
        CHECK(el::val(*la) == l[n - 1]);
        CHECK(el::val(x[n - 1]) == l[n - 1] && el::val(y[n - 1]) == l[n - 1]);
        CHECK(el::val(*x.at(n - 1)) == l[n - 1]);
      }
      CHECK(x.at(n).is_empty() && y.at(n).is_empty());
      CHECK(mc::crashes([&] { (void)x[n]; }), "out of range index %zu did not crash", n);
      size_t k = 0;
      for (auto& e : x) {
        CHECK(k < n && el::val(e) == l[k]);
        ++k;
      }
      CHECK(k == n);
    }
    CHECK(x.spare_capacity().size() == x.capacity() - n);
    CHECK(x.spare_capacity().data() == x.data() + n);
    if (x.is_inlined()) CHECK(x.capacity() == N, "inlined capacity %zu", x.capacity());
    CHECK(y.is_on_heap() == !x.is_inlined());
    uintptr_t p = reinterpret_cast<uintptr_t>(x.data().raw());
    uintptr_t self = reinterpret_cast<uintptr_t>(&x);
    bool inside = p >= self && p < self + sizeof(V);
    if (x.is_inlined() && N > 0) {
      CHECK(inside, "inlined data is outside of the vector");
      CHECK(p + N * sizeof(T) <= self + sizeof(V));
    }
    if (!x.is_inlined()) CHECK(!inside);
    if (n || !x.is_inlined()) CHECK(p % alignof(T) == 0, "misaligned data");
  }
  void check_all() {
    check(0);
    check(1);
    if constexpr (el::tracked<T>) {
      int want = int(m[0].size() + m[1].size());
      CHECK(el::g_live == want, "%d live elements, expected %d", el::g_live, want);
    }
    if constexpr (std::is_same_v<A, el::Heap>) {
      size_t want = size_t(!a().is_inlined()) + size_t(!b().is_inlined());
      CHECK(el::Heap::live() == want, "%zu live heap blocks, expected %zu", el::Heap::live(), want);
      for (int i = 0; i < 2; ++i)
        CHECK(v[i]->allocator().id == alloc[i], "vector %d uses allocator %d, expected %d", i, v[i]->allocator().id, alloc[i]);
    }
    if (Contents) {
      CHECK((a() == b()) == (m[0] == m[1]));
      auto o = a() <=> b();
      auto w = m[0] <=> m[1];
      CHECK((o < 0) == (w < 0) && (o > 0) == (w > 0), "comparison disagrees");
    }
  }
  u_int64_t hash() {
    uint64_t h = 1;
    for (int i = 0; i < 2; ++i) {
      h = Ctx::mix(h, m[i].size());
      h = Ctx::mix(h, v[i]->capacity());
      h = Ctx::mix(h, v[i]->is_inlined());
      h = Ctx::mix(h, alloc[i]);
    }
    return h;
  }

  void make(int i, int kind, int id) {
    List init;
    static const int sizes[] = {0, 1, 2, 3, 5};
    for (int j = 0; j < sizes[kind]; ++j) init.push_back(next());
    v[i] = new (mem[i]) V(mk(id));
    alloc[i] = id;
    for (int x : init) v[i]->push(x);
    m[i] = init;
  }

  // Applies one operation to vector `i` (and possibly the other one).
  void op(int i) {
    V& x = *v[i];
    V& o = *v[1 - i];
    List& l = m[i];
    List& k = m[1 - i];
    size_t n = l.size();
    const size_t Max = i == 0 ? 7 : 4;
    enum {
      Push, Insert, InsertOob, Append, Splice, SpliceSelf, Pop, Remove, RemoveOob,
      Erase, EraseOob, Truncate, Clear, Reserve, Shrink, Spill, Assign, AssignVec,
      Copy, CopySelf, Move, MoveSelf, CopyCtor, MoveCtor, Box, Set, Iter, Insert2, Ops
    };
    int what = c.pick(Ops);
    c.step();
    switch (what) {
      case Push: {
        if (n >= Max) throw mc::Skip{};
        int e = next();
        c.note("v%d.push(%d)", i, e);
        auto& r = x.push(e);
        l.push_back(e);
        CHECK(&r == x.data().raw() + n);
        break;
      }
      case Insert: {
        if (n >= Max) throw mc::Skip{};
        size_t at = size_t(c.pick(int(n) + 1));
        int e = next();
        c.note("v%d.insert(%zu, %d)", i, at, e);
        auto& r = x.insert(at, e);
        l.insert(l.begin() + long(at), e);
        CHECK(&r == x.data().raw() + at);
        break;
      }
      case Insert2: {  // multi-argument construction in place
        if (n >= Max) throw mc::Skip{};
        if constexpr (el::tracked<T>) {
          size_t at = size_t(c.pick(int(n) + 1));
          c.note("v%d.insert(%zu, 1, 2)", i, at);
          x.insert(at, 1, 2);
          l.insert(l.begin() + long(at), 102);
          break;
        }
        throw mc::Skip{};
      }
      case InsertOob: {
        c.note("v%d.insert(size+1) crashes", i);
        CHECK(mc::crashes([&] { x.insert(n + 1, 1); }), "insert past the end did not crash");
        break;
      }
      case Append: {
        int cnt = c.pick(3) + 1;
        if (n + size_t(cnt) > Max) throw mc::Skip{};
        std::vector<T> src;
        src.reserve(8);
        List add;
        for (int j = 0; j < cnt; ++j) add.push_back(next()), src.push_back(el::make<T>(add.back()));
        c.note("v%d.append(%s)", i, show(add).c_str());
        x.append(best::span<const T>(src.data(), src.size()));
        l.insert(l.end(), add.begin(), add.end());
        break;
      }
      case Splice: {
        int cnt = c.pick(3);
        if (n + size_t(cnt) > Max) throw mc::Skip{};
        size_t at = size_t(c.pick(int(n) + 1));
        std::vector<T> src;
        src.reserve(8);
        List add;
        for (int j = 0; j < cnt; ++j) add.push_back(next()), src.push_back(el::make<T>(add.back()));
        c.note("v%d.splice(%zu, %s)", i, at, show(add).c_str());
        x.splice(at, best::span<const T>(src.data(), src.size()));
        l.insert(l.begin() + long(at), add.begin(), add.end());
        break;
      }
      case SpliceSelf: {
        if (n == 0) throw mc::Skip{};
        size_t s = size_t(c.pick(int(n)));
        size_t cnt = 1 + size_t(c.pick(int(n - s)));
        if (n + cnt > Max) throw mc::Skip{};
        size_t at = size_t(c.pick(int(n) + 1));
        c.note("v%d.splice(%zu, v%d[%zu..%zu])", i, at, i, s, s + cnt);
        x.splice(at, x[best::bounds{.start = s, .count = cnt}]);
        List add(l.begin() + long(s), l.begin() + long(s + cnt));
        l.insert(l.begin() + long(at), add.begin(), add.end());
        break;
      }
      case Pop: {
        c.note("v%d.pop()", i);
        best::option<T> r = x.pop();
        CHECK(r.has_value() == (n > 0));
        if (n) {
          CHECK(el::val(*r) == l.back(), "pop gave %d, expected %d", el::val(*r), l.back());
          l.pop_back();
        }
        break;
      }
      case Remove: {
        if (n == 0) throw mc::Skip{};
        size_t at = size_t(c.pick(int(n)));
        c.note("v%d.remove(%zu)", i, at);
        T r = x.remove(at);
        CHECK(el::val(r) == l[at], "remove gave %d, expected %d", el::val(r), l[at]);
        l.erase(l.begin() + long(at));
        break;
      }
      case RemoveOob: {
        c.note("v%d.remove(size) crashes", i);
        CHECK(mc::crashes([&] { (void)x.remove(n); }), "remove past the end did not crash");
        break;
      }
      case Erase: {
        size_t s = size_t(c.pick(int(n) + 1));
        size_t e = s + size_t(c.pick(int(n - s) + 1));
        int how = c.pick(3);
        c.note("v%d.erase(%zu..%zu)#%d", i, s, e, how);
        if (how == 0) x.erase({.start = s, .end = e});
        else if (how == 1) x.erase({.start = s, .count = e - s});
        else {
          if (e != n) throw mc::Skip{};
          x.erase({.start = s});
        }
        l.erase(l.begin() + long(s), l.begin() + long(e));
        break;
      }
      case EraseOob: {
        int how = c.pick(3);
        c.note("v%d.erase(out of range #%d) crashes", i, how);
        CHECK(mc::crashes([&] {
          if (how == 0) x.erase({.start = 0, .end = n + 1});
          if (how == 1) x.erase({.start = n + 1});
          if (how == 2) x.erase({.start = n, .count = 1});
        }), "erase out of range did not crash");
        break;
      }
      case Truncate: {
        size_t s = size_t(c.pick(int(n) + 2));
        c.note("v%d.truncate(%zu)", i, s);
        size_t cap = x.capacity();
        x.truncate(s);
        if (s < n) l.resize(s);
        CHECK(x.capacity() == cap, "truncate changed the capacity");
        break;
      }
      case Clear: {
        c.note("v%d.clear()", i);
        size_t cap = x.capacity();
        x.clear();
        l.clear();
        CHECK(x.capacity() == cap, "clear changed the capacity");
        break;
      }
      case Reserve: {
        static const size_t ks[] = {0, 1, 3, 6};
        size_t k2 = ks[c.pick(4)];
        c.note("v%d.reserve(%zu)", i, k2);
        x.reserve(k2);
        CHECK(x.capacity() >= n + k2, "reserve(%zu) left capacity %zu for size %zu", k2, x.capacity(), n);
        if (Storage) {
          // The promise: that many pushes do not resize.
          size_t cap = x.capacity();
          auto p = x.data();
          int allocs = el::Heap::g_allocs;
          for (size_t j = 0; j < k2; ++j) x.push(int(j));
          CHECK(x.capacity() == cap && x.data() == p && el::Heap::g_allocs == allocs, "push after reserve resized");
          x.truncate(n);
        }
        break;
      }
      case Shrink: {
        c.note("v%d.shrink_to_fit()", i);
        bool heap = x.is_on_heap();
        x.shrink_to_fit();
        if (Storage && heap && x.is_on_heap()) CHECK(x.capacity() == n, "shrink_to_fit left capacity %zu for size %zu", x.capacity(), n);
        break;
      }
      case Spill: {
        int h = c.pick(5);
        c.note("v%d.spill_to_heap(#%d)", i, h);
        size_t cap = x.capacity();
        if (h == 0) x.spill_to_heap();
        if (h == 1) x.spill_to_heap(n + 2);
        if (h == 2) x.spill_to_heap(n + 3, true);
        if (h == 3) x.spill_to_heap(9);
        if (h == 4) x.spill_to_heap(n ? n : 1, true);
        if (h != 0 || n) CHECK(x.is_on_heap(), "spill_to_heap left the vector inline");
        if (h == 1) CHECK(x.capacity() >= n + 2);
        if (h == 2) CHECK(x.capacity() == n + 3, "exact spill gave %zu", x.capacity());
        if (h == 3) CHECK(x.capacity() >= 9);
        (void)cap;
        break;
      }
      case Assign: {
        static const size_t ks[] = {0, 1, 3, 6};
        size_t cnt = ks[c.pick(4)];
        if (cnt > Max) throw mc::Skip{};
        std::vector<T> src;
        src.reserve(8);
        List add;
        for (size_t j = 0; j < cnt; ++j) add.push_back(next()), src.push_back(el::make<T>(add.back()));
        c.note("v%d.assign(%s)", i, show(add).c_str());
        x.assign(best::span<const T>(src.data(), src.size()));
        l = add;
        break;
      }
      case AssignVec: {  // from a vector with another inline capacity
        int cnt = c.pick(4);
        best::vec<T, N + 2, A> src{mk(0)};
        List add;
        for (int j = 0; j < cnt; ++j) add.push_back(next()), src.push(add.back());
        c.note("v%d.assign(vec<%zu>%s)", i, N + 2, show(add).c_str());
        x.assign(src);
        l = add;
        break;
      }
      case Copy: {
        if (k.size() > Max) throw mc::Skip{};
        c.note("v%d = v%d", i, 1 - i);
        x = o;
        l = k;
        break;
      }
      case CopySelf: {
        c.note("v%d = v%d", i, i);
        x = *&x;
        break;
      }
      case Move: {
        if (k.size() > Max) throw mc::Skip{};
        c.note("v%d = move(v%d)", i, 1 - i);
        x = std::move(o);
        l = k;
        k.clear();
        alloc[i] = alloc[1 - i];
        break;
      }
      case MoveSelf: {
        c.note("v%d = move(v%d)", i, i);
        x = std::move(*&x);
        break;
      }
      case CopyCtor: {
        if (n > 4 && i == 0) throw mc::Skip{};
        c.note("v%d{v%d}", 1 - i, i);
        o.~V();
        v[1 - i] = nullptr;
        memset(mem[1 - i], 0xe7, sizeof mem[0]);
        v[1 - i] = new (mem[1 - i]) V(static_cast<const V&>(x));
        k = l;
        alloc[1 - i] = alloc[i];
        break;
      }
      case MoveCtor: {
        if (n > 4 && i == 0) throw mc::Skip{};
        c.note("v%d{move(v%d)}", 1 - i, i);
        o.~V();
        v[1 - i] = nullptr;
        memset(mem[1 - i], 0xe7, sizeof mem[0]);
        v[1 - i] = new (mem[1 - i]) V(std::move(x));
        k = l;
        l.clear();
        alloc[1 - i] = alloc[i];
        break;
      }
      case Box: {
        if (n == 0) throw mc::Skip{};
        c.note("v%d -> box -> v%d", i, i);
        const int id = alloc[i];
        best::box<T[], A> bx = std::move(x).to_box();
        CHECK(x.size() == 0);
        CHECK(bx.as_ptr().meta() == n, "box has %zu elements", size_t(bx.as_ptr().meta()));
        for (size_t j = 0; j < n; ++j) CHECK(el::val(bx[j]) == l[j]);
        x.~V();
        v[i] = nullptr;
        memset(mem[i], 0xe7, sizeof mem[0]);
        v[i] = new (mem[i]) V(std::move(bx));
        CHECK(v[i]->capacity() == n);
        alloc[i] = id;
        break;
      }
      case Set: {
        if (n == 0) throw mc::Skip{};
        size_t at = size_t(c.pick(int(n)));
        int e = next();
        c.note("v%d[%zu] = %d", i, at, e);
        x[at] = el::make<T>(e);
        l[at] = e;
        break;
      }
      case Iter: {
        if (n > 4 && i == 0) throw mc::Skip{};
        c.note("v%d{v%d.iter()}", 1 - i, i);
        o.~V();
        v[1 - i] = nullptr;
        memset(mem[1 - i], 0xe7, sizeof mem[0]);
        v[1 - i] = new (mem[1 - i]) V(mk(0), x.iter());
        k = l;
        alloc[1 - i] = 0;
        break;
      }
    }
  }
};

template <typename T, size_t N, typename A, bool Two>
void explore(Ctx& c) {
  constexpr bool Stateful = std::is_same_v<A, el::Heap>;
  int k0 = c.pick(5);
  int k1 = Two ? c.pick(4) : c.pick(2);
  int id = Stateful ? c.pick(2) : 0;
  {
    Sys<T, N, A> s(c);
    s.make(0, k0, 0);
    s.make(1, k1, id);
    c.note("v0=%s v1=%s alloc1=%d", show(s.m[0]).c_str(), show(s.m[1]).c_str(), id);
    s.check_all();
    int depth = c.thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
      c.prune(s.hash(), depth - d);
      // The quick tier's last operation is on the first vector only.
      s.op(Two && (c.thorough() || d < depth - 1) ? c.pick(2) : 0);
      s.check_all();
    }
    c.state(s.hash());
  }
  if constexpr (el::tracked<T>)
    CHECK(el::g_live == 0, "%d elements leaked after destruction", el::g_live);
  if constexpr (std::is_same_v<A, el::Heap>)
    CHECK(el::Heap::live() == 0, "%zu blocks leaked after destruction", el::Heap::live());
}

// Growth through every size up to a large inline capacity and beyond.
template <typename T, size_t N>
void growth(Ctx& c) {
  el::reset();
  {
    int route = c.pick(4);
    int upto = int(N) + 40;
    best::vec<T, N> v;
    List m;
    c.note("grow to %d by route %d", upto, route);
    auto same = [&](auto& v, const List& m) {
      CHECK(v.size() == m.size(), "size %zu, expected %zu", v.size(), m.size());
      for (size_t i = 0; i < m.size(); ++i)
        CHECK(el::val(v[i]) == m[i], "element %zu of %zu is %d, expected %d", i, m.size(), el::val(v[i]), m[i]);
    };
    for (int i = 0; i < upto; ++i) {
      c.step();
      c.state(Ctx::mix(uint64_t(route), uint64_t(i)));
      int e = i % 100 + 1;
      if (route == 0) v.push(e), m.push_back(e);
      if (route == 1) v.insert(0, e), m.insert(m.begin(), e);
      if (route == 2) {
        T t = el::make<T>(e);
        v.append(best::span<const T>(&t, 1)), m.push_back(e);
      }
      if (route == 3) {
        v.insert(v.size() / 2, e), m.insert(m.begin() + long(m.size() / 2), e);
      }
      same(v, m);
      CHECK(v.capacity() >= v.size());
      CHECK(v.is_inlined() == (v.size() <= N), "size %zu inlined=%d", v.size(), v.is_inlined());
      best::vec<T, N> w = v;
      same(w, m);
      best::vec<T, N> u = std::move(w);
      same(u, m);
      CHECK(w.is_empty());
      w = u;
      same(w, m);
      w = std::move(u);
      same(w, m);
    }
    for (size_t i = m.size(); i-- > 0;) {
      c.step();
      if (route & 1) {
        T t = v.remove(i / 2);
        CHECK(el::val(t) == m[i / 2]);
        m.erase(m.begin() + long(i / 2));
      } else {
        CHECK(el::val(*v.pop()) == m.back());
        m.pop_back();
      }
      same(v, m);
    }
  }
  CHECK(el::g_live == 0, "%d elements leaked", el::g_live);
}

template <typename T>
void empty_box(Ctx& c) {
  // Empty boxes and vectors convert into one another.
  el::reset();
  int k = c.pick(3);
  c.note("empty box/vec conversion %d", k);
  c.step();
  c.state(uint64_t(k));
  if (k == 0) {
    best::vec<T> v(best::box<T[]>{});
    CHECK(v.is_empty());
    v.push(3);
    CHECK(v.size() == 1 && el::val(v[0]) == 3);
  } else if (k == 1) {
    best::vec<T> v;
    best::box<T[]> b = std::move(v).to_box();
    CHECK(b.as_ptr().meta() == 0);
  } else {
    best::vec<T> v;
    v.spill_to_heap(4);
    best::vec<T> w(std::move(v).to_box());
    CHECK(w.is_empty());
    w.push(4);
    CHECK(w.size() == 1 && el::val(w[0]) == 4);
  }
  CHECK(el::g_live == 0, "%d elements leaked", el::g_live);
}

#define B "all operation sequences over 28 operation kinds with every in-range argument (and out-of-range ones), sizes 0..7, from every initial size"
#if VEC_PART == 1
SCENARIO_T(int_inline3, B, mc::LeakCheck, explore<int, 3, best::malloc, true>);
SCENARIO_T(sml_default, B, mc::LeakCheck, explore<el::Sml, 3, best::malloc, true>);
SCENARIO_T(trk_inline2, B, mc::LeakCheck, explore<el::Trk, 2, best::malloc, true>);
#elif VEC_PART == 2
SCENARIO_T(trk_heap, B, mc::LeakCheck, explore<el::Trk, 0, el::Heap, true>);
SCENARIO_T(rel_inline2, B, mc::LeakCheck, explore<el::Rel, 2, el::Heap, true>);
SCENARIO_T(u8_heap, B, mc::LeakCheck, explore<unsigned char, 0, best::malloc, true>);
#elif VEC_PART == 3
SCENARIO_T(trk_inline2_alloc, B, mc::LeakCheck, explore<el::Trk, 2, el::Heap, true>);
SCENARIO_T(ovr_inline1, B, mc::LeakCheck, explore<el::Ovr, 1, el::Heap, true>);
SCENARIO_T(int_alloc, B, mc::LeakCheck, explore<int, 2, el::Heap, true>);
#elif VEC_PART == 4
#define G "growth and shrinkage through every size 0..N+40 by four routes, copying and moving at every size"
SCENARIO_T(grow_u8_default, G, mc::LeakCheck, growth<unsigned char, 23>);
SCENARIO_T(grow_u8_127, G, mc::LeakCheck, growth<unsigned char, 127>);
SCENARIO_T(grow_u8_130, G, mc::LeakCheck, growth<unsigned char, 130>);
SCENARIO_T(grow_int_200, G, mc::LeakCheck, growth<int, 200>);
SCENARIO_T(grow_sml_260, G, mc::LeakCheck, growth<el::Sml, 260>);
SCENARIO_T(grow_trk_9, G, mc::LeakCheck, growth<el::Trk, 9>);
SCENARIO_T(grow_rel_5, G, mc::LeakCheck, growth<el::Rel, 5>);
SCENARIO_T(empty_box_int, "empty box/vector conversions", mc::LeakCheck, empty_box<int>);
SCENARIO_T(empty_box_trk, "empty box/vector conversions", mc::LeakCheck, empty_box<el::Trk>);
#endif
}  // namespace
