// O01: option, against a model with one value (or none, or moved-from).
#include <memory>
#include <optional>

#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "elems.h"
#include "mc.h"

#ifndef OPT_PART
#define OPT_PART 1
#endif
using mc::Ctx;

namespace optv {
constexpr int None = -100;

// Not assignable.
struct Con {
  const el::Trk t;
  explicit Con(int x) : t(x) {}
  int get() const { return t.get(); }
  bool operator==(const Con& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Con& o) const { return get() <=> o.get(); }
};
// Only moves.
struct Mov {
  el::Trk t;
  explicit Mov(int x) : t(x) {}
  Mov(Mov&&) = default;
  Mov& operator=(Mov&&) = default;
  int get() const { return t.get(); }
  bool operator==(const Mov& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Mov& o) const { return get() <=> o.get(); }
};
// Trivially copyable, but not small; implicitly convertible.
struct Big {
  int a[5];
  Big(int x) : a{x, x, x, x, x} {}
  int get() const { return a[0] == a[4] ? a[0] : -1; }
  bool operator==(const Big& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Big& o) const { return get() <=> o.get(); }
};
using Bx = best::box<el::Trk>;

template <typename T> T mk(int v) {
  if constexpr (std::is_same_v<T, best::rune>) return best::rune::from_int(uint32_t(v)).value_or();
  else return T(v);
}
inline int vv(const Bx& b) { return b.raw() == best::ptr<el::Trk>::dangling().raw() ? el::Moved : b->get(); }
inline int vv(int i) { return i; }
inline int vv(best::rune r) { return int(r.to_int()); }
template <typename T> int vv(const T& t) { return t.get(); }

template <typename T> constexpr bool copies = best::copyable<T>;
// Whether moving out of a T shows.
template <typename T> constexpr bool shows = !std::is_trivially_copyable_v<T> && !std::is_same_v<T, Con>;
template <typename T> int after_move(int v) { return v == None || !shows<T> ? v : el::Moved; }

template <typename T> struct Sys {
  using O = best::option<T>;
  Ctx& c;
  alignas(O) char mem[2][sizeof(O)];
  O* o[2] = {};
  int m[2] = {None, None};
  explicit Sys(Ctx& c) : c(c) { el::reset(); }
  ~Sys() {
    for (O* p : o)
      if (p) p->~O();
  }
  template <typename... A> void build(int i, A&&... a) {
    if (o[i]) o[i]->~O();
    o[i] = nullptr;
    memset(mem[i], 0xe7, sizeof(O));
    o[i] = new (mem[i]) O(std::forward<A>(a)...);
  }
  uint64_t hash() { return Ctx::mix(uint64_t(m[0] + 1000), uint64_t(m[1] + 1000)); }
  std::string show() { return mc::str("%d %d", m[0], m[1]); }

  void check() {
    for (int i = 0; i < 2; ++i) same(*o[i], m[i]);
    c.state(hash());
  }
  // Everything that only looks.
  static void same(O& x, int v) {
    const O& k = x;
    CHECK(k.has_value() == (v != None) && k.is_empty() == (v == None) && bool(k) == (v != None), "expected %d", v);
    CHECK((k.as_ptr() != nullptr) == (v != None) && (x.as_ptr() != nullptr) == (v != None));
    CHECK((k == best::none) == (v == None));
    CHECK((best::none == k) == (v == None));
    CHECK((k <=> best::none) == (v == None ? best::ord::equal : best::ord::greater));
    if (v != None) {
      CHECK(vv(*k) == v && vv(*x) == v, "%d, expected %d", vv(*k), v);
      CHECK(vv(k.value()) == v && vv(x.value()) == v && vv(*k.as_ptr()) == v && vv(*x.as_ptr()) == v);
      CHECK(&*k == k.as_ptr() && k.operator->() == k.as_ptr() && x.operator->() == x.as_ptr());
      CHECK((const char*)k.as_ptr() >= (const char*)&x && (const char*)(k.as_ptr() + 1) <= (const char*)(&x + 1), "the value is not inside");
      CHECK(vv(k.value(best::unsafe("has a value"))) == v);
      CHECK(vv(static_cast<O&&>(x).value()) == v && vv(*static_cast<O&&>(x)) == v && vv(*static_cast<const O&&>(x)) == v);
      CHECK(vv(**k.as_object()) == v && vv(**x.as_object()) == v);
      CHECK(vv(*k.as_ref()) == v && &*k.as_ref() == k.as_ptr() && &*x.as_ref() == k.as_ptr());
      CHECK(static_cast<O&&>(x).as_ref().as_ptr() == k.as_ptr());
      static_assert(std::is_same_v<decltype(*k), const T&> && std::is_same_v<decltype(*x), T&> && std::is_same_v<decltype(*static_cast<O&&>(x)), T&&>);
      static_assert(std::is_same_v<decltype(k.as_ref()), best::option<const T&>> && std::is_same_v<decltype(x.as_ref()), best::option<T&>>);
      static_assert(std::is_same_v<decltype(static_cast<O&&>(x).as_ref()), best::option<T&&>>);
    } else {
      CHECK(k.as_ref().is_empty() && x.as_ref().is_empty() && static_cast<O&&>(x).as_ref().is_empty());
      CHECK(k.as_object().is_empty() && x.as_object().is_empty());
    }
    if constexpr (copies<T>) {
      const int e = v == None ? 9 : v;
      if (v != el::Moved) {
        CHECK(vv(k.value_or(mk<T>(9))) == e);
        CHECK(vv(k.value_or([] { return mk<T>(9); })) == e);
        O cp = k.copy();
        CHECK(cp.has_value() == (v != None) && (v == None || vv(*cp) == v));
      }
    }
    for (int want = 0; want < 2; ++want) {
      int calls = 0;
      CHECK(k.has_value([&](const T& t) { ++calls; CHECK(vv(t) == v); return want == 1; }) == (want && v != None));
      CHECK(calls == (v != None));
    }
    // The callback gets a reference to the content with the option's own constness and category.
    auto cat = [&]<typename Want>(std::type_identity<Want>, auto&& self) {
      int calls = 0;
      auto f = [&](auto&& t) {
        static_assert(std::is_same_v<decltype(t), Want>);
        CHECK(&t == k.as_ptr(), "the callback gets something else");
        ++calls;
        return vv(t) + 1;
      };
      using S = decltype(self);
      best::option<int> r = static_cast<S>(self).map(f);
      CHECK(r.has_value() == (v != None) && (v == None || *r == v + 1) && calls == (v != None), "map()");
      CHECK(static_cast<S>(self).map(77, f) == (v == None ? 77 : v + 1), "map() with default");
      CHECK(static_cast<S>(self).map([] { return 78; }, f) == (v == None ? 78 : v + 1), "map() with default callback");
      for (int keep = 0; keep < 2; ++keep) {
        auto g = [&](auto&& t) -> best::option<int> {
          static_assert(std::is_same_v<decltype(t), Want>);
          if (!keep) return best::none;
          return vv(t) + 2;
        };
        best::option<int> h = static_cast<S>(self).then(g);
        CHECK(h.has_value() == (keep && v != None) && (h.is_empty() || *h == v + 2), "then()");
      }
      calls = 0;
      auto&& back = static_cast<S>(self).inspect([&](const T& t) { ++calls; CHECK(vv(t) == v); });
      static_assert(std::is_same_v<decltype(back), S>);
      CHECK(&back == &k && calls == (v != None), "inspect()");
    };
    cat(std::type_identity<const T&>(), static_cast<const O&>(x));
    cat(std::type_identity<T&>(), static_cast<O&>(x));
    cat(std::type_identity<const T&&>(), static_cast<const O&&>(x));
    cat(std::type_identity<T&&>(), static_cast<O&&>(x));
    if constexpr (copies<T>) {
      if (v != el::Moved)
        for (int keep = 0; keep < 2; ++keep) {
          O f = k.filter([&](const T&) { return keep == 1; });
          CHECK(f.has_value() == (keep && v != None) && (f.is_empty() || vv(*f) == v), "filter()");
        }
      // Lvalues are not moved from.
      if (v != el::Moved) {
        auto r1 = k.ok_or(5);
        auto r2 = x.ok_or(6);
        auto r3 = k.template ok_or<long>(7);
        auto r4 = x.template ok_or<long>(8);
        auto r5 = k.ok_or([] { return 9; });
        auto r6 = x.ok_or([] { return 10; });
        int e = 5;
        auto oks = [&](auto& r) {
          CHECK(r.is_ok() == (v != None), "ok_or(%d)", e);
          if (v != None) CHECK(vv(*r.ok()) == v, "ok_or(%d) gives %d, expected %d", e, vv(*r.ok()), v);
          else CHECK(*r.err() == e, "ok_or(%d) gives error %d", e, int(*r.err()));
          ++e;
        };
        oks(r1), oks(r2), oks(r3), oks(r4), oks(r5), oks(r6);
        auto s1 = k.err_or(5);
        auto s2 = x.err_or(6);
        auto s3 = k.template err_or<long>(7);
        auto s4 = x.template err_or<long>(8);
        auto s5 = k.err_or([] { return 9; });
        auto s6 = x.err_or([] { return 10; });
        e = 5;
        auto errs = [&](auto& r) {
          CHECK(r.is_err() == (v != None), "err_or(%d)", e);
          if (v != None) CHECK(vv(*r.err()) == v, "err_or(%d) gives %d, expected %d", e, vv(*r.err()), v);
          else CHECK(*r.ok() == e, "err_or(%d) gives %d", e, int(*r.ok()));
          ++e;
        };
        errs(s1), errs(s2), errs(s3), errs(s4), errs(s5), errs(s6);
      }
    }
    CHECK(k.has_value() == (v != None) && (v == None || vv(*k) == v), "the option was changed by looking at it: expected %d", v);
  }
  // Two options.
  void pair(Ctx& c) {
    const O &a = *o[0], &b = *o[1];
    if (m[0] == el::Moved || m[1] == el::Moved) return;
    CHECK((a == b) == (m[0] == m[1]) && (a != b) == (m[0] != m[1]) && (b == a) == (m[0] == m[1]));
    CHECK((a <=> b) == (m[0] <=> m[1]) && (a < b) == (m[0] < m[1]) && (a >= b) == (m[0] >= m[1]));
    CHECK((a.as_ref() == b.as_ref()) == (m[0] == m[1]));
    if (m[1] != None) {
      CHECK((a == *b) == (m[0] == m[1]), "compared with a value");
      CHECK((*b == a) == (m[0] == m[1]), "value compared with an option");
      CHECK((a <=> *b) == (m[0] <=> m[1]), "ordered against a value");
    }
    if constexpr (copies<T>) {
      auto is = [&](const O& r, int v, const char* what) {
        CHECK(r.has_value() == (v != None) && (v == None || vv(*r) == v), "%s of %d and %d", what, m[0], m[1]);
      };
      is(a & b, m[0] == None ? None : m[1], "&");
      is(a | b, m[0] == None ? m[1] : m[0], "|");
      is(a ^ b, (m[0] == None) == (m[1] == None) ? None : m[0] == None ? m[1] : m[0], "^");
      // By moving.
      auto moved = [&](auto f, int v, const char* what, int left) {
        O x = a, y = b;
        is(f(std::move(x), y), v, what);
        is(y, m[1], "moving |, & or ^ changed its right operand");
        if (left != el::Moved || shows<T>) CHECK((x.has_value() ? vv(*x) : None) == left, "%s leaves %d, expected %d", what, x.has_value() ? vv(*x) : None, left);
      };
      moved([](O&& x, O& y) { return std::move(x) | y; }, m[0] == None ? m[1] : m[0], "moving |", after_move<T>(m[0]));
      moved([](O&& x, O& y) { return std::move(x) ^ y; }, (m[0] == None) == (m[1] == None) ? None : m[0] == None ? m[1] : m[0], "moving ^",
            m[1] == None ? after_move<T>(m[0]) : m[0]);
    }
  }

  enum Op { SetNone, Reset, SetVal, SetLval, Emplace, OrEmplace, Copy, Move, SelfCopy, SelfMove, CopyCtor, MoveCtor, Deref, FromRef, FromRRef, FromInt,
            SetContent, MoveContent, EmplaceContent, EmplaceSelf, Swap, ValueOr, ValueOrFn, OkOr, OkOrT, OkOrFn, ErrOr, ErrOrT, ErrOrFn, CopyOut, Map, Then, Filter, InPlace, FromValue,
            Object, Round, N };
  void op() {
    c.step();
    const int i = c.pick(2);
    O &x = *o[i], &y = *o[1 - i];
    int &mx = m[i], &my = m[1 - i];
    const int v = 1 + c.pick(2);
    int k = c.pick(N);
    // Operations that do not use the value run once.
    if (v == 2 && !(k == SetVal || k == SetLval || k == Emplace || k == OrEmplace || k == Deref || k == FromInt || k == InPlace || k == FromValue)) throw mc::Skip{};
    c.note("op %d on %d with %d", k, i, v);
    const bool moved = mx == el::Moved || my == el::Moved;
    auto into = [&](auto&& r, int e, const char* what) {
      CHECK(r.has_value() == (e != None), "%s: expected %d", what, e);
      if (e != None) CHECK(vv(*r) == e, "%s: %d, expected %d", what, vv(*r), e);
    };
    auto ok = [&](auto&& r, int e) {
      CHECK(r.is_ok() == (mx != None));
      if (mx != None) CHECK(vv(*r.ok()) == mx);
      else CHECK(*r.err() == e);
      mx = after_move<T>(mx);
    };
    auto err = [&](auto&& r, int e) {
      CHECK(r.is_err() == (mx != None));
      if (mx != None) CHECK(vv(*r.err()) == mx);
      else CHECK(*r.ok() == e);
      mx = after_move<T>(mx);
    };
    switch (k) {
      case SetNone: x = best::none; mx = None; break;
      case Reset: x.reset(); mx = None; break;
      case SetVal: x = mk<T>(v); mx = v; break;
      case SetLval:
        if constexpr (copies<T>) {
          T t = mk<T>(v);
          x = t;
          CHECK(vv(t) == v);
          mx = v;
          break;
        } else throw mc::Skip{};
      case Emplace: {
        auto& r = x.emplace(mk<T>(v));
        CHECK(&r == x.as_ptr());
        mx = v;
        break;
      }
      case OrEmplace: {
        auto& r = x.or_emplace(mk<T>(v));
        CHECK(&r == x.as_ptr());
        if (mx == None) mx = v;
        break;
      }
      case Copy:
        if constexpr (copies<T>) {
          if (my == el::Moved) throw mc::Skip{};
          O& r = (x = static_cast<const O&>(y));
          CHECK(&r == &x);
          mx = my;
          break;
        } else throw mc::Skip{};
      case Move: {
        O& r = (x = std::move(y));
        CHECK(&r == &x);
        mx = my;
        my = after_move<T>(my);
        break;
      }
      case SelfCopy:
        if constexpr (copies<T>) {
          if (mx == el::Moved) throw mc::Skip{};
          O& z = x;
          x = z;
          break;
        } else throw mc::Skip{};
      case SelfMove: {
        O& z = x;
        x = std::move(z);
        break;
      }
      case CopyCtor:
        if constexpr (copies<T>) {
          if (my == el::Moved) throw mc::Skip{};
          build(i, static_cast<const O&>(y));
          mx = my;
          break;
        } else throw mc::Skip{};
      case MoveCtor:
        build(i, std::move(y));
        mx = my;
        my = after_move<T>(my);
        break;
      case Deref:
        if (mx == None) throw mc::Skip{};
        if constexpr (!std::is_same_v<T, Con>) {
          *x = mk<T>(v);
          mx = v;
          break;
        } else throw mc::Skip{};
      case FromRef:
        if constexpr (copies<T>) {
          if (my == el::Moved) throw mc::Skip{};
          best::option<const T&> r = y;
          x = r;
          mx = my;
          break;
        } else throw mc::Skip{};
      case FromRRef: {
        best::option<T&&> r(std::move(y));
        same(y, my);
        x = std::move(r);
        mx = my;
        my = after_move<T>(my);
        break;
      }
      case FromInt:
        if constexpr (!std::is_same_v<T, best::rune> && !std::is_same_v<T, Bx>) {
          best::option<short> s = short(v);
          if (mx == 1) s = best::none;
          x = s;
          mx = s ? v : None;
          break;
        } else throw mc::Skip{};
      case SetContent:
        if constexpr (copies<T>) {
          if (my == None || my == el::Moved) throw mc::Skip{};
          x = *static_cast<const O&>(y);
          mx = my;
          break;
        } else throw mc::Skip{};
      case MoveContent:
        if (my == None) throw mc::Skip{};
        x = *std::move(y);
        mx = my;
        my = after_move<T>(my);
        break;
      case EmplaceContent:
        if constexpr (copies<T>) {
          if (my == None || my == el::Moved) throw mc::Skip{};
          x.emplace(*y);
          mx = my;
          break;
        } else throw mc::Skip{};
      case EmplaceSelf:
        // A value assigned to itself.
        if constexpr (copies<T> && !std::is_same_v<T, Con>) {
          if (mx == None || mx == el::Moved) throw mc::Skip{};
          x.emplace(*x);
          break;
        } else throw mc::Skip{};
      case Swap:
        if (moved) throw mc::Skip{};
        std::swap(x, y);
        std::swap(mx, my);
        break;
      case ValueOr: {
        T t = std::move(x).value_or(mk<T>(8));
        CHECK(vv(t) == (mx == None ? 8 : mx));
        mx = after_move<T>(mx);
        break;
      }
      case ValueOrFn: {
        int calls = 0;
        T t = std::move(x).value_or([&] { return ++calls, mk<T>(8); });
        CHECK(vv(t) == (mx == None ? 8 : mx) && calls == (mx == None));
        mx = after_move<T>(mx);
        break;
      }
      case OkOr: ok(std::move(x).ok_or(3), 3); break;
      case OkOrT: ok(std::move(x).template ok_or<long>(4), 4); break;
      case OkOrFn: ok(std::move(x).ok_or([] { return 5; }), 5); break;
      case ErrOr: err(std::move(x).err_or(3), 3); break;
      case ErrOrT: err(std::move(x).template err_or<long>(4), 4); break;
      case ErrOrFn: err(std::move(x).err_or([] { return 5; }), 5); break;
      case CopyOut: {
        auto r = std::move(x).copy();
        static_assert(std::is_same_v<decltype(r), O>);
        into(r, mx, "copy()");
        mx = after_move<T>(mx);
        break;
      }
      case Map: {
        auto r = std::move(x).map([](T&& t) { return T(std::move(t)); });
        static_assert(std::is_same_v<decltype(r), O>);
        into(r, mx, "map()");
        mx = after_move<T>(mx);
        break;
      }
      case Then: {
        auto r = std::move(x).then([](T&& t) { return O(T(std::move(t))); });
        into(r, mx, "then()");
        mx = after_move<T>(mx);
        break;
      }
      case Filter: {
        bool keep = my != None;
        auto r = std::move(x).filter([&](const T& t) { return keep; });
        into(r, keep ? mx : None, "filter()");
        if (keep) mx = after_move<T>(mx);
        break;
      }
      case InPlace: build(i, best::in_place, mk<T>(v)); mx = v; break;
      case FromValue: build(i, mk<T>(v)); mx = v; break;
      case Object: {
        auto r = std::move(x).as_object();
        static_assert(std::is_same_v<decltype(r), best::option<best::object<T>&&>>);
        CHECK(r.has_value() == (mx != None));
        if (mx != None) {
          T t = **std::move(r);
          CHECK(vv(t) == mx);
          mx = after_move<T>(mx);
        }
        break;
      }
      case Round: {
        // Through a result and back.
        O t = std::move(x).ok_or(3).ok();
        into(t, mx, "result");
        x = std::move(t);
        if (mx == None) mx = None;
        break;
      }
      default: throw mc::Skip{};
    }
  }
};

template <typename T> void options(Ctx& c) {
  int depth = c.thorough() ? 7 : 5;
  {
    Sys<T> s(c);
    s.build(0);
    s.build(1);
    s.check();
    for (int d = 0; d < depth; ++d) {
      c.prune(s.hash(), depth - d);
      s.op();
      s.check();
      s.pair(c);
    }
  }
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}

// Taking the value out of nothing ends the program.
template <typename T> void empty(Ctx& c) {
  el::reset();
  int how = c.pick(8);
  bool full = c.flip();
  c.step();
  best::option<T> x;
  if (full) x = mk<T>(1);
  const auto& k = x;
  bool crashed = mc::crashes([&] {
    switch (how) {
      case 0: (void)k.value(); break;
      case 1: (void)x.value(); break;
      case 2: (void)std::move(x).value(); break;
      case 3: (void)*k; break;
      case 4: (void)*x; break;
      case 5: (void)*std::move(x); break;
      case 6: (void)k.operator->(); break;
      case 7: (void)x.operator->(); break;
    }
  });
  CHECK(crashed == !full, "way %d, has a value: %d", how, full);
  if (crashed) {
    std::string s = mc::take_output();
    CHECK(s.find("unwrapped a best::none") != std::string::npos, "message: %s", s.c_str());
  }
  c.state(uint64_t(how) * 2 + full);
}

// Options of references refer; assigning rebinds.
template <typename R> void refs(Ctx& c) {
  using V = std::remove_reference_t<R>;
  using O = best::option<R>;
  std::remove_const_t<V> pool[3] = {10, 11, 12};
  O o[2];
  int m[2] = {-1, -1};
  auto at = [&](int i) -> R { return static_cast<R>(pool[i]); };
  int depth = c.thorough() ? 7 : 5;
  for (int d = 0; d < depth; ++d) {
    c.prune(Ctx::mix(uint64_t(m[0] + 5), uint64_t(m[1] + 5)), depth - d);
    c.step();
    int i = c.pick(2), k = c.pick(11), p = c.pick(3);
    if (p && (k == 0 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8)) throw mc::Skip{};
    c.note("op %d on %d with %d", k, i, p);
    O &x = o[i], &y = o[1 - i];
    switch (k) {
      case 0: x = best::none; m[i] = -1; break;
      case 1: x = O(best::bind, at(p)); m[i] = p; break;
      case 2: x.emplace(at(p)); m[i] = p; break;
      case 3: x.or_emplace(at(p)); if (m[i] < 0) m[i] = p; break;
      case 4:
      case 6:
      case 7:
        if constexpr (std::is_lvalue_reference_v<R>) {
          if (k == 4) x = y, m[i] = m[1 - i];
          if (k == 6) x = *&x;
          if (k == 7) x = O(y), m[i] = m[1 - i];
          break;
        } else throw mc::Skip{};
      case 5: x = std::move(y); m[i] = m[1 - i]; break;
      case 8: std::swap(x, y); std::swap(m[0], m[1]); break;
      case 9:
        if constexpr (std::is_lvalue_reference_v<R>) x = &pool[p];
        else throw mc::Skip{};
        m[i] = p;
        break;
      case 10:
        if constexpr (std::is_lvalue_reference_v<R>) x = p == 0 ? (V*)nullptr : &pool[p];
        else throw mc::Skip{};
        m[i] = p == 0 ? -1 : p;
        break;
    }
    for (int j = 0; j < 2; ++j) {
      CHECK(o[j].has_value() == (m[j] >= 0) && o[j].is_empty() == (m[j] < 0));
      CHECK(o[j].as_ptr() == (m[j] < 0 ? nullptr : &pool[m[j]]), "refers to the wrong object");
      const O& k = o[j];
      CHECK(k.as_ptr() == o[j].as_ptr());
      if (m[j] >= 0) {
        CHECK(&*k.as_ptr() == &pool[m[j]] && vv(*k) == 10 + m[j] && vv(k.value()) == 10 + m[j]);
        if constexpr (std::is_lvalue_reference_v<R>) {
          best::option<std::remove_const_t<V>> cp = k.copy();
          CHECK(vv(*cp) == 10 + m[j] && (const void*)cp.as_ptr() != (const void*)&pool[m[j]]);
          best::option<const V&> cr = k.as_ref();
          CHECK(cr.as_ptr() == &pool[m[j]]);
        }
        CHECK(k == pool[m[j]] && k != pool[(m[j] + 1) % 3]);
        CHECK((k <=> pool[1]) == (m[j] <=> 1));
      } else if constexpr (std::is_lvalue_reference_v<R>) {
        CHECK(k.copy().is_empty() && k.as_ref().is_empty());
      }
      CHECK((k == best::none) == (m[j] < 0));
      if constexpr (std::is_lvalue_reference_v<R>) {
        for (int q = 0; q < 3; ++q) CHECK((k == &pool[q]) == (m[j] == q));
        CHECK((k == (V*)nullptr) == (m[j] < 0));
        best::option<long> cv = k.map([&](auto&& t) { CHECK(&t == &pool[m[j]]); return long(vv(t)); });
        CHECK(cv.has_value() == (m[j] >= 0) && (cv.is_empty() || *cv == 10 + m[j]));
        auto r = k.ok_or(5);
        CHECK(r.is_ok() == (m[j] >= 0) && (r.is_err() || &*r.ok() == &pool[m[j]]));
        auto e = o[j].err_or(5);
        CHECK(e.is_err() == (m[j] >= 0) && (e.is_ok() || &*e.err() == &pool[m[j]]));
      }
    }
    CHECK((o[0] == o[1]) == (m[0] == m[1]) && (o[0] <=> o[1]) == (m[0] <=> m[1]));
    for (int q = 0; q < 3; ++q) CHECK(vv(pool[q]) == 10 + q, "an object was written to");
    c.state(Ctx::mix(uint64_t(m[0] + 5), uint64_t(m[1] + 5)));
  }
}

// Nothing, or the fact that there is something.
void voids(Ctx& c) {
  using O = best::option<void>;
  O o[2];
  bool m[2] = {};
  int depth = 4;
  for (int d = 0; d < depth; ++d) {
    c.prune(uint64_t(m[0] + 2 * m[1]), depth - d);
    c.step();
    int i = c.pick(2), k = c.pick(9);
    c.note("op %d on %d", k, i);
    O &x = o[i], &y = o[1 - i];
    switch (k) {
      case 0: x = best::none; m[i] = false; break;
      case 1: x = best::VoidOption; m[i] = true; break;
      case 2: x.emplace(); m[i] = true; break;
      case 3: x = y; m[i] = m[1 - i]; break;
      case 4: x = std::move(y); m[i] = m[1 - i]; break;
      case 5: std::swap(x, y); std::swap(m[0], m[1]); break;
      case 6: x = best::option<int>(m[1 - i] ? best::option<int>(1) : best::none); m[i] = m[1 - i]; break;
      case 7: x = best::empty{}; m[i] = true; break;
      case 8: x.reset(); m[i] = false; break;
    }
    for (int j = 0; j < 2; ++j) {
      const O& k = o[j];
      CHECK(k.has_value() == m[j] && k.is_empty() == !m[j] && bool(k) == m[j] && (k == best::none) == !m[j]);
      CHECK(k.has_value([] { return true; }) == m[j] && !k.has_value([] { return false; }));
      int calls = 0;
      auto r = k.map([&] { return ++calls, 5; });
      CHECK(r.has_value() == m[j] && calls == m[j] && (!m[j] || *r == 5));
      auto t = k.then([&]() -> best::option<int> { return ++calls, 6; });
      CHECK(t.has_value() == m[j] && calls == 2 * m[j]);
      k.inspect([&] { ++calls; });
      CHECK(calls == 3 * m[j]);
      auto res = k.ok_or(7);
      CHECK(res.is_ok() == m[j] && (m[j] || *res.err() == 7));
      auto rer = O(k).err_or([] { return 8; });
      CHECK(rer.is_err() == m[j] && (m[j] || *rer.ok() == 8));
      auto f = k.filter([] { return true; });
      CHECK(f.has_value() == m[j] && k.filter([] { return false; }).is_empty());
      CHECK(best::format("{:?}", k) == (m[j] ? best::str("option(void)") : best::str("none")));
    }
    CHECK((o[0] == o[1]) == (m[0] == m[1]) && (o[0] <=> o[1]) == (m[0] <=> m[1]));
    CHECK((o[0] & o[1]).has_value() == (m[0] && m[1]) && (o[0] | o[1]).has_value() == (m[0] || m[1]) && (o[0] ^ o[1]).has_value() == (m[0] != m[1]));
    c.state(uint64_t(m[0] + 2 * m[1]));
  }
}

// Options of options keep all their states apart; also for types that store
// emptiness in the value itself.
template <typename T> void nested(Ctx& c, T a, T b) {
  using I = best::option<T>;
  using O = best::option<I>;
  auto mkst = [&](int s) { return s == 0 ? O() : s == 1 ? O(best::in_place) : O(best::in_place, s == 2 ? a : b); };
  int s0 = c.pick(4), s1 = c.pick(4), how = c.pick(4);
  c.step();
  O x = mkst(s0), y = mkst(s1);
  auto is = [&](const O& o, int s) {
    CHECK(o.has_value() == (s > 0));
    if (s > 0) CHECK(o->has_value() == (s > 1));
    if (s > 1) CHECK(vv(**o) == vv(s == 2 ? a : b));
  };
  is(x, s0), is(y, s1);
  CHECK((x == y) == (s0 == s1));
  CHECK((x < y) == (s0 < s1));
  switch (how) {
    case 0: x = y; s0 = s1; break;
    case 1: x = std::move(y); s0 = s1; break;
    case 2: std::swap(x, y); std::swap(s0, s1); break;
    case 3: x = I(); s0 = 1; break;
  }
  is(x, s0);
  if (how != 1) is(y, s1);
  c.state(uint64_t(s0 * 4 + s1));
}

// BEST_GUARD() returns early exactly with what is missing.
void guards(Ctx& c) {
  el::reset();
  int s = c.pick(3), how = c.pick(4);
  c.step();
  {
    int went = 0;
    best::option<el::Trk> o;
    if (s) o = el::Trk(s);
    best::result<el::Trk, int> r = s == 1 ? best::result<el::Trk, int>(best::err(44)) : best::result<el::Trk, int>(best::ok(el::Trk(s)));
    auto viaopt = [&](best::option<el::Trk>& x) -> best::option<int> {
      BEST_GUARD(x);
      ++went;
      return x->get() * 2;
    };
    auto viatmp = [&](best::option<el::Trk>& x) -> best::option<long> {
      BEST_GUARD(best::option<el::Trk>(x));
      ++went;
      return x->get() * 3;
    };
    auto viares = [&](best::result<el::Trk, int>& x) -> best::result<int, int> {
      BEST_GUARD(x);
      ++went;
      return best::ok((*x.ok()).get() * 2);
    };
    auto viarestmp = [&](best::result<el::Trk, int>& x) -> best::result<int, long> {
      BEST_GUARD((best::result<el::Trk, int>(x)));
      ++went;
      return best::ok((*x.ok()).get() * 2);
    };
    if (how == 0) {
      auto q = viaopt(o);
      CHECK(q.has_value() == (s > 0) && went == (s > 0) && (!s || *q == 2 * s));
    } else if (how == 1) {
      auto q = viatmp(o);
      CHECK(q.has_value() == (s > 0) && went == (s > 0) && (!s || *q == 3 * s));
    } else if (how == 2) {
      auto q = viares(r);
      CHECK(q.is_ok() == (s != 1) && went == (s != 1));
      if (s == 1) CHECK(*q.err() == 44);
      else CHECK(*q.ok() == 2 * s);
    } else {
      auto q = viarestmp(r);
      CHECK(q.is_ok() == (s != 1) && went == (s != 1));
      if (s == 1) CHECK(*q.err() == 44);
      else CHECK(*q.ok() == 2 * s);
    }
  }
  CHECK(el::g_live == 0);
  c.state(uint64_t(s * 4 + how));
}
}  // namespace optv
using namespace optv;

#define D "every reachable state of two options under every sequence of 5 (thorough 7) of 37 operations: "
#if OPT_PART == 1
SCENARIO_T(opt_int, D "int", mc::LeakCheck, options<int>);
SCENARIO_T(opt_trk, D "tracked objects", mc::LeakCheck, options<el::Trk>);
SCENARIO_T(opt_big, D "trivial structs", mc::LeakCheck, options<Big>);
SCENARIO_T(opt_con, D "copyable but not assignable", mc::LeakCheck, options<Con>);
#elif OPT_PART == 2
SCENARIO_T(opt_mov, D "move-only", mc::LeakCheck, options<Mov>);
SCENARIO_T(opt_box, D "boxes (a niche)", mc::LeakCheck, options<Bx>);
SCENARIO_T(opt_rune, D "runes (a niche)", mc::LeakCheck, options<best::rune>);
SCENARIO_T(opt_ovr, D "over-aligned", mc::LeakCheck, options<el::Ovr>);
#elif OPT_PART == 3
SCENARIO_T(empty_trk, "eight ways to take the value, of an empty and of a full option", mc::LeakCheck, empty<el::Trk>);
SCENARIO_T(empty_rune, "eight ways to take the value, of an empty and of a full option", mc::LeakCheck, empty<best::rune>);
SCENARIO_T(refs_int, "every reachable state of two options of int& under every sequence of 5 (7) of 11 operations", mc::LeakCheck, refs<int&>);
SCENARIO_T(refs_const, "the same of const int&", mc::LeakCheck, refs<const int&>);
SCENARIO_T(refs_big, "the same of Big&", mc::LeakCheck, refs<Big&>);
SCENARIO_T(refs_rvalue, "the same of int&&", mc::LeakCheck, refs<int&&>);
SCENARIO(voids, "every state of two options of void under every sequence of 4 of 9 operations", mc::LeakCheck) { optv::voids(c); }
SCENARIO(nested_int, "every pair of states of nested options, four operations", mc::LeakCheck) { nested<int>(c, 1, 2); }
SCENARIO(nested_rune, "every pair of states of nested options, four operations", mc::LeakCheck) { nested<best::rune>(c, 'a', 'b'); }
SCENARIO(nested_big, "every pair of states of nested options, four operations", mc::LeakCheck) { nested<Big>(c, 1, 2); }
SCENARIO(nested_zero, "every pair of states of nested options, four operations", mc::LeakCheck) { nested<best::rune>(c, '\0', '\1'); }
SCENARIO(guards, "full and empty option and result, lvalue and temporary", mc::LeakCheck) { optv::guards(c); }
#endif
