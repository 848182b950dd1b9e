// O05: best::object and best::pun, which make any type a member.
#include <compare>
#include <new>
#include <string>
#include <type_traits>

#include "best/container/object.h"
#include "best/container/pun.h"
#include "best/text/format.h"
#include "elems.h"
#include "mc.h"

namespace {
using el::Trk;
using mc::Ctx;

struct MoveOnly : Trk {
  using Trk::Trk;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
};

template <typename T>
constexpr bool is_val = std::is_object_v<T> && !std::is_array_v<T>;

// What an object of each kind currently holds: values 1..3, or Moved.
template <typename T>
struct World {
  using V = std::remove_cvref_t<T>;
  V pool[3] = {V(1), V(2), V(3)};
  static V mk(int i) { return V(i + 1); }
};
template <>
struct World<void> {};
int fn1(int x) { return x + 1; }
int fn2(int x) { return x + 2; }
int fn3(int x) { return x + 3; }
using Fn = int (&)(int);
template <>
struct World<Fn> {
  int (*pool[3])(int) = {fn1, fn2, fn3};
};

int moved_value(auto&& v) {
  using V = std::remove_cvref_t<decltype(v)>;
  if constexpr (std::is_same_v<V, el::Sml>) return 0xf9;
  else return el::Moved;
}

// ---- one or two objects under all scripts ---------------------------------
template <typename T>
void look(World<T>& w, best::object<T>& o, int want, const char* who) {
  using O = best::object<T>;
  const O& co = o;
  if constexpr (is_val<T>) {
    using U = T;
    static_assert(std::is_same_v<decltype(*o), U&>);
    static_assert(std::is_same_v<decltype(*co), const U&>);
    static_assert(std::is_same_v<decltype(*std::move(o)), U&&>);
    static_assert(std::is_same_v<decltype(*std::move(co)), const U&&>);
    static_assert(std::is_same_v<decltype(o.or_empty()), U&>);
    static_assert(std::is_same_v<decltype(co.or_empty()), const U&>);
    static_assert(std::is_same_v<decltype(std::move(o).or_empty()), U&&>);
    static_assert(std::is_same_v<decltype(std::move(co).or_empty()), const U&&>);
    static_assert(sizeof(O) == sizeof(U) && alignof(O) == alignof(U));
    int got = el::val(*o);
    CHECK(got == want, "%s holds %d, should hold %d", who, got, want);
    const void* at = std::addressof(*o);
    CHECK(at == &o, "%s does not hold its value itself", who);
    auto&& r1 = *co;
    auto&& r2 = *std::move(o);
    auto&& r3 = *std::move(co);
    auto&& r4 = o.or_empty();
    auto&& r5 = co.or_empty();
    auto&& r6 = std::move(o).or_empty();
    auto&& r7 = std::move(co).or_empty();
    CHECK(&r1 == at && &r2 == at && &r3 == at && &r4 == at && &r5 == at && &r6 == at && &r7 == at,
          "%s: an accessor gives another object", who);
    CHECK(o.as_ptr().raw() == at && co.as_ptr().raw() == at, "%s: as_ptr()", who);
    CHECK(o.operator->() == at && co.operator->() == at, "%s: operator->", who);
  } else if constexpr (std::is_void_v<T>) {
    static_assert(std::is_empty_v<O>);
    static_assert(std::is_same_v<decltype(*o), void>);
    static_assert(std::is_same_v<decltype(*co), void>);
    static_assert(std::is_same_v<decltype(o.or_empty()), best::empty>|| std::is_same_v<decltype(o.or_empty()), best::empty&>);
    (void)o.or_empty(), (void)co.or_empty(), (void)std::move(o).or_empty(), (void)std::move(co).or_empty();
    *o, *co, *std::move(o), *std::move(co);
  } else {
    using L = T&;  // the reference it hands out as an lvalue
    static_assert(std::is_same_v<decltype(*o), L>);
    static_assert(std::is_same_v<decltype(o.or_empty()), L>);
    static_assert(std::is_same_v<decltype(*std::move(o)), T>);
    static_assert(std::is_same_v<decltype(std::move(o).or_empty()), T>);
    static_assert(sizeof(O) == sizeof(void*));
    // Where it should point to.
    auto* t = &reinterpret_cast<const volatile char&>(*o);
    const volatile char* should;
    if constexpr (std::is_same_v<T, Fn>) should = (const volatile char*)w.pool[want];
    else should = (const volatile char*)&w.pool[want];
    CHECK(t == should, "%s refers to the wrong object", who);
    auto&& r1 = *co;
    auto&& r2 = *std::move(o);
    auto&& r3 = *std::move(co);
    auto&& r4 = o.or_empty();
    auto&& r5 = co.or_empty();
    auto&& r6 = std::move(o).or_empty();
    auto&& r7 = std::move(co).or_empty();
    auto is = [&](auto& r) { return &reinterpret_cast<const volatile char&>(r) == should; };
    CHECK(is(r1) && is(r2) && is(r3) && is(r4) && is(r5) && is(r6) && is(r7),
          "%s: an accessor refers to another object", who);
  }
}

template <typename T>
void scripts(Ctx& c) {
  using O = best::object<T>;
  el::reset();
  {
    World<T> w;
    constexpr bool V = is_val<T>;
    // The value (or index of the referent) that each is to hold.
    auto as_model = [](int i) { return V ? i + 1 : i; };
    int m[2] = {0, 0};
    alignas(O) unsigned char mem[2][sizeof(O)];
    memset(mem, 0x5e, sizeof(mem));
    O* o[2];
    auto build = [&](int k, int i) {
      m[k] = as_model(i);
      if constexpr (std::is_void_v<T>) {
        if (i == 0) o[k] = new (mem[k]) O(best::in_place);
        else o[k] = new (mem[k]) O(best::in_place, 42);
      } else if constexpr (V) {
        if constexpr (std::is_class_v<T>) {
          if (i == 2) {  // several arguments
            o[k] = new (mem[k]) O(best::in_place, 0, 3);
            m[k] = 3;
            return;
          }
        }
        o[k] = new (mem[k]) O(best::in_place, i + 1);
      } else if constexpr (std::is_same_v<T, Fn>) {
        o[k] = new (mem[k]) O(best::in_place, *w.pool[i]);
      } else {
        o[k] = new (mem[k]) O(best::in_place, static_cast<T>(w.pool[i]));
      }
    };
    build(0, c.pick(3));
    build(1, c.pick(3));
    int steps = c.thorough() ? 4 : 3;
    constexpr bool copies = std::is_copy_constructible_v<O>;
    auto moved = [&](int k) {
      if constexpr (V && std::is_class_v<T>) m[k] = moved_value(**o[k]);
    };
    for (int s = 0;; ++s) {
      look<T>(w, *o[0], m[0], "a");
      look<T>(w, *o[1], m[1], "b");
      if constexpr (requires { *o[0] == *o[1]; }) {
        bool same = std::is_void_v<T> || m[0] == m[1];
        if constexpr (!std::is_same_v<T, Fn>) {
          CHECK((*o[0] == *o[1]) == same && (*o[0] != *o[1]) == !same, "equality of %d and %d", m[0], m[1]);
          if constexpr (requires { *o[0] <=> *o[1]; }) {
            CHECK((*o[0] < *o[1]) == (!same && m[0] < m[1]) && (*o[0] >= *o[1]) == (same || m[0] >= m[1]),
                  "order of %d and %d", m[0], m[1]);
          }
        }
      }
      if (V && std::is_class_v<T>) {
        int pools = 3;
        CHECK(el::g_live == pools + 2, "%d objects are alive, there should be %d", el::g_live, pools + 2);
      }
      if (s == steps) break;
      int op = c.pick(8), k = c.pick(2);
      c.step();
      c.note("op %d on %c", op, "ab"[k]);
      O &a = *o[k], &b = *o[1 - k];
      if (op == 0) {  // a = b
        if constexpr (copies) a = static_cast<const O&>(b), m[k] = m[1 - k];
      } else if (op == 1) {  // a = move(b)
        a = std::move(b), m[k] = m[1 - k];
        moved(1 - k);
      } else if (op == 2) {  // a = a
        if constexpr (copies) {
          auto& self = a;
          a = self;
        }
      } else if (op == 3 || op == 4) {  // a = value
        int i = c.pick(2);
        m[k] = as_model(i);
        if constexpr (std::is_void_v<T>) {
          if (op == 3) a = nullptr;
          else a = 5;
        } else if constexpr (V) {
          T v = World<T>::mk(i);
          if (op == 3) {
            if constexpr (std::is_copy_assignable_v<T>) {
              a = v;
              CHECK(el::val(v) == i + 1, "assigning from an lvalue changed it");
            } else {
              a = std::move(v);
            }
          } else {
            a = std::move(v);
            if constexpr (std::is_class_v<T>)
              CHECK(el::val(v) == moved_value(v), "assigning from an rvalue did not move");
          }
        } else if constexpr (std::is_same_v<T, Fn>) {
          a = *w.pool[i];
        } else {
          O& r = (a = static_cast<T>(w.pool[i]));
          CHECK(&r == &a, "assignment returns another object");
        }
      } else if (op == 5) {  // rebuild a from b by copy
        if constexpr (copies) {
          a.~O();
          o[k] = new (mem[k]) O(static_cast<const O&>(b));
          m[k] = m[1 - k];
        }
      } else if (op == 6) {  // rebuild a from b by move
        a.~O();
        o[k] = new (mem[k]) O(std::move(b));
        m[k] = m[1 - k];
        moved(1 - k);
      } else {  // move the value out
        if constexpr (V && std::is_class_v<T>) {
          T v(*std::move(a));
          CHECK(el::val(v) == m[k], "moved out %d instead of %d", el::val(v), m[k]);
          moved(k);
        }
      }
    }
    c.state(mc::Ctx::mix(mc::u64(m[0] + 10), mc::u64(m[1] + 10)));
    o[0]->~O();
    o[1]->~O();
  }
  CHECK(el::g_live == 0, "%d objects outlive the object", el::g_live);
}
SCENARIO_T(scripts_int, "two object<int>: all pairs of values and scripts of 3 (thorough 4) of 8 operations", mc::LeakCheck, scripts<int>);
SCENARIO_T(scripts_trk, "the same, a tracked class", mc::LeakCheck, scripts<Trk>);
SCENARIO_T(scripts_sml, "the same, a small tracked class", mc::LeakCheck, scripts<el::Sml>);
SCENARIO_T(scripts_ovr, "the same, an over-aligned class", mc::LeakCheck, scripts<el::Ovr>);
SCENARIO_T(scripts_moveonly, "the same, a move-only class", mc::LeakCheck, scripts<MoveOnly>);
SCENARIO_T(scripts_ref, "the same, references", mc::LeakCheck, scripts<Trk&>);
SCENARIO_T(scripts_cref, "the same, const references", mc::LeakCheck, scripts<const Trk&>);
SCENARIO_T(scripts_rref, "the same, rvalue references", mc::LeakCheck, scripts<Trk&&>);
SCENARIO_T(scripts_fn, "the same, references to functions", mc::LeakCheck, scripts<Fn>);
SCENARIO_T(scripts_void, "the same, void", mc::LeakCheck, scripts<void>);

// ---- arrays, const, formatting, triviality ---------------------------------
SCENARIO(arrays, "object<T[3]> from lvalue and rvalue arrays, copied, moved, assigned", mc::LeakCheck) {
  el::reset();
  {
    Trk src[3] = {Trk(1), Trk(2), Trk(3)};
    Trk src2[3] = {Trk(4), Trk(5), Trk(6)};
    using O = best::object<Trk[3]>;
    int how = c.pick(2);
    auto check = [&](const O& o, int from, const char* what) {
      for (int i = 0; i < 3; ++i) {
        int got = (*o)[i].get();
        CHECK(got == from + i, "%s: element %d is %d", what, i, got);
      }
    };
    {
      O a = how ? O(best::in_place, std::move(src)) : O(best::in_place, src);
      CHECK(el::g_live == 9, "%d objects alive instead of 9", el::g_live);
      check(a, 1, "constructed");
      for (int i = 0; i < 3; ++i) CHECK(src[i].get() == (how ? el::Moved : i + 1), "the source is %d", src[i].get());
      int op = c.pick(5);
      if (op == 0) {
        O b(a);
        check(b, 1, "copied"), check(a, 1, "copied from");
      } else if (op == 1) {
        O b(std::move(a));
        check(b, 1, "moved");
      } else if (op == 2) {
        a = src2;
        check(a, 4, "assigned");
        for (int i = 0; i < 3; ++i) CHECK(src2[i].get() == i + 4, "assigning changed the source");
      } else if (op == 3) {
        a = std::move(src2);
        check(a, 4, "assigned");
        for (int i = 0; i < 3; ++i) CHECK(src2[i].get() == el::Moved, "assigning did not move");
      } else {
        O b(best::in_place, src2);
        a = b;
        check(a, 4, "assigned"), check(b, 4, "assigned from");
      }
    }
  }
  CHECK(el::g_live == 0, "%d objects outlive the arrays", el::g_live);
}

template <typename T>
std::string fmt(const T& t, bool debug) {
  auto s = debug ? best::format("{:?}", t) : best::format("{}", t);
  return std::string(s.data(), s.size());
}
SCENARIO(misc, "formatting and triviality of objects of 9 types; const objects", 0) {
  bool dbg = c.flip();
  int x = 42;
  switch (c.pick(7)) {
    case 0: { auto s = fmt(best::object<int>(best::in_place, x), dbg); CHECK(s == "42", "int: %s", s.c_str()); break; }
    case 1: { auto s = fmt(best::object<int&>(best::in_place, x), dbg); CHECK(s == "42", "int&: %s", s.c_str()); break; }
    case 2: { auto s1 = best::format("{:?}", best::object<void>(best::in_place)); std::string s(s1.data(), s1.size()); CHECK(s == "void", "void: %s", s.c_str()); break; }
    case 3: { auto s = fmt(best::object<bool>(best::in_place, true), dbg); CHECK(s == "true", "bool: %s", s.c_str()); break; }
    case 4: {
      auto s = fmt(best::object<best::str>(best::in_place, best::str("a\n")), dbg);
      CHECK(s == (dbg ? "\"a\\n\"" : "a\n"), "str: %s", s.c_str());
      break;
    }
    case 5: {
      auto s1 = best::format("{:04x}|{:>5}|{:#?}", best::object<int>(best::in_place, x), best::object<best::str>(best::in_place, best::str("a")), best::object<int>(best::in_place, x));
      std::string s(s1.data(), s1.size());
      CHECK(s == "002a|    a|42", "with specifiers: %s", s.c_str());
      break;
    }
    case 6: {
      const best::object<const int> o(best::in_place, 7);
      static_assert(std::is_same_v<decltype(*o), const int&>);
      best::object<const int> p(best::in_place, 8);
      static_assert(std::is_same_v<decltype(*p), const int&>);
      static_assert(std::is_same_v<decltype(*std::move(p)), const int&&>);
      CHECK(*o == 7 && *p == 8, "const values");
      break;
    }
  }
  static_assert(std::is_trivially_copyable_v<best::object<int>>);
  static_assert(std::is_trivially_copyable_v<best::object<int&>>);
  static_assert(std::is_trivially_destructible_v<best::object<void>>);
  static_assert(!std::is_copy_constructible_v<best::object<MoveOnly>>);
  static_assert(std::is_move_constructible_v<best::object<MoveOnly>>);
}

// ---- puns ------------------------------------------------------------------
// A script of: select an alternative, use it, destroy it, select another.
template <size_t I>
struct P : Trk {
  explicit P(int v) : Trk(v) {}
  P(int a, int b) : Trk(a * 100 + b) {}
  P(const Trk& t, int) : Trk(t) {}
  P(Trk&& t, int) : Trk(std::move(t)) {}
  char pad[I * 8 + 1] = {};
};
template <size_t... ids>
void pun_scripts(Ctx& c) {
  [&]<size_t... i>(std::index_sequence<i...>) {
  using Pun = best::pun<P<ids>...>;
  constexpr size_t id[] = {ids...};
  constexpr size_t biggest = (std::max)({sizeof(P<ids>)...});
  el::reset();
  best::unsafe u("test");
  constexpr int n = sizeof...(i);
  static_assert(sizeof(Pun) == biggest);
  CHECK(!std::is_copy_constructible_v<Pun> && !std::is_copy_assignable_v<Pun>,
        "a pun of tracked alternatives can be copied");
  for (int s = 0, steps = c.thorough() ? 4 : 3; s < steps; ++s) {
    int which = c.pick(n);
    int how = c.pick(4), v = c.pick(2) + 1;
    int want = how == 1 ? v * 100 + 7 : v;
    c.step();
    c.note("alternative %d, constructor %d, value %d", which, how, v);
    auto one = [&](auto I_) {
      constexpr size_t I = I_.value;
      if (int(I) != which) return;
      using A = P<id[I]>;
      {
        Trk arg(v);
        int copies = el::g_copies;
        Pun p = how == 0   ? Pun(best::index<I>, v)
                : how == 1 ? Pun(best::index<I>, v, 7)
                : how == 2 ? Pun(best::index<I>, arg, 0)
                           : Pun(best::index<I>, std::move(arg), 0);
        CHECK(el::g_copies == copies + (how == 2), "%d copies were made of the arguments", el::g_copies - copies);
        CHECK(arg.get() == (how == 3 ? el::Moved : v), "the argument is %d afterwards", arg.get());
        arg.~Trk();
        auto again = [&] { new (&arg) Trk(0); };
        CHECK(el::g_live == 1, "a pun of one alternative holds %d objects", el::g_live);
        const Pun& cp = p;
        auto& r = p.template get<I>(u);
        static_assert(std::is_same_v<decltype(r), A&>);
        static_assert(std::is_same_v<decltype(cp.template get<I>(u)), const A&>);
        static_assert(std::is_same_v<decltype(std::move(p).template get<I>(u)), A&&>);
        static_assert(std::is_same_v<decltype(std::move(cp).template get<I>(u)), const A&&>);
        CHECK(r.get() == want, "alternative %zu is %d instead of %d", I, r.get(), want);
        CHECK((void*)&r == (void*)&p && &cp.template get<I>(u) == &r && &*p.template object<I>(u) == &r &&
                &*cp.template object<I>(u) == &r && &p.get(u, best::index<I>) == &r,
              "an accessor of alternative %zu gives another object", I);
        auto&& r1 = std::move(p).template get<I>(u);
        auto&& r2 = std::move(cp).template get<I>(u);
        CHECK(&r1 == &r && &r2 == &r, "an rvalue accessor of alternative %zu gives another object", I);
        A out(std::move(p).template get<I>(u));
        CHECK(out.get() == want && r.get() == el::Moved, "moving out of alternative %zu", I);
        r.~A();
        CHECK(el::g_live == 1, "destroyed too much");  // `out`
        again();
      }
      CHECK(el::g_live == 0, "the pun destroyed its alternative (%d alive)", el::g_live);
    };
    (one(best::index<i>), ...);
  }
  {  // Never destroyed by the pun itself.
    alignas(P<id[0]>) unsigned char raw[sizeof(Pun)];
    Pun* p = new (raw) Pun(best::index<0>, 1);
    p->~Pun();
    CHECK(el::g_live == 1, "a pun's destructor ran the destructor of its alternative");
    using A = P<id[0]>;
    reinterpret_cast<A*>(raw)->~A();
    Pun none;
    (void)none;
    CHECK(el::g_live == 0, "an empty pun holds something");
  }
  }(std::make_index_sequence<sizeof...(ids)>{});
}
SCENARIO_T(puns_1, "puns of 1 tracked alternative: all scripts of 3 (thorough 4) selections", mc::LeakCheck, pun_scripts<0>);
SCENARIO_T(puns_2, "puns of 2", mc::LeakCheck, pun_scripts<0, 1>);
SCENARIO_T(puns_2r, "puns of 2, the larger first", mc::LeakCheck, pun_scripts<1, 0>);
SCENARIO_T(puns_3, "puns of 3", mc::LeakCheck, pun_scripts<0, 1, 2>);
SCENARIO_T(puns_6, "puns of 6", mc::LeakCheck, pun_scripts<5, 0, 4, 2, 3, 1>);

SCENARIO(puns_moves, "puns that cannot be copied bitwise do not move either", 0) {
  using Pun = best::pun<int, P<0>>;
  if (std::is_move_constructible_v<Pun> || std::is_move_assignable_v<Pun>)
    mc::fail_key("pun-moves-lose-the-alternative",
                 "best::pun<int, NotTriviallyCopyable> has move operations, which do nothing");
}
SCENARIO(puns_mixed, "a pun of void, a reference, an array and an int: each alternative, copied and assigned", 0) {
  best::unsafe u("test");
  using Pun = best::pun<void, int&, int[2], long>;
  static_assert(std::is_trivially_copyable_v<Pun> && std::is_trivially_destructible_v<Pun>);
  int x = 1, arr[2] = {3, 4};
  auto mk = [&](int i) -> Pun {
    if (i == 0) return Pun(best::index<0>);
    if (i == 1) return Pun(best::index<1>, x);
    if (i == 2) return Pun(best::index<2>, arr);
    return Pun(best::index<3>, 9);
  };
  int i = c.pick(4), j = c.pick(4);
  Pun p = mk(i), q = mk(j);
  int how = c.pick(3);
  Pun* at = &p;
  if (how == 1) p = q, i = j;
  if (how == 2) p = std::move(q), i = j;
  const Pun& cp = *at;
  if (i == 0) {
    static_assert(std::is_void_v<decltype(cp.get<0>(u))>);
    p.get<0>(u);
  } else if (i == 1) {
    static_assert(std::is_same_v<decltype(p.get<1>(u)), int&>);
    CHECK(&p.get<1>(u) == &x && &cp.get<1>(u) == &x, "the reference");
    CHECK(&*p.object<1>(u) == &x, "the object of the reference");
  } else if (i == 2) {
    CHECK(p.get<2>(u)[0] == 3 && cp.get<2>(u)[1] == 4, "the array");
  } else {
    CHECK(p.get<3>(u) == 9 && cp.get<3>(u) == 9, "the number");
  }
}
}  // namespace
