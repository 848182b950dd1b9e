// L01: calling things through best::call, callable, fnref, tap, defer and
// arrow, against std::invoke and a model of which function runs when.
#include <functional>
#include <optional>
#include <string>
#include <vector>

#include "best/func/arrow.h"
#include "best/func/call.h"
#include "best/func/defer.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#include "elems.h"
#include "mc.h"

namespace {
using el::Trk;
using mc::Ctx;

std::vector<int> g_log;
void put(int x) { g_log.push_back(x); }
// 0: &, 1: const&, 2: &&, 3: const&&.
template <typename T>
constexpr int cat_of = (std::is_lvalue_reference_v<T> ? 0 : 2) +
                       (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);
template <typename A>
void put_arg(A&& a) {
  put(100 + cat_of<A&&>);
  if constexpr (std::is_pointer_v<std::remove_cvref_t<A>>) put(a ? el::val(*a) : -1);
  else put(el::val(a));
}
std::string show(const std::vector<int>& v) {
  std::string s;
  for (int x : v) s += std::to_string(x) + " ";
  return s;
}

// ---- things to call -------------------------------------------------------
struct All {
  int id = 1;
  template <typename... A>
  Trk& operator()(A&&... a) & { return put(10), run((A&&)a...); }
  template <typename... A>
  const Trk& operator()(A&&... a) const& { return put(11), run((A&&)a...); }
  template <typename... A>
  Trk&& operator()(A&&... a) && { return put(12), std::move(run((A&&)a...)); }
  template <typename... A>
  Trk operator()(A&&... a) const&& { return put(13), Trk(run((A&&)a...).get()); }
  static inline Trk* out;
  template <typename... A>
  Trk& run(A&&... a) const {
    put(id);
    (put_arg((A&&)a), ...);
    return *out;
  }
};
struct OnlyL {
  int id = 2;
  void operator()(int a) & { put(20), put(a), put(id); }
};
struct OnlyC {
  int id = 3;
  int operator()(int a) const& { return put(21), put(a), put(id), a + 1; }
};
struct OnlyR {
  int id = 4;
  int operator()(int a) && { return put(22), put(a), put(id), a + 2; }
  int operator()(Trk& t, Trk&& u) && { return put(23), put(t.get()), put(u.get()), 5; }
};
struct Plain {
  int id = 5;
  int operator()(int a) { return put(24), put(a), put(id++), a + 3; }
  int operator()(int a) const { return put(25), put(a), put(id), a + 4; }
  void operator()() { put(26), put(id); }
};
struct ByVal {
  int id = 6;
  int operator()(Trk t) const { return put(27), put(t.get()), put(id), 1; }
  Trk operator()(Trk t, int x) const { return put(28), put(x), t; }
};
int free_fn(int a, Trk& t) { return put(30), put(a), put(t.get()), a; }
Trk& ref_fn(Trk& t) { return put(31), t; }

struct M {
  int id = 7;
  int d = 8;
  const int e = 9;
  Trk t{10};
  int m0(int a) { return put(40), put(a), put(id), a; }
  int m1(int a) const { return put(41), put(a), put(id), a; }
  int m2(int a) & { return put(42), put(a), put(id), a; }
  int m3(int a) const& { return put(43), put(a), put(id), a; }
  int m4(int a) && { return put(44), put(a), put(id), a; }
  int m5(int a) const&& { return put(45), put(a), put(id), a; }
  Trk&& m6(Trk&& x) { return put(46), put(x.get()), std::move(x); }
  void m7() const noexcept { put(47), put(id); }
};
struct D : M {
  D() { id = 70; }
};

// ---- sources of values ------------------------------------------------------
// Each type has two objects, made anew before every call.
template <typename X>
struct Src {
  static inline std::optional<X> v[2];
};
std::optional<M> g_m;
std::optional<D> g_d;
std::optional<Trk> g_out;
template <typename X>
void fresh(std::optional<X>& o, int k) {
  if constexpr (std::is_same_v<X, M*> || std::is_same_v<X, const M*>) o.emplace(&*g_m);
  else if constexpr (std::is_same_v<X, D*>) o.emplace(&*g_d);
  else if constexpr (std::is_same_v<X, Trk>) o.emplace(50 + k);
  else if constexpr (std::is_same_v<X, int>) o.emplace(60 + k);
  else o.emplace();
}
template <typename A>
A&& src(int k) {
  return static_cast<A&&>(*Src<std::remove_cvref_t<A>>::v[k]);
}
template <typename... A>
struct Pack {};

template <typename R>
void describe(R&& r) {
  using X = std::remove_cvref_t<R>;
  if constexpr (std::is_same_v<X, Trk>) {
    put(r.get());
    put(&r == &*g_out ? 1 : (Src<Trk>::v[0] && &r == &*Src<Trk>::v[0]) ? 2 : 0);
  } else if constexpr (std::is_same_v<X, int>) {
    put(r);
    put(g_m && (void*)&r >= (void*)&*g_m && (void*)&r < (void*)(&*g_m + 1));
    put(g_d && (void*)&r >= (void*)&*g_d && (void*)&r < (void*)(&*g_d + 1));
  }
}

template <typename F, typename... A>
void reset_for(F f) {
  g_log.clear();
  g_m.emplace();
  g_d.emplace();
  g_out.emplace(77);
  All::out = &*g_out;
  int k = 0;
  (((void)fresh(Src<std::remove_cvref_t<A>>::v[k], k), ++k), ...);
  (void)f;
  el::g_copies = 0;
}
template <typename... A>
void drop() {
  (Src<std::remove_cvref_t<A>>::v[0].reset(), ...);
  (Src<std::remove_cvref_t<A>>::v[1].reset(), ...);
  g_m.reset();
  g_d.reset();
  g_out.reset();
}

template <typename F, typename... A>
concept best_ok = requires(F f, A... a) {
  best::call(static_cast<F&&>(f), static_cast<A&&>(a)...);
};

// Calls a copy of f as an F with arguments A, both ways.
template <typename F, typename... A>
void same_call(Ctx& c, std::remove_reference_t<F> f0, Pack<A...>) {
  constexpr bool want = std::is_invocable_v<F, A...>;
  constexpr bool got = best_ok<F, A...>;
  c.step();
  CHECK(want == got, "callable: %d, should be %d", got, want);
  if constexpr (want && got) {
    auto go = [&](auto&& how) {
      using R = decltype(how(std::integral_constant<int, 0>{}));
      (void)sizeof(std::is_void<R>);
    };
    (void)go;
    std::vector<int> logs[2];
    int copies[2];
    for (int which = 0; which < 2; ++which) {
      auto f = f0;
      reset_for<int, A...>(0);
      [&]<size_t... i>(std::index_sequence<i...>) {
        using R = std::invoke_result_t<F, A...>;
        if constexpr (std::is_void_v<R>) {
          if (which) best::call(static_cast<F&&>(f), src<A>(int(i))...);
          else std::invoke(static_cast<F&&>(f), src<A>(int(i))...);
        } else {
          if (which) {
            decltype(auto) r = best::call(static_cast<F&&>(f), src<A>(int(i))...);
            static_assert(std::is_same_v<decltype(r), R>);
            describe(r);
          } else {
            decltype(auto) r = std::invoke(static_cast<F&&>(f), src<A>(int(i))...);
            describe(r);
          }
        }
      }(std::index_sequence_for<A...>{});
      copies[which] = el::g_copies;
      logs[which] = g_log;
      // What became of the arguments and of the function object.
      [&]<size_t... i>(std::index_sequence<i...>) {
        auto peek = [&](auto& x) {
          if constexpr (requires { x.get(); }) logs[which].push_back(x.get());
        };
        (peek(*Src<std::remove_cvref_t<A>>::v[i]), ...);
      }(std::index_sequence_for<A...>{});
      if constexpr (requires { f.id; }) logs[which].push_back(f.id);
      drop<A...>();
    }
    c.note("%s", show(logs[1]).c_str());
    CHECK(logs[0] == logs[1], "did %s instead of %s", show(logs[1]).c_str(),
          show(logs[0]).c_str());
    CHECK(copies[0] == copies[1], "%d copies instead of %d", copies[1], copies[0]);
  }
}

// All the ways to pass an X, as a list of packs.
template <typename... P>
struct Packs {};
template <typename X>
using Ways = Packs<Pack<X&>, Pack<const X&>, Pack<X&&>, Pack<const X&&>>;
template <typename... A, typename... B>
auto cross1(Pack<A...>, Packs<Pack<B>...>) -> Packs<Pack<A..., B>...>;
template <typename... P, typename... Q>
auto cat2(Packs<P...>, Packs<Q...>) -> Packs<P..., Q...>;
template <typename... P>
auto cat_all(Packs<P...> p) -> Packs<P...>;
template <typename A, typename B, typename... R>
auto cat_all(A, B, R...) -> decltype(cat_all(decltype(cat2(A{}, B{})){}, R{}...));
template <typename... P, typename W>
auto cross(Packs<P...>, W) -> decltype(cat_all(decltype(cross1(P{}, W{})){}...));
template <typename A, typename B>
using Cross = decltype(cross(A{}, B{}));
template <typename... L>
using Cat = decltype(cat_all(L{}...));
using Nil = Packs<Pack<>>;

template <typename F, typename... P>
void all_packs(Ctx& c, const F& f, Packs<P...>) {
  using G = std::remove_cv_t<F>;
  int n = c.pick(4 * int(sizeof...(P)));
  int i = 0;
  ((n / 4 == i++ ? (n % 4 == 0   ? same_call<G&>(c, f, P{})
                    : n % 4 == 1 ? same_call<const G&>(c, f, P{})
                    : n % 4 == 2 ? same_call<G&&>(c, f, P{})
                                 : same_call<const G&&>(c, f, P{}))
                 : void()),
   ...);
}
using Ints = Ways<int>;
using Trks = Ways<Trk>;
using One = Cat<Nil, Ints, Trks, Cross<Ints, Trks>, Cross<Trks, Ints>, Cross<Trks, Trks>>;
using Self = Cat<Ways<M>, Ways<D>, Packs<Pack<M*>, Pack<const M*>, Pack<M*&>, Pack<D*>, Pack<const M* const&>>>;
using SelfInt = Cat<Self, Cross<Self, Packs<Pack<int&>, Pack<int&&>>>>;
using SelfTrk = Cat<Self, Cross<Self, Trks>>;

void functors(Ctx& c) {
  switch (c.pick(9)) {
    case 0: return all_packs(c, All{}, One{});
    case 1: return all_packs(c, OnlyL{}, One{});
    case 2: return all_packs(c, OnlyC{}, One{});
    case 3: return all_packs(c, OnlyR{}, One{});
    case 4: return all_packs(c, Plain{}, One{});
    case 5: return all_packs(c, ByVal{}, One{});
    case 6: return all_packs(c, &free_fn, One{});
    case 7: return all_packs(c, &ref_fn, One{});
    case 8: {
      auto lam = [n = 5](auto&&... a) mutable -> int {
        put(32), put(n);
        (put_arg(static_cast<decltype(a)&&>(a)), ...);
        return n;
      };
      return all_packs(c, lam, One{});
    }
  }
}
SCENARIO_T(call_functions,
           "9 functions and functors (overloads qualified &, const&, &&, "
           "const&&), called as each of the 4 kinds of value, with every list "
           "of 0-2 arguments out of int and tracked in the 4 kinds of value, "
           "against std::invoke",
           mc::LeakCheck, functors);

void members(Ctx& c) {
  switch (c.pick(12)) {
    case 0: return all_packs(c, &M::m0, SelfInt{});
    case 1: return all_packs(c, &M::m1, SelfInt{});
    case 2: return all_packs(c, &M::m2, SelfInt{});
    case 3: return all_packs(c, &M::m3, SelfInt{});
    case 4: return all_packs(c, &M::m4, SelfInt{});
    case 5: return all_packs(c, &M::m5, SelfInt{});
    case 6: return all_packs(c, &M::m6, SelfTrk{});
    case 7: return all_packs(c, &M::m7, SelfInt{});
    case 8: return all_packs(c, &M::d, Self{});
    case 9: return all_packs(c, &M::e, Self{});
    case 10: return all_packs(c, &M::t, Self{});
    case 11: return all_packs(c, &M::id, SelfInt{});
  }
}
SCENARIO_T(call_members,
           "8 member functions (all qualifiers) and 4 data members, on an "
           "object, a derived object and pointers to them in all kinds of "
           "value, with no, right and wrong arguments, against std::invoke",
           mc::LeakCheck, members);

// ---- template parameters, call_devoid, callable -----------------------------
struct Tmpl {
  template <typename T>
  int operator()() { return put(1), int(sizeof(T)); }
  template <typename T>
  int operator()() const { return put(2), int(sizeof(T)); }
  template <typename T, typename U>
  Trk operator()(Trk t, U&& u) && {
    put(3), put(cat_of<U&&>), put(int(sizeof(T)));
    return t;
  }
  template <typename T>
  void operator()(int x) & { put(4), put(int(sizeof(T))), put(x); }
};
struct Vals {
  template <int n>
  int operator()(int x) const { return put(5), n + x; }
  template <int n, char ch>
  void operator()() { put(6), put(n), put(ch); }
};
SCENARIO(call_params, "explicit type and value parameters, 8 calls; call_devoid of 10 calls", mc::LeakCheck) {
  g_log.clear();
  el::g_copies = 0;
  std::vector<int> want;
  Tmpl f;
  const Tmpl g;
  Vals v;
  Trk t(5);
  int x = 3;
  c.step();
  switch (c.pick(17)) {
    case 0: CHECK(best::call<char[3]>(f) == 3); want = {1}; break;
    case 1: CHECK(best::call<char[4]>(g) == 4); want = {2}; break;
    case 2: {
      Trk r = (best::call<char[5], Trk&>(Tmpl{}, std::move(t), t));
      CHECK(r.get() == 5 && t.get() == el::Moved && el::g_copies == 0);
      want = {3, 0, 5};
      break;
    }
    case 3: best::call<char[6]>(f, 9); want = {4, 6, 9}; break;
    case 4: CHECK(best::call<7>(v, 5) == 12); want = {5}; break;
    case 5: (best::call<8, 'x'>(v)); want = {6, 8, 'x'}; break;
    case 6:
      [](const auto& g) {
        CHECK(!(requires { best::call<int>(g, 9); }));
      }(g);
      break;
    case 7: best::call(); break;
    case 8: {
      auto r = best::call_devoid([] { put(7); });
      static_assert(std::is_same_v<decltype(r), best::empty>);
      want = {7};
      break;
    }
    case 9: {
      decltype(auto) r = best::call_devoid(ref_fn, t);
      static_assert(std::is_same_v<decltype(r), Trk&>);
      CHECK(&r == &t);
      want = {31};
      break;
    }
    case 10: {
      decltype(auto) r = best::call_devoid(&M::d, M{});
      static_assert(std::is_same_v<decltype(r), int&&>);
      break;
    }
    case 11: {
      static_assert(std::is_same_v<decltype(best::call_devoid<char[2]>(f, 9)), best::empty>);
      (void)best::call_devoid<char[2]>(f, 9);
      want = {4, 2, 9};
      break;
    }
    case 12: CHECK(best::call_devoid<7>(v, 5) == 12); want = {5}; break;
    case 13: {
      static_assert(std::is_same_v<decltype(best::call_devoid<7, 'y'>(v)), best::empty>);
      (void)best::call_devoid<7, 'y'>(v);
      want = {6, 7, 'y'};
      break;
    }
    case 14: {
      auto h = BEST_CALLABLE(free_fn);
      CHECK(h(4, t) == 4);
      want = {30, 4, 5};
      break;
    }
    case 15: {
      auto h = BEST_CALLABLE(std::move);
      static_assert(std::is_same_v<decltype(h(t)), Trk&&>);
      CHECK(&static_cast<const Trk&>(h(t)) == &t);
      break;
    }
    case 16: {
      auto h = BEST_CALLABLE(ref_fn);
      static_assert(std::is_same_v<decltype(h(t)), Trk&>);
      CHECK(&h(t) == &t);
      want = {31};
      break;
    }
  }
  (void)x;
  CHECK(g_log == want, "did %s instead of %s", show(g_log).c_str(), show(want).c_str());
}

// "Convertible" in best's sense: for references, whether the pointers convert.
template <typename R, typename F, typename... A>
constexpr bool invocable() {
  if constexpr (!std::is_invocable_v<F, A...>) {
    return false;
  } else if constexpr (std::is_reference_v<R>) {
    using X = std::invoke_result_t<F, A...>;
    return std::is_reference_v<X> && std::is_convertible_v<std::remove_reference_t<X>*, std::remove_reference_t<R>*>;
  } else {
    return std::is_invocable_r_v<R, F, A...>;
  }
}
template <typename F, typename R, typename... A>
void same_concept(Ctx& c) {
  c.step();
  constexpr bool got = best::callable<F, R(A...)>;
  constexpr bool want = invocable<R, F&, A...>();
  CHECK(got == want, "callable %d: %s", got, __PRETTY_FUNCTION__);
  constexpr bool gotc = best::callable<F, R(A...) const>;
  constexpr bool wantc = invocable<R, const F&, A...>();
  CHECK(gotc == wantc, "callable as const %d: %s", gotc, __PRETTY_FUNCTION__);
}
template <typename F, typename... A>
void concepts(Ctx& c, Pack<A...>) {
  same_concept<F, void, A...>(c);
  same_concept<F, int, A...>(c);
  same_concept<F, long, A...>(c);
  same_concept<F, char*, A...>(c);
  same_concept<F, int&, A...>(c);
}
template <typename F, typename... P>
void concepts_all(Ctx& c, Packs<P...>) {
  int n = c.pick(int(sizeof...(P)));
  int i = 0;
  ((n == i++ ? concepts<F>(c, P{}) : void()), ...);
}
void concept_check(Ctx& c) {
  using L = Cat<Nil, Ints, Trks, Cross<Ints, Trks>>;
  switch (c.pick(8)) {
    case 0: return concepts_all<OnlyC>(c, L{});
    case 1: return concepts_all<Plain>(c, L{});
    case 2: return concepts_all<ByVal>(c, L{});
    case 3: return concepts_all<decltype(&free_fn)>(c, L{});
    case 4: return concepts_all<decltype(&M::m1)>(c, SelfInt{});
    case 5: return concepts_all<decltype(&M::m0)>(c, SelfInt{});
    case 6: return concepts_all<decltype(&M::m4)>(c, SelfInt{});
    case 7: return concepts_all<decltype(&M::d)>(c, Self{});
  }
}
SCENARIO_T(callable_concept,
           "8 callables, every list of arguments, 5 results, mutable and const, "
           "against std::is_invocable_r",
           0, concept_check);

// ---- fnref ------------------------------------------------------------------
int f_add(int x) { return put(1), x + 1; }
int f_sub(int x) { return put(2), x - 1; }
struct Cnt {
  int n;
  int operator()(int x) { return put(3), n += x; }
};
struct CCnt {
  mutable int n;
  int operator()(int x) const { return put(4), n += x; }
};
struct Both {
  int n;
  int operator()(int x) { return put(5), n += x; }
  int operator()(int x) const { return put(6), n + x; }
};
struct Widen {
  char operator()(long x) const { return put(7), char(x * 2); }
};

// A model of what a fnref refers to.
struct Target {
  int kind = 0;  // 0 null, then as listed in make()
  int which = 0;
};
template <bool is_const>
void fnref_ops(Ctx& c) {
  using F = best::fnref<std::conditional_t<is_const, int(int) const, int(int)>>;
  struct World {
    Cnt cnt[2] = {{10}, {20}};
    CCnt ccnt[2] = {{30}, {40}};
    Both both[2] = {{50}, {60}};
    Widen widen;
    int data[2] = {70, 80};
  } w, m;
  int lam_n = 5;
  auto lam = [&lam_n](int x) { return put(8), lam_n += x; };
  int m_lam_n = 5;
  int (*fp)(int) = f_add;
  F refs[2] = {nullptr, nullptr};
  Target model[2];
  struct Held {
    int x = 0;
  };
  using Sig2 = std::conditional_t<is_const, long(int) const, long(int)>;
  best::fnref<std::conditional_t<is_const, int(int) const, int(int)>> inner = f_sub;
  int depth = c.thorough() ? 5 : 4;
  for (int step = 0; step < depth; ++step) {
    int slot = c.pick(2);
    F& r = refs[slot];
    Target& t = model[slot];
    int op = c.pick(14);
    c.step();
    switch (op) {
      case 0: r = nullptr; t = {0}; c.note("r%d = nullptr", slot); break;
      case 1: r = f_add; t = {1}; c.note("r%d = f_add", slot); break;
      case 2: r = &f_sub; t = {2}; c.note("r%d = &f_sub", slot); break;
      case 3: {
        int k = c.pick(2);
        if constexpr (is_const) {
          CHECK(!(std::is_constructible_v<F, Cnt&>), "const fnref of a mutable functor");
          r = w.ccnt[k], t = {4, k};
        } else {
          r = w.cnt[k], t = {3, k};
        }
        c.note("r%d = counter %d", slot, k);
        break;
      }
      case 4: {
        int k = c.pick(2);
        if (c.flip()) {
          const Both& b = w.both[k];
          r = b, t = {6, k};
        } else {
          r = w.both[k];
          // A mutable reference calls it as it was given.
          t = {is_const ? 6 : 5, k};
        }
        c.note("r%d = both %d", slot, k);
        break;
      }
      case 5: r = w.widen; t = {7}; c.note("r%d = widen", slot); break;
      case 6: r = lam; t = {8}; c.note("r%d = lam", slot); break;
      case 7: r = fp; t = {1}; c.note("r%d = fp", slot); break;
      case 8: r = refs[1 - slot]; t = model[1 - slot]; c.note("r%d = r%d", slot, 1 - slot); break;
      case 9: { F copy = r; r = nullptr; r = copy; c.note("r%d copied", slot); break; }
      case 10: {
        int k = c.pick(2);
        typename F::fnptr raw;
        CHECK(raw == nullptr && !raw);
        if constexpr (is_const)
          raw = [](const int& d, int x) { return put(9), d + x; };
        else raw = [](int& d, int x) { return put(9), d += x; };
        CHECK(raw != nullptr && bool(raw));
        r = F(best::unsafe{"in a test"}, &w.data[k], raw);
        t = {9, k};
        c.note("r%d = unsafe %d", slot, k);
        break;
      }
      case 11: {
        // A function whose result and argument convert.
        r = w.widen;
        t = {7};
        break;
      }
      case 12: {  // Captureless, given a name.
        static constexpr auto named = [](int x) { return put(10), x * 3; };
        r = named;
        t = {10};
        c.note("r%d = captureless", slot);
        break;
      }
      default: {  // Call.
        CHECK((r == nullptr) == (t.kind == 0), "null %d", r == nullptr);
        CHECK(bool(r) == (t.kind != 0));
        CHECK((r != nullptr) == (t.kind != 0));
        if (t.kind == 0) break;
        int x = 1 + c.pick(2);
        g_log.clear();
        const F& cr = r;
        int got;
        if constexpr (is_const) got = c.flip() ? cr(x) : r(x);
        else got = r(x);
        (void)cr;
        int want = 0;
        switch (t.kind) {
          case 1: want = x + 1; break;
          case 2: want = x - 1; break;
          case 3: want = m.cnt[t.which].n += x; break;
          case 4: want = m.ccnt[t.which].n += x; break;
          case 5: want = m.both[t.which].n += x; break;
          case 6: want = m.both[t.which].n + x; break;
          case 7: want = x * 2; break;
          case 8: want = m_lam_n += x; break;
          case 9:
            want = m.data[t.which] + x;
            if (!is_const) m.data[t.which] += x;
            break;
          case 10: want = x * 3; break;
        }
        c.note("r%d(%d) = %d", slot, x, got);
        CHECK(got == want, "returned %d instead of %d", got, want);
        CHECK(g_log == std::vector<int>{t.kind}, "called %s instead of %d",
              show(g_log).c_str(), t.kind);
      }
    }
    CHECK((refs[0] == nullptr) == (model[0].kind == 0));
    CHECK((refs[1] == nullptr) == (model[1].kind == 0));
  }
  for (int k = 0; k < 2; ++k) {
    CHECK(w.cnt[k].n == m.cnt[k].n && w.ccnt[k].n == m.ccnt[k].n &&
          w.both[k].n == m.both[k].n && w.data[k] == m.data[k]);
  }
  CHECK(lam_n == m_lam_n);
  c.state(mc::Ctx::mix(mc::u64(model[0].kind * 16 + model[1].kind), mc::u64(w.cnt[0].n * 100 + lam_n)));
  (void)inner;
}
SCENARIO_T(fnref_mutable, "all sequences of 4 (thorough 5) of 14 operations on two fnref<int(int)>", mc::LeakCheck, fnref_ops<false>);
SCENARIO_T(fnref_const, "all sequences of 4 (thorough 5) of 14 operations on two fnref<int(int) const>", mc::LeakCheck, fnref_ops<true>);

// Arguments and results cross a fnref exactly as they cross a direct call.
struct MoveOnly : Trk {
  using Trk::Trk;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
};
template <bool is_const>
void fnref_args_run(Ctx& c) {
  Trk a(1), b(2);
  MoveOnly mo(3);
  const Trk& ca = a;
  int how = c.pick(3);  // functor, function pointer, unsafe
  el::g_copies = 0;
  c.step();
  int dummy = 4;
  auto via = [&]<typename R, typename... A>(R (*fn)(A...)) {
    return [fn](A... x) -> R { return fn(static_cast<A&&>(x)...); };
  };
  (void)via;
  auto test = [&]<typename R, typename... A>(R (*fn)(A...), auto&& go) {
    using F = best::fnref<std::conditional_t<is_const, R(A...) const, R(A...)>>;
    using Data = std::conditional_t<is_const, const int, int>;
    static R (*g_fn)(A...);
    g_fn = fn;
    auto functor = [&](A... x) -> R { return fn(static_cast<A&&>(x)...); };
    if (how == 0) {
      // (T&& results do not convert, by best::convertible's definition.)
      if constexpr (!std::is_rvalue_reference_v<R>) {
        F f = functor;
        go(f);
      }
    } else if (how == 1) {
      F f = fn;
      go(f);
    } else {
      typename F::fnptr raw = [](Data& d, A... x) -> R {
        put(d);
        return g_fn(static_cast<A&&>(x)...);
      };
      F f(best::unsafe{"in a test"}, &dummy, raw);
      go(f);
    }
  };
  switch (c.pick(9)) {
    case 0:
      test(+[](Trk& t) -> Trk& { return t; }, [&](auto& f) {
        Trk& r = f(a);
        CHECK(&r == &a && el::g_copies == 0);
      });
      break;
    case 1:
      test(+[](const Trk& t) -> const Trk& { return t; }, [&](auto& f) {
        const Trk& r = f(ca);
        CHECK(&r == &a && el::g_copies == 0);
      });
      break;
    case 2:
      test(+[](Trk&& t) -> Trk&& { return std::move(t); }, [&](auto& f) {
        Trk&& r = f(std::move(a));
        CHECK(&r == &a && r.get() == 1 && el::g_copies == 0);
      });
      break;
    case 3:
      test(+[](Trk t) -> Trk { return t; }, [&](auto& f) {
        Trk r = f(a);
        CHECK(r.get() == 1 && a.get() == 1 && el::g_copies == 1, "%d copies", el::g_copies);
        Trk s = f(std::move(b));
        CHECK(s.get() == 2 && b.get() == el::Moved && el::g_copies == 1);
      });
      break;
    case 4:
      test(+[](MoveOnly t) -> MoveOnly { return t; }, [&](auto& f) {
        MoveOnly r = f(std::move(mo));
        CHECK(r.get() == 3 && mo.get() == el::Moved && el::g_copies == 0);
      });
      break;
    case 5:
      test(+[](Trk& t, Trk&& u, const Trk& v) { t = v; (void)Trk(std::move(u)); }, [&](auto& f) {
        Trk z(9);
        f(z, std::move(b), ca);
        CHECK(z.get() == 1 && b.get() == el::Moved && el::g_copies == 1);
      });
      break;
    case 6:
      test(+[]() -> int { return 42; }, [&](auto& f) { CHECK(f() == 42); });
      break;
    case 7:
      test(+[](int x, int y) -> int { return x * 10 + y; }, [&](auto& f) {
        CHECK(f(1, 2) == 12);
      });
      break;
    case 8:
      test(+[]() {}, [&](auto& f) { f(); });
      break;
  }
  // A functor may return something that is dropped, or converted.
  {
    auto f = [](int x) { return Trk(x); };
    best::fnref<void(int)> v = f;
    v(3);
    auto g = [](const Trk& t) -> const Trk& { return t; };
    best::fnref<Trk(const Trk&)> h = g;
    el::g_copies = 0;
    Trk r = h(ca);
    CHECK(r.get() == ca.get() && el::g_copies == 1);
  }
}
SCENARIO_T(fnref_args,
           "9 signatures (values, references, move-only, void) through "
           "functor, function and unsafe pointer",
           mc::LeakCheck, fnref_args_run<false>);
SCENARIO_T(fnref_args_const, "the same, through const fnrefs", mc::LeakCheck, fnref_args_run<true>);

// ---- tap ----------------------------------------------------------------------
struct Call {
  int id = 1;
  int operator()(auto&& x) & { return put(0), put_arg((decltype(x)&&)x), id; }
  int operator()(auto&& x) const& { return put(1), put_arg((decltype(x)&&)x), id; }
  int operator()(auto&& x) && { return put(2), put_arg((decltype(x)&&)x), id; }
  int operator()(auto&& x) const&& { return put(3), put_arg((decltype(x)&&)x), id; }
};
struct Id {
  constexpr decltype(auto) operator()(auto&& x) const { return (decltype(x)&&)x; }
};
// Called with a value, gives something to call or index.
struct Curry {
  struct Next {
    int v, cat;
    int operator()(auto&&... y) const {
      put(v), put(cat), put(int(sizeof...(y)));
      (put_arg((decltype(y)&&)y), ...);
      return 5;
    }
    int operator[](auto&& y) const {
      put(-1), put(v), put(cat);
      put_arg((decltype(y)&&)y);
      return 6;
    }
  };
  Next operator()(auto&& x) const {
    return {el::val(x), cat_of<decltype(x)&&>};
  }
};
template <typename T>
void as_cat(int cat, T& x, auto&& go) {
  switch (cat) {
    case 0: go(static_cast<T&>(x)); break;
    case 1: go(static_cast<const T&>(x)); break;
    case 2: go(static_cast<T&&>(x)); break;
    case 3: go(static_cast<const T&&>(x)); break;
  }
}
SCENARIO(tap_basic, "value in 4 kinds x tap in 4 kinds, owning and bound to a mutable or const callback", mc::LeakCheck) {
  Trk x(7);
  int cx = c.pick(4), ct = c.pick(4), kind = c.pick(3);
  g_log.clear();
  el::g_copies = 0;
  c.step();
  int want_self;
  Call f{9};
  if (kind == 0) {
    best::tap t = Call{9};
    as_cat(cx, x, [&](auto&& x) {
      as_cat(ct, t, [&](auto&& t) {
        CHECK((static_cast<decltype(x)>(x)->*static_cast<decltype(t)>(t)) == 9);
      });
    });
    // An owned callback is called like the tap itself is.
    want_self = ct;
  } else if (kind == 1) {
    best::tap t(best::bind, f);
    as_cat(cx, x, [&](auto&& x) {
      as_cat(ct, t, [&](auto&& t) {
        CHECK((static_cast<decltype(x)>(x)->*static_cast<decltype(t)>(t)) == 9);
      });
    });
    want_self = 0;
  } else {
    const Call g{9};
    best::tap t(best::bind, g);
    as_cat(cx, x, [&](auto&& x) {
      as_cat(ct, t, [&](auto&& t) {
        CHECK((static_cast<decltype(x)>(x)->*static_cast<decltype(t)>(t)) == 9);
      });
    });
    want_self = 1;
  }
  std::vector<int> want = {want_self, 100 + cx, 7};
  CHECK(g_log == want, "did %s instead of %s", show(g_log).c_str(), show(want).c_str());
  CHECK(el::g_copies == 0 && x.get() == 7);
}
SCENARIO(tap_bound, "tap(args) with 0-2 arguments and tap[arg], value, tap and arguments in 4 kinds each", mc::LeakCheck) {
  Trk x(7), y(8), z(9);
  int cx = c.pick(4), ct = c.pick(4), op = c.pick(4);
  best::tap t = Curry{};
  g_log.clear();
  el::g_copies = 0;
  c.step();
  std::vector<int> want;
  int got = 0;
  as_cat(cx, x, [&](auto&& x) {
    as_cat(ct, t, [&](auto&& t) {
      using X = decltype(x);
      using T = decltype(t);
      if (op == 0) {
        got = static_cast<X>(x)->*static_cast<T>(t)();
        want = {7, cx, 0};
      } else if (op == 1) {
        int cy = c.pick(4);
        as_cat(cy, y, [&](auto&& y) {
          got = static_cast<X>(x)->*static_cast<T>(t)(static_cast<decltype(y)>(y));
        });
        want = {7, cx, 1, 100 + cy, 8};
      } else if (op == 2) {
        int cy = c.pick(4), cz = c.pick(4);
        as_cat(cy, y, [&](auto&& y) {
          as_cat(cz, z, [&](auto&& z) {
            got = static_cast<X>(x)->*static_cast<T>(t)(static_cast<decltype(y)>(y), static_cast<decltype(z)>(z));
          });
        });
        want = {7, cx, 2, 100 + cy, 8, 100 + cz, 9};
      } else {
        int cy = c.pick(4);
        as_cat(cy, y, [&](auto&& y) {
          got = static_cast<X>(x)->*static_cast<T>(t)[static_cast<decltype(y)>(y)];
        });
        want = {-1, 7, cx, 100 + cy, 8};
      }
    });
  });
  CHECK(got == (op == 3 ? 6 : 5));
  CHECK(g_log == want, "did %s instead of %s", show(g_log).c_str(), show(want).c_str());
  CHECK(el::g_copies == 0 && x.get() == 7 && y.get() == 8 && z.get() == 9);
}
SCENARIO(tap_chain, "all chains of 1-4 of 4 taps on a number; inspect in 4 kinds of value, owning and bound", mc::LeakCheck) {
  c.step();
  static constexpr best::tap twice = [](auto x) { return x * 2; };
  static constexpr best::tap inc = [](auto x) { return x + 1; };
  std::vector<int> seen;
  auto see = best::inspect([&seen](auto&& v) { seen.push_back(v); return 99; });
  best::tap neg = [](int v) { return -v; };
  if (c.flip()) {
    int v = 3, n = 1 + c.pick(4);
    int m = 3;
    std::vector<int> want;
    for (int i = 0; i < n; ++i) {
      switch (c.pick(4)) {
        case 0: v = v->*twice; m *= 2; break;
        case 1: v = v->*inc; m += 1; break;
        case 2: v = v->*see; want.push_back(m); break;
        case 3: v = v->*twice->*neg->*inc; m = 1 - m * 2; break;
      }
    }
    CHECK(v == m, "%d instead of %d", v, m);
    CHECK(seen == want);
  } else {
    Trk x(4);
    int cx = c.pick(4);
    bool bind = c.flip();
    g_log.clear();
    el::g_copies = 0;
    auto cb = [](auto&& v) { put_arg((decltype(v)&&)v); return 7; };
    auto check = [&](auto&& x0, auto&& r) {
      static_assert(std::is_same_v<decltype(x0), decltype(r)>);
      CHECK(&r == &x0, "not its argument");
    };
    as_cat(cx, x, [&](auto&& x0) {
      using X = decltype(x0);
      if (bind) check(static_cast<X>(x0), static_cast<X>(x0)->*best::inspect(best::bind, cb));
      else check(static_cast<X>(x0), static_cast<X>(x0)->*best::inspect(cb));
    });
    CHECK((g_log == std::vector<int>{100 + cx, 4}));
    CHECK(el::g_copies == 0 && x.get() == 4);
  }
}

// ---- defer ---------------------------------------------------------------------
SCENARIO(defers, "two nested defers, owning or bound, every script of 0-4 (thorough 6) run/cancel, re-entrant or not", mc::LeakCheck) {
  g_log.clear();
  std::vector<int> want;
  {
    int reenter = c.pick(3);  // the callback does nothing / run()s / cancel()s
    bool bound = c.flip();
    void (*again)(void*, int) = nullptr;
    void* self = nullptr;
    Trk owned(3);
    auto cb = [&again, &self, reenter, owned] {
      put(owned.get());
      if (again && g_log.size() < 20) again(self, reenter);
    };
    bool dead[2] = {false, false};
    best::defer outer = [] { put(1); };
    auto script = [&](auto& inner) {
      self = &inner;
      again = [](void* p, int how) {
        auto& d = *static_cast<std::remove_reference_t<decltype(inner)>*>(p);
        if (how == 1) d.run();
        if (how == 2) d.cancel();
      };
      int n = c.pick(c.thorough() ? 7 : 5);
      for (int i = 0; i < n; ++i) {
        c.step();
        int which = c.pick(2);
        bool run = c.flip();
        c.note("%s %d", run ? "run" : "cancel", which);
        if (run) {
          if (which) outer.run();
          else inner.run();
          if (!dead[which]) want.push_back(which ? 1 : 3);
        } else {
          if (which) outer.cancel();
          else inner.cancel();
        }
        dead[which] = true;
        CHECK(g_log == want, "did %s instead of %s", show(g_log).c_str(), show(want).c_str());
      }
    };
    if (bound) {
      best::defer inner(best::bind, cb);
      script(inner);
    } else {
      best::defer inner = std::move(cb);
      script(inner);
    }
    if (!dead[0]) want.push_back(3);
    CHECK(g_log == want, "at scope exit: did %s instead of %s", show(g_log).c_str(), show(want).c_str());
    if (!dead[1]) want.push_back(1);
    c.state(mc::u64(dead[0]) * 2 + mc::u64(dead[1]));
  }
  CHECK(g_log == want, "at scope exit: did %s instead of %s", show(g_log).c_str(), show(want).c_str());
}

// ---- arrow ---------------------------------------------------------------------
struct View {
  Trk t;
  int get() { return t.get(); }
  const View* me() const { return this; }
  View* operator&() = delete;
};
struct Thru {
  Trk* p;
  Trk* operator->() const { return p; }
};
struct Thru2 {
  Trk* p;
  Thru operator->() const { return {p}; }
};
struct Owner {
  Trk t;
  best::arrow<View> operator->() { return View{Trk(t.get() + 1)}; }
};
SCENARIO(arrows, "arrow over a value, over values with operator->, calls; deref_arrow of 5", mc::LeakCheck) {
  c.step();
  Trk t(6);
  int n = 0;
  switch (c.pick(8)) {
    case 0: {
      Owner o{Trk(6)};
      CHECK(o->get() == 7);
      CHECK(o.t.get() == 6);
      break;
    }
    case 1: CHECK(best::arrow(Thru{&t})->get() == 6); break;
    case 2: CHECK(best::arrow(Thru2{&t})->get() == 6); break;
    case 3: CHECK(best::arrow(best::arrow(Thru2{&t}))->get() == 6); break;
    case 4: CHECK(best::deref_arrow(&t) == &t); break;
    case 5: CHECK(best::deref_arrow(Thru{&t}) == &t && best::deref_arrow(Thru2{&t}) == &t); break;
    case 6: {
      best::arrow a = [&](int x) { n += x; return &n; };
      CHECK(a(3) == &n && n == 3 && a(4) == &n && n == 7);
      break;
    }
    case 7:
      CHECK(best::can_arrow<int*> && best::can_arrow<Thru> && best::can_arrow<Thru2> &&
            !best::can_arrow<int> && !best::can_arrow<View>);
      break;
  }
}
}  // namespace
