// L02: type lists and operators. All type lists of up to LMAX distinct elements (and all
// short lists over a small alphabet where repetition matters), every operation with every
// bound, index or list of indices, against plain arrays.
#include <algorithm>
#include <concepts>
#include <numeric>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "best/meta/ops.h"
#include "best/meta/tlist.h"
#include "mc.h"

namespace {
using mc::Ctx;
using V = std::vector<int>;

// Element number k: a type and a value.
template <int k> struct X { using type = X; };
struct Def {};  // a default

template <int... k> V dump(best::tlist<X<k>...>) { return {k...}; }
template <auto... k> requires (sizeof...(k) > 0) V dump(best::vlist<k...>) { return {int(k)...}; }
template <typename... T> V dump(best::id<best::tlist<T...>>) { return dump(best::tlist<T...>{}); }
V dump(Def) { return {-1}; }

std::string show(const V& v) {
  std::string s = "[";
  for (int x : v) s += std::to_string(x) + " ";
  return s + "]";
}
#define SAME(got_, want_, ...)                                                         \
  do {                                                                                 \
    c.step();                                                                          \
    V got__ = (got_), want__ = (want_);                                                \
    CHECK(got__ == want__, "%s: %s, expected %s", mc::str(__VA_ARGS__).c_str(), show(got__).c_str(), show(want__).c_str()); \
  } while (0)

template <size_t... i>
auto iota_types(std::index_sequence<i...>) { return best::tlist<X<int(i)>...>{}; }
template <size_t n> using L = decltype(iota_types(std::make_index_sequence<n>{}));
template <size_t... i>
auto iota_vals(std::index_sequence<i...>) { return best::vlist<int(i)...>{}; }
template <size_t n> using W = decltype(iota_vals(std::make_index_sequence<n>{}));
// 90, 91, ...
template <size_t... i>
auto new_types(std::index_sequence<i...>) { return best::tlist<X<90 + int(i)>...>{}; }
template <size_t n> using New = decltype(new_types(std::make_index_sequence<n>{}));
V news(size_t n) { V v(n); std::iota(v.begin(), v.end(), 90); return v; }
V upto(size_t n) { V v(n); std::iota(v.begin(), v.end(), 0); return v; }

template <size_t n, typename F>
constexpr void each(F&& f) {
  [&]<size_t... i>(std::index_sequence<i...>) { (f(std::integral_constant<size_t, i>{}), ...); }
  (std::make_index_sequence<n>{});
}

#ifndef LMAX
#define LMAX 5
#endif

// The bounds: kind 0 start only; 1 end; 2 including_end; 3 count; 4 end and count; 5 including_end and count.
constexpr best::bounds mk(size_t kind, size_t s, size_t v) {
  best::bounds b{.start = s};
  if (kind == 1 || kind == 4) b.end = v;
  if (kind == 2 || kind == 5) b.including_end = v;
  if (kind >= 3) b.count = kind == 3 ? v : v + 1;
  return b;
}
// Model: start and count, or -1.
std::pair<long, long> slice(size_t n, size_t kind, size_t s, size_t v) {
  size_t e = kind == 0 ? n : kind == 1 || kind == 4 ? v : kind == 2 || kind == 5 ? v + 1 : s + v;
  if (s > e || e > n) return {-1, -1};
  return {long(s), long(e - s)};
}
template <size_t n, typename F>
void all_bounds(F&& f) {
  each<6>([&](auto K) {
    each<n + 2>([&](auto S) {
      each<(K() == 0 ? 1 : n + 2)>([&](auto E) { f(K, S, E); });
    });
  });
}

#define LS_PART_(n_) (LS_PART == 0 || LS_PART == n_)
#ifndef LS_PART
#define LS_PART 0
#endif

#if LS_PART_(1)
template <size_t n>
void slices(Ctx& c) {
  all_bounds<n>([&]<typename K, typename S, typename E>(K, S, E) {
    // {.start = k + 1, .including_end = k}: unclaimed, as in S01.
    if constexpr ((K::value == 2 || K::value == 5) && S::value == E::value + 1) return;
    constexpr best::bounds b = mk(K::value, S::value, E::value);
    auto [s, k] = slice(n, K::value, S::value, E::value);
    std::string what = mc::str("list of %zu, bounds kind %zu start %zu value %zu", n, K::value, S::value, E::value);
    V want = upto(n);
    V at = s < 0 ? V{-1} : V(want.begin() + s, want.begin() + s + k);
    SAME(dump(L<n>::template at<b, Def>()), at, "at, %s", what.c_str());
    if (s >= 0) want.erase(want.begin() + s, want.begin() + s + k); else want = {-1};
    SAME(dump(L<n>::template erase<b, Def>()), want, "erase, %s", what.c_str());
    each<3>([&]<typename M>(M) {
      V w2 = want;
      V add = news(M::value);
      if (s >= 0) w2.insert(w2.begin() + s, add.begin(), add.end());
      SAME(dump(L<n>::template splice<b, Def>(New<M::value>{})), w2, "splice of %zu, %s", M::value, what.c_str());
    });
    if constexpr (b.try_compute_count(n).has_value()) {
      SAME(dump(L<n>::template at<b>()), at, "at without default, %s", what.c_str());
      SAME(dump(L<n>::template erase<b>()), want, "erase without default, %s", what.c_str());
    } else CHECK(s < 0, "bounds rejected, %s", what.c_str());
  });
}
SCENARIO(slices_all, "at, erase and splice of lists of 0-5 elements with all bounds", 0) {
  switch (c.pick(6)) {
    case 0: slices<0>(c); break;
    case 1: slices<1>(c); break;
    case 2: slices<2>(c); break;
    case 3: slices<3>(c); break;
    case 4: slices<4>(c); break;
    case 5: slices<5>(c); break;
  }
}
#endif

#if LS_PART_(2)
template <typename List, size_t n, typename D = void>
concept has_type = requires { typename List::template type<n>; };
template <typename List, size_t n>
concept has_value = requires { List::template value<n>; };
template <typename List, size_t... i>
concept has_gather = requires { List::template gather<i...>(); };

template <size_t n>
void singles(Ctx& c) {
  using T = L<n>;
  using U = W<n>;
  c.step();
  CHECK(T::size() == n && T::is_empty() == (n == 0) && T{}.size() == n, "size of a list of %zu", n);
  CHECK(T::is_values() == (n == 0) && U::is_values() && best::is_tlist<T> && best::is_vlist<U>, "is_values, %zu", n);
  CHECK(best::is_vlist<T> == (n == 0) && !best::is_tlist<int> && !best::is_vlist<X<0>>, "is_vlist, %zu", n);
  CHECK((best::is_tlist_of_size<T, n> && !best::is_tlist_of_size<T, n + 1>), "is_tlist_of_size, %zu", n);
  CHECK(T::is_unique() && U::is_unique(), "is_unique of %zu different elements", n);
  SAME(dump(best::indices<n>.template join(best::vals<77>)), [] { V v = upto(n); v.push_back(77); return v; }(), "indices<%zu>", n);
  each<n + 2>([&]<typename I>(I) {
    constexpr size_t i = I::value;
    V base = upto(n);
    CHECK((has_type<T, i>) == (i < n), "type<%zu> of a list of %zu", i, n);
    c.step();
    if constexpr (i < n) {
      CHECK((std::same_as<typename T::template type<i>, X<int(i)>> &&
             std::same_as<typename T::template type<i, Def>, X<int(i)>>), "type<%zu> of %zu", i, n);
      CHECK((U::template value<i> == int(i) && U::template value<i, 1000> == int(i)), "value<%zu> of %zu", i, n);
    } else {
      CHECK((std::same_as<typename T::template type<i, Def>, Def>), "type<%zu, D> of %zu", i, n);
      CHECK((U::template value<i, 1000> == 1000), "value<%zu, 1000> of %zu", i, n);
    }
    V w = base;
    if (i <= n) w.insert(w.begin() + i, 90); else w = {-1};
    SAME(dump(T::template insert<i, X<90>, Def>()), w, "insert<%zu> in %zu types", i, n);
    SAME(dump(U::template insert<i, 90, Def>()), w, "insert<%zu> in %zu values", i, n);
    if constexpr (i <= n) {
      SAME(dump(T::template insert<i, X<90>>()), w, "insert<%zu> in %zu types", i, n);
      SAME(dump(U::template insert<i, 90>()), w, "insert<%zu> in %zu values", i, n);
    }
    w = base;
    if (i < n) w[i] = 90;
    SAME(dump(T::template update<i, X<90>>()), w, "update<%zu> of %zu types", i, n);
    if constexpr (n > 0) SAME(dump(U::template update<i, 90>()), w, "update<%zu> of %zu values", i, n);
    w = base;
    if (i < n) w.erase(w.begin() + i); else w = {-1};
    SAME(dump(T::template remove<i, Def>()), w, "remove<%zu> of %zu", i, n);
    if constexpr (i < n) SAME(dump(T::template remove<i>()), w, "remove<%zu> of %zu", i, n);
  });
  V w = upto(n);
  w.push_back(90);
  SAME(dump(T::template push<X<90>>()), w, "push on %zu types", n);
  SAME(dump(U::template push<90>()), w, "push on %zu values", n);
}
template <size_t n, size_t... i>
void gathers(Ctx& c) {
  V w;
  V idx{int(i)...};
  for (int x : idx) w.push_back(size_t(x) < n ? x : 90);
  SAME(dump(L<n>::template gather<X<90>, i...>()), w, "gather %s of %zu with a default", show(idx).c_str(), n);
  if constexpr (((i < n) && ...)) SAME(dump(L<n>::template gather<i...>()), w, "gather %s of %zu", show(idx).c_str(), n);
  w = upto(n);
  for (size_t k = 0; k < idx.size(); ++k)
    if (size_t(idx[k]) < n) w[idx[k]] = 90 + int(k);
  SAME(dump(L<n>::template scatter<i...>(New<sizeof...(i)>{})), w, "scatter %s into %zu", show(idx).c_str(), n);
  if constexpr (sizeof...(i) < 2 || (sizeof...(i) < 3 && n < 5))
    each<n + 2>([&]<typename I>(I) { gathers<n, i..., I::value>(c); });
}
template <size_t n>
void point(Ctx& c) {
  if (c.pick(2)) gathers<n>(c); else singles<n>(c);
}
SCENARIO(points, "every operation at every position, gather and scatter with all lists of up to 3 positions, of lists of 0-5 elements", 0) {
  switch (c.pick(6)) {
    case 0: point<0>(c); break;
    case 1: point<1>(c); break;
    case 2: point<2>(c); break;
    case 3: point<3>(c); break;
    case 4: point<4>(c); break;
    case 5: point<5>(c); break;
  }
}
#endif

#if LS_PART_(3)
// All lists of up to k elements over 3 letters.
template <size_t code, size_t n> struct word {  // n digits in base 3
  template <typename> struct mkl;
  template <size_t... i> struct mkl<std::index_sequence<i...>> {
    static constexpr size_t digit(size_t k) { size_t x = code; while (k--) x /= 3; return x % 3; }
    using types = best::tlist<X<int(digit(i))>...>;
    using vals = best::vlist<int(digit(i))...>;
    static V v() { return {int(digit(i))...}; }
  };
  using m = mkl<std::make_index_sequence<n>>;
  using types = typename m::types;
  using vals = typename m::vals;
  static V v() { return m::v(); }
};
constexpr size_t pow3(size_t n) { return n ? 3 * pow3(n - 1) : 1; }
template <size_t max, typename F>
void all_words(F&& f) {
  each<max + 1>([&]<typename N>(N) {
    each<pow3(N::value)>([&]<typename C>(C) { f(word<C::value, N::value>{}); });
  });
}

SCENARIO(comparisons, "all pairs of lists of up to 3 elements over 3 letters: equality, order, trimming, joining", 0) {
  all_words<3>([&]<typename A>(A) {
    using LA = typename A::types;
    V a = A::v();
    V s = a;
    std::sort(s.begin(), s.end());
    bool uniq = std::unique(s.begin(), s.end()) == s.end();
    CHECK(LA::is_unique() == uniq && A::vals::is_unique() == uniq, "is_unique of %s", show(a).c_str());
    all_words<2>([&]<typename B>(B) {
      using LB = typename B::types;
      V b = B::v();
      c.step();
      std::string what = show(a) + " and " + show(b);
      bool pre = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.begin());
      bool suf = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.end() - b.size());
      bool erp = a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
      constexpr LA la;
      constexpr LB lb;
      CHECK((la == lb) == (a == b) && (la != lb) == (a != b) && (lb == la) == (a == b), "== of %s", what.c_str());
      auto ord = la <=> lb;
      CHECK((ord == best::partial_ord::equivalent) == (a == b) && (ord == best::partial_ord::greater) == (pre && a != b) &&
              (ord == best::partial_ord::less) == (erp && a != b) && (ord == best::partial_ord::unordered) == (!pre && !erp),
            "<=> of %s", what.c_str());
      CHECK((la < lb) == (erp && a != b) && (la > lb) == (pre && a != b) && (la <= lb) == erp && (la >= lb) == pre, "order of %s", what.c_str());
      V w(a.begin() + (pre ? b.size() : 0), a.end());
      SAME(dump(la.trim_prefix(lb)), w, "trim_prefix of %s", what.c_str());
      SAME(dump(la.template trim_prefix<Def>(lb)), pre ? w : V{-1}, "trim_prefix with default of %s", what.c_str());
      w = V(a.begin(), a.end() - (suf ? b.size() : 0));
      SAME(dump(la.trim_suffix(lb)), w, "trim_suffix of %s", what.c_str());
      SAME(dump(la.template trim_suffix<Def>(lb)), suf ? w : V{-1}, "trim_suffix with default of %s", what.c_str());
      w = a;
      w.insert(w.end(), b.begin(), b.end());
      SAME(dump(la.join(lb)), w, "join of %s", what.c_str());
      SAME(dump(la + lb), w, "+ of %s", what.c_str());
    });
  });
}
SCENARIO(joins, "joins of 1 to 4 lists of up to 3 elements", 0) {
  SAME(dump(L<3>{}.join()), upto(3), "join with nothing");
  each<4>([&]<typename A>(A) {
    each<4>([&]<typename B>(B) {
      each<4>([&]<typename D>(D) {
        V w = upto(A::value), t = news(B::value), u = upto(D::value);
        w.insert(w.end(), t.begin(), t.end());
        w.insert(w.end(), u.begin(), u.end());
        SAME(dump(L<A::value>{}.join(New<B::value>{}, L<D::value>{})), w, "join of %zu, %zu, %zu", A::value, B::value, D::value);
        V q = w;
        q.insert(q.end(), {0, 1});
        SAME(dump(L<A::value>{}.join(New<B::value>{}, L<D::value>{}, L<2>{})), q, "join of %zu, %zu, %zu, 2", A::value, B::value, D::value);
      });
    });
  });
}
#endif

#if LS_PART_(4)
template <size_t n, int k>
struct is_X { template <typename T> struct trait : std::bool_constant<std::same_as<T, X<k>>> {}; };
template <size_t code, size_t n> struct word {
  template <typename> struct mkl;
  template <size_t... i> struct mkl<std::index_sequence<i...>> {
    static constexpr size_t digit(size_t k) { size_t x = code; while (k--) x /= 3; return x % 3; }
    using types = best::tlist<X<int(digit(i))>...>;
    using vals = best::vlist<int(digit(i))...>;
    static V v() { return {int(digit(i))...}; }
  };
  using m = mkl<std::make_index_sequence<n>>;
  using types = typename m::types;
  using vals = typename m::vals;
  static V v() { return m::v(); }
};
constexpr size_t pow3(size_t n) { return n ? 3 * pow3(n - 1) : 1; }
template <size_t max, typename F>
void all_words(F&& f) {
  each<max + 1>([&]<typename N>(N) {
    each<pow3(N::value)>([&]<typename C>(C) { f(word<C::value, N::value>{}); });
  });
}
template <typename T> struct Is0 : std::is_same<T, X<0>> {};
template <typename T> struct Is1 : std::is_same<T, X<1>> {};
template <typename T> struct Is2 : std::is_same<T, X<2>> {};
template <typename T> struct Wrap {};
template <int... k> V dumpw(best::tlist<Wrap<X<k>>...>) { return {k...}; }
template <auto v> struct WrapV {};
template <int... k> requires (sizeof...(k) > 0) V dumpw(best::tlist<WrapV<k>...>) { return {k...}; }
template <typename... T> struct All {};
template <int... k> V dumpa(All<X<k>...>) { return {k...}; }
template <auto... v> struct AllV {};
template <int... k> V dumpa(AllV<k...>) { return {k...}; }

template <typename O>
bool is_opt(O o, long want) { return want < 0 ? !o.has_value() : o.has_value() && long(*o) == want; }

SCENARIO(finds, "find, find_unique, map, each, apply and reductions of all lists of up to 4 elements over 3 letters", 0) {
  all_words<4>([&]<typename A>(A) {
    using T = typename A::types;
    using U = typename A::vals;
    V a = A::v();
    std::string what = show(a);
    constexpr size_t n = T::size();
    c.step();
    // Searches.
    each<4>([&]<typename K>(K) {
      constexpr int k = int(K::value);
      long first = -1, count = 0;
      for (size_t i = 0; i < a.size(); ++i)
        if (a[i] == k) {
          if (first < 0) first = long(i);
          ++count;
        }
      long only = count == 1 ? first : -1;
      CHECK(is_opt(T::template find<X<k>>(), first), "find<%d> in %s", k, what.c_str());
      CHECK(is_opt(T::find([]<typename Q>() { return std::same_as<Q, X<k>>; }), first), "find(callback %d) in %s", k, what.c_str());
      CHECK(is_opt(U::find(k), first), "find(%d) in values %s", k, what.c_str());
      CHECK(is_opt(T::template find_unique<X<k>>(), only), "find_unique<%d> in %s", k, what.c_str());
      CHECK(is_opt(T::find_unique([]<typename Q>() { return std::same_as<Q, X<k>>; }), only), "find_unique(callback %d) in %s", k, what.c_str());
      CHECK(is_opt(U::find_unique(k), only), "find_unique(%d) in values %s", k, what.c_str());
      if constexpr (n > 0) {
        CHECK(is_opt(U::find([](auto v) { return v.value == k; }), first), "find(value callback %d) in %s", k, what.c_str());
        CHECK(is_opt(U::find_unique([](auto v) { return v.value == k; }), only), "find_unique(value callback %d) in %s", k, what.c_str());
      }
      if constexpr (k == 0) {
        CHECK(is_opt(T::template find<Is0>(), first) && is_opt(T::template find_unique<Is0>(), only), "find<trait> 0 in %s", what.c_str());
      } else if constexpr (k == 1) {
        CHECK(is_opt(T::template find<Is1>(), first) && is_opt(T::template find_unique<Is1>(), only), "find<trait> 1 in %s", what.c_str());
      } else if constexpr (k == 2) {
        CHECK(is_opt(T::template find<Is2>(), first) && is_opt(T::template find_unique<Is2>(), only), "find<trait> 2 in %s", what.c_str());
      }
      // The search stops at the first match, and asks in order.
      if constexpr (n > 0) {
        V asked;
        (void)U::find([&](auto v) { asked.push_back(v.value); return v.value == k; });
        SAME(asked, V(a.begin(), first < 0 ? a.end() : a.begin() + first + 1), "what find(%d) asks in %s", k, what.c_str());
      }
    });
    // map.
    V twice, plus;
    for (int x : a) twice.push_back(2 * x), plus.push_back(x + 1);
    SAME(dumpw(T::template map<Wrap>()), a, "map<trait> of %s", what.c_str());
    if constexpr (n > 0) {
      SAME(dumpw(U::template map<WrapV>()), a, "map<value trait> of %s", what.c_str());
      SAME(dump(T::template map<[]<typename Q>() { return Q{}; }>().template map<best::extract_trait>()), a, "map<[]> of %s", what.c_str());
      SAME(dump(U::template map<[](auto v) { return v.value * 2; }>()), twice, "map of values %s", what.c_str());
      SAME(dump(U::template map<[]<int v>() { return v + 1; }>()), plus, "map of value parameters %s", what.c_str());
    }
    // each.
    V seen;
    T::each([&]<typename Q>() { seen.push_back(dump(best::types<Q>)[0]); });
    SAME(seen, a, "each type of %s", what.c_str());
    if constexpr (n > 0) {
      seen.clear();
      U::each([&](auto v) { seen.push_back(v.value); });
      SAME(seen, a, "each value of %s", what.c_str());
      seen.clear();
      U::each([&]<int v>() { seen.push_back(v); });
      SAME(seen, a, "each value parameter of %s", what.c_str());
    }
    // apply.
    SAME(T::apply([]<typename... Q>() { return dump(best::types<Q...>); }), a, "apply to types %s", what.c_str());
    SAME(dumpa(T::template apply<All>()), a, "apply<trait> to %s", what.c_str());
    SAME(dumpa(U::template apply<AllV>()), a, "apply<value trait> to %s", what.c_str());
    if constexpr (n > 0) {
      SAME(U::apply([](auto... v) { return V{v.value...}; }), a, "apply to values %s", what.c_str());
      SAME((U::apply([]<int... v>() { return V{v...}; })), a, "apply to value parameters %s", what.c_str());
    }
    // Reductions.
    bool all = std::all_of(a.begin(), a.end(), [](int x) { return x; });
    bool any = std::any_of(a.begin(), a.end(), [](int x) { return x; });
    CHECK(bool(U::all()) == all && bool(U::any()) == any, "all and any of %s", what.c_str());
    if constexpr (n > 0) {
      CHECK(U::template reduce<best::op::Add>() == std::accumulate(a.begin(), a.end(), 0), "sum of %s", what.c_str());
      int d = a[0];
      for (size_t i = 1; i < n; ++i) d -= a[i];
      CHECK(U::template reduce<best::op::Sub>() == d, "difference of %s", what.c_str());
    }
  });
}
#endif

#if LS_PART_(5)
#define BIN(op_, expr_)                                                                          \
  for (int x : xs) for (int y : ys) {                                                            \
    c.step();                                                                                    \
    int a = x, b = y;                                                                            \
    CHECK((best::operate<best::op::op_>(a, b) == (a expr_ b)) &&                                 \
            (std::is_same_v<decltype(best::operate<best::op::op_>(a, b)), decltype((a expr_ b))>),   \
          #op_ " of %d and %d", x, y);                                                           \
  }
#define FOLD(op_, expr_)                                                                         \
  for (int x : xs) for (int y : ys) for (int z : ys) {                                           \
    c.step();                                                                                    \
    CHECK(best::operate<best::op::op_>(x, y, z) == ((x expr_ y) expr_ z), #op_ " of %d, %d and %d", x, y, z); \
    CHECK(best::operate<best::op::op_>(x, y, z, y) == (((x expr_ y) expr_ z) expr_ y), #op_ " of 4 arguments"); \
    CHECK(best::operate<best::op::op_>(x) == x, #op_ " of one argument");                        \
  }
#define ASSIGN(op_, expr_)                                                                       \
  for (int x : xs) for (int y : ys) {                                                            \
    c.step();                                                                                    \
    int a = x, b = x;                                                                            \
    (void)best::operate<best::op::op_##Assign>(a, y);                                            \
    b expr_ y;                                                                                   \
    CHECK(a == b, #op_ "Assign of %d and %d gives %d", x, y, a);                                 \
  }
struct Arr {
  int v;
  int at = 0;
  Arr* operator->() { return this; }
  int operator[](int i) const { return v * 10 + i; }
  int operator()(int a, int b) const { return v * 100 + a * 10 + b; }
  int operator()() const { return v; }
  friend int operator,(const Arr& a, const Arr& b) { return a.v * 10 + b.v; }
};
SCENARIO(operators, "best::operate of every operator with 1 to 4 small numbers", 0) {
  const V xs{-3, -2, -1, 0, 1, 2, 3, 5, 100}, all = xs;
  {
    const V& ys = all;
    BIN(Add, +) BIN(Sub, -) BIN(Mul, *) BIN(And, &) BIN(Or, |) BIN(Xor, ^) BIN(AndAnd, &&) BIN(OrOr, ||)
    BIN(Eq, ==) BIN(Ne, !=) BIN(Lt, <) BIN(Le, <=) BIN(Gt, >) BIN(Ge, >=) BIN(Spaceship, <=>)
    FOLD(Add, +) FOLD(Sub, -) FOLD(Mul, *) FOLD(And, &) FOLD(Or, |) FOLD(Xor, ^)
    ASSIGN(Add, +=) ASSIGN(Sub, -=) ASSIGN(Mul, *=) ASSIGN(And, &=) ASSIGN(Or, |=) ASSIGN(Xor, ^=)
    for (int x : xs) for (int y : ys) {
      int a = x;
      (void)best::operate<best::op::Assign>(a, y);
      CHECK(a == y, "Assign");
      CHECK((best::operate<best::op::Comma>(x, y) == y), "Comma");
      CHECK((best::operate<best::op::Comma>(Arr{x & 3}, Arr{y & 3}) == (x & 3) * 10 + (y & 3)), "Comma, overloaded");
    }
  }
  {
    const V ys{-3, -1, 1, 2, 7};
    BIN(Div, /) BIN(Rem, %) ASSIGN(Div, /=) ASSIGN(Rem, %=)
    for (int x : xs) for (int y : ys) for (int z : ys) {
      CHECK(best::operate<best::op::Div>(x, y, z) == x / y / z, "Div of 3");
      CHECK(best::operate<best::op::Rem>(x, y, z) == x % y % z, "Rem of 3");
    }
  }
  {
    const V ys{0, 1, 2, 5};
    BIN(Shl, <<) BIN(Shr, >>) FOLD(Shl, <<) FOLD(Shr, >>) ASSIGN(Shl, <<=) ASSIGN(Shr, >>=)
  }
  for (int x : all) {
    c.step();
    CHECK(best::operate<best::op::Plus>(x) == x && best::operate<best::op::Neg>(x) == -x && best::operate<best::op::Not>(x) == !x &&
            best::operate<best::op::Cmpl>(x) == ~x, "unary operators of %d", x);
    int a = x;
    CHECK(best::operate<best::op::AddrOf>(a) == &a && best::operate<best::op::Deref>(&a) == x, "AddrOf and Deref");
    CHECK(best::operate<best::op::PreInc>(a) == x + 1 && a == x + 1, "PreInc");
    CHECK(best::operate<best::op::PostInc>(a) == x + 1 && a == x + 2, "PostInc");
    CHECK(best::operate<best::op::PreDec>(a) == x + 1 && a == x + 1, "PreDec");
    CHECK(best::operate<best::op::PostDec>(a) == x + 1 && a == x, "PostDec");
    Arr r{x};
    CHECK(best::operate<best::op::Arrow>(r) == &r && best::operate<best::op::Arrow>(&r) == &r, "Arrow");
    CHECK(best::operate<best::op::ArrowStar>(&r, &Arr::v) == x, "ArrowStar");
    CHECK(best::operate<best::op::Index>(r, 3) == x * 10 + 3, "Index");
    CHECK((best::operate<best::op::Call>(r, 3, 4) == x * 100 + 34) && best::operate<best::op::Call>(r) == x, "Call");
    int arr[2] = {x, 7};
    CHECK(best::operate<best::op::Index>(arr, 1) == 7, "Index of an array");
  }
  CHECK((best::has_op<best::op::Add, int, int> && !best::has_op<best::op::Add, Arr, int> && !best::has_op<best::op::Index, int, int> &&
         best::has_op_r<best::op::Call, int, Arr> && !best::has_op_r<best::op::Call, Arr*, Arr>), "has_op");
}
#endif
}  // namespace
