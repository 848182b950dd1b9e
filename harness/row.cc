// O04: best::row against a list of (type, value) pairs.
#include <array>
#include <compare>
#include <string>
#include <tuple>
#include <vector>

#include "best/container/row.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/text/format.h"
#include "elems.h"
#include "mc.h"

#ifndef ROW_PART
#define ROW_PART 1
#endif

namespace {
using el::Trk;
using mc::Ctx;

// A different type for each id.
template <int id>
struct E : Trk {
  E() : Trk(id) {}
  explicit E(int v) : Trk(v) {}
  E(int a, int b) : Trk(a * 10 + b) {}
  E(const E&) = default;
  E(E&&) = default;
  E& operator=(const E&) = default;
  E& operator=(E&&) = default;
};
// Made from anything tracked, remembering how.
struct Conv {
  int v, how;
  explicit Conv(Trk& t) : v(t.get()), how(0) {}
  explicit Conv(const Trk& t) : v(t.get()), how(1) {}
  explicit Conv(Trk&& t) : v(t.get()), how(2) { Trk eat(std::move(t)); }
  explicit Conv(const Trk&& t) : v(t.get()), how(3) {}
  explicit Conv(int a, Trk& b) : v(a * 10 + b.get()), how(4) {}
};

template <typename T>
constexpr int cat_of = (std::is_lvalue_reference_v<T> ? 0 : 2) +
                       (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);
// 0: &, 1: const&, 2: &&, 3: const&&.
template <int cat, typename T>
decltype(auto) as(T& x) {
  if constexpr (cat == 0) return static_cast<T&>(x);
  else if constexpr (cat == 1) return static_cast<const T&>(x);
  else if constexpr (cat == 2) return static_cast<T&&>(x);
  else return static_cast<const T&&>(x);
}

// Rows E<base>...E<base+n-1>, holding base..base+n-1.
template <int base, int n>
auto make() {
  return []<size_t... i>(std::index_sequence<i...>) {
    return best::row<E<base + int(i)>...>(E<base + int(i)>(base + int(i))...);
  }(std::make_index_sequence<size_t(n)>{});
}
template <auto ids>
auto expected_type() {
  return []<size_t... i>(std::index_sequence<i...>) {
    return std::type_identity<best::row<E<ids[i]>...>>{};
  }(std::make_index_sequence<ids.size()>{});
}

template <size_t k, typename Row>
int value(const Row& r) {
  return el::val(r.at(best::index<k>));
}
template <typename Row>
std::vector<int> values(const Row& r) {
  std::vector<int> out;
  [&]<size_t... i>(std::index_sequence<i...>) {
    (out.push_back(value<i>(r)), ...);
  }(std::make_index_sequence<Row::size()>{});
  return out;
}
std::string show(const std::vector<int>& v) {
  std::string s;
  for (int x : v) s += std::to_string(x) + " ";
  return s;
}

// Checks that `out` is what taking the elements `ids` from sources `a` (ids
// from 0) and `b` (ids from 100) in categories ca and cb should give.
template <auto ids, int ca, int cb, typename Out, typename A, typename B>
void check_taken(const Out& out, const A& a, const B& b) {
  using Want = typename decltype(expected_type<ids>())::type;
  CHECK((std::is_same_v<Out, Want>), "%s", __PRETTY_FUNCTION__);
  if constexpr (std::is_same_v<Out, Want>) {
    std::vector<int> want(ids.begin(), ids.end());
    CHECK(values(out) == want, "%s", show(values(out)).c_str());
    int copies = 0;
    std::vector<int> wa, wb;
    for (int i = 0; i < int(A::size()); ++i) wa.push_back(i);
    for (int i = 0; i < int(B::size()); ++i) wb.push_back(100 + i);
    for (int id : want) {
      bool first = id < 100;
      if ((first ? ca : cb) == 2) (first ? wa[size_t(id)] : wb[size_t(id - 100)]) = el::Moved;
      else ++copies;
    }
    CHECK(values(a) == wa, "source is now %s", show(values(a)).c_str());
    CHECK(values(b) == wb, "second source is now %s", show(values(b)).c_str());
    CHECK(el::g_copies == copies, "%d copies instead of %d", el::g_copies, copies);
  }
}

// Runs case number c.pick(n) out of f.template operator()<0..n-1>().
template <int n, typename F>
void each_case(Ctx& c, F&& f) {
  int k = c.pick(n);
  [&]<size_t... i>(std::index_sequence<i...>) {
    ((k == int(i) ? f.template operator()<int(i)>() : void()), ...);
  }(std::make_index_sequence<size_t(n)>{});
}

// All (start, count) for a row of n, numbered.
constexpr int ranges(int n) { return (n + 1) * (n + 2) / 2; }
constexpr std::pair<int, int> nth_range(int n, int k) {
  for (int s = 0; s <= n; ++s)
    for (int m = 0; s + m <= n; ++m)
      if (k-- == 0) return {s, m};
  return {-1, -1};
}
constexpr int find_range(int n, int s, int m) {
  for (int k = 0;; ++k)
    if (nth_range(n, k) == std::pair<int, int>{s, m}) return k;
}
// The forms of bounds that mean (start, count).
template <int n, int k, int form>
constexpr best::bounds range_of = [] {
  auto [s, m] = nth_range(n, k);
  best::bounds b;
  b.start = size_t(s);
  if (form == 0) b.count = size_t(m);
  else if (form == 1) b.end = size_t(s + m);
  else if (form == 2 && m > 0) b.including_end = size_t(s + m - 1);
  else if (form == 3 && s + m == n) (void)0;  // to the end
  else b.count = size_t(m);
  return b;
}();
template <int n, int k, int m>
constexpr auto splice_ids = [] {
  constexpr auto r = nth_range(n, k);
  std::array<int, size_t(n - r.second + m)> out{};
  size_t o = 0;
  for (int i = 0; i < r.first; ++i) out[o++] = i;
  for (int i = 0; i < m; ++i) out[o++] = 100 + i;
  for (int i = r.first + r.second; i < n; ++i) out[o++] = i;
  return out;
}();
template <int n, int k>
constexpr auto slice_ids = [] {
  constexpr auto r = nth_range(n, k);
  std::array<int, size_t(r.second)> out{};
  for (int i = 0; i < r.second; ++i) out[size_t(i)] = r.first + i;
  return out;
}();

#if ROW_PART == 1
template <int n>
void slices(Ctx& c) {
  each_case<ranges(n)>(c, [&]<int k>() {
    each_case<4>(c, [&]<int cat>() {
      each_case<8>(c, [&]<int op>() {
        auto r = make<0, n>();
        best::row<> none;
        el::g_copies = 0;
        c.step();
        constexpr auto b = range_of<n, k, op % 4>;
        if constexpr (op < 4) {
          c.note("at(range %d)", k);
          check_taken<slice_ids<n, k>, cat, 1>(as<cat>(r).at(best::vals<b>), r, none);
          el::g_copies = 0;
          auto r2 = make<0, n>();
          el::g_copies = 0;
          check_taken<slice_ids<n, k>, cat, 1>(as<cat>(r2)[best::vals<b>], r2, none);
        } else {
          c.note("erase(range %d)", k);
          check_taken<splice_ids<n, k, 0>, cat, 1>(as<cat>(r).template erase<b>(), r, none);
        }
      });
    });
  });
}
SCENARIO_T(slice_0, "every range, in 4 forms, of rows of 0 elements, in 4 kinds of value: at, [], erase", mc::LeakCheck, slices<0>);
SCENARIO_T(slice_1, "the same, 1 element", mc::LeakCheck, slices<1>);
SCENARIO_T(slice_2, "the same, 2 elements", mc::LeakCheck, slices<2>);
SCENARIO_T(slice_3, "the same, 3 elements", mc::LeakCheck, slices<3>);
SCENARIO_T(slice_4, "the same, 4 elements", mc::LeakCheck, slices<4>);

template <int n>
void splices(Ctx& c) {
  each_case<ranges(n)>(c, [&]<int k>() {
    each_case<3>(c, [&]<int m>() {
      each_case<4>(c, [&]<int ca>() {
        each_case<4>(c, [&]<int cb>() {
          auto r = make<0, n>();
          auto s = make<100, m>();
          el::g_copies = 0;
          c.step();
          c.note("splice range %d with %d elements", k, m);
          constexpr auto b = range_of<n, k, (ca + cb) % 4>;
          check_taken<splice_ids<n, k, m>, ca, cb>(as<ca>(r).template splice<b>(as<cb>(s)), r, s);
        });
      });
    });
  });
}
SCENARIO_T(splice_0, "every range replaced by rows of 0-2, both in 4 kinds of value, rows of 0 elements", mc::LeakCheck, splices<0>);
SCENARIO_T(splice_1, "the same, 1 element", mc::LeakCheck, splices<1>);
SCENARIO_T(splice_2, "the same, 2 elements", mc::LeakCheck, splices<2>);
SCENARIO_T(splice_3, "the same, 3 elements", mc::LeakCheck, splices<3>);

// splice() to other types.
template <int n>
void splice_types(Ctx& c) {
  each_case<ranges(n)>(c, [&]<int k>() {
    each_case<4>(c, [&]<int cb>() {
      auto r = make<0, n>();
      auto s = make<100, 2>();
      el::g_copies = 0;
      c.step();
      constexpr auto rg = nth_range(n, k);
      auto out = as<2>(r).template splice<range_of<n, k, 0>>(best::types<Conv, E<101>>, as<cb>(s));
      const Conv& cv = out.at(best::index<size_t(rg.first)>);
      CHECK(cv.v == 100 && cv.how == cb, "made from a value of kind %d, not %d", cv.how, cb);
      CHECK((out.at(best::index<size_t(rg.first + 1)>).get() == 101));
      CHECK((std::is_same_v<const E<101>&, decltype(std::as_const(out).at(best::index<size_t(rg.first + 1)>))>));
      CHECK(out.size() == size_t(n - rg.second + 2));
      CHECK(el::g_copies == (cb == 2 ? 0 : 1), "%d copies", el::g_copies);
    });
  });
}
SCENARIO_T(splice_types_0, "every range replaced by two elements of chosen types, in 4 kinds of value, rows of 0", mc::LeakCheck, splice_types<0>);
SCENARIO_T(splice_types_1, "the same, 1 element", mc::LeakCheck, splice_types<1>);
SCENARIO_T(splice_types_3, "the same, 3 elements", mc::LeakCheck, splice_types<3>);
#endif

#if ROW_PART == 2
// push, insert, update, remove; the argument taken by value, bound, or as a
// chosen type.
template <int n>
constexpr auto all_ids = [] {
  std::array<int, size_t(n)> a{};
  for (int i = 0; i < n; ++i) a[size_t(i)] = i;
  return a;
}();
template <int n, int at, int del>
constexpr auto put_ids = [] {
  std::array<int, size_t(n + 1 - del)> a{};
  size_t o = 0;
  for (int i = 0; i < at; ++i) a[o++] = i;
  a[o++] = 100;
  for (int i = at + del; i < n; ++i) a[o++] = i;
  return a;
}();
template <int n>
void edits(Ctx& c) {
  // at in [0, n] for insert (n: also push), [0, n) for update and remove.
  each_case<3 * n + 2>(c, [&]<int which>() {
    constexpr int op = which <= n ? 0 : which <= 2 * n ? 1 : which <= 3 * n ? 2 : 3;
    constexpr int at = op == 0 ? which : op == 1 ? which - n - 1 : op == 2 ? which - 2 * n - 1 : n;
    constexpr auto idx = best::index<size_t(at)>;
    each_case<4>(c, [&]<int ca>() {
      auto r = make<0, n>();
      c.step();
      if constexpr (op == 2) {
        el::g_copies = 0;
        best::row<> none;
        check_taken<splice_ids<n, find_range(n, at, 1), 0>, ca, 1>(as<ca>(r).remove(idx), r, none);
      } else {
        each_case<4>(c, [&]<int cb>() {
          each_case<3>(c, [&]<int form>() {
            constexpr int del = op == 1;
            E<100> x(100);
            el::g_copies = 0;
            auto go = [&](auto&&... args) -> decltype(auto) {
              if constexpr (op == 0) return as<ca>(r).template insert<size_t(at)>((decltype(args)&&)args...);
              else if constexpr (op == 1) return as<ca>(r).template update<size_t(at)>((decltype(args)&&)args...);
              else return as<ca>(r).push((decltype(args)&&)args...);
            };
            if constexpr (form == 0) {
              auto out = go(as<cb>(x));
              // As if from a row holding x.
              CHECK(x.get() == (cb == 2 ? el::Moved : 100));
              best::row<E<100>> s(cb == 2 ? E<100>(el::Moved) : E<100>(100));
              check_taken<put_ids<n, at, del>, ca, cb>(out, r, s);
            } else if constexpr (form == 1) {
              auto out = go(best::bind, as<cb>(x));
              using T = std::remove_cvref_t<decltype(out)>::template type<size_t(at)>;
              CHECK((std::is_same_v<T, decltype(as<cb>(x))&&>), "%s", __PRETTY_FUNCTION__);
              CHECK(&std::as_const(out).at(idx) == &x, "not bound to the argument");
              CHECK(x.get() == 100);
              CHECK(el::g_copies == (ca == 2 ? 0 : n - del), "%d copies", el::g_copies);
              auto v = values(out);
              CHECK((v == std::vector<int>(put_ids<n, at, del>.begin(), put_ids<n, at, del>.end())));
            } else {
              auto out = go(best::types<Conv>, as<cb>(x));
              const Conv& cv = std::as_const(out).at(idx);
              CHECK(cv.v == 100 && cv.how == cb, "made from a value of kind %d, not %d", cv.how, cb);
              CHECK(out.size() == size_t(n + 1 - del));
              Trk t(3);
              auto r2 = make<0, n>();
              auto two = [&]() {
                if constexpr (op == 0) return r2.template insert<size_t(at)>(best::types<Conv>, best::args(4, t));
                else if constexpr (op == 1) return r2.template update<size_t(at)>(best::types<Conv>, best::args(4, t));
                else return r2.push(best::types<Conv>, best::args(4, t));
              }();
              CHECK(std::as_const(two).at(idx).v == 43 && std::as_const(two).at(idx).how == 4);
            }
          });
        });
      }
    });
  });
}
SCENARIO_T(edit_0, "push (every place), insert, update, remove; argument by value, bound and as another type; row and argument in 4 kinds of value; rows of 0", mc::LeakCheck, edits<0>);
SCENARIO_T(edit_1, "the same, 1 element", mc::LeakCheck, edits<1>);
SCENARIO_T(edit_2, "the same, 2 elements", mc::LeakCheck, edits<2>);
SCENARIO_T(edit_3, "the same, 3 elements", mc::LeakCheck, edits<3>);
#endif

#if ROW_PART == 3
// Lists of k distinct indices out of n, numbered; and all lists.
constexpr int power(int n, int k) { return k == 0 ? 1 : n * power(n, k - 1); }
template <int n, int k, int num>
constexpr auto index_list = [] {
  std::array<size_t, size_t(k)> a{};
  int x = num;
  for (int i = 0; i < k; ++i) a[size_t(i)] = size_t(x % n), x /= n;
  return a;
}();
template <size_t k>
constexpr bool distinct(std::array<size_t, k> a) {
  for (size_t i = 0; i < k; ++i)
    for (size_t j = 0; j < i; ++j)
      if (a[i] == a[j]) return false;
  return true;
}
template <int n, int k>
void gathers(Ctx& c) {
  each_case<power(n, k)>(c, [&]<int num>() {
    constexpr auto list = index_list<n, k, num>;
    each_case<4>(c, [&]<int ca>() {
      // (Moving one element to two places is the caller's problem.)
      if constexpr (ca != 2 || distinct(list)) {
        auto r = make<0, n>();
        best::row<> none;
        el::g_copies = 0;
        c.step();
        constexpr auto ids = [] {
          std::array<int, size_t(k)> a{};
          for (int i = 0; i < k; ++i) a[size_t(i)] = int(index_list<n, k, num>[size_t(i)]);
          return a;
        }();
        [&]<size_t... i>(std::index_sequence<i...>) {
          check_taken<ids, ca, 1>(as<ca>(r).gather(best::vals<list[i]...>), r, none);
          auto r2 = make<0, n>();
          el::g_copies = 0;
          check_taken<ids, ca, 1>(as<ca>(r2).template gather<list[i]...>(), r2, none);
        }(std::make_index_sequence<size_t(k)>{});
      }
    });
  });
}
template <int n, int k>
void scatters(Ctx& c) {
  each_case<power(n, k)>(c, [&]<int num>() {
    constexpr auto list = index_list<n, k, num>;
    if constexpr (distinct(list)) {
      each_case<2>(c, [&]<int extra>() {
        each_case<4>(c, [&]<int ca>() {
          each_case<4>(c, [&]<int cb>() {
            each_case<2>(c, [&]<int form>() {
              auto r = make<0, n>();
              auto s = make<100, k + extra>();
              el::g_copies = 0;
              c.step();
              constexpr auto ids = [] {
                std::array<int, size_t(n)> a{};
                for (int i = 0; i < n; ++i) a[size_t(i)] = i;
                for (int i = 0; i < k; ++i) a[index_list<n, k, num>[size_t(i)]] = 100 + i;
                return a;
              }();
              [&]<size_t... i>(std::index_sequence<i...>) {
                if constexpr (form == 0) {
                  check_taken<ids, ca, cb>(as<ca>(r).scatter(as<cb>(s), best::vals<list[i]...>), r, s);
                } else {
                  // Chosen types: each made from what it is given.
                  auto out = as<ca>(r).scatter(best::types<best::dependent<Conv, std::integral_constant<size_t, i>>...>,
                                               as<cb>(s), best::vals<list[i]...>);
                  (([&] {
                     using T = std::remove_cvref_t<decltype(out)>::template type<list[i]>;
                     CHECK((std::is_same_v<T, Conv>), "%s", __PRETTY_FUNCTION__);
                     if constexpr (std::is_same_v<T, Conv>) {
                       const Conv& cv = std::as_const(out).at(best::index<list[i]>);
                       CHECK(cv.v == 100 + int(i) && cv.how == cb, "%d, made from a value of kind %d", cv.v, cv.how);
                     }
                   }()),
                   ...);
                  CHECK(el::g_copies == (ca == 2 ? 0 : n - k), "%d copies", el::g_copies);
                }
              }(std::make_index_sequence<size_t(k)>{});
            });
          });
        });
      });
    }
  });
}
SCENARIO_T(gather_0, "gather of no elements", mc::LeakCheck, gathers<2, 0>);
SCENARIO_T(gather_1, "every list of 1 of 3, in 4 kinds of value", mc::LeakCheck, gathers<3, 1>);
SCENARIO_T(gather_2, "every list of 2 of 3", mc::LeakCheck, gathers<3, 2>);
SCENARIO_T(gather_3, "every list of 3 of 3", mc::LeakCheck, gathers<3, 3>);
SCENARIO_T(gather_4, "every list of 4 of 2", mc::LeakCheck, gathers<2, 4>);
SCENARIO_T(gather_5, "every list of 2 of 5", mc::LeakCheck, gathers<5, 2>);
SCENARIO_T(scatter_0, "scatter of no elements", mc::LeakCheck, scatters<2, 0>);
SCENARIO_T(scatter_1, "every list of 1 of 3, from rows of 1-2, to the same or chosen types, both rows in 4 kinds of value", mc::LeakCheck, scatters<3, 1>);
SCENARIO_T(scatter_2, "every list of 2 of 3", mc::LeakCheck, scatters<3, 2>);
SCENARIO_T(scatter_3, "every list of 3 of 3", mc::LeakCheck, scatters<3, 3>);

// join and +.
template <int a, int b>
constexpr auto join_ids = [] {
  std::array<int, size_t(a + b)> out{};
  for (int i = 0; i < a; ++i) out[size_t(i)] = i;
  for (int i = 0; i < b; ++i) out[size_t(a + i)] = 100 + i;
  return out;
}();
void joins(Ctx& c) {
  each_case<4>(c, [&]<int a>() {
    each_case<4>(c, [&]<int b>() {
      each_case<4>(c, [&]<int ca>() {
        each_case<4>(c, [&]<int cb>() {
          c.step();
          {
            auto r = make<0, a>();
            auto s = make<100, b>();
            el::g_copies = 0;
            check_taken<join_ids<a, b>, ca, cb>(as<ca>(r).join(as<cb>(s)), r, s);
          }
          {
            auto r = make<0, a>();
            auto s = make<100, b>();
            el::g_copies = 0;
            check_taken<join_ids<a, b>, ca, cb>(as<ca>(r) + as<cb>(s), r, s);
          }
          if constexpr (a > 0 && b > 0 && a < 3 && b < 3) {
            auto r = make<0, a>();
            auto s = make<100, b>();
            auto t = make<200, 2>();
            best::row<> none;
            el::g_copies = 0;
            auto out = as<ca>(r).join(none, as<cb>(s), t, as<ca>(none));
            CHECK(out.size() == size_t(a + b + 2));
            std::vector<int> want;
            for (int i = 0; i < a; ++i) want.push_back(i);
            for (int i = 0; i < b; ++i) want.push_back(100 + i);
            want.push_back(200);
            want.push_back(201);
            CHECK(values(out) == want);
            CHECK(el::g_copies == (ca == 2 ? 0 : a) + (cb == 2 ? 0 : b) + 2);
            CHECK((values(t) == std::vector<int>{200, 201}));
          }
        });
      });
    });
  });
}
SCENARIO_T(join, "join and + of rows of 0-3 and 0-3 elements in 4 kinds of value; of five rows", mc::LeakCheck, joins);

// select: by type and by key.
struct K1 {};
template <int id>
struct Keyed : Trk {
  using BestRowKey = K1;
  Keyed() : Trk(id) {}
};
template <int kind, int pos>
struct Slot;
template <int pos>
struct Slot<0, pos> {
  using T = E<7>;
  static T make() { return T(pos); }
};
template <int pos>
struct Slot<1, pos> {
  using T = Keyed<pos>;
  static T make() { return T(); }
};
template <int pos>
struct Slot<2, pos> {
  using T = E<50 + pos>;
  static T make() { return T(pos); }
};
template <typename Key, int kind>
void select_one(Ctx& c) {
  each_case<27>(c, [&]<int num>() {
    each_case<4>(c, [&]<int ca>() {
      constexpr int k0 = num % 3, k1 = num / 3 % 3, k2 = num / 9;
      best::row<typename Slot<k0, 0>::T, typename Slot<k1, 1>::T, typename Slot<k2, 2>::T> r(
        Slot<k0, 0>::make(), Slot<k1, 1>::make(), Slot<k2, 2>::make());
      el::g_copies = 0;
      c.step();
      auto out = as<ca>(r).template select<Key>();
      std::vector<int> want, left;
      int ks[] = {k0, k1, k2};
      for (int i = 0; i < 3; ++i) {
        if (ks[i] == kind) want.push_back(i);
        left.push_back(ks[i] == kind && ca == 2 ? el::Moved : i);
      }
      CHECK(values(out) == want, "selected %s", show(values(out)).c_str());
      CHECK(values(r) == left);
      CHECK(el::g_copies == (ca == 2 ? 0 : int(want.size())));
      constexpr auto is = decltype(r)::template select_indices<Key>();
      std::vector<int> got;
      is.each([&](auto i) { got.push_back(int(i.value)); });
      CHECK(got == want);
      CHECK(decltype(r)::template selectable<Key> == !want.empty());
    });
  });
}
void select_type(Ctx& c) { select_one<E<7>, 0>(c); }
void select_key(Ctx& c) { select_one<K1, 1>(c); }
SCENARIO_T(select_by_type, "select, select_indices, selectable: every row of 3 out of 3 kinds, in 4 kinds of value, by type", mc::LeakCheck, select_type);
SCENARIO_T(select_by_key, "the same by BestRowKey", mc::LeakCheck, select_key);
#endif

#if ROW_PART == 4
// ---- access -------------------------------------------------------------------
// The type of reference that an element of type T gives in a row of kind cat.
template <typename T, int cat>
auto acc() {
  if constexpr (std::is_void_v<T>) return std::type_identity<void>{};
  else if constexpr (cat == 0) return std::type_identity<T&>{};
  else if constexpr (cat == 1) return std::type_identity<const T&>{};
  else if constexpr (cat == 2) return std::type_identity<T&&>{};
  else return std::type_identity<const T&&>{};
}
template <typename... T>
constexpr bool any_void(best::tlist<T...>) {
  return (false || ... || std::is_void_v<T>);
}

// A row of four kinds of thing, with a model of what each refers to.
struct Empty {};
using R0 = best::row<>;
using R1 = best::row<Trk>;
using R2 = best::row<Trk, Trk&>;
using R3 = best::row<Trk, void, int>;
using R4 = best::row<Trk&&, const Trk&, Trk, Empty>;
using R5 = best::row<Empty, int, Empty, Trk, int*>;

#define CHECK_EXPR(x) [&] { CHECK(x, "%s", __PRETTY_FUNCTION__); }()
template <size_t i, int cat, typename R>
void access_one(R& r, const void* where) {
  using T = typename R::template type<i>;
  using Want = typename decltype(acc<T, cat>())::type;
  constexpr auto idx = best::index<i>;
  CHECK((std::is_same_v<decltype(as<cat>(r)[idx]), Want>), "%s", __PRETTY_FUNCTION__);
  CHECK((std::is_same_v<decltype(as<cat>(r).at(idx)), Want>), "%s", __PRETTY_FUNCTION__);
  CHECK((std::is_same_v<decltype(as<cat>(r).template at<i>()), Want>));
  if constexpr (std::is_void_v<T>) {
    CHECK((std::is_same_v<decltype(as<cat>(r).get(idx)), best::empty>));
  } else {
    CHECK((std::is_same_v<decltype(as<cat>(r).get(idx)), Want>));
    auto ad = [&](auto&& x) { return (const void*)std::addressof(x); };
    const void* p = ad(as<cat>(r)[idx]);
    CHECK(p == ad(as<cat>(r).at(idx)) && p == ad(as<cat>(r).get(idx)) && p == ad(*as<cat>(r).object(idx)));
    if (where) CHECK(p == where, "element %zu is somewhere else", i);
    else {
      uintptr_t lo = uintptr_t(&r), x = uintptr_t(p);
      CHECK(x >= lo && x + (std::is_empty_v<T> ? 0 : sizeof(T)) <= lo + sizeof r, "element %zu lies outside of the row", i);
    }
    if constexpr (i == 0) CHECK(p == ad(as<cat>(r).first()) && (std::is_same_v<decltype(as<cat>(r).first()), Want>));
    if constexpr (i == 1) CHECK(p == ad(as<cat>(r).second()) && (std::is_same_v<decltype(as<cat>(r).second()), Want>));
    if constexpr (i + 1 == R::size()) CHECK(p == ad(as<cat>(r).last()) && (std::is_same_v<decltype(as<cat>(r).last()), Want>));
  }
  CHECK((std::is_same_v<std::tuple_element_t<i, R>, T>));
}
template <typename R, typename... W>
void access_all(Ctx& c, R& r, W... where) {
  CHECK(r.size() == sizeof...(W) && r.is_empty() == (sizeof...(W) == 0));
  CHECK(std::tuple_size_v<R> == sizeof...(W));
  const void* w[] = {where..., nullptr};
  each_case<4>(c, [&]<int cat>() {
    c.step();
    el::g_copies = 0;
    [&]<size_t... i>(std::index_sequence<i...>) {
      (access_one<i, cat>(r, w[i]), ...);
    }(std::make_index_sequence<R::size()>{});
    // apply, each, as_ref and as_args see the same things.
    std::vector<const void*> seen, want;
    auto log = [&](auto&& x) {
      using X = decltype(x);
      CHECK(cat_of<X> == cat_of<X>);
      seen.push_back(std::is_same_v<std::remove_cvref_t<X>, best::empty> ? nullptr : (const void*)std::addressof(x));
    };
    [&]<size_t... i>(std::index_sequence<i...>) {
      (([&] {
         if constexpr (std::is_void_v<typename R::template type<i>>) want.push_back(nullptr);
         else want.push_back((const void*)std::addressof(std::as_const(r).at(best::index<i>)));
       }()),
       ...);
      // The kinds of value that arrive.
      as<cat>(r).apply([&](auto&&... x) {
        ((std::is_void_v<typename R::template type<i>>
            ? CHECK_EXPR((std::is_same_v<std::remove_cvref_t<decltype(x)>, best::empty>))
            : CHECK_EXPR((std::is_same_v<decltype(x), decltype(as<cat>(r).get(best::index<i>))&&>))),
         ...);
        (log((decltype(x)&&)x), ...);
      });
    }(std::make_index_sequence<R::size()>{});
    CHECK(seen == want, "apply");
    seen.clear();
    as<cat>(r).each(log);
    CHECK(seen == want, "each");
    int n = 0;
    as<cat>(r).each([&](auto&&...) { ++n; });
    CHECK(n == int(R::size()));
    seen.clear();
    if constexpr (!any_void(R::types)) {
      auto refs = as<cat>(r).as_ref();
      refs.each(log);
      CHECK(seen == want, "as_ref");
      [&]<size_t... i>(std::index_sequence<i...>) {
        CHECK((std::is_same_v<decltype(refs), best::row<decltype(as<cat>(r).at(best::index<i>))...>>), "%s", __PRETTY_FUNCTION__);
        CHECK((std::is_same_v<decltype(as<cat>(r).as_args()), best::args<decltype(as<cat>(r).at(best::index<i>))...>>), "%s", __PRETTY_FUNCTION__);
      }(std::make_index_sequence<R::size()>{});
      seen.clear();
      auto args = as<cat>(r).as_args();
      args.row.each(log);
      CHECK(seen == want, "as_args");
    }
    CHECK(el::g_copies == 0, "%d copies", el::g_copies);
  });
}
SCENARIO(access, "6 rows (values, references, void, empties) in 4 kinds of value: [], at, get, object, first, second, last, apply, each, as_ref, as_args", mc::LeakCheck) {
  Trk a(1), b(2);
  int x = 3;
  switch (c.pick(6)) {
    case 0: {
      R0 r;
      access_all(c, r);
      CHECK(std::is_empty_v<R0>);
      break;
    }
    case 1: {
      R1 r{Trk(5)};
      access_all(c, r, nullptr);
      break;
    }
    case 2: {
      R2 r{Trk(5), a};
      access_all(c, r, nullptr, &a);
      break;
    }
    case 3: {
      R3 r{Trk(5), 0, 7};
      access_all(c, r, nullptr, nullptr, nullptr);
      CHECK(r[best::index<2>] == 7);
      break;
    }
    case 4: {
      R4 r{std::move(a), b, Trk(6), Empty{}};
      access_all(c, r, &a, &b, nullptr, nullptr);
      break;
    }
    case 5: {
      R5 r{Empty{}, 1, Empty{}, Trk(9), &x};
      access_all(c, r, nullptr, nullptr, nullptr, nullptr, nullptr);
      auto& [p, q, s, t, u] = r;
      CHECK(&q == &r[best::index<1>] && &t == &r[best::index<3>] && u == &x);
      auto&& [p2, q2, s2, t2, u2] = std::move(r);
      static_assert(std::is_same_v<decltype(t2), Trk>);
      (void)p, (void)s, (void)p2, (void)q2, (void)s2, (void)t2, (void)u2;
      break;
    }
  }
}

// ---- construction, copies, moves, assignment -------------------------------------
template <int n>
void lives(Ctx& c) {
  each_case<4>(c, [&]<int cat>() {
    each_case<3>(c, [&]<int op>() {
      auto r = make<0, n>();
      auto d = make<0, n>();
      [&]<size_t... i>(std::index_sequence<i...>) {
        ((d.at(best::index<i>) = E<int(i)>(90 + int(i))), ...);
      }(std::make_index_sequence<size_t(n)>{});
      el::g_copies = 0;
      int live = el::g_live;
      c.step();
      std::vector<int> got;
      if constexpr (op == 0) {
        auto x = as<cat>(r);
        CHECK(el::g_live == live + n);
        got = values(x);
      } else if constexpr (op == 1) {
        d = as<cat>(r);
        got = values(d);
      } else {
        // From its parts.
        auto x = [&]<size_t... i>(std::index_sequence<i...>) {
          return best::row<E<int(i)>...>(as<cat>(r.at(best::index<i>))...);
        }(std::make_index_sequence<size_t(n)>{});
        got = values(x);
        auto y = [&]<size_t... i>(std::index_sequence<i...>) {
          return best::row(E<int(i)>(int(i))...);
        }(std::make_index_sequence<size_t(n)>{});
        CHECK((std::is_same_v<decltype(y), decltype(x)>));
      }
      CHECK(el::g_live == live);
      std::vector<int> want, left;
      for (int i = 0; i < n; ++i) {
        want.push_back(i);
        left.push_back(cat == 2 ? el::Moved : i);
      }
      CHECK(got == want, "%s", show(got).c_str());
      CHECK(values(r) == left);
      CHECK(el::g_copies == (cat == 2 ? 0 : n), "%d copies", el::g_copies);
    });
  });
}
SCENARIO_T(lives_0, "rows of 0: made from parts, copied, moved, assigned in 4 kinds of value", mc::LeakCheck, lives<0>);
SCENARIO_T(lives_1, "rows of 1", mc::LeakCheck, lives<1>);
SCENARIO_T(lives_2, "rows of 2", mc::LeakCheck, lives<2>);
SCENARIO_T(lives_3, "rows of 3", mc::LeakCheck, lives<3>);
SCENARIO_T(lives_5, "rows of 5", mc::LeakCheck, lives<5>);

SCENARIO(references, "rows of references: assignment rebinds, all scripts of 3 on two rows", mc::LeakCheck) {
  Trk o[3] = {Trk(0), Trk(1), Trk(2)};
  using R = best::row<Trk&, int, const Trk&>;
  R r[2] = {R(o[0], 5, o[0]), R(o[1], 6, o[1])};
  int m[2][3] = {{0, 5, 0}, {1, 6, 1}};
  for (int i = 0; i < 3; ++i) {
    int w = c.pick(2);
    c.step();
    switch (c.pick(4)) {
      case 0: r[w] = r[1 - w]; for (int k = 0; k < 3; ++k) m[w][k] = m[1 - w][k]; break;
      case 1: { int k = c.pick(3); r[w] = R(o[k], 7 + k, o[2 - k]); m[w][0] = k, m[w][1] = 7 + k, m[w][2] = 2 - k; break; }
      case 2: r[w] = std::move(r[1 - w]); for (int k = 0; k < 3; ++k) m[w][k] = m[1 - w][k]; break;
      case 3: { R x = r[w]; r[w] = r[1 - w]; r[1 - w] = x; for (int k = 0; k < 3; ++k) std::swap(m[0][k], m[1][k]); break; }
    }
    for (int k = 0; k < 2; ++k) {
      CHECK(&r[k][best::index<0>] == &o[m[k][0]] && r[k][best::index<1>] == m[k][1] && &r[k][best::index<2>] == &o[m[k][2]]);
    }
  }
  for (int k = 0; k < 3; ++k) CHECK(o[k].get() == k, "assigned through");
}

// ---- comparison --------------------------------------------------------------------
template <typename A, typename B>
void compare_rows(const A& a, const B& b, std::partial_ordering want) {
  CHECK((a == b) == (want == 0));
  CHECK((a != b) == (want != 0));
  CHECK((a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0));
  CHECK(std::partial_ordering(a <=> b) == want);
}
SCENARIO(orders, "all pairs of rows of 0-4 numbers (and NaN), of mixed types and sizes, by ==, <=> and friends", mc::LeakCheck) {
  c.step();
  auto lex = [](std::vector<double> a, std::vector<double> b) {
    for (size_t i = 0; i < a.size(); ++i)
      if (!(a[i] == b[i])) return a[i] <=> b[i];
    return std::partial_ordering::equivalent;
  };
  double vs[] = {0, 1, 2, __builtin_nan("")};
  switch (c.pick(6)) {
    case 0: compare_rows(best::row(), best::row(), std::partial_ordering::equivalent); break;
    case 1: {
      int a = c.pick(3), b = c.pick(3);
      compare_rows(best::row(a), best::row(long(b)), lex({double(a)}, {double(b)}));
      CHECK((std::is_same_v<decltype(best::row(a) <=> best::row(b)), best::ord>));
      break;
    }
    case 2: {
      int a = c.pick(3), b = c.pick(3), d = c.pick(3), e = c.pick(3);
      compare_rows(best::row(a, long(b)), best::row(long(d), e), lex({double(a), double(b)}, {double(d), double(e)}));
      break;
    }
    case 3: {
      double x[3], y[3];
      for (auto& v : x) v = vs[c.pick(4)];
      for (auto& v : y) v = vs[c.pick(4)];
      if (x[1] != x[1]) x[1] = 0;
      if (y[1] != y[1]) y[1] = 0;
      compare_rows(best::row(x[0], int(x[1]), x[2]), best::row(y[0], int(y[1]), y[2]), lex({x[0], x[1], x[2]}, {y[0], y[1], y[2]}));
      CHECK((std::is_same_v<decltype(best::row(1.0, 2) <=> best::row(2.0, 3)), std::partial_ordering>));
      break;
    }
    case 4: {
      int x[4], y[4];
      for (auto& v : x) v = c.pick(2);
      for (auto& v : y) v = c.pick(2);
      auto mk = [](int* v) { return best::row(Trk(v[0]), v[1], long(v[2]), char(v[3])); };
      compare_rows(mk(x), mk(y), lex({double(x[0]), double(x[1]), double(x[2]), double(x[3])}, {double(y[0]), double(y[1]), double(y[2]), double(y[3])}));
      break;
    }
    case 5: {
      // References compare by what they refer to.
      Trk a(c.pick(3)), b(c.pick(3));
      compare_rows(best::row(best::bind, a, 1), best::row(best::bind, b, 1), lex({double(a.get())}, {double(b.get())}));
      break;
    }
  }
}

// ---- the rest -------------------------------------------------------------------
struct Two {
  int v;
  Two(int a, Trk&& b) : v(a * 10 + b.get()) { Trk eat(std::move(b)); }
};
struct Cb {
  int &v, &o;
  void operator()() { ++v; }
  void operator()(auto&&) { ++o; }
};
SCENARIO(misc, "args convert to what they construct, move-only and defaulted elements, bind, triviality, void rows through gather and scatter, printing", mc::LeakCheck) {
  c.step();
  switch (c.pick(8)) {
    case 0: {
      Trk t(4);
      Two two = best::args(3, std::move(t));
      CHECK(two.v == 34 && t.get() == el::Moved);
      best::option<Two> o(best::in_place, 3, Trk(5));
      CHECK(o->v == 35);
      break;
    }
    case 1: {
      best::row r(best::box<Trk>(1), best::box<Trk>(2));
      auto s = BEST_MOVE(r).push(best::box<Trk>(3)).insert<0>(best::box<Trk>(0));
      int i = 0;
      s.each([&](auto& b) { CHECK(b->get() == i++); });
      CHECK(i == 4);
      auto t = BEST_MOVE(s).gather<3, 0>();
      CHECK(t[best::index<0>]->get() == 3 && t[best::index<1>]->get() == 0);
      auto u = BEST_MOVE(t).scatter<1>(best::row(best::box<Trk>(9)));
      CHECK(u[best::index<0>]->get() == 3 && u[best::index<1>]->get() == 9);
      break;
    }
    case 2: {
      best::row<E<1>, E<2>, E<3>> r;
      CHECK((values(r) == std::vector<int>{1, 2, 3}));
      break;
    }
    case 3: {
      Trk t(1);
      const Trk u(2);
      best::row r(best::bind, t, u, std::move(t));
      static_assert(std::is_same_v<decltype(r), best::row<Trk&, const Trk&, Trk&&>>);
      CHECK(&r[best::index<0>] == &t && &r[best::index<1>] == &u && &r[best::index<2>] == &t);
      break;
    }
    case 4: {
      CHECK((std::is_trivially_copyable_v<best::row<int, char, float>> && std::is_trivially_copyable_v<best::row<int>> &&
             std::is_trivially_copyable_v<best::row<int, long>> && !std::is_trivially_copyable_v<best::row<int, Trk>> &&
             std::is_trivially_destructible_v<best::row<int, Empty>> && std::is_empty_v<best::row<>>));
      CHECK((best::is_row<best::row<int, void>> && best::is_row<best::row<>> && !best::is_row<int> && !best::is_row<Trk>));
      break;
    }
    case 5: {
      best::row<int, void, Trk> r{1, 2, Trk(3)};
      auto g = r.gather<2, 1, 0>();
      static_assert(std::is_same_v<decltype(g), best::row<Trk, void, int>>);
      CHECK(g[best::index<0>].get() == 3 && g[best::index<2>] == 1);
      auto s = r.scatter<0>(best::row('x'));
      static_assert(std::is_same_v<decltype(s), best::row<char, void, Trk>>);
      CHECK(s[best::index<0>] == 'x' && s[best::index<2>].get() == 3);
      auto j = r + r;
      static_assert(std::is_same_v<decltype(j), best::row<int, void, Trk, int, void, Trk>>);
      CHECK(j[best::index<5>].get() == 3 && j[best::index<3>] == 1);
      auto p = r.at<best::bounds{.start = 1}>();
      static_assert(std::is_same_v<decltype(p), best::row<void, Trk>>);
      CHECK(p[best::index<1>].get() == 3);
      int voids = 0, others = 0;
      r.each(Cb{voids, others});
      CHECK(voids == 1 && others == 2);
      break;
    }
    case 6: {
      auto s = [](const auto& r) {
        best::strbuf b = best::format("{:?}", r);
        return std::string(b.data(), b.size());
      };
      CHECK(s(best::row()) == "()" && s(best::row(1)) == "(1)");
      CHECK(s(best::row(1, true, 2)) == "(1, true, 2)", "%s", s(best::row(1, true, 2)).c_str());
      CHECK(s(best::args(1, 2)) == "(1, 2)");
      break;
    }
    case 7: {
      static constexpr best::row r(1, 2L, 'c');
      static_assert(r[best::index<0>] == 1 && r.last() == 'c' && r == best::row(1, 2, 'c'));
      static_assert(r.push(4).gather<3, 0>() == best::row(4, 1));
      static_assert((r <=> best::row(1, 3L, 'a')) < 0);
      break;
    }
  }
}
#endif
}  // namespace
