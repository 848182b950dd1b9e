// O03: choice, against a model with an alternative and a value.
#include <memory>

#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/strbuf.h"
#include "elems.h"
#include "mc.h"

#ifndef CHO_PART
#define CHO_PART 1
#endif
using mc::Ctx;

namespace chov {
// Not assignable.
struct Con {
  const el::Trk t;
  explicit Con(int x) : t(x) {}
  int get() const { return t.get(); }
  bool operator==(const Con& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Con& o) const { return get() <=> o.get(); }
};
// Only moves.
struct Mov {
  el::Trk t;
  Mov() : t(0) {}
  explicit Mov(int x) : t(x) {}
  Mov(Mov&&) = default;
  Mov& operator=(Mov&&) = default;
  int get() const { return t.get(); }
  bool operator==(const Mov& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Mov& o) const { return get() <=> o.get(); }
};
// Trivially copyable, but neither trivially constructible nor small.
struct Big {
  int a[5];
  Big() : Big(0) {}
  explicit Big(int x) : a{x, x, x, x, x} {}
  int get() const { return a[0] == a[4] ? a[0] : -1; }
  bool operator==(const Big& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Big& o) const { return get() <=> o.get(); }
};
using Bx = best::box<el::Trk>;

template <typename T> constexpr bool is_v = std::is_void_v<T>;
template <typename T> constexpr bool is_r = std::is_reference_v<T>;
template <typename T> constexpr bool copies = is_v<T> || best::copyable<T>;
template <typename T> constexpr bool shows = !is_v<T> && !is_r<T> && !std::is_same_v<T, Con> && !std::is_trivially_copyable_v<T>;
template <typename T> constexpr bool defaults = std::is_default_constructible_v<T> && !std::is_same_v<T, Bx>;
constexpr int Void = 1;  // "value" of a void alternative

// Things for references to refer to.
template <typename T> T& pool(int v) {
  static T p[4] = {T(0), T(1), T(2), T(3)};
  return p[v];
}
template <typename T> decltype(auto) mk(int v) {
  if constexpr (is_r<T>) return static_cast<T>(pool<std::remove_cvref_t<T>>(v));
  else if constexpr (std::is_same_v<T, best::rune>) return best::rune::from_int(uint32_t(v)).value_or();
  else return T(v);
}
inline int vv(const Bx& b) { return b.raw() == best::ptr<el::Trk>::dangling().raw() ? el::Moved : b->get(); }
inline int vv(const el::Sml& s) { return s.get() == 0xf9 ? el::Moved : s.get(); }
inline int vv(best::rune r) { return int(r.to_int()); }
template <typename T> int vv(const T& t) {
  if constexpr (std::is_arithmetic_v<T>) return int(t);
  else return t.get();
}

struct M {
  int w, v;
  bool operator==(const M&) const = default;
};

template <typename... A> struct Sys {
  using R = best::choice<A...>;
  static constexpr int N = sizeof...(A);
  template <size_t n> using type = typename decltype(best::types<A...>)::template type<n>;

  template <typename F> static void with(int n, F f) {
    [&]<size_t... i>(std::index_sequence<i...>) { (void)((n == int(i) ? (f(best::index<i>), true) : false) || ...); }(std::make_index_sequence<N>{});
  }
  static constexpr bool all_copy = (copies<A> && ...);

  Ctx& c;
  alignas(R) char mem[2][sizeof(R)];
  R* r[2] = {};
  M m[2] = {};
  explicit Sys(Ctx& c) : c(c) { el::reset(); }
  ~Sys() {
    for (R* p : r)
      if (p) p->~R();
  }
  template <typename... X> void build(int i, X&&... a) {
    if (r[i]) r[i]->~R();
    r[i] = nullptr;
    memset(mem[i], 0xe7, sizeof(R));
    r[i] = new (mem[i]) R(std::forward<X>(a)...);
  }
  static R mkc(int w, int v) {
    best::option<R> o;
    with(w, [&]<size_t n>(best::index_t<n> i) {
      if constexpr (is_v<type<n>>) o.emplace(i);
      else o.emplace(i, mk<type<n>>(v));
    });
    return *std::move(o);
  }
  static M want(int w, int v) {
    M m{w, v};
    with(w, [&]<size_t n>(best::index_t<n>) { if (is_v<type<n>>) m.v = Void; });
    return m;
  }
  static M moved(M x) {
    with(x.w, [&]<size_t n>(best::index_t<n>) { if (shows<type<n>>) x.v = el::Moved; });
    return x;
  }
  uint64_t hash() {
    uint64_t h = 1;
    for (const M& x : m) h = Ctx::mix(Ctx::mix(h, uint64_t(x.w)), uint64_t(x.v + 100));
    return h;
  }
  void check() {
    for (int i = 0; i < 2; ++i) same(*r[i], m[i]);
    c.state(hash());
  }

  template <typename S, size_t n, typename T = type<n>>
  using want_t = std::conditional_t<is_v<T>, void, best::copy_ref<std::conditional_t<std::is_const_v<std::remove_reference_t<S>> && !is_r<T>, std::add_const_t<T>, T>, S>>;

  // Everything that only looks.
  static void same(R& x, M w) {
    const R& k = x;
    CHECK(int(k.which()) == w.w, "alternative %d, expected %d", int(k.which()), w.w);
    for (int a = 0; a < N; ++a)
      with(a, [&]<size_t n>(best::index_t<n> i) {
        using T = type<n>;
        const bool on = w.w == int(n);
        CHECK(k.at(i).has_value() == on && x.at(i).has_value() == on && std::move(k).at(i).has_value() == on && std::move(x).at(i).has_value() == on, "at(%d)", a);
        CHECK(k.object(i).has_value() == on && x.object(i).has_value() == on && std::move(k).object(i).has_value() == on && std::move(x).object(i).has_value() == on, "object(%d)", a);
        if constexpr (!is_v<T>) {
          static_assert(std::is_same_v<decltype(k[i]), want_t<const R&, n>> && std::is_same_v<decltype(x[i]), want_t<R&, n>>);
          static_assert(std::is_same_v<decltype(std::move(k)[i]), want_t<const R&&, n>> && std::is_same_v<decltype(std::move(x)[i]), want_t<R&&, n>>);
          static_assert(std::is_same_v<decltype(k.at(i)), best::option<want_t<const R&, n>>> && std::is_same_v<decltype(std::move(x).at(i)), best::option<want_t<R&&, n>>>);
          auto* p = x.as_ptr(i);
          CHECK((p != nullptr) == on && k.as_ptr(i) == p && k.at(i).as_ptr() == p && x.at(i).as_ptr() == p, "as_ptr(%d)", a);
          CHECK(std::move(x).at(i).as_ptr() == p && std::move(k).at(i).as_ptr() == p);
          if (on) {
            best::unsafe u("which() was checked");
            CHECK(&k[i] == p && &x[i] == p && &k.at(u, i) == p && &x.at(u, i) == p);
            auto&& a1 = std::move(x)[i];
            auto&& a2 = std::move(k)[i];
            auto&& a3 = std::move(x).at(u, i);
            auto&& a4 = std::move(k).at(u, i);
            CHECK(&a1 == p && &a2 == p && &a3 == p && &a4 == p);
            CHECK(&**k.object(i) == p && &**x.object(i) == p);
            auto&& a5 = **std::move(x).object(i);
            CHECK(&a5 == p, "object() gives something else");
            if constexpr (is_r<T>) CHECK(p == &mk<T>(w.v), "refers to something else");
            else CHECK((const char*)p >= (const char*)&x && (const char*)(p + 1) <= (const char*)(&x + 1), "the value is not inside");
            CHECK(vv(*p) == w.v, "value %d, expected %d", vv(*p), w.v);
          }
        } else {
          CHECK((x.as_ptr(i) != nullptr) == on && (k.as_ptr(i) != nullptr) == on, "as_ptr(%d) of void", a);
        }
      });
    auto cat = [&](auto&& self) {
      using S = decltype(self);
      int calls = 0;
      // One overload for all, by index.
      int got = static_cast<S>(self).index_match([&]<size_t n>(best::index_t<n> i, auto&&... t) -> int {
        ++calls;
        CHECK(int(n) == w.w, "index_match() calls for %d", int(n));
        (checkarg<S, n>(x, static_cast<decltype(t)>(t)), ...);
        return int(n) + 50;
      });
      CHECK(got == w.w + 50 && calls == 1, "index_match()");
      calls = 0;
      got = static_cast<S>(self).match([&](auto&&... t) -> int {
        ++calls;
        if constexpr (sizeof...(t) == 1) return (valof(t), ...);
        else return Void;
      });
      CHECK(calls == 1 && (got == w.v), "match()");
    };
    cat(static_cast<const R&>(x));
    cat(static_cast<R&>(x));
    cat(static_cast<const R&&>(x));
    cat(static_cast<R&&>(x));
    // Handlers by type.
    if constexpr ((std::is_same_v<int, A> || ...) && (std::is_same_v<el::Trk, A> || ...)) {
      int got = k.match([](const int& i) { return i + 100; }, [](const el::Trk& t) { return t.get() + 200; }, [](auto&&...) { return 300; });
      int exp = 300;
      with(w.w, [&]<size_t n>(best::index_t<n>) {
        if (std::is_same_v<type<n>, int>) exp = w.v + 100;
        if (std::is_same_v<type<n>, el::Trk>) exp = w.v + 200;
      });
      CHECK(got == exp, "match() picks the wrong handler");
    }
    CHECK(int(k.which()) == w.w);
  }
  template <typename T> static int valof(const T& t) {
    if constexpr (std::is_same_v<T, best::empty>) return Void;
    else return vv(t);
  }
  template <typename S, size_t n, typename T> static void checkarg(R& x, T&& t) {
    if constexpr (is_v<type<n>>) {
      static_assert(std::is_same_v<std::remove_cvref_t<T>, best::empty>);
    } else {
      static_assert(std::is_same_v<T&&, want_t<S, n>>);
      CHECK(&t == x.as_ptr(best::index<n>), "the handler gets something else");
    }
  }
  void pair() {
    const R &a = *r[0], &b = *r[1];
    if (m[0].v == el::Moved || m[1].v == el::Moved) return;
    auto cmp = m[0].w != m[1].w ? m[0].w <=> m[1].w : m[0].v <=> m[1].v;
    CHECK((a == b) == (cmp == 0) && (b == a) == (cmp == 0) && (a != b) == (cmp != 0), "%d(%d) == %d(%d)", m[0].w, m[0].v, m[1].w, m[1].v);
    CHECK((a <=> b) == cmp && (a < b) == (cmp < 0) && (b < a) == (cmp > 0) && (a <= b) == (cmp <= 0), "%d(%d) <=> %d(%d)", m[0].w, m[0].v, m[1].w, m[1].v);
  }

  enum Op { Emplace, EmplaceDefault, Assign, Val, Copy, Move, SelfCopy, SelfMove, CopyCtor, MoveCtor, Swap, Take, TakeObj, Match, IndexMatch, Permute, PermuteMove, Content, InPlace, N_ };
  void op() {
    c.step();
    const int i = c.pick(2);
    R &x = *r[i], &y = *r[1 - i];
    M &mx = m[i], &my = m[1 - i];
    const int k = c.pick(N_);
    int w = 0, v = 1;
    if (k == Emplace || k == Assign || k == InPlace) w = c.pick(N), v = 1 + c.pick(2);
    if (k == EmplaceDefault || k == Val) w = c.pick(N);
    c.note("op %d on %d with %d(%d)", k, i, w, v);
    auto skip = [] { throw mc::Skip{}; };
    switch (k) {
      case Emplace:
        with(w, [&]<size_t n>(best::index_t<n> j) {
          if constexpr (is_v<type<n>>) {
            if (v == 2) skip();
            x.emplace(j);
          } else {
            auto& z = x.emplace(j, mk<type<n>>(v));
            CHECK(&z == x.as_ptr(j), "emplace() returns something else");
          }
        });
        mx = want(w, v);
        break;
      case EmplaceDefault:
        with(w, [&]<size_t n>(best::index_t<n> j) {
          if constexpr (defaults<type<n>>) {
            auto& z = x.emplace(j);
            CHECK(&z == x.as_ptr(j), "emplace() returns something else");
            mx = {w, 0};
          } else skip();
        });
        break;
      case Assign:
        if (want(w, v).v != v) skip();
        {
          R& z = (x = mkc(w, v));
          CHECK(&z == &x);
        }
        mx = want(w, v);
        break;
      case InPlace:
        if (want(w, v).v != v) skip();
        with(w, [&]<size_t n>(best::index_t<n> j) {
          if constexpr (is_v<type<n>>) build(i, j);
          else build(i, j, mk<type<n>>(v));
        });
        mx = want(w, v);
        break;
      case Val:
        // The only alternative of that type.
        with(w, [&]<size_t n>(best::index_t<n> j) {
          using T = type<n>;
          if constexpr (!is_v<T> && !is_r<T> && !std::is_arithmetic_v<T> && !std::is_same_v<T, best::rune> && !std::is_same_v<T, Bx>) {
            if constexpr (((std::is_same_v<T, A> ? 1 : 0) + ...) == 1) {
              x = mk<T>(2);
              mx = {w, 2};
              return;
            }
          }
          skip();
        });
        break;
      case Copy:
      case CopyCtor:
        if constexpr (all_copy) {
          if (my.v == el::Moved) skip();
          if (k == CopyCtor) {
            build(i, static_cast<const R&>(y));
          } else {
            R& z = (x = static_cast<const R&>(y));
            CHECK(&z == &x);
          }
          mx = my;
        } else skip();
        break;
      case Move:
      case MoveCtor:
        if (k == MoveCtor) {
          build(i, std::move(y));
        } else {
          R& z = (x = std::move(y));
          CHECK(&z == &x);
        }
        mx = my;
        my = moved(my);
        break;
      case SelfCopy:
        if constexpr (all_copy) {
          if (mx.v == el::Moved) skip();
          R& z = x;
          x = z;
        } else skip();
        break;
      case SelfMove: {
        R& z = x;
        x = std::move(z);
        break;
      }
      case Swap:
        if (mx.v == el::Moved || my.v == el::Moved) skip();
        std::swap(x, y);
        std::swap(mx, my);
        break;
      case Take:
      case TakeObj:
        with(mx.w, [&]<size_t n>(best::index_t<n> j) {
          using T = type<n>;
          if constexpr (is_v<T> || is_r<T>) skip();
          else if (k == Take) {
            T t = *std::move(x).at(j);
            CHECK(vv(t) == mx.v);
          } else {
            T t = **std::move(x).object(j);
            CHECK(vv(t) == mx.v);
          }
        });
        mx = moved(mx);
        break;
      case Match:
      case IndexMatch: {
        R z = k == Match ? std::move(x).match([&]<typename... T>(T&&... t) -> R {
          // Any alternative of that type will do.
          best::option<R> o;
          [&]<size_t... j>(std::index_sequence<j...>) {
            (void)((([&]<size_t n>(best::index_t<n> q) {
                      using X = type<n>;
                      if (int(n) != mx.w) return false;
                      if constexpr (is_v<X>) return o.emplace(q), true;
                      else if constexpr ((std::is_same_v<std::remove_cvref_t<T>, std::remove_cvref_t<X>> && ... && (sizeof...(T) == 1))) {
                        static_assert((std::is_same_v<T&&, want_t<R&&, n>> && ...));
                        return o.emplace(q, static_cast<T&&>(t)...), true;
                      } else return false;
                    })(best::index<j>)) || ...);
          }(std::make_index_sequence<N>{});
          return *std::move(o);
        })
                         : std::move(x).index_match([&]<size_t n>(best::index_t<n> q, auto&&... t) -> R {
                             if constexpr (is_v<type<n>>) return R(q);
                             else return R(q, static_cast<decltype(t)>(t)...);
                           });
        same(z, mx);
        mx = moved(mx);
        break;
      }
      case Permute:
        if constexpr (all_copy && N == 3) {
          if (mx.v == el::Moved) skip();
          perms(static_cast<const R&>(x), mx);
        } else skip();
        break;
      case PermuteMove:
        if constexpr (N == 3) {
          if (my.v == el::Moved) skip();
          auto z = std::move(y).template permute<2, 0, 1>();
          static_assert(std::is_same_v<decltype(z), best::choice<type<2>, type<0>, type<1>>>);
          CHECK(z.which() == (my.w + 1) % 3, "permute()");
          same(y, moved(my));
          auto q = std::move(z).permute(best::vals<1, 2, 0>);
          static_assert(std::is_same_v<decltype(q), R>);
          same(q, my);
          y = std::move(q);
        } else skip();
        break;
      case Content:
        // Through a reference to the current value.
        with(mx.w, [&]<size_t n>(best::index_t<n> j) {
          using T = type<n>;
          if constexpr (is_v<T> || is_r<T> || std::is_same_v<T, Con>) skip();
          else {
            x[j] = mk<T>(2);
            mx.v = 2;
          }
        });
        break;
    }
  }
  template <typename P> static void perm1(const P& p, M w, std::array<size_t, 3> to) {
    [&]<size_t... j>(std::index_sequence<j...>) {
      (void)(([&] {
               if (int(to[j]) != w.w) {
                 CHECK(!p.at(best::index<j>).has_value(), "permute() to alternative %d", int(j));
                 return;
               }
               CHECK(p.which() == j, "permute() to %d, expected %d", int(p.which()), int(j));
               if constexpr (!is_v<typename P::template type<j>>) CHECK(vv(p[best::index<j>]) == w.v, "permute() changes the value");
             }()),
             ...);
    }(std::make_index_sequence<3>{});
  }
  static void perms(const R& x, M w) {
    perm1(x.template permute<0, 1, 2>(), w, {0, 1, 2});
    perm1(x.template permute<0, 2, 1>(), w, {0, 2, 1});
    perm1(x.template permute<1, 0, 2>(), w, {1, 0, 2});
    perm1(x.template permute<1, 2, 0>(), w, {1, 2, 0});
    perm1(x.template permute<2, 0, 1>(), w, {2, 0, 1});
    perm1(x.template permute<2, 1, 0>(), w, {2, 1, 0});
  }
};

template <typename... A> void choices(Ctx& c) {
  using S = Sys<A...>;
  int depth = c.thorough() ? 7 : 5;
  {
    S s(c);
    for (int i = 0; i < 2; ++i) {
      int w = c.pick(S::N);
      s.build(i, S::mkc(w, 1));
      s.m[i] = S::want(w, 1);
    }
    s.check();
    for (int d = 0; d < depth; ++d) {
      c.prune(s.hash(), depth - d);
      s.op();
      s.check();
      s.pair();
    }
  }
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}

// Reading the wrong alternative ends the program.
void wrong(Ctx& c) {
  el::reset();
  using R = best::choice<int, el::Trk, void, long>;
  int w = c.pick(4), a = c.pick(4), how = c.pick(4);
  c.step();
  R x = Sys<int, el::Trk, void, long>::mkc(w, 1);
  const R& k = x;
  bool crashed = mc::crashes([&] {
    Sys<int, el::Trk, void, long>::with(a, [&](auto i) {
      switch (how) {
        case 0: (void)k[i]; break;
        case 1: (void)x[i]; break;
        case 2: (void)std::move(k)[i]; break;
        case 3: (void)std::move(x)[i]; break;
      }
    });
  });
  CHECK(crashed == (a != w), "reading %d of a choice of %d", a, w);
  if (crashed) {
    std::string s = mc::take_output();
    CHECK(s.find(mc::str("%d != %d", a, w)) != std::string::npos, "message: %s", s.c_str());
  }
  c.state(uint64_t(w * 4 + a));
}

// Printing.
void prints(Ctx& c) {
  int w = c.pick(3), v = c.pick(3);
  c.step();
  best::choice<int, best::rune, void> x = Sys<int, best::rune, void>::mkc(w, v + 'a');
  best::strbuf got = best::format("{:?}", x);
  std::string exp = w == 0 ? mc::str("choice<0>(%d)", v + 'a') : w == 1 ? mc::str("choice<1>('%c')", v + 'a') : "choice<2>(void)";
  CHECK(std::string(got.data(), got.size()) == exp, "%.*s, expected %s", int(got.size()), got.data(), exp.c_str());
  c.state(uint64_t(w * 4 + v));
}

// Choices over different types compare by alternative first, then by value.
void mixed(Ctx& c) {
  using A = best::choice<int, long, char>;
  using B = best::choice<long, short, unsigned char>;
  int w = c.pick(3), v = c.pick(3), w2 = c.pick(3), v2 = c.pick(3);
  c.step();
  A a = Sys<int, long, char>::mkc(w, v);
  B b = Sys<long, short, unsigned char>::mkc(w2, v2);
  auto cmp = w != w2 ? w <=> w2 : v <=> v2;
  CHECK((a == b) == (cmp == 0) && (b == a) == (cmp == 0) && (a <=> b) == cmp && (b < a) == (cmp > 0));
  best::choice<double, int> d(best::index<0>, v == 0 ? __builtin_nan("") : double(v)), e(best::index<0>, double(v2)), f(best::index<1>, v2);
  CHECK((d <=> e) == (v == 0 ? best::partial_ord::unordered : best::partial_ord(v <=> v2)));
  CHECK(!(d == e) == (v == 0 || v != v2) && (d < f) && !(f < d) && d != f);
  c.state(uint64_t(w * 27 + v * 9 + w2 * 3 + v2));
}

// Many alternatives.
template <int n> struct Nth {
  int v = n;
};
template <size_t... i> void many_(Ctx& c, std::index_sequence<i...>) {
  using R = best::choice<Nth<int(i)>...>;
  constexpr int N = sizeof...(i);
  c.bulk(N, 8, [&](mc::u64 w) {
    using Mk = R (*)();
    static constexpr Mk mks[] = {+[]() { return R(best::index<i>); }...};
    R x = mks[w]();
    R y = mks[(w + 1) % N]();
    CHECK(x.which() == w && y.which() == (w + 1) % N);
    auto get = [](R& r) { return r.index_match([]<size_t n>(best::index_t<n>, Nth<int(n)>& t) { return t.v == int(n) ? int(n) : -1; }); };
    CHECK(get(x) == int(w), "%d", get(x));
    std::swap(x, y);
    CHECK(get(x) == int(w + 1) % N && get(y) == int(w), "swapped");
    x = y;
    CHECK(get(x) == int(w));
  });
}
}  // namespace chov
using namespace chov;

#define CHO(name_, ...) SCENARIO_T(name_, "every reachable state of two choices under every sequence of 5 (7) of 19 operations, every alternative", mc::LeakCheck, choices<__VA_ARGS__>)
#if CHO_PART == 1
CHO(cho_int_trk_void, int, el::Trk, void);
CHO(cho_trk_trk, el::Trk, el::Trk);
CHO(cho_trk, el::Trk);
#elif CHO_PART == 2
CHO(cho_con_trk_int, Con, el::Trk, int);
CHO(cho_mov_int_void_ovr, Mov, int, void, el::Ovr);
CHO(cho_trivial, char, int, Big);
CHO(cho_void, void);
#elif CHO_PART == 3
CHO(cho_rune_void, best::rune, void);
CHO(cho_void_box, void, Bx);
CHO(cho_box_void, Bx, void);
CHO(cho_rel_sml, el::Rel, el::Sml, el::Rel);
#elif CHO_PART == 4
CHO(cho_refs, int&, const Big&, void);
CHO(cho_ref_void, int&, void);
CHO(cho_void_ref, void, const Big&);
CHO(cho_ref_trk, int&, el::Trk);
SCENARIO(wrong, "every pair of alternatives, four ways to read", mc::LeakCheck) { chov::wrong(c); }
SCENARIO(prints, "three alternatives, three values", mc::LeakCheck) { chov::prints(c); }
SCENARIO(mixed, "every pair of alternatives and values of choices of different types", mc::LeakCheck) { chov::mixed(c); }
SCENARIO(many, "each of 129 alternatives", mc::LeakCheck) { chov::many_(c, std::make_index_sequence<129>{}); }
#endif
