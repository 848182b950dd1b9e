// O02: result, against a model with a side and a value.
#include <memory>

#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/strbuf.h"
#include "elems.h"
#include "mc.h"

#ifndef RES_PART
#define RES_PART 1
#endif
using mc::Ctx;

namespace resv {
// Another tracked type, for the error side.
struct Bad {
  el::Trk t;
  explicit Bad(int x) : t(x) {}
  int get() const { return t.get(); }
  bool operator==(const Bad& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Bad& o) const { return get() <=> o.get(); }
};
// Not assignable.
struct Con {
  const el::Trk t;
  explicit Con(int x) : t(x) {}
  int get() const { return t.get(); }
  bool operator==(const Con& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Con& o) const { return get() <=> o.get(); }
};
// Only moves.
struct Mov {
  el::Trk t;
  explicit Mov(int x) : t(x) {}
  Mov(Mov&&) = default;
  Mov& operator=(Mov&&) = default;
  int get() const { return t.get(); }
  bool operator==(const Mov& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Mov& o) const { return get() <=> o.get(); }
};
using Bx = best::box<el::Trk>;

template <typename T> T mk(int v) {
  if constexpr (std::is_same_v<T, best::rune>) return best::rune::from_int(uint32_t(v)).value_or();
  else return T(v);
}
inline int vv(const Bx& b) { return b.raw() == best::ptr<el::Trk>::dangling().raw() ? el::Moved : b->get(); }
inline int vv(int i) { return i; }
inline int vv(best::rune r) { return int(r.to_int()); }
template <typename T> int vv(const T& t) { return t.get(); }

template <typename T> constexpr bool is_v = std::is_void_v<T>;
template <typename T> constexpr bool copies = is_v<T> || best::copyable<T>;
template <typename T> constexpr bool shows = !is_v<T> && !std::is_same_v<T, Con> && !std::is_trivially_copyable_v<T>;
template <typename T> int after_move(int v) { return shows<T> ? el::Moved : v; }
// A callback for a side: takes its value, or nothing.
template <typename X, typename F> auto arm(F f) {
  if constexpr (is_v<X>) return [f]() { return f(); };
  else return [f](auto&& t) { return f(static_cast<decltype(t)>(t)); };
}
// Whether values of the sides can be told apart by type.
template <typename T, typename E> constexpr bool apart = !std::is_same_v<T, E> && !best::equatable<T, E>;
constexpr int Void = 1;  // "value" of a void side

struct M {
  bool ok;
  int v;
  bool operator==(const M&) const = default;
};

template <typename T, typename E> struct Sys {
  using R = best::result<T, E>;
  Ctx& c;
  alignas(R) char mem[2][sizeof(R)];
  R* r[2] = {};
  M m[2] = {};
  explicit Sys(Ctx& c) : c(c) { el::reset(); }
  ~Sys() {
    for (R* p : r)
      if (p) p->~R();
  }
  template <typename... A> void build(int i, A&&... a) {
    if (r[i]) r[i]->~R();
    r[i] = nullptr;
    memset(mem[i], 0xe7, sizeof(R));
    r[i] = new (mem[i]) R(std::forward<A>(a)...);
  }
  static R mko(bool ok, int v) {
    if (ok) {
      if constexpr (is_v<T>) return best::ok();
      else return best::ok(mk<T>(v));
    } else {
      if constexpr (is_v<E>) return best::err();
      else return best::err(mk<E>(v));
    }
  }
  static M want(bool ok, int v) { return {ok, (ok ? is_v<T> : is_v<E>) ? Void : v}; }
  uint64_t hash() {
    uint64_t h = 1;
    for (const M& x : m) h = Ctx::mix(h, uint64_t(x.v * 2 + x.ok + 100));
    return h;
  }
  M moved(M x) { return {x.ok, x.ok ? after_move<T>(x.v) : after_move<E>(x.v)}; }

  void check() {
    for (int i = 0; i < 2; ++i) same(*r[i], m[i]);
    c.state(hash());
  }
  template <typename X> static auto sideptr(R& x) {
    if constexpr (std::is_same_v<X, std::true_type>) return x.ok().as_ptr();
    else return x.err().as_ptr();
  }

  // Everything that only looks.
  static void same(R& x, M w) {
    const R& k = x;
    CHECK(k.is_ok() == w.ok && k.is_err() == !w.ok && bool(k) == w.ok, "expected %s(%d)", w.ok ? "ok" : "err", w.v);
    CHECK((k == best::ok()) == w.ok && (k == best::err()) == !w.ok);
    CHECK((k <=> best::ok()) == (w.ok ? best::ord::equal : best::ord::greater));
    CHECK((k <=> best::err()) == (w.ok ? best::ord::less : best::ord::equal));
    CHECK(k.ok().has_value() == w.ok && x.ok().has_value() == w.ok && std::move(k).ok().has_value() == w.ok && std::move(x).ok().has_value() == w.ok);
    CHECK(k.err().has_value() == !w.ok && x.err().has_value() == !w.ok && std::move(k).err().has_value() == !w.ok && std::move(x).err().has_value() == !w.ok);
    if constexpr (!is_v<T>) {
      static_assert(std::is_same_v<decltype(k.ok()), best::option<const T&>> && std::is_same_v<decltype(x.ok()), best::option<T&>>);
      static_assert(std::is_same_v<decltype(std::move(k).ok()), best::option<const T&&>> && std::is_same_v<decltype(std::move(x).ok()), best::option<T&&>>);
      static_assert(std::is_same_v<decltype(*k), const T&> && std::is_same_v<decltype(*x), T&> && std::is_same_v<decltype(*std::move(x)), T&&> &&
                    std::is_same_v<decltype(*std::move(k)), const T&&>);
      const T* p = x.ok().as_ptr();
      CHECK((p != nullptr) == w.ok && k.ok().as_ptr() == p && std::move(x).ok().as_ptr() == p && std::move(k).ok().as_ptr() == p);
      if (w.ok) {
        CHECK((const char*)p >= (const char*)&x && (const char*)(p + 1) <= (const char*)(&x + 1), "the value is not inside");
        CHECK(&*k == p && &*x == p && k.operator->() == p && x.operator->() == p, "operators give something else");
        CHECK(vv(*p) == w.v, "ok(%d), expected ok(%d)", vv(*p), w.v);
        T&& rr = *std::move(x);
        const T&& cr = *std::move(k);
        CHECK(&rr == p && &cr == p);
      }
    }
    if constexpr (!is_v<E>) {
      static_assert(std::is_same_v<decltype(k.err()), best::option<const E&>> && std::is_same_v<decltype(x.err()), best::option<E&>>);
      static_assert(std::is_same_v<decltype(std::move(k).err()), best::option<const E&&>> && std::is_same_v<decltype(std::move(x).err()), best::option<E&&>>);
      const E* p = x.err().as_ptr();
      CHECK((p != nullptr) == !w.ok && k.err().as_ptr() == p && std::move(x).err().as_ptr() == p && std::move(k).err().as_ptr() == p);
      if (!w.ok) {
        CHECK((const char*)p >= (const char*)&x && (const char*)(p + 1) <= (const char*)(&x + 1), "the error is not inside");
        CHECK(vv(*p) == w.v, "err(%d), expected err(%d)", vv(*p), w.v);
      }
    }
    if (w.v != el::Moved) {
      for (int v = 1; v <= 2; ++v) {
        if constexpr (!is_v<T>) {
          T t = mk<T>(v);
          CHECK((k == best::ok(t)) == (w.ok && w.v == v), "== ok(%d)", v);
          CHECK((k <=> best::ok(t)) == (w.ok ? w.v <=> v : best::ord::greater), "<=> ok(%d)", v);
          if constexpr (apart<T, E>) {
            CHECK((k == t) == (w.ok && w.v == v), "== value %d", v);
            CHECK((k <=> t) == (w.ok ? w.v <=> v : best::ord::greater), "<=> value %d", v);
            CHECK((t < k) == (!w.ok || v < w.v), "value %d <", v);
          }
        }
        if constexpr (!is_v<E>) {
          E t = mk<E>(v);
          CHECK((k == best::err(t)) == (!w.ok && w.v == v), "== err(%d)", v);
          CHECK((k <=> best::err(t)) == (!w.ok ? w.v <=> v : best::ord::less), "<=> err(%d)", v);
          if constexpr (apart<T, E>) {
            CHECK((k == t) == (!w.ok && w.v == v), "== error %d", v);
            CHECK((k <=> t) == (!w.ok ? w.v <=> v : best::ord::less), "<=> error %d", v);
          }
        }
      }
      best::strbuf want;
      auto side = [&]<typename X>(std::type_identity<X>) {
        if constexpr (is_v<X>) return best::strbuf(best::str("void"));
        else if constexpr (std::is_same_v<X, int>) return best::format("{}", w.v);
        else if constexpr (std::is_same_v<X, best::rune>) return best::format("{:?}", mk<X>(w.v));
        else return best::strbuf();
      };
      if constexpr ((is_v<T> || std::is_same_v<T, int> || std::is_same_v<T, best::rune>) && (is_v<E> || std::is_same_v<E, int> || std::is_same_v<E, best::rune>)) {
        want.push(w.ok ? best::str("ok(") : best::str("err("));
        want.push(w.ok ? side(std::type_identity<T>()) : side(std::type_identity<E>()));
        want.push(best::str(")"));
        best::strbuf got = best::format("{:?}", k);
        CHECK(got == want, "prints as %.*s", int(got.size()), got.data());
      }
    }
    // map(), map_err() and then(): the callback runs for its side only, with
    // the value itself in the category of the result; the other side stays.
    auto cat = [&](auto&& self) {
      using S = decltype(self);
      int calls = 0;
      auto f = arm<T>([&](auto&&... t) -> long {
        if constexpr (!is_v<T>) {
          static_assert((std::is_same_v<decltype(t), best::copy_ref<std::conditional_t<std::is_const_v<std::remove_reference_t<S>>, const T, T>, S>> && ...));
          CHECK(((&t == k.ok().as_ptr()) && ...), "map() passes something else");
        }
        ++calls;
        return 40L;
      });
      auto g = arm<E>([&](auto&&... t) -> long {
        if constexpr (!is_v<E>) {
          static_assert((std::is_same_v<decltype(t), best::copy_ref<std::conditional_t<std::is_const_v<std::remove_reference_t<S>>, const E, E>, S>> && ...));
          CHECK(((&t == k.err().as_ptr()) && ...), "map_err() passes something else");
        }
        ++calls;
        return 41L;
      });
      constexpr bool rv = std::is_rvalue_reference_v<S> && !std::is_const_v<std::remove_reference_t<S>>;
      if constexpr (!rv && copies<E>) {
        if (w.ok || w.v != el::Moved) {
          auto a = static_cast<S>(self).map(f);
          static_assert(std::is_same_v<decltype(a), best::result<long, E>>);
          CHECK(a.is_ok() == w.ok && calls == w.ok, "map()");
          if (w.ok) CHECK(*a == 40);
          else if constexpr (!is_v<E>) CHECK(vv(*a.err()) == w.v, "map() changes the error");
          for (int keep = 0; keep < 2; ++keep) {
            calls = 0;
            auto h = arm<T>([&](auto&&... t) -> best::result<long, E> {
              (void)f(static_cast<decltype(t)>(t)...);
              if (keep) return best::ok(43L);
              if constexpr (is_v<E>) return best::err();
              else return best::err(mk<E>(9));
            });
            auto b = static_cast<S>(self).then(h);
            CHECK(b.is_ok() == (w.ok && keep) && calls == w.ok, "then()");
            if (b.is_ok()) CHECK(*b == 43);
            else if constexpr (!is_v<E>) CHECK(vv(*b.err()) == (w.ok ? 9 : w.v), "then() gives error %d", vv(*b.err()));
          }
        }
      }
      calls = 0;
      if constexpr (!rv && copies<T>) {
        if (!w.ok || w.v != el::Moved) {
          auto a = static_cast<S>(self).map_err(g);
          static_assert(std::is_same_v<decltype(a), best::result<T, long>>);
          CHECK(a.is_err() == !w.ok && calls == !w.ok, "map_err()");
          if (!w.ok) CHECK(*a.err() == 41);
          else if constexpr (!is_v<T>) CHECK(vv(*a.ok()) == w.v, "map_err() changes the value");
        }
      }
    };
    cat(static_cast<const R&>(x));
    cat(static_cast<R&>(x));
    cat(static_cast<const R&&>(x));
    CHECK(k.is_ok() == w.ok);
    if constexpr (!is_v<T>)
      if (w.ok) CHECK(vv(*k.ok()) == w.v, "changed by looking at it");
    if constexpr (!is_v<E>)
      if (!w.ok) CHECK(vv(*k.err()) == w.v, "changed by looking at it");
  }
  void pair() {
    const R &a = *r[0], &b = *r[1];
    if (m[0].v == el::Moved || m[1].v == el::Moved) return;
    auto cmp = m[0].ok != m[1].ok ? (m[0].ok ? best::ord::less : best::ord::greater) : m[0].v <=> m[1].v;
    CHECK((a == b) == (cmp == 0) && (b == a) == (cmp == 0) && (a != b) == (cmp != 0), "%s(%d) == %s(%d)", m[0].ok ? "ok" : "err", m[0].v, m[1].ok ? "ok" : "err", m[1].v);
    CHECK((a <=> b) == cmp && (a < b) == (cmp < 0) && (b < a) == (cmp > 0));
  }

  enum Op { Ok, Err, Val, Copy, Move, SelfCopy, SelfMove, CopyCtor, MoveCtor, Swap, TakeOk, TakeErr, Map, MapErr, Then, FromRefs, FromOther, SetContent, SetError, OwnOk, OwnErr,
            InPlace, Deref, N };
  void op() {
    c.step();
    const int i = c.pick(2);
    R &x = *r[i], &y = *r[1 - i];
    M &mx = m[i], &my = m[1 - i];
    const int v = 1 + c.pick(2);
    const int k = c.pick(N);
    const bool side = v == 1;
    c.note("op %d on %d with %d", k, i, v);
    auto once = [&] {
      if (v == 2) throw mc::Skip{};
    };
    switch (k) {
      case Ok:
        if constexpr (is_v<T>) once(), x = best::ok();
        else x = best::ok(mk<T>(v));
        mx = want(true, v);
        break;
      case Err:
        if constexpr (is_v<E>) once(), x = best::err();
        else x = best::err(mk<E>(v));
        mx = want(false, v);
        break;
      case Val:
        if constexpr (!std::is_same_v<T, E>) {
          if (side) {
            if constexpr (is_v<T>) throw mc::Skip{};
            else x = mk<T>(1), mx = {true, 1};
          } else {
            if constexpr (is_v<E>) throw mc::Skip{};
            else x = mk<E>(1), mx = {false, 1};
          }
          break;
        } else throw mc::Skip{};
      case Copy:
      case CopyCtor:
        if constexpr (copies<T> && copies<E>) {
          once();
          if (my.v == el::Moved) throw mc::Skip{};
          if (k == CopyCtor) {
            build(i, static_cast<const R&>(y));
          } else {
            R& z = (x = static_cast<const R&>(y));
            CHECK(&z == &x);
          }
          mx = my;
          break;
        } else throw mc::Skip{};
      case Move:
      case MoveCtor:
        once();
        if (k == MoveCtor) {
          build(i, std::move(y));
        } else {
          R& z = (x = std::move(y));
          CHECK(&z == &x);
        }
        mx = my;
        my = moved(my);
        break;
      case SelfCopy:
        if constexpr (copies<T> && copies<E>) {
          once();
          if (mx.v == el::Moved) throw mc::Skip{};
          R& z = x;
          x = z;
          break;
        } else throw mc::Skip{};
      case SelfMove: {
        once();
        R& z = x;
        x = std::move(z);
        break;
      }
      case Swap:
        once();
        if (mx.v == el::Moved || my.v == el::Moved) throw mc::Skip{};
        std::swap(x, y);
        std::swap(mx, my);
        break;
      case TakeOk:
        if constexpr (!is_v<T>) {
          best::option<T> o;
          if (side) o = std::move(x).ok();
          else if (mx.ok) o = *std::move(x);
          CHECK(o.has_value() == mx.ok && (!mx.ok || vv(*o) == mx.v));
          if (mx.ok) mx = moved(mx);
          break;
        } else throw mc::Skip{};
      case TakeErr:
        if constexpr (!is_v<E>) {
          once();
          best::option<E> o;
          o = std::move(x).err();
          CHECK(o.has_value() == !mx.ok && (mx.ok || vv(*o) == mx.v));
          if (!mx.ok) mx = moved(mx);
          break;
        } else throw mc::Skip{};
      case Map: {
        once();
        int calls = 0;
        auto q = std::move(x).map(arm<T>([&](auto&&... t) {
          static_assert((std::is_same_v<decltype(t), std::add_rvalue_reference_t<T>> && ...));
          ++calls;
          if constexpr (is_v<T>) return 5;
          else return T(std::move(t)...);
        }));
        CHECK(calls == mx.ok && q.is_ok() == mx.ok);
        if constexpr (is_v<T>) {
          if (mx.ok) CHECK(*q == 5);
        } else {
          if (mx.ok) CHECK(vv(*q) == mx.v);
        }
        if constexpr (!is_v<E>)
          if (!mx.ok) CHECK(vv(*q.err()) == mx.v);
        mx = moved(mx);
        break;
      }
      case MapErr: {
        once();
        int calls = 0;
        auto q = std::move(x).map_err(arm<E>([&](auto&&... t) {
          static_assert((std::is_same_v<decltype(t), std::add_rvalue_reference_t<E>> && ...));
          ++calls;
          if constexpr (is_v<E>) return 5;
          else return E(std::move(t)...);
        }));
        CHECK(calls == !mx.ok && q.is_ok() == mx.ok);
        if constexpr (is_v<E>) {
          if (!mx.ok) CHECK(*q.err() == 5);
        } else {
          if (!mx.ok) CHECK(vv(*q.err()) == mx.v);
        }
        if constexpr (!is_v<T>)
          if (mx.ok) CHECK(vv(*q.ok()) == mx.v);
        mx = moved(mx);
        break;
      }
      case Then: {
        M w = mx.ok && !side ? want(false, 2) : mx;
        R q = std::move(x).then(arm<T>([&](auto&&... t) -> R {
          static_assert((std::is_same_v<decltype(t), std::add_rvalue_reference_t<T>> && ...));
          if (!side) return mko(false, 2);
          if constexpr (is_v<T>) return best::ok();
          else return best::ok(T(std::move(t)...));
        }));
        mx = mx.ok && !side ? mx : moved(mx);
        same(q, w);
        break;
      }
      case FromRefs:
        // Through a result of references, which does not move anything.
        if constexpr (!is_v<T> && !is_v<E> && copies<T> && copies<E>) {
          if (my.v == el::Moved) throw mc::Skip{};
          if (side) {
            best::result<const T&, const E&> q = static_cast<const R&>(y);
            CHECK(q.is_ok() == my.ok && q.ok().as_ptr() == y.ok().as_ptr() && q.err().as_ptr() == y.err().as_ptr());
            x = R(q);
          } else {
            best::result<T&, E&> q = y;
            CHECK(q.is_ok() == my.ok && q.ok().as_ptr() == y.ok().as_ptr() && q.err().as_ptr() == y.err().as_ptr());
            x = q;
          }
          mx = my;
          break;
        } else throw mc::Skip{};
      case FromOther:
        // Conversion from another result type.
        if constexpr (std::constructible_from<T, short> && std::constructible_from<E, short> && !std::is_same_v<E, best::rune> && !std::is_same_v<T, best::rune>) {
          best::result<short, short> q = best::ok(short(2));
          if (!side) q = best::err(short(2));
          x = R(q);
          mx = {side, 2};
          break;
        } else throw mc::Skip{};
      case SetContent:
        if constexpr (!is_v<T> && copies<T>) {
          once();
          if (!my.ok || my.v == el::Moved) throw mc::Skip{};
          x = best::ok(*y);
          mx = my;
          break;
        } else throw mc::Skip{};
      case SetError:
        if constexpr (!is_v<E> && copies<E>) {
          once();
          if (my.ok || my.v == el::Moved) throw mc::Skip{};
          x = best::err(*y.err());
          mx = my;
          break;
        } else throw mc::Skip{};
      case OwnOk:
        if constexpr (!is_v<T> && copies<T>) {
          once();
          if (!mx.ok || mx.v == el::Moved) throw mc::Skip{};
          x = best::ok(*x);
          break;
        } else throw mc::Skip{};
      case OwnErr:
        if constexpr (!is_v<E> && copies<E>) {
          once();
          if (mx.ok || mx.v == el::Moved) throw mc::Skip{};
          x = best::err(*x.err());
          break;
        } else throw mc::Skip{};
      case InPlace:
        if (side) {
          if constexpr (is_v<T>) build(i, best::ok());
          else build(i, best::ok(mk<T>(2)));
          mx = want(true, 2);
        } else {
          if constexpr (is_v<E>) build(i, best::err());
          else build(i, best::err(mk<E>(2)));
          mx = want(false, 2);
        }
        break;
      case Deref:
        if constexpr (!is_v<T> && !std::is_same_v<T, Con>) {
          if (!mx.ok) throw mc::Skip{};
          *x = mk<T>(v);
          mx.v = v;
          break;
        } else throw mc::Skip{};
      default: throw mc::Skip{};
    }
  }
};

template <typename T, typename E> void results(Ctx& c) {
  int depth = c.thorough() ? 7 : 5;
  {
    Sys<T, E> s(c);
    for (int i = 0; i < 2; ++i) {
      bool ok = c.flip();
      s.build(i, Sys<T, E>::mko(ok, 1));
      s.m[i] = Sys<T, E>::want(ok, 1);
    }
    s.check();
    for (int d = 0; d < depth; ++d) {
      c.prune(s.hash(), depth - d);
      s.op();
      s.check();
      s.pair();
    }
  }
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}

// Results of references never copy or move what they refer to.
void refs(Ctx& c) {
  el::reset();
  {
    el::Trk t[2] = {el::Trk(1), el::Trk(2)};
    Bad b[2] = {Bad(1), Bad(2)};
    using R = best::result<el::Trk&, const Bad&>;
    int copies = el::g_copies;
    auto mko = [&](int s) { return s < 2 ? R(best::ok(t[s])) : R(best::err(b[s - 2])); };
    int s0 = c.pick(4), s1 = c.pick(4), how = c.pick(4);
    c.step();
    R x = mko(s0), y = mko(s1);
    auto is = [&](R& r, int s) {
      CHECK(r.is_ok() == (s < 2) && r.ok().as_ptr() == (s < 2 ? &t[s] : nullptr) && r.err().as_ptr() == (s < 2 ? nullptr : &b[s - 2]), "refers to something else");
      const R& k = r;
      CHECK(k.ok().as_ptr() == r.ok().as_ptr() && k.err().as_ptr() == r.err().as_ptr());
      if (s < 2) CHECK(&*r == &t[s] && &*k == &t[s]);
    };
    is(x, s0), is(y, s1);
    CHECK((x == y) == (s0 == s1) && (x < y) == (s0 < s1));
    switch (how) {
      case 0: x = y; s0 = s1; break;
      case 1: x = std::move(y); s0 = s1; break;
      case 2: std::swap(x, y); std::swap(s0, s1); break;
      case 3: {
        R z = x;
        x = y;
        y = z;
        std::swap(s0, s1);
        break;
      }
    }
    is(x, s0), is(y, s1);
    auto m = x.map([&](el::Trk& p) -> el::Trk& { return p; });
    static_assert(std::is_same_v<decltype(m), R>);
    is(m, s0);
    auto n = std::move(x).map_err([&](const Bad& p) { return p.get(); });
    CHECK(n.is_ok() == (s0 < 2) && n.ok().as_ptr() == (s0 < 2 ? &t[s0] : nullptr) && (s0 < 2 || *n.err() == s0 - 1));
    CHECK(el::g_copies == copies, "something was copied");
    CHECK(t[0].get() == 1 && t[1].get() == 2 && b[0].get() == 1 && b[1].get() == 2, "something was written to");
    c.state(uint64_t(s0 * 4 + s1));
  }
  CHECK(el::g_live == 0);
}

// Taking the value of an error ends the program and shows the error.
template <typename E> void wrong(Ctx& c) {
  el::reset();
  int how = c.pick(6);
  bool full = c.flip();
  c.step();
  using R = best::result<int, E>;
  R x = [&]() -> R {
    if (full) return best::ok(1);
    if constexpr (is_v<E>) return best::err();
    else return best::err(E(4711));
  }();
  const R& k = x;
  bool crashed = mc::crashes([&] {
    switch (how) {
      case 0: (void)*k; break;
      case 1: (void)*x; break;
      case 2: (void)*std::move(x); break;
      case 3: (void)*std::move(k); break;
      case 4: (void)k.operator->(); break;
      case 5: (void)x.operator->(); break;
    }
  });
  CHECK(crashed == !full, "way %d, ok: %d", how, full);
  if (crashed) {
    std::string s = mc::take_output();
    CHECK(s.find("unwrapped") != std::string::npos, "message: %s", s.c_str());
    if constexpr (std::is_same_v<E, int>) CHECK(s.find("4711") != std::string::npos, "message: %s", s.c_str());
  }
  c.state(uint64_t(how * 2 + full));
}
// Errors of every length are shown, as far as there is room.
void long_error(Ctx& c) {
  c.bulk(1200, 50, [&](mc::u64 n) {
    best::strbuf s;
    for (mc::u64 i = 0; i < n; ++i) s.push(mk<best::rune>('a' + int(i % 26)));
    bool crashed = mc::crashes([&] {
      best::result<int, best::strbuf> x = best::err(s);
      (void)*x;
    });
    CHECK(crashed);
    std::string m = mc::take_output();
    size_t at = m.find("unwrapped a best::err(\"");
    CHECK(at != std::string::npos, "message: %s", m.c_str());
    at += strlen("unwrapped a best::err(\"");
    size_t shown = 0;
    while (shown < n && m[at + shown] == char('a' + int(shown % 26))) ++shown;
    CHECK(shown == n || shown >= 400, "%d of %d characters shown", int(shown), int(n));
    if (shown == n && n < 400) CHECK(m.compare(at + shown, 2, "\")") == 0, "message: %s", m.c_str());
    // Nothing follows but the end of the line and of the colour.
    size_t nl = m.find('\n', at);
    CHECK(nl != std::string::npos && nl - at <= n + 2, "message: %s", m.c_str());
    for (size_t i = nl; i < m.size(); ++i) CHECK(m[i] == '\n' || strchr("\033[0m", m[i]), "more is written after the message");
  });
}
}  // namespace resv
using namespace resv;

#define RES(name_, ...) SCENARIO_T(name_, "every reachable state of two results under every sequence of 5 (7) of 23 operations", mc::LeakCheck, results<__VA_ARGS__>)
#if RES_PART == 1
RES(res_int_trk, int, el::Trk);
RES(res_trk_bad, el::Trk, Bad);
RES(res_trk_trk, el::Trk, el::Trk);
RES(res_int_int, int, int);
#elif RES_PART == 2
RES(res_trk_void, el::Trk, void);
RES(res_void_trk, void, el::Trk);
RES(res_void_int, void, int);
RES(res_void_void, void, void);
RES(res_rune_void, best::rune, void);
RES(res_void_rune, void, best::rune);
#elif RES_PART == 3
RES(res_mov_int, Mov, int);
RES(res_con_trk, Con, el::Trk);
RES(res_int_con, int, Con);
RES(res_box_trk, Bx, el::Trk);
RES(res_rune_box, best::rune, Bx);
RES(res_ovr_rune, el::Ovr, best::rune);
SCENARIO(refs, "every pair of states of results of references, four operations", mc::LeakCheck) { resv::refs(c); }
SCENARIO_T(wrong_int, "six ways to take the value, of an ok and of an error", mc::LeakCheck, wrong<int>);
SCENARIO_T(wrong_trk, "six ways to take the value, of an ok and of an error", mc::LeakCheck, wrong<el::Trk>);
SCENARIO(long_error, "errors of 0 to 1199 characters", 0) { resv::long_error(c); }
SCENARIO_T(wrong_void, "six ways to take the value, of an ok and of an error", mc::LeakCheck, wrong<void>);
#endif
