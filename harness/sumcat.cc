// O01, O02: options and results in every value category, with arguments and
// callbacks in every value category: what is moved, what is copied, what is
// left alone, and which overload of a callback runs.
#include <string>
#include <type_traits>

#include "best/base/guard.h"
#include "best/container/option.h"
#include "best/text/format.h"
#include "best/container/result.h"
#include "elems.h"
#include "mc.h"

namespace {
using el::Trk;
using mc::Ctx;

struct E : Trk {  // the other side
  using Trk::Trk;
};
struct MO : Trk {
  using Trk::Trk;
  MO(MO&&) = default;
  MO& operator=(MO&&) = default;
};
struct ME : Trk {
  using Trk::Trk;
  ME(ME&&) = default;
  ME& operator=(ME&&) = default;
};
// Converted to from T, remembering how.
template <typename From>
struct Conv {
  int v, how;
  Conv(From& t) : v(t.get()), how(0) {}
  Conv(const From& t) : v(t.get()), how(1) {}
  Conv(From&& t) : v(t.get()), how(2) { From eat(std::move(t)); }
  Conv(const From&& t) : v(t.get()), how(3) {}
};

// 0: &, 1: const&, 2: &&, 3: const&&.
template <int cat, typename T>
decltype(auto) as(T& x) {
  if constexpr (cat == 0) return static_cast<T&>(x);
  else if constexpr (cat == 1) return static_cast<const T&>(x);
  else if constexpr (cat == 2) return static_cast<T&&>(x);
  else return static_cast<const T&&>(x);
}
template <int cat, typename T>
using As = decltype(as<cat>(std::declval<T&>()));
template <typename T>
constexpr int cat_of = (std::is_lvalue_reference_v<T> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);
void by_cat(int cat, auto f) {
  switch (cat) {
    case 0: return f(std::integral_constant<int, 0>());
    case 1: return f(std::integral_constant<int, 1>());
    case 2: return f(std::integral_constant<int, 2>());
    default: return f(std::integral_constant<int, 3>());
  }
}
const char* cname(int i) {
  const char* n[] = {"&", "const&", "&&", "const&&"};
  return n[i];
}

// A callback that remembers which of its overloads ran, with what.
template <typename R>
struct Fn {
  static inline int calls, self, arg;
  static inline const void* at;
  static inline int val;
  static void reset() { calls = 0, self = arg = -1, at = nullptr, val = -1; }
  template <int s, typename... A>
  static R run(A&&... a) {
    ++calls, self = s;
    ((arg = cat_of<A&&>, at = &a, val = a.get()), ...);
    return R(40 + val);
  }
  template <typename... A> R operator()(A&&... a) & { return run<0>((A&&)a...); }
  template <typename... A> R operator()(A&&... a) const& { return run<1>((A&&)a...); }
  template <typename... A> R operator()(A&&... a) && { return run<2>((A&&)a...); }
  template <typename... A> R operator()(A&&... a) const&& { return run<3>((A&&)a...); }
};
template <typename R>
void ran(bool yes, int self, int arg, const void* at, int val) {
  using F = Fn<R>;
  CHECK(F::calls == yes, "the callback ran %d times, should be %d", F::calls, yes);
  if (!yes) return;
  CHECK(F::self == self, "the callback ran as %s instead of %s", cname(F::self), cname(self));
  if (arg < 0) return;
  CHECK(F::arg == arg, "the callback was given %s instead of %s", cname(F::arg < 0 ? 0 : F::arg), cname(arg));
  CHECK(F::at == at && F::val == val, "the callback was given another object");
}

// What may be copied: nothing that is not needed to leave lvalues alone.
struct Copies {
  int before = el::g_copies;
  void max(int n, const char* what) { CHECK(el::g_copies - before <= n, "%s made %d copies", what, el::g_copies - before); }
};

#if SUMCAT_PART == 1
template <int s, int a>
void option_one(Ctx&, int method, bool full) {
  using O = best::option<Trk>;
  O self;
  if (full) self = Trk(5);
  Trk arg(7);
  E earg(7);
  Fn<int>::reset(), Fn<E>::reset(), Fn<Trk>::reset(), Fn<bool>::reset(), Fn<best::option<int>>::reset();
  Fn<int> fint;
  Fn<E> fe;
  Fn<Trk> ft;
  Fn<bool> fb;
  Fn<best::option<int>> fo;
  const void* content = self.as_ptr();
  constexpr int cat = s;
  Copies n;
  // What becomes of self and the arguments.
  bool self_moved = false, arg_moved = false;
  auto took_self = [&] { self_moved = full && s == 2; };
  auto result_ok = [&](auto& r, bool arg_used) {
    CHECK(r.is_ok() == full && r.is_err() == !full, "ok_or: wrong side");
    if (full) CHECK(r.ok()->get() == 5, "ok_or: %d", r.ok()->get());
    else if (arg_used) CHECK(r.err()->get() == 7, "ok_or: error %d", r.err()->get());
  };
  auto result_err = [&](auto& r, bool arg_used) {
    CHECK(r.is_err() == full && r.is_ok() == !full, "err_or: wrong side");
    if (full) CHECK(r.err()->get() == 5, "err_or: %d", r.err()->get());
    else if (arg_used) CHECK(r.ok()->get() == 7, "err_or: ok %d", r.ok()->get());
  };
  constexpr int self_copies = s == 2 ? 0 : 1, arg_copies = a == 2 ? 0 : 1;
  switch (method) {
    case 0: {
      auto r = as<s>(self).ok_or(as<a>(earg));
      static_assert(std::is_same_v<decltype(r), best::result<Trk, E>>);
      result_ok(r, true), took_self(), arg_moved = !full && a == 2;
      n.max(full ? self_copies : arg_copies, "ok_or()");
      break;
    }
    case 1: {
      auto r = as<s>(self).template ok_or<E>(as<a>(earg));
      static_assert(std::is_same_v<decltype(r), best::result<Trk, E>>);
      result_ok(r, true), took_self(), arg_moved = !full && a == 2;
      n.max(full ? self_copies : arg_copies, "ok_or<E>()");
      break;
    }
    case 2: {
      auto r = as<s>(self).ok_or(as<a>(fe));
      static_assert(std::is_same_v<decltype(r), best::result<Trk, E>>);
      result_ok(r, false), took_self();
      ran<E>(!full, a, -1, nullptr, 0);
      n.max(full ? self_copies : 0, "ok_or(callback)");
      break;
    }
    case 3: {
      auto r = as<s>(self).err_or(as<a>(earg));
      static_assert(std::is_same_v<decltype(r), best::result<E, Trk>>);
      result_err(r, true), took_self(), arg_moved = !full && a == 2;
      n.max(full ? self_copies : arg_copies, "err_or()");
      break;
    }
    case 4: {
      auto r = as<s>(self).template err_or<E>(as<a>(earg));
      static_assert(std::is_same_v<decltype(r), best::result<E, Trk>>);
      result_err(r, true), took_self(), arg_moved = !full && a == 2;
      n.max(full ? self_copies : arg_copies, "err_or<E>()");
      break;
    }
    case 5: {
      auto r = as<s>(self).err_or(as<a>(fe));
      static_assert(std::is_same_v<decltype(r), best::result<E, Trk>>);
      result_err(r, false), took_self();
      ran<E>(!full, a, -1, nullptr, 0);
      n.max(full ? self_copies : 0, "err_or(callback)");
      break;
    }
    case 6: {
      Trk r = as<s>(self).value_or(as<a>(arg));
      CHECK(r.get() == (full ? 5 : 7), "value_or: %d", r.get());
      took_self(), arg_moved = !full && a == 2;
      n.max(full ? self_copies : arg_copies, "value_or()");
      break;
    }
    case 7: {
      Trk r = as<s>(self).value_or(as<a>(ft));
      CHECK(r.get() == (full ? 5 : 39), "value_or: %d", r.get());
      took_self();
      ran<Trk>(!full, a, -1, nullptr, 0);
      n.max(full ? self_copies : 0, "value_or(callback)");
      break;
    }
    case 8: {
      best::option<int> r = as<s>(self).map(as<a>(fint));
      CHECK(r.has_value() == full && (!full || *r == 45), "map()");
      ran<int>(full, a, cat, content, 5);
      n.max(0, "map()");
      break;
    }
    case 9: {
      Trk r = as<s>(self).map(as<a>(arg), ft);
      CHECK(r.get() == (full ? 45 : 7), "map() with a default gives %d", r.get());
      ran<Trk>(full, 0, cat, content, 5);
      arg_moved = !full && a == 2;
      n.max(full ? 0 : arg_copies, "map() with a default");
      break;
    }
    case 10: {
      Trk r = as<s>(self).map([] { return Trk(8); }, as<a>(ft));
      CHECK(r.get() == (full ? 45 : 8), "map() with a default callback gives %d", r.get());
      ran<Trk>(full, a, cat, content, 5);
      n.max(0, "map() with a default callback");
      break;
    }
    case 11: {
      auto&& r = as<s>(self).inspect(as<a>(fint));
      static_assert(std::is_same_v<decltype(r), As<s, O>&&>);
      CHECK(&r == &self, "inspect() gives another option");
      ran<int>(full, a, s & 1, content, 5);
      n.max(0, "inspect()");
      break;
    }
    case 12: {
      auto r = as<s>(self).then(as<a>(fo));
      static_assert(std::is_same_v<decltype(r), best::option<int>>);
      CHECK(r.has_value() == full && (!full || *r == 45), "then()");
      ran<best::option<int>>(full, a, cat, content, 5);
      n.max(0, "then()");
      break;
    }
    case 13: {
      O r = as<s>(self).filter(as<a>(fb));
      CHECK(r.has_value() == full && (!full || r->get() == 5), "filter()");
      ran<bool>(full, a, -1, nullptr, 0);
      took_self();
      n.max(full ? self_copies : 0, "filter()");
      break;
    }
    case 14: {
      auto r = as<s>(self).as_object();
      CHECK(r.has_value() == full, "as_object()");
      if (full) {
        CHECK(&**r == content, "as_object() gives another object");
        constexpr int rc = cat_of<decltype(*as<2>(r))>;
        static_assert(rc == s, "as_object() changes the category");
      }
      n.max(0, "as_object()");
      break;
    }
    case 15: {
      auto r = as<s>(self).as_ref();
      static_assert(std::is_same_v<decltype(r), best::option<As<s, Trk>>>);
      CHECK(r.has_value() == full && (!full || &*r == content), "as_ref() gives another object");
      n.max(0, "as_ref()");
      break;
    }
    case 16: case 17: case 18: {
      for (int there = 0; there < 2; ++there) {
        O me, other;
        if (full) me = Trk(5);
        if (there) other = Trk(7);
        Copies n;
        O r = method == 16 ? as<s>(me) | as<a>(other) : method == 17 ? as<s>(me) ^ as<a>(other) : as<s>(me) & as<a>(other);
        bool mine = method == 16 ? full : method == 17 ? full && !there : false;
        bool his = method == 16 ? !full && there : method == 17 ? !full && there : full && there;
        const char* what = method == 16 ? "|" : method == 17 ? "^" : "&";
        CHECK(r.has_value() == (mine || his) && (!(mine || his) || r->get() == (mine ? 5 : 7)), "%s", what);
        CHECK(me.has_value() == full && other.has_value() == there, "%s changes its operands", what);
        if (full) CHECK(me->get() == (mine && s == 2 ? el::Moved : 5), "%s leaves %d on the left", what, me->get());
        if (there) CHECK(other->get() == (his && a == 2 ? el::Moved : 7), "%s leaves %d on the right", what, other->get());
        n.max(mine ? self_copies : his ? arg_copies : 0, what);
      }
      break;
    }
    case 19: case 20: {
      using C = best::option<Conv<Trk>>;
      C r;
      if (method == 19) {
        C made(as<s>(self));
        r = made;
      } else {
        if (a & 1) r.emplace(arg);
        r = as<s>(self);
      }
      CHECK(r.has_value() == full, "conversion of an option");
      if (full) {
        CHECK(r->v == 5, "converted %d", r->v);
        CHECK(r->how == s, "the content was converted from %s instead of %s", cname(r->how), cname(s));
      }
      took_self();
      n.max(0, "conversion of an option");
      break;
    }
    case 21: {
      bool r = as<s>(self).has_value(as<a>(fb));
      CHECK(r == full, "has_value(callback)");
      ran<bool>(full, a, -1, nullptr, 0);
      break;
    }
  }
  CHECK(self.has_value() == full, "the option became %s", full ? "empty" : "full");
  if (full) CHECK(self->get() == (self_moved ? el::Moved : 5), "the content is %d afterwards", self->get());
  bool e = method <= 5;
  int got = e ? earg.get() : arg.get();
  CHECK(got == (arg_moved ? el::Moved : 7), "the argument is %d afterwards", got);
}
SCENARIO(option_cats, "22 methods x full or empty x the option in 4 value categories x the argument or callback in 4", mc::LeakCheck) {
  el::reset();
  int method = c.pick(22), s = c.pick(4), a = c.pick(4);
  bool full = c.flip();
  c.note("method %d on %s option %s, argument %s", method, full ? "a full" : "an empty", cname(s), cname(a));
  c.step();
  by_cat(s, [&](auto S) { by_cat(a, [&](auto A) { option_one<S(), A()>(c, method, full); }); });
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}

// Callbacks returning references, callbacks without result, move-only values.
SCENARIO(option_move_only, "move-only content and arguments: 10 methods x full or empty", mc::LeakCheck) {
  el::reset();
  {
    using O = best::option<MO>;
    O self;
    int m = c.pick(10);
    bool full = c.flip();
    if (full) self = MO(5);
    MO arg(7);
    ME earg(7);
    bool moved = full, amoved = !full;
    switch (m) {
      case 0: { best::result<MO, ME> r = std::move(self).ok_or(std::move(earg)); CHECK(full ? r.ok()->get() == 5 : r.err()->get() == 7, "ok_or"); break; }
      case 1: { auto r = std::move(self).ok_or<ME>(std::move(earg)); CHECK(full ? r.ok()->get() == 5 : r.err()->get() == 7, "ok_or"); break; }
      case 2: { auto r = std::move(self).ok_or([] { return ME(7); }); CHECK(full ? r.ok()->get() == 5 : r.err()->get() == 7, "ok_or"); amoved = false; break; }
      case 3: { auto r = std::move(self).err_or(std::move(earg)); CHECK(full ? r.err()->get() == 5 : r.ok()->get() == 7, "err_or"); break; }
      case 4: { auto r = std::move(self).err_or<ME>(std::move(earg)); CHECK(full ? r.err()->get() == 5 : r.ok()->get() == 7, "err_or"); break; }
      case 5: { auto r = std::move(self).err_or([] { return ME(7); }); CHECK(full ? r.err()->get() == 5 : r.ok()->get() == 7, "err_or"); amoved = false; break; }
      case 6: { MO r = std::move(self).value_or(std::move(arg)); CHECK(r.get() == (full ? 5 : 7), "value_or"); break; }
      case 7: { MO r = std::move(self).value_or([] { return MO(7); }); CHECK(r.get() == (full ? 5 : 7), "value_or"); amoved = false; break; }
      case 8: {
        auto r = std::move(self).then([&](MO&& x) -> O { return std::move(x); });
        CHECK(r.has_value() == full && (!full || r->get() == 5), "then()");
        amoved = false;
        break;
      }
      case 9: {
        O other(std::move(arg));
        O r = std::move(self) | std::move(other);
        CHECK(r.has_value() && r->get() == (full ? 5 : 7), "|");
        amoved = true;
        break;
      }
    }
    CHECK(self.has_value() == full && (!full || self->get() == (moved ? el::Moved : 5)), "the option afterwards");
    int got = m < 6 ? earg.get() : arg.get();
    CHECK(got == (amoved ? el::Moved : 7), "the argument is %d afterwards", got);
  }
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}
// The shared lists of containers use a simpler option inside.
SCENARIO(option_simple, "to and from the simple option used by bounds and lists, lvalue and rvalue, full or empty", mc::LeakCheck) {
  el::reset();
  {
    bool full = c.flip();
    int how = c.pick(3), dir = c.pick(2);
    using S = best::container_internal::option<Trk>;
    using O = best::option<Trk>;
    Copies n;
    if (dir) {
      O o;
      if (full) o.emplace(5);
      const O& co = o;
      S s = how == 0 ? S(static_cast<S>(co)) : how == 1 ? S(static_cast<S>(o)) : S(static_cast<S>(std::move(o)));
      CHECK(s.has_value() == full && (!full || s->get() == 5), "to the simple option");
      if (full) CHECK(o->get() == (how == 2 ? el::Moved : 5), "%d is left", o->get());
    } else {
      S s;
      if (full) s = S(Trk(5));
      const S& cs = s;
      n.before = el::g_copies;
      O o = how == 0 ? O(cs) : how == 1 ? O(s) : O(std::move(s));
      CHECK(o.has_value() == full && (!full || o->get() == 5), "from the simple option");
      if (full) CHECK(s->get() == (how == 2 ? el::Moved : 5), "%d is left", s->get());
      n.max(how == 2 ? 0 : 1, "conversion");
    }
  }
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}
#else
template <int s, int a>
void result_one(Ctx&, int method, bool full) {
  using R = best::result<Trk, E>;
  R self = best::ok(5);
  if (!full) self = best::err(6);
  Fn<int>::reset(), Fn<Trk>::reset(), Fn<best::result<int, E>>::reset();
  Fn<int> fint;
  Fn<Trk> ft;
  Fn<best::result<int, E>> fr;
  const void* ok_at = full ? &*self.ok() : nullptr;
  const void* err_at = full ? nullptr : (const void*)&*self.err();
  Copies n;
  bool ok_moved = false, err_moved = false;
  constexpr int self_copies = s == 2 ? 0 : 1;
  switch (method) {
    case 0: {
      auto r = as<s>(self).map(as<a>(fint));
      static_assert(std::is_same_v<decltype(r), best::result<int, E>>);
      CHECK(r.is_ok() == full && (full ? *r.ok() == 45 : r.err()->get() == 6), "map()");
      ran<int>(full, a, s, ok_at, 5);
      err_moved = s == 2;
      n.max(full ? 0 : self_copies, "map()");
      break;
    }
    case 1: {
      auto r = as<s>(self).map_err(as<a>(fint));
      static_assert(std::is_same_v<decltype(r), best::result<Trk, int>>);
      CHECK(r.is_ok() == full && (full ? r.ok()->get() == 5 : *r.err() == 46), "map_err()");
      ran<int>(!full, a, s, err_at, 6);
      ok_moved = s == 2;
      n.max(full ? self_copies : 0, "map_err()");
      break;
    }
    case 2: {
      auto r = as<s>(self).then(as<a>(fr));
      static_assert(std::is_same_v<decltype(r), best::result<int, E>>);
      CHECK(r.is_ok() == full && (full ? *r.ok() == 45 : r.err()->get() == 6), "then()");
      ran<best::result<int, E>>(full, a, s, ok_at, 5);
      err_moved = s == 2;
      n.max(full ? 0 : self_copies, "then()");
      break;
    }
    case 3: {
      auto r = as<s>(self).ok();
      static_assert(std::is_same_v<decltype(r), best::option<As<s, Trk>>>);
      CHECK(r.has_value() == full && (!full || &*r == ok_at), "ok()");
      auto e = as<s>(self).err();
      static_assert(std::is_same_v<decltype(e), best::option<As<s, E>>>);
      CHECK(e.has_value() == !full && (full || &*e == err_at), "err()");
      n.max(0, "ok() and err()");
      break;
    }
    case 4: {
      if (!full) break;
      auto&& r = *as<s>(self);
      static_assert(std::is_same_v<decltype(r), As<s, Trk>&&>);
      CHECK(&r == ok_at && self.operator->() == ok_at, "operator*");
      n.max(0, "operator*");
      break;
    }
    case 5: case 6: {
      using C = best::result<Conv<Trk>, Conv<E>>;
      Trk t(8);
      C r = a & 1 ? C(best::ok(as<1>(t))) : C(best::err(E(8)));
      n = {};
      if (method == 5) {
        C made(as<s>(self));
        r = made;
      } else {
        r = as<s>(self);
      }
      CHECK(r.is_ok() == full, "conversion of a result");
      int v = full ? r.ok()->v : r.err()->v, how = full ? r.ok()->how : r.err()->how;
      CHECK(v == (full ? 5 : 6), "converted %d", v);
      CHECK(how == s, "the content was converted from %s instead of %s", cname(how), cname(s));
      ok_moved = err_moved = s == 2;
      n.max(0, "conversion of a result");
      break;
    }
    case 7: {
      Trk t(7);
      E e(7);
      n = {};
      R r = full ? R(best::ok(as<a>(t))) : R(best::err(as<a>(e)));
      CHECK(r.is_ok() == full && (full ? r.ok()->get() : r.err()->get()) == 7, "from best::ok/err");
      CHECK((full ? t : static_cast<Trk&>(e)).get() == (a == 2 ? el::Moved : 7), "the value is left as %d", (full ? t : e).get());
      n.max(a == 2 ? 0 : 1, "best::ok/err");
      break;
    }
    case 8: {  // BEST_GUARD
      bool passed = false;
      auto f = [&]() -> best::result<int, E> {
        BEST_GUARD(as<s>(self));
        passed = true;
        return 1;
      };
      auto r = f();
      CHECK(r.is_ok() == full && passed == full && (full || r.err()->get() == 6), "BEST_GUARD");
      err_moved = s == 2;
      n.max(full ? 0 : self_copies, "BEST_GUARD");
      break;
    }
  }
  CHECK(self.is_ok() == full, "the result changed sides");
  if (full) CHECK(self.ok()->get() == (ok_moved ? el::Moved : 5), "the value is %d afterwards", self.ok()->get());
  else CHECK(self.err()->get() == (err_moved ? el::Moved : 6), "the error is %d afterwards", self.err()->get());
}
SCENARIO(result_cats, "9 methods x ok or error x the result in 4 value categories x the argument or callback in 4", mc::LeakCheck) {
  el::reset();
  int method = c.pick(9), s = c.pick(4), a = c.pick(4);
  bool full = c.flip();
  c.note("method %d on %s %s, argument %s", method, full ? "an ok" : "an error", cname(s), cname(a));
  c.step();
  by_cat(s, [&](auto S) { by_cat(a, [&](auto A) { result_one<S(), A()>(c, method, full); }); });
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}
SCENARIO(result_move_only, "move-only values and errors: 6 methods x ok or error", mc::LeakCheck) {
  el::reset();
  {
    using R = best::result<MO, ME>;
    bool full = c.flip();
    R self = best::ok(5);
    if (!full) self = best::err(6);
    switch (c.pick(6)) {
      case 0: { auto r = std::move(self).map([](MO&& m) { return m.get(); }); CHECK(full ? *r.ok() == 5 : r.err()->get() == 6, "map()"); break; }
      case 1: { auto r = std::move(self).map_err([](ME&& m) { return m.get(); }); CHECK(full ? r.ok()->get() == 5 : *r.err() == 6, "map_err()"); break; }
      case 2: { auto r = std::move(self).then([](MO&& m) -> R { return best::ok(std::move(m)); }); CHECK(full ? r.ok()->get() == 5 : r.err()->get() == 6, "then()"); break; }
      case 3: { R r(std::move(self)); CHECK(full ? r.ok()->get() == 5 : r.err()->get() == 6, "move"); break; }
      case 4: { R r(best::err(9)); r = std::move(self); CHECK(full ? r.ok()->get() == 5 : r.err()->get() == 6, "move"); break; }
      case 5: {
        auto f = [&]() -> best::result<int, ME> {
          BEST_GUARD(std::move(self));
          return 1;
        };
        auto r = f();
        CHECK(full ? *r.ok() == 1 : r.err()->get() == 6, "BEST_GUARD");
        break;
      }
    }
  }
  CHECK(el::g_live == 0, "%d objects leaked", el::g_live);
}
#endif
}  // namespace
