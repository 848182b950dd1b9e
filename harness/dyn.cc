// D01: best::dyn against a tagged value, over all operation sequences.
#include <string>
#include <vector>

#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/func/dyn.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
// Which function was called last, on which object.
const char* g_fn;
const void* g_self;
void called(const char* f, const void* self) {
  g_fn = f;
  g_self = self;
}
struct Token {
  int v;
  constexpr Token(int v) : v(v) {}
  constexpr Token(Token&& o) : v(o.v) { o.v = -1; }
};

class Holder : public best::interface_base<Holder> {
 public:
  BEST_INTERFACE(Holder,                                                         //
                 (int, get, (), const),                                          //
                 (void, set, (int x)),                                           //
                 (int, twice, (), const),                                        //
                 (void, clear, ()),                                              //
                 (int&, bump, (int& x)),                                         //
                 (Token, pass, (Token a, Token&& b, const int& c, int* d), const));

 private:
  int twice(best::defaulted) const { return get() * 2; }
  void clear(best::defaulted) { set(0); }
  int& bump(best::defaulted, int& x) {
    x += get();
    return x;
  }
};
class Named : public best::interface_base<Named> {
 public:
  BEST_INTERFACE(Named, (int, name, (), const), (int, rename, (int n)));

 private:
  int rename(best::defaulted, int n) { return name() + n; }
};
class Reader : public best::interface_base<Reader> {
 public:
  BEST_INTERFACE(Reader, (int, get, (), const));
};

template <int K, typename Base>
struct Common : Base {
  using Base::Base;
  Common(const Common&) = default;
  Common(Common&&) = default;
  Common& operator=(const Common&) = default;
  Common& operator=(Common&&) = default;
  int get() const {
    called("get", this);
    return Base::get() * 10 + K;
  }
  void set(int x) {
    called("set", this);
    this->v = x;
  }
  Token pass(Token a, Token&& b, const int& c, int* d) const {
    called("pass", this);
    int r = a.v * 1000 + b.v * 100 + c * 10 + *d + K * 10000;
    b.v = -2;
    *d += 1;
    return Token(r);
  }
  int name() const {
    called("name", this);
    return 1000 + K;
  }
};
// Everything by default.
struct Plain : Common<0, el::Trk> {
  using Common::Common;
};
// Overrides.
struct Over : Common<1, el::Ovr> {
  using Common::Common;
  int twice() const {
    called("twice", this);
    return -get();
  }
  void clear() {
    called("clear", this);
    v = 77;
  }
  int rename(int n) {
    called("rename", this);
    v = n;
    return n;
  }
};
// Cannot be copied.
struct Uniq : Common<2, el::Trk> {
  using Common::Common;
  Uniq(Uniq&&) = default;
  Uniq& operator=(Uniq&&) = default;
  int& bump(int& x) {
    called("bump", this);
    x += 500;
    return x;
  }
};
// Does not fit anywhere.
struct Large : Common<3, el::Rel> {
  using Common::Common;
  char fill[200] = {1, 2, 3};
};
// Trivial, and with a vtable of its own.
struct Raw {
  int x;
};
constexpr best::vtable<Holder> BestImplements(Raw*, Holder*) {
  return {
    .get = [](const Raw& self) { return called("get", &self), self.x * 10 + 4; },
    .set = [](Raw& self, int x) { called("set", &self), self.x = x; },
    .pass = [](const Raw& self, Token a, Token&& b, const int& c, int* d) {
      called("pass", &self);
      int r = a.v * 1000 + b.v * 100 + c * 10 + *d + 40000;
      b.v = -2;
      *d += 1;
      return Token(r);
    },
  };
}
constexpr best::vtable<Named> BestImplements(Raw*, Named*) {
  return {.name = [](const Raw& self) { return called("name", &self), 1004; }};
}
// A subclass of something that is one already.
struct Sub : Plain {
  int pad = 9;
  using Plain::Plain;
  int get() const {
    called("get", this);
    return el::Trk::get() * 10 + 5;
  }
};
static_assert(best::interface<Holder> && best::interface<Named> && best::interface<Reader>);
static_assert(best::implements<Plain, Holder> && best::implements<Raw, Holder> && best::implements<Raw, Named>);
static_assert(!best::implements<int, Holder> && !best::implements<Raw, Reader> && best::implements<Plain, Reader>);
template <typename T>
concept can_set = requires(T& p) { p->set(1); };
static_assert(can_set<best::dynptr<Holder>> && !can_set<best::dynptr<const Holder>>);
static_assert(can_set<best::dynbox<Holder>> && !can_set<best::dynbox<const Holder>> && !can_set<const best::dynbox<Holder>>);
static_assert(!std::is_copy_constructible_v<best::dynbox<Holder>> && std::is_move_constructible_v<best::dynbox<Holder>>);
static_assert(!std::is_convertible_v<best::dynptr<const Holder>, best::dynptr<Holder>> && std::is_convertible_v<best::dynptr<Holder>, best::dynptr<const Holder>>);
static_assert(best::dyn_of<best::dynbox<Holder, Named>, Named, Holder> && !best::dyn_of<best::dynbox<Holder>, Named>);

constexpr int Kinds = 6;
struct Val {
  int kind = 0, v = 0;
  int get() const { return v * 10 + kind; }
};
bool copyable(int kind) { return kind != 2; }

template <typename F>
auto with(int kind, F&& f) {
  switch (kind) {
    case 0: return f(best::id<Plain>{});
    case 1: return f(best::id<Over>{});
    case 2: return f(best::id<Uniq>{});
    case 3: return f(best::id<Large>{});
    case 4: return f(best::id<Raw>{});
    default: return f(best::id<Sub>{});
  }
}
template <typename T>
T create(int v) {
  if constexpr (std::is_same_v<T, Raw>) return Raw{v};
  else return T(v);
}
size_t size_of(int kind) {
  return with(kind, [](auto t) { return sizeof(typename decltype(t)::type); });
}

// Calls everything through h, whose object is at `self` and models `m`.
template <typename H>
void call_all(H h, Val& m, const void* self) {
  auto is = [&](const char* f) { CHECK(std::string(g_fn) == f && g_self == self, "called %s on %p, expected %s on %p", g_fn, g_self, f, self); };
  CHECK(h()->get() == m.get(), "get() is %d, expected %d", h()->get(), m.get());
  is("get");
  int tw = m.kind == 1 ? -m.get() : m.get() * 2;
  CHECK(h()->twice() == tw, "twice() is %d, expected %d", h()->twice(), tw);
  Token b(2);
  int cc = 3, dd = 4;
  Token r = h()->pass(Token(1), std::move(b), cc, &dd);
  CHECK(r.v == 1234 + m.kind % 5 * 10000 && b.v == -2 && dd == 5, "arguments arrived as %d", r.v);
  is("pass");
  if constexpr (requires { h()->set(1); }) {
    h()->set(m.v);
    is("set");
    CHECK(h()->get() == m.get());
    int x = 100;
    int& y = h()->bump(x);
    CHECK(&y == &x && x == (m.kind == 2 ? 600 : 100 + m.get()), "bump() gave %d", x);
  }
}

#define CALL_ALL(h, m, self) call_all([&]() -> decltype((h)) { return h; }, m, self)

void mutate(auto&& h, Val& m, int how, int v) {
  if (how == 0) {
    h->set(v);
    m.v = v;
  } else {
    h->clear();
    m.v = m.kind == 1 ? 77 : 0;
  }
}

SCENARIO(boxes, "all sequences of 4 (thorough 5) of 9 operations on two dynboxes with 6 kinds of values", mc::LeakCheck) {
  el::reset();
  using B = best::dynbox<Holder>;
  Val m[2];
  bool full[2] = {true, true};
  int fresh = 0;
  auto mk = [&](int kind) { return with(kind, [&](auto t) { return B(best::box<typename decltype(t)::type>(create<typename decltype(t)::type>(fresh))); }); };
  B s[2] = {mk(0), mk(4)};
  m[1].kind = 4;
  int depth = c.thorough() ? 5 : 4;
  auto check = [&] {
    int live = 0;
    for (int i = 0; i < 2; ++i) {
      if (!full[i]) continue;
      live += m[i].kind != 4;
      CHECK(s[i].layout().size() == size_of(m[i].kind), "layout of %zu bytes", s[i].layout().size());
      CHECK((uintptr_t)s[i].raw() % s[i].layout().align() == 0);
      Val was = m[i];
      CALL_ALL(s[i], m[i], s[i].raw());
      const B& k = s[i];
      CALL_ALL(k, m[i], k.raw());
      CALL_ALL(*s[i], m[i], s[i].raw());
      CHECK(s[i].as_ptr().can_copy() == copyable(m[i].kind));
      (void)was;
    }
    CHECK(el::g_live == live, "%d live values, expected %d", el::g_live, live);
  };
  for (int d = 0; d < depth; ++d) {
    c.step();
    int i = c.pick(2), j = 1 - i;
    switch (c.pick(9)) {
      case 0: {
        int k = c.pick(Kinds);
        ++fresh;
        c.note("%c = box of kind %d", 'a' + i, k);
        s[i] = mk(k);
        m[i] = {k, fresh};
        full[i] = true;
        break;
      }
      case 1:
        if (!full[j]) throw mc::Skip();
        c.note("%c = move(%c)", 'a' + i, 'a' + j);
        {
          void* p = s[j].raw();
          s[i] = std::move(s[j]);
          CHECK(s[i].raw() == p);
        }
        m[i] = m[j];
        full[i] = true;
        full[j] = false;
        break;
      case 2: {
        if (!full[j]) throw mc::Skip();
        c.note("%c = %c.try_copy()", 'a' + i, 'a' + j);
        const B& k = s[j];
        auto t = k.try_copy();
        CHECK(t.has_value() == copyable(m[j].kind), "try_copy() of kind %d", m[j].kind);
        if (!t.has_value()) break;
        CHECK(t->raw() != k.raw());
        s[i] = *std::move(t);
        m[i] = m[j];
        full[i] = true;
        break;
      }
      case 3:
        if (!full[i]) throw mc::Skip();
        c.note("%c.set", 'a' + i);
        mutate(s[i], m[i], 0, ++fresh);
        break;
      case 4:
        if (!full[i]) throw mc::Skip();
        c.note("%c.clear", 'a' + i);
        mutate(s[i], m[i], 1, 0);
        break;
      case 5: {
        if (!full[i]) throw mc::Skip();
        c.note("%c through raw", 'a' + i);
        auto [p0, al] = std::move(s[i]).into_raw();
        auto p = p0;
        CALL_ALL(p, m[i], p.raw());
        s[i] = B(best::unsafe("just taken"), al, p);
        break;
      }
      case 6: {
        // An lvalue is copied into a fresh box.
        int k = c.pick(Kinds);
        ++fresh;
        c.note("%c = box(lvalue of kind %d)", 'a' + i, k);
        bool did = with(k, [&](auto t) {
          using T = typename decltype(t)::type;
          if constexpr (std::is_copy_constructible_v<T>) {
            T v = create<T>(fresh);
            const T& kv = v;
            if (fresh % 2) s[i] = B(best::in_place, v);
            else s[i] = B(best::in_place, kv);
            CHECK((void*)&v != s[i].raw());
          } else {
            s[i] = B(best::in_place, create<T>(fresh));
          }
          return true;
        });
        (void)did;
        m[i] = {k, fresh};
        full[i] = true;
        break;
      }
      case 7: {
        if (!full[i]) throw mc::Skip();
        c.note("option of %c", 'a' + i);
        best::option<B> o;
        CHECK(!o.has_value());
        o = std::move(s[i]);
        CHECK(o.has_value());
        CALL_ALL(*o, m[i], o->raw());
        s[i] = *std::move(o);
        break;
      }
      case 8: {
        // By way of a box of a const interface, and a vector.
        if (!full[i]) throw mc::Skip();
        c.note("const %c", 'a' + i);
        best::dynbox<const Holder> k = std::move(s[i]);
        CALL_ALL(k, m[i], k.raw());
        auto t = k.try_copy();
        CHECK(t.has_value() == copyable(m[i].kind));
        if (t.has_value()) CALL_ALL(*t, m[i], t->raw());
        best::vec<best::dynbox<const Holder>> v;
        v.push(std::move(k));
        if (t.has_value()) v.push(*std::move(t));
        best::vec<best::dynbox<const Holder>> w = std::move(v);
        for (auto& x : w) CALL_ALL(x, m[i], x.raw());
        full[i] = false;
        break;
      }
    }
    if (i == 0 || d == 0 || true) check();
    uint64_t h = 3;
    for (int x = 0; x < 2; ++x) h = Ctx::mix(h, full[x] ? m[x].kind : 9);
    c.state(h);
  }
}

// Several interfaces at once.
SCENARIO(several, "two boxes of two interfaces each with 6 kinds of values: all sequences of 3 (thorough 4) of 5 operations", mc::LeakCheck) {
  el::reset();
  using B = best::dynbox<Holder, Named>;
  int fresh = 0;
  auto mk = [&](int kind) { return with(kind, [&](auto t) { return B(best::box<typename decltype(t)::type>(create<typename decltype(t)::type>(fresh))); }); };
  Val m[2];
  int k0 = c.pick(Kinds), k1 = c.pick(Kinds);
  m[0].kind = k0;
  m[1].kind = k1;
  B s[2] = {mk(k0), mk(k1)};
  int depth = c.thorough() ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    c.step();
    int i = c.pick(2), j = 1 - i;
    switch (c.pick(5)) {
      case 0: {
        int k = c.pick(Kinds);
        ++fresh;
        c.note("%c = kind %d", 'a' + i, k);
        s[i] = mk(k);
        m[i] = {k, fresh};
        break;
      }
      case 1: {
        c.note("swap");
        std::swap(s[0], s[1]);
        std::swap(m[0], m[1]);
        break;
      }
      case 2: {
        c.note("%c = %c.try_copy()", 'a' + i, 'a' + j);
        auto t = s[j].try_copy();
        CHECK(t.has_value() == copyable(m[j].kind));
        if (t.has_value()) {
          s[i] = *std::move(t);
          m[i] = m[j];
        }
        break;
      }
      case 3: {
        c.note("%c.set", 'a' + i);
        ++fresh;
        s[i][best::types<Holder>]->set(fresh);
        m[i].v = fresh;
        break;
      }
      case 4: {
        c.note("%c.rename", 'a' + i);
        int r = Named::of(s[i])->rename(33);
        if (m[i].kind == 1) {
          m[i].v = 33;
          CHECK(r == 33);
        } else {
          CHECK(r == 1033 + m[i].kind % 5, "rename() gave %d", r);
        }
        break;
      }
    }
    for (int x = 0; x < 2; ++x) {
      const void* self = s[x].raw();
      CALL_ALL(Holder::of(s[x]), m[x], self);
      CALL_ALL(s[x][best::types<Holder>], m[x], self);
      CHECK(Named::of(s[x])->name() == 1000 + m[x].kind % 5 && g_self == self, "name() is %d", Named::of(s[x])->name());
      CHECK(s[x][best::types<const Named>]->name() == 1000 + m[x].kind % 5 && g_self == self);
      best::dynptr<Holder, Named> p = s[x];
      best::dynptr<const Holder, Named> q = p;
      auto r = p.as_const();
      static_assert(std::is_same_v<decltype(r), best::dynptr<const Holder, const Named>>);
      CHECK(p == q && q == r && p.raw() == self);
      CALL_ALL(p[best::types<Holder>], m[x], self);
      CALL_ALL(q[best::types<Holder>], m[x], self);
      CALL_ALL(r[best::types<Holder>], m[x], self);
      CHECK(r[best::types<Named>]->name() == 1000 + m[x].kind % 5);
    }
    c.state(Ctx::mix(m[0].kind, m[1].kind));
  }
}

// Pointers, and every way to get at an interface.
template <typename T>
void views(Ctx& c, int kind, int v) {
  T x = create<T>(v);
  Val m{kind, v};
  int how = c.pick(10);
  c.state(how * 10 + kind);
  switch (how) {
    case 0: CALL_ALL(Holder::of(x), m, &x); break;
    case 1: CALL_ALL(Holder::of(&x), m, &x); break;
    case 2: {
      best::ptr<T> p = &x;
      CALL_ALL(Holder::of(p), m, &x);
      break;
    }
    case 3: {
      best::dynptr<Holder> p = &x;
      CALL_ALL(Holder::of(p), m, &x);
      CALL_ALL(p, m, &x);
      CALL_ALL(*p, m, &x);
      CHECK(p.layout() == best::layout::of<T>() && p.meta() == &best::itable<Holder>::of(best::types<T>));
      auto q = p;
      best::dynptr<Holder> n;
      CHECK(q == p && n != p && n == nullptr && p != nullptr && n == best::dynptr<Holder>(nullptr));
      CHECK(mc::crashes([&] { (void)n->get(); }), "calling through null");
      break;
    }
    case 4: {
      best::box<T> b(std::move(x));
      CALL_ALL(Holder::of(b), m, b.raw());
      best::dynptr<Holder> p = b;
      CALL_ALL(p, m, b.raw());
      break;
    }
    case 5: {
      best::dynptr<const Holder> p = &x;
      CALL_ALL(Holder::of(p), m, &x);
      CALL_ALL(p, m, &x);
      break;
    }
    case 6: {
      auto& t = best::itable<Holder>::of(best::types<T>);
      CHECK(t.layout() == best::layout::of<T>() && t.can_copy() == best::copyable<T>);
      CHECK(t->get(&x) == m.get() && g_self == &x);
      CHECK(t[best::types<Holder>].get(&x) == m.get());
      t->set(&x, v + 1);
      m.v = v + 1;
      CHECK(t->get(&x) == m.get());
      if constexpr (best::copyable<T>) {
        alignas(T) char mem[sizeof(T)];
        t.copy(mem, &x);
        T* y = (T*)mem;
        CHECK(t->get(y) == m.get());
        t.destroy(y);
      }
      break;
    }
    case 7: {
      // In place in raw memory.
      alignas(64) char mem[256];
      best::dynptr<Holder> p(best::ptr<void>(mem), &best::itable<Holder>::of(best::types<T>));
      p.construct(std::move(x));
      CALL_ALL(p, m, mem);
      T y = create<T>(v + 5);
      m.v = v + 5;
      p.assign(std::move(y));
      CALL_ALL(p, m, mem);
      p.destroy();
      break;
    }
    case 8: {
      // Overwriting a value of each other type.
      int k = c.pick(Kinds);
      alignas(64) char mem[256];
      best::dynptr<Holder> from = &x;
      with(k, [&](auto t) {
        using U = typename decltype(t)::type;
        best::dynptr<Holder> p(best::ptr<void>(mem), &best::itable<Holder>::of(best::types<U>));
        p.construct(create<U>(3));
        auto q = p.try_copy_assign(from);
        CHECK((q == nullptr) == !copyable(kind));
        if (q == nullptr) {
          p.destroy();
          return 0;
        }
        CALL_ALL(q, m, mem);
        CHECK(q.layout() == best::layout::of<T>());
        q.destroy();
        auto r = q.try_copy(from);
        CALL_ALL(r, m, mem);
        r.destroy();
        return 0;
      });
      break;
    }
    case 9:
      // Reader has no functions that change anything, so that const will do.
      if constexpr (best::implements<T, Reader>) {
        const T& k = x;
        CHECK(Reader::of(k)->get() == m.get() && Reader::of(&k)->get() == m.get() && Reader::of(x)->get() == m.get());
        best::dynptr<Reader> p = &k;
        CHECK(p->get() == m.get() && g_self == &x);
        if constexpr (std::is_copy_constructible_v<T>) {
          best::dynbox<Reader> b(best::in_place, k);
          CHECK(b->get() == m.get() && g_self == b.raw());
          CHECK(b.try_copy().has_value() == copyable(kind));
        }
      }
      break;
  }
}
SCENARIO(access, "6 kinds of values through 10 ways to get at their interface, overwriting each kind with each other", mc::LeakCheck) {
  el::reset();
  c.step();
  int k = c.pick(Kinds);
  with(k, [&](auto t) {
    views<typename decltype(t)::type>(c, k, 7);
    return 0;
  });
  CHECK(el::g_live == 0, "%d values left", el::g_live);
}
}  // namespace
