// I02: iterator adaptors against a dynamic pull-based model.
#include <memory>
#include <vector>

#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;
using ll = long long;

struct MO {  // move-only value
  el::Trk t;
  explicit MO(int v) : t(v) {}
  MO(MO&&) = default;
  MO& operator=(MO&&) = default;
  int get() const { return t.get(); }
};

// The model.
struct M {
  virtual ~M() = default;
  virtual bool next(ll& v) = 0;
  virtual bool back(ll& v) = 0;
  virtual size_t remaining() = 0;
};
struct MSrc : M {
  std::vector<ll> v;
  size_t lo = 0, hi;
  MSrc(std::vector<ll> x) : v(x), hi(x.size()) {}
  bool next(ll& o) override { return lo < hi && (o = v[lo++], true); }
  bool back(ll& o) override { return lo < hi && (o = v[--hi], true); }
  size_t remaining() override { return hi - lo; }
};
struct MMap : M {
  std::unique_ptr<M> in;
  MMap(M* m) : in(m) {}
  bool next(ll& o) override { return in->next(o) && (o = o * 2 + 1, true); }
  bool back(ll& o) override { return in->back(o) && (o = o * 2 + 1, true); }
  size_t remaining() override { return in->remaining(); }
};
std::vector<ll> g_log_real, g_log_model;
struct MInspect : M {
  std::unique_ptr<M> in;
  bool value;
  MInspect(M* m, bool v) : in(m), value(v) {}
  bool next(ll& o) override { return in->next(o) && (g_log_model.push_back(value ? o : -1), true); }
  bool back(ll& o) override { return in->back(o) && (g_log_model.push_back(value ? o : -1), true); }
  size_t remaining() override { return in->remaining(); }
};
ll combine(ll i, ll v) { return i * 1000003 + v * 31; }
struct MEnum : M {
  std::unique_ptr<M> in;
  ll i = 0;
  MEnum(M* m) : in(m) {}
  bool next(ll& o) override { return in->next(o) && (o = combine(i++, o), true); }
  bool back(ll&) override { mc::fail("model"); }
  size_t remaining() override { return in->remaining(); }
};
struct MTake : M {
  std::unique_ptr<M> in;
  size_t k;
  MTake(M* m, size_t k) : in(m), k(k) {}
  bool next(ll& o) override { return k > 0 && (--k, in->next(o)); }
  bool back(ll&) override { mc::fail("model"); }
  size_t remaining() override { return std::min(k, in->remaining()); }
};
struct MRev : M {
  std::unique_ptr<M> in;
  MRev(M* m) : in(m) {}
  bool next(ll& o) override { return in->back(o); }
  bool back(ll& o) override { return in->next(o); }
  size_t remaining() override { return in->remaining(); }
};

template <typename T>
ll num(const T& x) {
  if constexpr (requires { x.first(); x.second(); }) return combine(ll(x.first()), num(x.second()));
  else if constexpr (requires { x.get(); }) return x.get();
  else return ll(x);
}

template <typename O>
bool got(O&& o, ll& v) {
  if (o.is_empty()) return false;
  v = num(*o);
  return true;
}

void same_logs() {
  CHECK(g_log_real == g_log_model, "inspection saw %zu values, expected %zu (or different values)", g_log_real.size(), g_log_model.size());
}

template <typename It>
void hint(It& it, M& m) {
  auto h = it.size_hint();
  size_t r = m.remaining();
  CHECK(h.lower <= r, "size hint promises at least %zu, %zu remain", h.lower, r);
  if (h.upper) CHECK(*h.upper >= r, "size hint promises at most %zu, %zu remain", *h.upper, r);
}

// Consumes `it` in the chosen way, in step with the model.
template <typename It>
void consume(Ctx& c, It it, M& m) {
  c.step();
  constexpr bool de = It::double_ended;
  int how = c.pick(de ? 8 : 5);
  static const char* names[] = {"next", "range-for", "count", "last", "to_vec", "next_back", "alternate", "back then last"};
  c.note("%s", names[how]);
  ll a, b;
  auto pull = [&](bool back) {
    bool g, w;
    if constexpr (de) {
      if (back) {
        g = got(it.next_back(), a);
        w = m.back(b);
        goto cmp;
      }
    }
    g = got(it.next(), a);
    w = m.next(b);
  cmp:
    CHECK(g == w, "%s", g ? "yields too many" : "yields too few");
    if (g) CHECK(a == b, "yields %lld, expected %lld", a, b);
    hint(it, m);
    return g;
  };
  hint(it, m);
  switch (how) {
    case 0:
      while (pull(false)) {}
      break;
    case 1:
      for (auto&& x : it) {
        CHECK(m.next(b), "range-for yields too many");
        CHECK(num(x) == b, "range-for yields %lld, expected %lld", num(x), b);
      }
      CHECK(!m.next(b), "range-for yields too few");
      break;
    case 2: {
      size_t n = 0;
      while (m.next(b)) ++n;
      size_t g = BEST_MOVE(it).count();
      CHECK(g == n, "count() is %zu, expected %zu", g, n);
      break;
    }
    case 3: {
      bool any = false;
      ll l = 0;
      while (m.next(b)) any = true, l = b;
      auto la = BEST_MOVE(it).last();
      CHECK(la.has_value() == any, "last() of %s", any ? "something is none" : "nothing is something");
      if (any) CHECK(num(*la) == l, "last() is %lld, expected %lld", num(*la), l);
      break;
    }
    case 4: {
      auto v = [&] {
        using item = typename It::item;
        if constexpr (best::is_ref<item>) {
          return BEST_MOVE(it).template collect<best::vec<best::un_ref<item>>>();
        } else {
          return BEST_MOVE(it).to_vec();
        }
      }();
      for (auto& x : v) {
        CHECK(m.next(b), "to_vec too long");
        CHECK(num(x) == b, "to_vec holds %lld, expected %lld", num(x), b);
      }
      CHECK(!m.next(b), "to_vec too short");
      break;
    }
    case 5:
      while (pull(true)) {}
      break;
    case 6:
      for (bool k = true; pull(k); k = !k) {}
      break;
    case 7:
      if constexpr (de) {
        pull(true);
        bool any = false;
        ll l = 0;
        while (m.next(b)) any = true, l = b;
        auto la = BEST_MOVE(it).last();
        CHECK(la.has_value() == any);
        if (any) CHECK(num(*la) == l, "last() after next_back is %lld, expected %lld", num(*la), l);
      }
      break;
  }
  same_logs();
}

template <int depth, int first = -1, typename It>
void chain(Ctx& c, It it, std::unique_ptr<M> m) {
  using item = typename It::item;
  if constexpr (depth > 0) {
    constexpr bool de = It::double_ended;
    int op = first >= 0 ? first : c.pick(de ? 7 : 6);
    auto wrap = [&](M* x) { return std::unique_ptr<M>(x); };
    switch (op) {
      case 1:
        if constexpr (first < 0 || first == 1) {
        c.note("map");
        return chain<depth - 1>(c, BEST_MOVE(it).map([](auto&& x) { return ll(num(x) * 2 + 1); }), wrap(new MMap(m.release())));
        }
        break;
      case 2:
        if constexpr (first < 0 || first == 2) {
        c.note("inspect()");
        return chain<depth - 1>(c, BEST_MOVE(it).inspect([] { mc::Internal in; g_log_real.push_back(-1); }), wrap(new MInspect(m.release(), false)));
        }
        break;
      case 3:
        if constexpr (first < 0 || first == 3) {
        c.note("inspect(x)");
        return chain<depth - 1>(c, BEST_MOVE(it).inspect([](item& x) { mc::Internal in; g_log_real.push_back(num(x)); }), wrap(new MInspect(m.release(), true)));
        }
        break;
      case 4:
        if constexpr (first < 0 || first == 4) {
        c.note("enumerate");
        return chain<depth - 1>(c, BEST_MOVE(it).enumerate(), wrap(new MEnum(m.release())));
        }
        break;
      case 5: if constexpr (first < 0 || first == 5) {
        size_t k = size_t(c.pick(6));
        c.note("take(%zu)", k);
        return chain<depth - 1>(c, BEST_MOVE(it).take(k), wrap(new MTake(m.release(), k)));
      }
        break;
      case 6:
        if constexpr (de && (first < 0 || first == 6)) {
          c.note("rev");
          return chain<depth - 1>(c, BEST_MOVE(it).rev(), wrap(new MRev(m.release())));
        }
    }
  }
  consume(c, BEST_MOVE(it), *m);
}

// A user-defined iterator over values, without size hint or back end.
template <typename T>
struct Gen {
  int lo, n;
  best::option<T> next() {
    if (lo > n) return best::none;
    return best::option<T>(T(lo++));
  }
};
// A user-defined double-ended iterator with a (loose) size hint.
template <typename T>
struct Gen2 {
  int lo, n;
  best::option<T> next() {
    if (lo > n) return best::none;
    return best::option<T>(T(lo++));
  }
  best::option<T> next_back() {
    if (lo > n) return best::none;
    return best::option<T>(T(n--));
  }
  best::size_hint size_hint() const { return {size_t(n - lo + 1) / 2, size_t(n - lo + 1) + 2}; }
};

#ifndef ITER_FIRST
#define ITER_FIRST -1
#endif
#ifndef ITER_PART
#define ITER_PART 1
#endif
template <int src, int depth>
void body(Ctx& c) {
  el::reset();
  {
    mc::Internal in;
    g_log_real.clear();
    g_log_model.clear();
  }
  int n = c.pick(5);
  c.note("source of %d", n);
  c.state(Ctx::mix(u_int64_t(src), u_int64_t(n)));
  mc::Internal in;
  std::vector<ll> v;
  for (int i = 1; i <= n; ++i) v.push_back(i);
  std::unique_ptr<M> m(new MSrc(v));
  int buf[5] = {1, 2, 3, 4, 5};
  if constexpr (src == 0) chain<depth, ITER_FIRST>(c, best::span<int>(buf, size_t(n)).iter(), BEST_MOVE(m));
  if constexpr (src == 1) chain<depth, ITER_FIRST>(c, best::bounds{.start = 1, .count = size_t(n)}.iter(), BEST_MOVE(m));
  if constexpr (src == 2) chain<depth, ITER_FIRST>(c, best::iter(Gen<el::Trk>{1, n}), BEST_MOVE(m));
  if constexpr (src == 3) chain<depth, ITER_FIRST>(c, best::iter(Gen2<el::Trk>{1, n}), BEST_MOVE(m));
  if constexpr (src == 4) chain<depth, ITER_FIRST>(c, best::iter(Gen2<MO>{1, n}), BEST_MOVE(m));
  CHECK(el::g_live == 0, "%d elements leaked", el::g_live);
}
#ifndef ITER_DEPTH
#define ITER_DEPTH 2
#endif
#define B "every chain of up to 3 (or 2, quick) adaptors (map, inspect, enumerate, take k, rev) over sources of 0..4, consumed in every way (next, range-for, count, last, to_vec, back, alternating)"
#if ITER_PART == 1
SCENARIO_T(span, B ": span of ints (by reference)", 0, body<0, ITER_DEPTH>);
#elif ITER_PART == 2
SCENARIO_T(range, B ": integer range (by value)", 0, body<1, ITER_DEPTH>);
#elif ITER_PART == 3
SCENARIO_T(gen, B ": user-defined iterator, tracked values", 0, body<2, ITER_DEPTH>);
#elif ITER_PART == 4
SCENARIO_T(gen2, B ": user-defined double-ended iterator with a size hint, tracked values", 0, body<3, ITER_DEPTH>);
#else
SCENARIO_T(moveonly, B ": move-only values", 0, body<4, ITER_DEPTH>);
#endif
}  // namespace
