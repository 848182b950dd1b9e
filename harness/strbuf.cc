// T03: text buffers against plain code strings.
#include <string.h>

#include <string>
#include <vector>

#include "best/text/strbuf.h"
#include "elems.h"
#include "mc.h"
#include "refenc.h"

namespace {
using best::rune;
using mc::Ctx;
template <typename E>
using Str = std::basic_string<best::code<E>>;
template <typename E>
using code = best::code<E>;

rune mk(u32 x) {
  auto r = rune::from_int(x);
  return r ? *r : *rune::from_int_allow_surrogates(x);
}

template <typename E>
bool well_formed(const Str<E>& s) {
  for (auto& i : ref_items<E>(s.data(), s.size()))
    if (i.r == Err) return false;
  return true;
}
template <typename E>
bool boundary(const Str<E>& s, size_t n) {
  if (n == s.size()) return true;
  for (auto& i : ref_items<E>(s.data(), s.size()))
    if (i.at == n) return true;
  return false;
}

template <typename E, typename Buf>
void expect(const char* what, const Buf& b, const Str<E>& m) {
  CHECK(b.size() == m.size() && !memcmp(b.data(), m.data(), m.size() * sizeof(code<E>)), "%s: holds [%s], expected [%s]", what,
        hex(b.data(), b.size()).c_str(), hex(m.data(), m.size()).c_str());
  CHECK(b.is_empty() == m.empty() && b.data() != nullptr && b.capacity() >= b.size(), "%s: size accessors", what);
  auto t = b.as_text();
  CHECK(t.size() == m.size() && (m.empty() || t.data() == b.data()), "%s: as_text", what);
  CHECK(best::text<E>::from(t).has_value(), "%s: the text is ill-formed", what);
  auto items = ref_items<E>(m.data(), m.size());
  size_t k = 0;
  auto ix = b.rune_indices();
  for (auto r : b.runes()) {
    CHECK(k < items.size() && r.to_int() == items[k].r, "%s: rune %zu", what, k);
    auto x = ix.next();
    CHECK(x && x->first() == items[k].at, "%s: index of rune %zu", what, k);
    ++k;
  }
  CHECK(k == items.size(), "%s: number of runes", what);
}

// The pushes: what they mean for the model. nullopt-like: ok = false.
template <typename E>
struct Push {
  bool ok = true;
  Str<E> strict, lossy;
  void rune(u32 x) {
    if (!ref_encode<E>(strict, x)) ok = false;
    if (!ref_encode<E>(lossy, x) && !ref_encode<E>(lossy, 0xfffd)) ref_encode<E>(lossy, '?');
  }
};
template <typename E, typename S>
Push<E> push_of(const S& codes) {  // a pretext of encoding S::E
  Push<E> p;
  for (auto& i : codes) p.rune(i.r == Err ? 0xfffd : i.r);
  return p;
}

template <typename E, typename A>
struct World {
  using Buf = best::textbuf<E, A>;
  Buf b[2];
  Str<E> m[2];
};

const u32 kRunes[] = {'a', 0xe9, 0x20ac, 0x1f600, 0xd800, 0xfffd, 0};
const std::vector<u32> kTexts[] = {{}, {'x'}, {0xe9, 'y'}, {'p', 0x1f600, 'q'}, {'u', 0xfffd, 0x10ffff}, {'1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 0xe9, 'J'}};

template <typename E, typename A, typename S, typename P>
void do_push(Ctx& c, World<E, A>& w, int i, const S& s, const P& p, bool lossy, const char* what) {
  (void)c;
  size_t room = w.b[i].capacity() - w.b[i].size();
  auto* data = w.b[i].data();
  (void)room, (void)data;
  if (lossy) {
    w.b[i].push_lossy(s);
    w.m[i] += p.lossy;
  } else {
    bool ok = w.b[i].push(s);
    CHECK(ok == p.ok, "push(%s) gave %d", what, ok);
    if (ok) w.m[i] += p.strict;
  }
}

template <typename E, typename A, typename N>
void push_text(Ctx& c, World<E, A>& w, int i, const std::vector<u32>& t, bool lossy, bool pre) {
  Str<N> s;
  Push<E> p;
  for (u32 x : t)
    if (ref_encode<N>(s, x)) p.rune(x);
  best::pretext<N> pt(best::span<const code<N>>(s.data(), s.size()));
  c.note("%s(%s %s [%s])", lossy ? "push_lossy" : "push", Ref<N>::name, pre ? "pretext" : "text", hex(s.data(), s.size()).c_str());
  if (pre) do_push(c, w, i, pt, p, lossy, Ref<N>::name);
  else do_push(c, w, i, best::text<N>(best::unsafe("encoded by the reference"), pt), p, lossy, Ref<N>::name);
}

template <typename N>
const std::vector<Str<N>>& ill() {
  static std::vector<Str<N>> v = [] {
    mc::Internal in;
    std::vector<Str<N>> v;
    auto add = [&](std::initializer_list<unsigned> l) {
      Str<N> s;
      for (unsigned x : l) s += code<N>(x);
      v.push_back(s);
    };
    if constexpr (sizeof(code<N>) == 1) add({'a', 0xff, 'b'}), add({0xe2, 0x82}), add({'a', 0xc3, 0xa9, 0x80});
    else if constexpr (sizeof(code<N>) == 2) add({'a', 0xd800}), add({0xdc00, 'b'});
    else add({'a', 0x110000}), add({0xd800, 'b'});
    return v;
  }();
  return v;
}

template <typename E, typename A, typename N>
void push_ill(Ctx& c, World<E, A>& w, int i, size_t k, bool lossy) {
  auto& s = ill<N>()[k % ill<N>().size()];
  auto p = push_of<E>(ref_items<N>(s.data(), s.size()));
  c.note("%s(%s pretext [%s])", lossy ? "push_lossy" : "push", Ref<N>::name, hex(s.data(), s.size()).c_str());
  do_push(c, w, i, best::pretext<N>(best::span<const code<N>>(s.data(), s.size())), p, lossy, "ill-formed pretext");
}

template <typename E, typename A>
void step(Ctx& c, World<E, A>& w) {
  using Buf = best::textbuf<E, A>;
  c.step();
  int i = 0, j = 1;
  int op = c.pick(21);
  bool lossy = op & 1;
  switch (op) {
    case 0:
    case 1: {
      u32 x = kRunes[c.pick(7)];
      Push<E> p;
      p.rune(x);
      c.note("%s(U+%04X)", lossy ? "push_lossy" : "push", x);
      do_push(c, w, i, mk(x), p, lossy, "rune");
      break;
    }
    case 2:
    case 3:
      push_text<E, A, E>(c, w, i, kTexts[c.pick(6)], lossy, c.flip());
      break;
    case 4:
    case 5:
      push_text<E, A, best::utf16>(c, w, i, kTexts[1 + c.pick(5)], lossy, c.flip());
      break;
    case 6:
    case 7:
      push_text<E, A, best::utf8>(c, w, i, kTexts[1 + c.pick(5)], lossy, c.flip());
      break;
    case 8:
    case 9: {
      int k = c.pick(3);
      switch (c.pick(3)) {
        case 0: push_ill<E, A, best::utf8>(c, w, i, size_t(k), lossy); break;
        case 1: push_ill<E, A, best::utf16>(c, w, i, size_t(k), lossy); break;
        case 2: push_ill<E, A, best::utf32>(c, w, i, size_t(k), lossy); break;
      }
      break;
    }
    case 10:
    case 11: {
      // Itself or another buffer.
      Push<E> p;
      int k = c.pick(3);
      int from = k == 1 ? j : i;
      p.strict = p.lossy = w.m[from];
      c.note("%s(%s)", lossy ? "push_lossy" : "push", k == 0 ? "itself" : k == 1 ? "the other" : "its own text");
      if (k == 2) do_push(c, w, i, w.b[i].as_text(), p, lossy, "its own text");
      else do_push(c, w, i, w.b[from], p, lossy, "buffer");
      break;
    }
    case 12: {
      size_t n = w.m[i].size();
      size_t at = size_t(c.pick(4));
      at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? (n ? n - 1 : 0) : n + 1;
      bool bad = at < n && !boundary<E>(w.m[i], at);
      c.note("truncate(%zu)", at);
      if (bad) {
        CHECK(mc::crashes([&] { w.b[i].truncate(at); }), "truncate(%zu) in the middle of a rune did not crash", at);
        mc::take_output();
      } else {
        w.b[i].truncate(at);
        if (at < n) w.m[i].resize(at);
      }
      break;
    }
    case 13: {
      auto cap = w.b[i].capacity();
      c.note("clear");
      w.b[i].clear();
      w.m[i].clear();
      CHECK(w.b[i].capacity() == cap, "clear() changed the capacity");
      break;
    }
    case 14: {
      size_t k = c.flip() ? 40 : 3;
      c.note("reserve(%zu)", k);
      w.b[i].reserve(k);
      CHECK(w.b[i].capacity() - w.b[i].size() >= k, "reserve(%zu) left room for %zu", k, w.b[i].capacity() - w.b[i].size());
      auto* d = w.b[i].data();
      for (size_t x = 0; x < k; ++x) {
        CHECK(w.b[i].push(mk('r')), "push of a letter failed");
        w.m[i] += code<E>('r');
      }
      CHECK(w.b[i].data() == d, "pushing %zu codes after reserving for them moved the text", k);
      break;
    }
    case 15:
      c.note("swap through moves");
      {
        Buf t = std::move(w.b[0]);
        CHECK(w.b[0].size() == 0, "a moved-from buffer still has text");
        w.b[0] = std::move(w.b[1]);
        w.b[1] = std::move(t);
        std::swap(w.m[0], w.m[1]);
      }
      break;
    case 16:
      c.note("assign a copy");
      w.b[i] = w.b[j];
      w.m[i] = w.m[j];
      break;
    case 17: {
      c.note("through its code vector");
      auto v = std::move(w.b[i]).into_buf();
      bool spoil = c.flip();
      if (spoil) v.push(code<E>(sizeof(code<E>) == 1 ? 0xff : 0xdfff));
      Str<E> m = w.m[i];
      if (spoil) m += code<E>(sizeof(code<E>) == 1 ? 0xff : 0xdfff);
      auto t = Buf::from(std::move(v));
      CHECK(t.has_value() == well_formed<E>(m), "from(codes) of [%s]", hex(m.data(), m.size()).c_str());
      if (t) w.b[i] = std::move(*t), w.m[i] = m;
      else w.b[i].clear(), w.m[i].clear();
      break;
    }
    case 18: {
      c.note("through UTF-16 and back");
      auto t = best::textbuf<best::utf16>::transcode(w.b[i]);
      bool can = true;
      Str<best::utf16> u;
      for (auto& x : ref_items<E>(w.m[i].data(), w.m[i].size())) can &= ref_encode<best::utf16>(u, x.r);
      CHECK(t.has_value() == can, "transcode to UTF-16");
      if (!t) break;
      expect<best::utf16>("transcoded", *t, u);
      auto k = Buf::transcode(*t);
      CHECK(k.has_value(), "transcode back");
      w.b[i] = std::move(*k);
      break;
    }
    case 19: {
      c.note("erase by slicing");
      // Every slice of the current text into a new buffer.
      size_t n = w.m[i].size();
      if (n > 6) n = 6;
      for (size_t a = 0; a <= n; ++a)
        for (size_t e = a; e <= n; ++e) {
          auto t = w.b[i].at({.start = a, .end = e});
          bool ok = boundary<E>(w.m[i], a) && boundary<E>(w.m[i], e);
          CHECK(t.has_value() == ok, "at(%zu..%zu)", a, e);
          if (t) expect<E>("slice", Buf(*t), w.m[i].substr(a, e - a));
          CHECK(w.b[i]->at({.start = a, .end = e}).has_value() == ok, "->at(%zu..%zu)", a, e);
        }
      break;
    }
    case 20: {
      c.note("compare");
      std::vector<u32> x[2];
      for (int k = 0; k < 2; ++k)
        for (auto& it : ref_items<E>(w.m[k].data(), w.m[k].size())) x[k].push_back(it.r);
      CHECK((w.b[0] == w.b[1]) == (x[0] == x[1]), "==");
      CHECK((w.b[0] == w.b[1].as_text()) == (x[0] == x[1]) && (w.b[0].as_text() == w.b[1]) == (x[0] == x[1]), "== text");
      CHECK(((w.b[0] <=> w.b[1]) < 0) == (x[0] < x[1]) && ((w.b[0] <=> w.b[1]) > 0) == (x[1] < x[0]), "<=>");
      CHECK((w.b[0] == mk('a')) == (x[0] == std::vector<u32>{'a'}), "== rune");
      Str<best::utf32> u;
      bool can = true;
      for (u32 r : x[1]) can &= ref_encode<best::utf32>(u, r);
      if (can) {
        auto t = best::text<best::utf32>(best::unsafe("encoded by the reference"), best::pretext<best::utf32>(best::span<const char32_t>(u.data(), u.size())));
        CHECK((w.b[0] == t) == (x[0] == x[1]) && ((w.b[0] <=> t) < 0) == (x[0] < x[1]), "against UTF-32");
      }
      break;
    }
  }
}

template <typename E, typename A = best::malloc>
void body(Ctx& c) {
  el::Heap::reset();
  World<E, A> w;
  // The first buffer begins empty, around its inline capacity, or on the heap.
  size_t cap = w.b[0].capacity();
  size_t start[] = {0, 1, cap ? cap - 1 : 0, cap, cap + 1};
  size_t n = c.pick_of(start);
  for (size_t k = 0; k < n; ++k) w.b[0].push(mk(k % 5 == 3 ? 'z' : 'b')), w.m[0] += code<E>(k % 5 == 3 ? 'z' : 'b');
  w.b[1].push(mk('o')), w.m[1] += code<E>('o');
  if (w.b[1].push(mk(0xe9))) ref_encode<E>(w.m[1], 0xe9);
  c.note("begins with %zu codes", n);
  int depth = c.thorough() ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    u64 h = 0;
    for (int k = 0; k < 2; ++k) {
      h = Ctx::mix(Ctx::mix(h, std::hash<Str<E>>()(w.m[k])), w.b[k].capacity());
    }
    c.state(h);
    c.prune(h, depth - d);
    step(c, w);
    expect<E>("first buffer", w.b[0], w.m[0]);
    expect<E>("second buffer", w.b[1], w.m[1]);
  }
}

// Construction from every short string.
template <typename E>
void make(Ctx& c) {
  using Buf = best::textbuf<E>;
  Str<E> s;
  static const std::vector<unsigned> xs = sizeof(code<E>) == 1 ? std::vector<unsigned>{'a', 0xc3, 0xa9, 0xff, 0} : std::vector<unsigned>{'a', 0xe9, 0xd83d, 0xde00, 0};
  int n = c.pick(5);
  for (int i = 0; i < n; ++i) s += code<E>(xs[size_t(c.pick(int(xs.size())))]);
  c.step();
  c.state(std::hash<Str<E>>()(s));
  bool ok = well_formed<E>(s);
  best::pretext<E> p(best::span<const code<E>>(s.data(), s.size()));
  auto a = Buf::from(p);
  CHECK(a.has_value() == ok, "from [%s]", hex(s.data(), s.size()).c_str());
  if (a) expect<E>("from", *a, s);
  typename Buf::buf v;
  for (auto x : s) v.push(x);
  auto b = Buf::from(std::move(v));
  CHECK(b.has_value() == ok, "from codes [%s]", hex(s.data(), s.size()).c_str());
  if (b) expect<E>("from codes", *b, s);
  auto z = Str<E>(s.c_str());
  auto d = Buf::from_nul(s.c_str());
  CHECK(d.has_value() == well_formed<E>(z), "from_nul [%s]", hex(s.data(), s.size()).c_str());
  if (d) expect<E>("from_nul", *d, z);
  if (!ok) return;
  Buf e(best::unsafe("checked"), p);
  expect<E>("unsafe", e, s);
  auto t = *best::text<E>::from(p);
  Buf f(t);
  expect<E>("from text", f, s);
  Buf g = f;
  expect<E>("copy", g, s);
  Buf k = std::move(g);
  expect<E>("move", k, s);
  CHECK(k == f && k == t && k == p && t == k, "equality with its origin [%s]", hex(s.data(), s.size()).c_str());
}

// Checking allocators: whatever is made from a buffer uses the right one.
void alloc_body(Ctx& c) {
  el::Heap::reset();
  using Buf = best::textbuf<best::utf8, el::Heap>;
  std::string s(c.flip() ? 5 : 60, 'k');
  best::str t = *best::str::from(best::pretext<best::utf8>(best::span<const char>(s.data(), s.size())));
  el::Heap al{7};
  Buf a(al, t);
  CHECK(a.allocator().id == 7, "text: allocator");
  auto b = Buf::from(al, t);
  CHECK(b && b->allocator().id == 7, "from: the allocator was lost");
  auto d = Buf::from_nul(al, s.c_str());
  CHECK(d && d->allocator().id == 7, "from_nul: the allocator was lost");
  auto e = Buf::transcode(al, best::str16(u"transcoded text that is quite long"));
  CHECK(e && e->allocator().id == 7, "transcode: the allocator was lost");
  for (Buf* x : {&a, &*b, &*d, &*e}) {
    x->push(t);
    x->push(*x);
    Buf y = *x;
    CHECK(y.allocator().id == 7 && y == *x, "copy");
    Buf z = std::move(*x);
    CHECK(z.allocator().id == 7 && z == y, "move");
    c.step();
  }
  c.state(s.size());
}
}  // namespace

#define B "every sequence of 3 (thorough 4) of 21 kinds of operations (runes, text and pretext of three encodings, well-formed or not, itself, truncation, slices, moves, conversions) from 5 sizes around the inline capacity: "
#if STR_PART == 1
SCENARIO_T(utf8, B "utf8", mc::LeakCheck, body<best::utf8>);
SCENARIO_T(wtf8, B "wtf8", mc::LeakCheck, body<best::wtf8>);
#elif STR_PART == 2
SCENARIO_T(utf16, B "utf16", mc::LeakCheck, body<best::utf16>);
SCENARIO_T(utf32, B "utf32", mc::LeakCheck, body<best::utf32>);
#else
SCENARIO_T(ascii, B "ascii", mc::LeakCheck, body<best::ascii>);
SCENARIO_T(latin1, B "latin1", mc::LeakCheck, body<best::latin1>);
SCENARIO_T(make8, "every utf8 string of up to 4 codes of 5: construction", mc::LeakCheck, make<best::utf8>);
SCENARIO_T(make16, "every utf16 string of up to 4 codes of 5: construction", mc::LeakCheck, make<best::utf16>);
SCENARIO_T(make_ascii, "every ascii string of up to 4 codes of 5: construction", mc::LeakCheck, make<best::ascii>);
SCENARIO(allocs, "buffers with a checking allocator: construction, growth, copies and moves", 0) { alloc_body(c); }
#endif
