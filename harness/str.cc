// T01: searching, splitting, comparing and slicing text; T02: pretexts.
#include <string.h>

#include <string>
#include <vector>

#include "best/text/str.h"
#include "mc.h"
#include "refenc.h"

#ifndef STR_PART
#define STR_PART 1
#endif

namespace {
using best::rune;
using mc::Ctx;
template <typename E>
using Str = std::basic_string<best::code<E>>;
template <typename E>
using code = best::code<E>;

// An exactly-sized heap copy.
template <typename C>
struct Heap {
  size_t n;
  C* p;
  explicit Heap(const std::basic_string<C>& s) : n(s.size()) {
    mc::Internal in;
    p = static_cast<C*>(malloc(n ? n * sizeof(C) : 1));
    memcpy(p, s.data(), n * sizeof(C));
  }
  Heap(const Heap&) = delete;
  ~Heap() {
    mc::Internal in;
    free(p);
  }
  best::span<const C> span() const { return best::span<const C>(p, n); }
};

template <typename E, bool valid>
auto view(const Heap<code<E>>& h) {
  if constexpr (valid) return best::text<E>(best::unsafe("generated from runes"), best::pretext<E>(h.span()));
  else return best::pretext<E>(h.span());
}

constexpr size_t None = ~size_t(0);
struct Hit {
  size_t a = None, b = None;
  bool operator==(const Hit&) const = default;
};

// A view under test with its decoded items.
template <typename E, bool valid>
struct Subj {
  Heap<code<E>> heap;
  std::vector<Item> items;
  explicit Subj(const Str<E>& s) : heap(s), items(ref_items<E>(s.data(), s.size())) {}
  auto get() const { return view<E, valid>(heap); }
  size_t size() const { return heap.n; }
  std::string str() const { return hex(heap.p, heap.n); }
};

template <typename V, typename S>
void same(const char* what, const V& got, const S& s, size_t a, size_t b) {
  CHECK(got.size() == b - a && (a == b || got.data() == s.heap.p + a), "%s of [%s]: got %zu codes at %td, expected [%zu, %zu)",
        what, s.str().c_str(), got.size(), got.data() - s.heap.p, a, b);
}

// ------------------------------------------------------------- reference
// A pattern, as a function that finds its matches: all [a, b) in order.
template <typename E, bool valid>
std::vector<Hit> matches_codes(const Subj<E, valid>& s, size_t lo, size_t hi, const Str<E>& pat) {
  std::vector<Hit> out;
  for (size_t i = lo; i + pat.size() <= hi; ++i)
    if (!memcmp(s.heap.p + i, pat.data(), pat.size() * sizeof(code<E>))) out.push_back({i, i + pat.size()});
  return out;
}
template <typename E, bool valid>
std::vector<Hit> matches_runes(const Subj<E, valid>& s, size_t lo, size_t hi, const std::vector<u32>& pat) {
  std::vector<Hit> out;
  auto v = ref_items<E>(s.heap.p + lo, hi - lo);
  for (size_t i = 0; i + pat.size() <= v.size(); ++i) {
    bool ok = true;
    for (size_t k = 0; k < pat.size(); ++k) ok &= v[i + k].r == pat[k] && v[i + k].r != Err;
    if (!ok) continue;
    size_t a = i < v.size() ? v[i].at : hi - lo;
    size_t b = pat.empty() ? a : v[i + pat.size() - 1].at + v[i + pat.size() - 1].len;
    out.push_back({lo + a, lo + b});
  }
  return out;
}

bool in_set(unsigned mask, u32 r) {
  switch (r) {
    case 'a': return mask & 1;
    case 0xe9: return mask & 2;
    case 0x1f600: return mask & 4;
    default: return mask & 8;
  }
}
template <typename E, bool valid>
std::vector<Hit> matches_set(const Subj<E, valid>& s, size_t lo, size_t hi, unsigned mask) {
  std::vector<Hit> out;
  for (auto& x : ref_items<E>(s.heap.p + lo, hi - lo))
    if (x.r != Err && in_set(mask, x.r)) out.push_back({lo + x.at, lo + x.at + x.len});
  return out;
}

// ------------------------------------------------------------- searching
// `ms(lo, hi)` lists the matches; `empty` says the pattern is empty.
template <typename E, bool valid, typename P, typename M>
void search(const Subj<E, valid>& s, const P& pat, bool empty, M ms, const char* pname) {
  auto h = s.get();
  auto all = ms(size_t(0), s.size());
  Hit first = all.empty() ? Hit{} : all.front(), last = all.empty() ? Hit{} : all.back();

  CHECK(h.contains(pat) == !all.empty(), "contains(%s) in [%s]", pname, s.str().c_str());
  auto f = h.find(pat);
  CHECK(f.has_value() == !all.empty() && (!f || *f == first.a), "find(%s) in [%s] gave %zd, expected %zd", pname,
        s.str().c_str(), f ? ssize_t(*f) : -1, ssize_t(first.a));
  auto r = h.rfind(pat);
  // Both ends are fine for the last occurrence of nothing.
  if (empty) CHECK(r.has_value() && (*r == 0 || *r == s.size()), "rfind of nothing in [%s]", s.str().c_str());
  else
    CHECK(r.has_value() == !all.empty() && (!r || *r == last.a), "rfind(%s) in [%s] gave %zd, expected %zd", pname,
          s.str().c_str(), r ? ssize_t(*r) : -1, ssize_t(last.a));
  auto so = h.split_once(pat);
  CHECK(so.has_value() == !all.empty(), "split_once(%s) of [%s]", pname, s.str().c_str());
  if (so) {
    same("split_once first", so->first(), s, 0, first.a);
    same("split_once second", so->second(), s, first.b, s.size());
  }
  auto ro = h.rsplit_once(pat);
  CHECK(ro.has_value() == !all.empty(), "rsplit_once(%s) of [%s]", pname, s.str().c_str());
  if (ro && empty) {
    CHECK(ro->first().size() + ro->second().size() == s.size(), "rsplit_once at nothing lost some of [%s]", s.str().c_str());
  } else if (ro) {
    same("rsplit_once first", ro->first(), s, 0, last.a);
    same("rsplit_once second", ro->second(), s, last.b, s.size());
  }

  bool pre = !all.empty() && first.a == 0;
  bool suf = false;
  Hit sufhit;
  for (auto& x : all)
    if (x.b == s.size() && !(empty && x.a != s.size())) suf = true, sufhit = x;
  CHECK(h.starts_with(pat) == pre, "starts_with(%s) of [%s] gave %d", pname, s.str().c_str(), !pre);
  CHECK(h.ends_with(pat) == suf, "ends_with(%s) of [%s] gave %d", pname, s.str().c_str(), !suf);
  auto sp = h.strip_prefix(pat);
  CHECK(sp.has_value() == pre, "strip_prefix(%s) of [%s]", pname, s.str().c_str());
  if (sp) same("strip_prefix", *sp, s, first.b, s.size());
  auto ss = h.strip_suffix(pat);
  CHECK(ss.has_value() == suf, "strip_suffix(%s) of [%s]", pname, s.str().c_str());
  if (ss) same("strip_suffix", *ss, s, 0, sufhit.a);
  auto c1 = h;
  CHECK(c1.consume_prefix(pat) == pre, "consume_prefix(%s) of [%s]", pname, s.str().c_str());
  same("consume_prefix", c1, s, pre ? first.b : 0, s.size());
  auto c2 = h;
  CHECK(c2.consume_suffix(pat) == suf, "consume_suffix(%s) of [%s]", pname, s.str().c_str());
  same("consume_suffix", c2, s, 0, suf ? sufhit.a : s.size());
  if (empty) return;

  // Splitting: 64 ways of consuming from both ends.
  {
    std::vector<Hit> pieces;
    size_t lo = 0;
    while (true) {
      auto m = ms(lo, s.size());
      if (m.empty()) break;
      pieces.push_back({lo, m.front().a});
      lo = m.front().b;
    }
    pieces.push_back({lo, s.size()});
    auto it = h.split(pat);
    size_t k = 0;
    while (true) {
      auto hint = it.size_hint();
      size_t left = pieces.size() - k;
      CHECK(hint.lower <= left && (!hint.upper || *hint.upper >= left), "size hint of split(%s) of [%s] excludes %zu", pname,
            s.str().c_str(), left);
      auto x = it.next();
      CHECK(x.has_value() == (left > 0), "split(%s) of [%s]: piece %zu %s", pname, s.str().c_str(), k, x ? "too many" : "missing");
      if (!x) break;
      same("piece of split", *x, s, pieces[k].a, pieces[k].b);
      ++k;
    }
    CHECK(!it.next(), "split(%s) of [%s] starts again", pname, s.str().c_str());
    CHECK(h.split(pat).count() == pieces.size(), "count of split(%s) of [%s]", pname, s.str().c_str());
  }
}

// Comparison of rune sequences.
best::ord order(const std::vector<u32>& a, const std::vector<u32>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (a[i] != b[i]) return a[i] < b[i] ? best::ord::less : best::ord::greater;
  return a.size() < b.size() ? best::ord::less : a.size() > b.size() ? best::ord::greater : best::ord::equal;
}
template <typename A, typename B>
void compare(const A& a, const B& b, best::ord o, const char* what) {
  CHECK((a == b) == (o == best::ord::equal) && (a != b) == (o != best::ord::equal), "%s: equality", what);
  CHECK((a <=> b) == o, "%s: three-way comparison gave %d", what, (a <=> b) < 0 ? -1 : (a <=> b) > 0);
  CHECK((a < b) == (o == best::ord::less) && (a > b) == (o == best::ord::greater), "%s: < and >", what);
  CHECK((a <= b) == (o != best::ord::greater) && (a >= b) == (o != best::ord::less), "%s: <= and >=", what);
}
std::vector<u32> runes_of(const std::vector<Item>& v) {
  std::vector<u32> r;
  for (auto& i : v) r.push_back(i.r);
  return r;
}

// Fills with a string over xs; false if E cannot express it.
template <typename E>
bool gen(Ctx& c, Str<E>& out, const std::vector<u32>& xs, int max) {
  int n = c.pick(max + 1);
  bool ok = true;
  for (int i = 0; i < n; ++i) ok &= ref_encode<E>(out, xs[size_t(c.pick(int(xs.size())))]);
  return ok;
}

// Text against needles that are text or pretext of encoding N, runes,
// predicates.
template <typename E, typename N>
void text_text(Ctx& c, const std::vector<u32>& xs, int hl, int nl) {
  Str<E> hs;
  if (!gen<E>(c, hs, xs, hl)) return;
  Subj<E, true> s(hs);
  Subj<E, false> ps(hs);
  c.step();
  // All needles, without branching the execution.
  std::vector<std::vector<u32>> needles{{}};
  for (size_t i = 0; i < needles.size(); ++i)
    if (int(needles[i].size()) < nl)
      for (u32 x : xs) needles.push_back(needles[i]), needles.back().push_back(x);
  auto hr = runes_of(s.items);
  for (auto& n : needles) {
    Str<N> ns;
    bool ok = true;
    for (u32 x : n) ok &= ref_encode<N>(ns, x);
    if (!ok) continue;
    Heap<code<N>> nh(ns);
    auto nt = view<N, true>(nh);
    auto np = view<N, false>(nh);
    auto ms = [&](size_t lo, size_t hi) { return matches_runes(s, lo, hi, n); };
    std::string nm = std::string(Ref<N>::name) + " " + hex(ns.data(), ns.size());
    search(s, nt, n.empty(), ms, nm.c_str());
    search(s, np, n.empty(), ms, nm.c_str());
    search(ps, nt, n.empty(), ms, nm.c_str());
    best::ord o = order(hr, n);
    std::string w = std::string(Ref<E>::name) + " [" + s.str() + "] against " + nm;
    compare(s.get(), nt, o, w.c_str());
    compare(s.get(), np, o, w.c_str());
    compare(ps.get(), nt, o, w.c_str());
    compare(ps.get(), np, o, w.c_str());
    if constexpr (std::is_same_v<E, N>) {
      // Strings are also compared with plain spans and literals.
      CHECK((s.get() == nh.span()) == (o == best::ord::equal) && (ps.get() == nh.span()) == (o == best::ord::equal), "%s: span", w.c_str());
      if (ns.find(code<N>(0)) == Str<N>::npos) {
        CHECK((s.get() == ns.c_str()) == (o == best::ord::equal) && (ps.get() == ns.c_str()) == (o == best::ord::equal), "%s: literal",
              w.c_str());
        if (Ref<E>::lex) CHECK((s.get() <=> ns.c_str()) == o && (ps.get() <=> nh.span()) == o, "%s: literal order", w.c_str());
      }
    }
    c.state(Ctx::mix(Ctx::mix(hr.size(), n.size()), std::hash<Str<N>>()(ns)) ^ std::hash<Str<E>>()(hs));
    c.step();
  }
}

template <typename E, bool valid>
void rune_needles(const Subj<E, valid>& s, const std::vector<u32>& xs) {
  auto hr = runes_of(s.items);
  bool ill = std::find(hr.begin(), hr.end(), Err) != hr.end();
  for (u32 x : xs) {
    auto r = rune::from_int(x);
    if (!r) r = rune::from_int_allow_surrogates(x);
    Str<E> enc;
    bool can = ref_encode<E>(enc, x);
    char nm[32];
    snprintf(nm, sizeof nm, "U+%04X", x);
    search(s, *r, false, [&](size_t lo, size_t hi) {
      return can ? matches_codes(s, lo, hi, enc) : std::vector<Hit>{};
    }, nm);
    auto h = s.get();
    if (!ill) {
      compare(h, *r, order(hr, {x}), nm);
      CHECK((*r == h) == (hr == std::vector<u32>{x}), "U+%04X == [%s]", x, s.str().c_str());
    }
  }
}

template <typename E, bool valid>
void preds(const Subj<E, valid>& s) {
  auto h = s.get();
  for (unsigned mask = 0; mask < 16; ++mask) {
    char nm[32];
    snprintf(nm, sizeof nm, "set %u", mask);
    auto pred = [mask](rune r) { return in_set(mask, r.to_int()); };
    search(s, pred, false, [&](size_t lo, size_t hi) { return matches_set(s, lo, hi, mask); }, nm);
  }
  // A predicate that is a temporary must live as long as the iterator.
  std::vector<u32> seen;
  auto all = matches_set(s, 0, s.size(), 2);
  size_t n = 0, total = 0;
  auto big = std::string("this string lives on the heap");
  for (auto x : h.split([big](rune r) { return big.size() == 29 && r.to_int() == 0xe9; })) ++n, total += x.size();
  size_t sep = 0;
  for (auto& m : all) sep += m.b - m.a;
  CHECK(n == all.size() + 1 && total + sep == s.size(), "split at a temporary predicate of [%s]", s.str().c_str());
}

// ---------------------------------------------------------------- slicing
template <typename E, bool valid>
void slices(Ctx& c, const Subj<E, valid>& s) {
  auto h = s.get();
  size_t n = s.size();
  std::vector<bool> edge(n + 3, !valid);
  for (auto& i : s.items) edge[i.at] = true;
  edge[n] = true;
  if (!valid) edge[n + 1] = edge[n + 2] = false;
  CHECK(h.size() == n && h.is_empty() == (n == 0), "size of [%s]", s.str().c_str());
  CHECK(h.as_codes().size() == n && (!n || h.as_codes().data().raw() == s.heap.p), "codes of [%s]", s.str().c_str());
  for (size_t i = 0; i <= n + 2; ++i) {
    if constexpr (valid)
      CHECK(h.is_rune_boundary(i) == bool(edge[i]), "is_rune_boundary(%zu) of [%s]", i, s.str().c_str());
    auto sa = h.split_at(i);
    bool can = i <= n && edge[i];
    CHECK(sa.has_value() == can, "split_at(%zu) of [%s]", i, s.str().c_str());
    if (sa) same("split_at first", sa->first(), s, 0, i), same("split_at second", sa->second(), s, i, n);
    for (size_t j = 0; j <= n + 2; ++j) {
      auto at = h.at({.start = i, .end = j});
      bool ok = i <= j && j <= n && edge[i] && edge[j];
      CHECK(at.has_value() == ok, "at(%zu..%zu) of [%s]", i, j, s.str().c_str());
      if (at) same("at", *at, s, i, j);
      bool crashed = mc::crashes([&] { same("operator[]", h[{.start = i, .end = j}], s, i, j); });
      CHECK(crashed == !ok, "operator[%zu..%zu] of [%s] %s", i, j, s.str().c_str(), ok ? "crashed" : "did not crash");
      auto cn = h.at({.start = i, .count = j});
      ok = i + j <= n && edge[i] && edge[i + j];
      CHECK(cn.has_value() == ok, "at(%zu, count %zu) of [%s]", i, j, s.str().c_str());
      if (cn) same("at", *cn, s, i, i + j);
    }
    auto from = h.at({.start = i});
    CHECK(from.has_value() == can, "at(%zu..) of [%s]", i, s.str().c_str());
    c.step();
  }
  for (size_t i : {~size_t(0), ~size_t(0) - 1, size_t(1) << 63}) {
    CHECK(!h.at({.start = i}) && !h.at({.end = i}) && !h.at({.start = 1, .count = i}), "at(huge) of [%s]", s.str().c_str());
    CHECK(!h.split_at(i), "split_at(huge) of [%s]", s.str().c_str());
    if constexpr (valid) CHECK(!h.is_rune_boundary(i), "is_rune_boundary(huge) of [%s]", s.str().c_str());
  }
  mc::take_output();
}

// ---------------------------------------------------------------- decoding
template <typename E, bool valid>
void decode(Ctx& c, const Subj<E, valid>& s) {
  auto h = s.get();
  auto& v = s.items;
  auto shown = [](u32 r) { return r == Err ? 0xfffdu : r; };
  // Every way to take the runes from the two ends.
  int ways = 1 << (v.size() < 6 ? v.size() : 6);
  for (int w = 0; w < ways; ++w) {
    auto it = h.runes();
    auto ix = h.rune_indices();
    size_t lo = 0, hi = v.size();
    for (size_t k = 0; lo < hi; ++k) {
      for (auto hint : {it.size_hint(), ix.size_hint()})
        CHECK(hint.lower <= hi - lo && (!hint.upper || *hint.upper >= hi - lo), "size hint of the runes of [%s]", s.str().c_str());
      bool back = w >> (k % 6) & 1;
      auto& want = back ? v[--hi] : v[lo++];
      auto a = back ? it.next_back() : it.next();
      auto b = back ? ix.next_back() : ix.next();
      CHECK(a && a->to_int() == shown(want.r), "rune %zu of [%s]: %x, expected %x", k, s.str().c_str(), a ? a->to_int() : 0, shown(want.r));
      CHECK(b && b->first() == want.at && b->second().to_int() == shown(want.r), "rune index %zu of [%s]: %zu, expected %zu", k,
            s.str().c_str(), b ? b->first() : None, want.at);
      size_t ra = lo < v.size() ? v[lo].at : s.size(), rb = hi < v.size() ? v[hi].at : s.size();
      if (lo < hi) same("rest", it->rest(), s, ra, rb), same("rest", ix->rest(), s, ra, rb);
      else CHECK(it->rest().is_empty() && ix->rest().is_empty(), "rest of [%s]", s.str().c_str());
      c.step();
    }
    CHECK(!it.next() && !it.next_back() && !ix.next() && !ix.next_back(), "too many runes in [%s]", s.str().c_str());
  }
  CHECK(h.runes().count() == v.size() && h.rune_indices().count() == v.size(), "count of the runes of [%s]", s.str().c_str());
  if constexpr (!valid) {
    auto it = h.try_runes();
    for (auto& i : v) {
      auto x = it.next();
      CHECK(x && (i.r == Err ? bool(x->err()) : x->ok() && x->ok()->to_int() == i.r), "try_runes of [%s] at %zu", s.str().c_str(), i.at);
    }
    CHECK(!it.next(), "try_runes of [%s] goes on", s.str().c_str());
    size_t ok = 0;
    while (ok < v.size() && v[ok].r != Err) ++ok;
    size_t split = ok < v.size() ? v[ok].at : s.size();
    auto t = best::text<E>::from(h);
    CHECK(t.has_value() == (ok == v.size()), "from [%s]", s.str().c_str());
    if (t) same("from", *t, s, 0, s.size());
    auto [good, bad] = best::text<E>::from_partial(h);
    same("valid prefix", good, s, 0, split);
    same("rest after the valid prefix", bad, s, split, s.size());
    Str<E> z(s.heap.p, s.size());
    z += code<E>(0);
    Heap<code<E>> zh(z);
    size_t len = z.find(code<E>(0));
    auto fn = best::pretext<E>::from_nul(zh.p);
    CHECK(fn.size() == len && fn.data() == zh.p, "from_nul of [%s]", s.str().c_str());
    auto tn = best::text<E>::from_nul(zh.p);
    bool good2 = true;
    for (auto& i : ref_items<E>(zh.p, len)) good2 &= i.r != Err;
    CHECK(tn.has_value() == good2 && (!tn || (tn->size() == len && tn->data() == zh.p)), "text from_nul of [%s]", s.str().c_str());
  }
}

// Ill-formed strings: needles of the same encoding, code by code.
template <typename E>
void pretexts(Ctx& c, const std::vector<code<E>>& codes, int hl, int nl) {
  Str<E> hs;
  int n = c.pick(hl + 1);
  for (int i = 0; i < n; ++i) hs += codes[size_t(c.pick(int(codes.size())))];
  Subj<E, false> s(hs);
  c.state(std::hash<Str<E>>()(hs));
  std::vector<Str<E>> needles{{}};
  for (size_t i = 0; i < needles.size(); ++i)
    if (int(needles[i].size()) < nl)
      for (auto x : codes) needles.push_back(needles[i]), needles.back().push_back(x);
  for (auto& ns : needles) {
    Heap<code<E>> nh(ns);
    auto np = view<E, false>(nh);
    std::string nm = hex(ns.data(), ns.size());
    search(s, np, ns.empty(), [&](size_t lo, size_t hi) { return matches_codes(s, lo, hi, ns); }, nm.c_str());
    CHECK((s.get() == np) == (hs == ns), "[%s] == [%s]", s.str().c_str(), nm.c_str());
    if (Ref<E>::lex && sizeof(code<E>) == 1) {
      int k = hs.compare(ns);  // char_traits<char> compares as unsigned char.
      CHECK((s.get() <=> np) == (k < 0 ? best::ord::less : k > 0 ? best::ord::greater : best::ord::equal), "[%s] <=> [%s]",
            s.str().c_str(), nm.c_str());
    }
    c.step();
  }
  rune_needles(s, {'a', 0xe9, 0x1f600, 0xfffd, 0xd800, 0});
  preds(s);
  decode(c, s);
  slices(c, s);
  // Against text of another encoding, only well-formed parts can match.
  std::vector<std::vector<u32>> rs{{'a'}, {0xe9}, {0x1f600}, {'a', 'a'}, {'a', 0xe9}, {0xe9, 'a'}, {0x1f600, 'a'}};
  for (auto& r : rs) {
    std::u32string u;
    for (u32 x : r) u += char32_t(x);
    std::u16string w;
    for (u32 x : r) ref_encode<best::utf16>(w, x);
    Heap<char32_t> uh(u);
    Heap<char16_t> wh(w);
    auto ms = [&](size_t lo, size_t hi) { return matches_runes(s, lo, hi, r); };
    search(s, view<best::utf32, true>(uh), false, ms, "utf32");
    search(s, view<best::utf16, true>(wh), false, ms, "utf16");
  }
}

template <typename E>
void text_alone(Ctx& c, int hl) {
  std::vector<u32> xs;
  for (u32 x : {u32('a'), 0xe9u, 0x1f600u, 0u, 0xffffu, 0xd800u}) {
    Str<E> t;
    if (ref_encode<E>(t, x)) xs.push_back(x);
  }
  Str<E> hs;
  if (!gen<E>(c, hs, xs, hl)) return;
  Subj<E, true> s(hs);
  c.state(std::hash<Str<E>>()(hs));
  rune_needles(s, {'a', 0xe9, 0x1f600, 0, 0xffff, 0xfffd, 'b'});
  preds(s);
  decode(c, s);
  slices(c, s);
}

const std::vector<u32> kWide{'a', 0xe9, 0x1f600}, kOrder{'a', 0xffff, 0x1f600, 0xe000}, kLatin{'a', 0xc3, 0xa9, 0xe9}, kAscii{'a', 'b', 0},
  kWobbly{'a', 0xd800, 0xed};

template <typename E, typename N>
void pair(Ctx& c) {
  bool t = c.thorough();
  switch (c.pick(3)) {
    case 0: return text_text<E, N>(c, kWide, t ? 8 : 6, t ? 4 : 3);
    case 1: return text_text<E, N>(c, kOrder, t ? 4 : 3, t ? 3 : 2);
    case 2: return text_text<E, N>(c, kLatin, t ? 5 : 4, t ? 3 : 2);
  }
}
template <typename E, typename N>
void wobbly(Ctx& c) {
  text_text<E, N>(c, kWobbly, c.thorough() ? 5 : 4, 3);
}
}  // namespace

#define PAIR(E, N) SCENARIO_T(E##_##N, "every " #E " text of up to 6 (thorough 8) runes of 3, up to 3 (4) of 4 runes with order traps, up to 4 (5) of 4 Latin1 runes; every " #N " needle of up to 3 (4) runes", mc::LeakCheck, pair<best::E, best::N>)
#define ALONE(E) SCENARIO_T(text_##E, "every " #E " text of up to 4 (thorough 5) runes of up to 6: rune and predicate needles, slices at every index, runes from both ends", mc::LeakCheck, [](Ctx& c) { text_alone<best::E>(c, c.thorough() ? 5 : 4); })
#define PRE(E, h, th, n, ...) SCENARIO_T(pre_##E, "every " #E " code string of up to " #h " (thorough " #th ") codes of {" #__VA_ARGS__ "}, well-formed or not, with every needle of up to " #n " codes", mc::LeakCheck, [](Ctx& c) { pretexts<best::E>(c, {__VA_ARGS__}, c.thorough() ? th : h, n); })

#if STR_PART == 1
PAIR(utf8, utf8);
PAIR(utf8, utf16);
PAIR(utf8, utf32);
#elif STR_PART == 2
PAIR(utf8, latin1);
PAIR(utf8, ascii);
PAIR(utf8, wtf8);
SCENARIO_T(wtf8_wtf8, "every wtf8 text of up to 4 (thorough 5) runes of 3 including a surrogate; needles up to 3", mc::LeakCheck, wobbly<best::wtf8, best::wtf8>);
SCENARIO_T(wtf8_utf8, "every wtf8 text of up to 4 (thorough 5) runes of 3 including a surrogate; utf8 needles up to 3", mc::LeakCheck, wobbly<best::wtf8, best::utf8>);
#elif STR_PART == 3
PAIR(utf16, utf16);
PAIR(utf16, utf8);
PAIR(utf16, utf32);
#elif STR_PART == 4
PAIR(utf32, utf32);
PAIR(utf32, utf8);
PAIR(utf32, utf16);
#elif STR_PART == 5
PAIR(latin1, latin1);
PAIR(latin1, utf8);
PAIR(latin1, utf16);
PAIR(ascii, utf8);
#elif STR_PART == 6
ALONE(utf8);
ALONE(wtf8);
ALONE(utf16);
ALONE(utf32);
ALONE(ascii);
ALONE(latin1);
#elif STR_PART == 7
PRE(utf8, 6, 7, 2, 'a', char(0xc3), char(0xa9), char(0xf0), 0);
PRE(wtf8, 5, 7, 2, 'a', char(0xed), char(0xa0), char(0x80));
#elif STR_PART == 8
PRE(utf16, 5, 7, 2, 'a', 0xe9, 0xd83d, 0xde00);
PRE(utf32, 5, 6, 2, 'a', 0xe9, 0xd800, 0x1f600, 0x110000);
PRE(ascii, 5, 7, 2, 'a', 'b', char(0xe9), 0);
#endif
