// S05: sorting and binary search.
#include <algorithm>
#include <vector>

#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;

struct Item {  // ordered by key; tag tells equal items apart
  int key = 0, tag = 0;
  bool operator==(const Item& o) const { return key == o.key; }
  std::weak_ordering operator<=>(const Item& o) const { return key <=> o.key; }
};

template <typename T>
int key(const T& t) {
  if constexpr (requires { t.key; }) return t.key;
  else return el::val(t);
}

// Which of the six sorting entry points.
enum { Plain, Key, Cmp, Stable, StableKey, StableCmp, Hows };
bool reversed(int how) { return how == Cmp || how == StableCmp; }
template <typename T>
void do_sort(int how, best::span<T> s) {
  // The key/comparator overloads sort in a different order on purpose.
  auto k = [](const T& t) { return key(t); };
  auto r = [](const T& a, const T& b) { return best::partial_ord(key(b) <=> key(a)); };
  switch (how) {
    case Plain: s.sort(); break;
    case Key: s.sort(k); break;
    case Cmp: s.sort(r); break;
    case Stable: s.stable_sort(); break;
    case StableKey: s.stable_sort(k); break;
    case StableCmp: s.stable_sort(r); break;
  }
}
const char* hows[] = {"sort()", "sort(key)", "sort(comparator)", "stable_sort()", "stable_sort(key)", "stable_sort(comparator)"};

void check_items(int how, std::vector<Item> v) {
  std::vector<Item> want = v;
  std::stable_sort(want.begin(), want.end(), [&](const Item& a, const Item& b) { return reversed(how) ? a.key > b.key : a.key < b.key; });
  Item* p = static_cast<Item*>(malloc(v.size() * sizeof(Item)));
  std::copy(v.begin(), v.end(), p);
  do_sort(how, best::span<Item>(p, v.size()));
  std::vector<bool> seen(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(p[i].key == want[i].key, "%s: position %zu holds key %d, expected %d", hows[how], i, p[i].key, want[i].key);
    CHECK(!seen[size_t(p[i].tag)], "%s: element duplicated", hows[how]);
    seen[size_t(p[i].tag)] = true;
    CHECK(v[size_t(p[i].tag)].key == p[i].key, "%s: element mangled", hows[how]);
    if (how >= Stable) CHECK(p[i].tag == want[i].tag, "%s: equal elements reordered at %zu", hows[how], i);
  }
  free(p);
}

void items(Ctx& c, int base, int max) {
  int how = c.pick(Hows);
  u_int64_t n = 0, b = 1;
  for (int l = 0; l <= max; ++l) n += b, b *= u_int64_t(base);
  c.bulk(n, 256, [&](u_int64_t i) {
    mc::Internal in;
    u_int64_t blk = 1;
    int len = 0;
    while (i >= blk) i -= blk, blk *= u_int64_t(base), ++len;
    std::vector<Item> v;
    for (int j = 0; j < len; ++j) v.push_back({int(i % u_int64_t(base)), j}), i /= u_int64_t(base);
    check_items(how, v);
  });
}
SCENARIO(seq3, "all sequences of up to 7 (thorough 9) items with 3 keys, all six entry points", 0) { items(c, 3, c.thorough() ? 9 : 7); }
SCENARIO(seq5, "all sequences of up to 5 (thorough 6) items with 5 keys", 0) { items(c, 5, c.thorough() ? 6 : 5); }
SCENARIO(seq2, "all 0/1 sequences of up to 12 (thorough 16)", 0) { items(c, 2, c.thorough() ? 16 : 12); }

SCENARIO(large, "structured sequences of 8..300 items: every rotation of sorted/reversed/organ-pipe/few-keys/alternating", 0) {
  static const size_t sizes[] = {8, 16, 24, 25, 31, 33, 64, 100, 129, 257, 300};
  size_t n = c.pick_of(sizes);
  int how = c.pick(Hows), shape = c.pick(5);
  c.bulk(n, 32, [&](u_int64_t rot) {
    mc::Internal in;
    std::vector<Item> v(n);
    for (size_t i = 0; i < n; ++i) {
      size_t j = (i + rot) % n;
      int k = 0;
      switch (shape) {
        case 0: k = int(j); break;
        case 1: k = int(n - j); break;
        case 2: k = int(j < n / 2 ? j : n - j); break;
        case 3: k = int(j % 7); break;
        case 4: k = int((j * 7919) % n); break;
      }
      v[i] = {k, int(i)};
    }
    check_items(how, v);
  });
}

template <typename T>
void elems_body(Ctx& c) {
  el::reset();
  int n = c.pick(6);
  std::vector<int> v;
  {
    mc::Internal in;
    for (int i = 0; i < n; ++i) {
      mc::Internal in2;
      v.push_back(c.pick(3) + 1);
    }
  }
  int how = c.pick(Hows);
  c.step();
  {
    std::vector<T> t;
    t.reserve(size_t(n));
    for (int x : v) t.push_back(el::make<T>(x));
    do_sort(how, best::span<T>(t.data(), t.size()));
    mc::Internal in;
    std::sort(v.begin(), v.end());
    if (reversed(how)) std::reverse(v.begin(), v.end());
    for (int i = 0; i < n; ++i) CHECK(el::val(t[size_t(i)]) == v[size_t(i)], "%s", hows[how]);
    if constexpr (el::tracked<T>) CHECK(el::g_live == n, "%d live elements of %d", el::g_live, n);
  }
  mc::Internal in;
  v = {};
}
SCENARIO_T(elems_trk, "all sequences of up to 5 address-sensitive elements with 3 values", 0, elems_body<el::Trk>);
SCENARIO_T(elems_int, "same, ints", 0, elems_body<int>);

// --------------------------------------------------------------- bisect
template <typename R>
void found(const std::vector<int>& v, int sought, const R& r, const char* what, int dir) {
  bool present = std::find(v.begin(), v.end(), sought) != v.end();
  CHECK(r.ok().has_value() == present, "%s for %d among %zu: %s", what, sought, v.size(), present ? "missed" : "found");
  if (present) {
    size_t i = *r.ok();
    CHECK(i < v.size() && v[i] == sought, "%s returned index %zu", what, i);
  } else {
    size_t i = *r.err();
    CHECK(i <= v.size(), "%s returned index %zu", what, i);
    for (size_t k = 0; k < v.size(); ++k)
      CHECK((dir * (v[k] - sought) < 0) == (k < i), "%s: inserting %d at %zu breaks the order", what, sought, i);
  }
}
SCENARIO(bisect, "every non-decreasing sequence of up to 8 (thorough 11) over 5 values x every sought value, three entry points", 0) {
  mc::Internal in;
  int max = c.thorough() ? 11 : 8;
  // A non-decreasing sequence is given by the multiplicity of each value.
  std::vector<int> v;
  for (int k = 0; k < 5; ++k) {
    int m = c.pick(max - int(v.size()) + 1);
    for (int i = 0; i < m; ++i) v.push_back(2 * k + 1);
  }
  int* p = static_cast<int*>(malloc(v.size() * sizeof(int)));
  std::copy(v.begin(), v.end(), p);
  best::span<const int> s(p, v.size());
  for (int sought = 0; sought <= 10; ++sought) {
    c.step();
    found(v, sought, s.bisect(sought), "bisect(value)", 1);
    found(v, sought, s.bisect(best::partial_ord::less == best::partial_ord::less ? sought * 2 : 0, [](const int& x) { return x * 2; }),
          "bisect(value, key)", 1);
    found(v, sought, s.bisect([&](const int& x) { return best::partial_ord(x <=> sought); }), "bisect(comparator)", 1);
  }
  std::vector<int> w(v.rbegin(), v.rend());
  std::copy(w.begin(), w.end(), p);
  for (int sought = 0; sought <= 10; ++sought)
    found(w, sought, s.bisect([&](const int& x) { return best::partial_ord(sought <=> x); }), "descending bisect", -1);
  free(p);
}
SCENARIO(bisect_large, "all lengths 0..300 with every sought position", 0) {
  c.bulk(301, 4, [&](u_int64_t n) {
    mc::Internal in;
    std::vector<int> v;
    for (u_int64_t i = 0; i < n; ++i) v.push_back(int(2 * i + 1));
    best::span<const int> s(v.data(), v.size());
    for (int x = 0; x <= int(2 * n); ++x) found(v, x, s.bisect(x), "bisect(value)", 1);
  });
}
}  // namespace
