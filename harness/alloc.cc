// M01: best::malloc against a map of blocks; M02: best::layout against the compiler.
#include <array>
#include <vector>

#include "best/container/vec.h"
#include "best/memory/allocator.h"
#include "best/memory/layout.h"
#include "best/text/format.h"
#include "elems.h"
#include "mc.h"

namespace {
using mc::Ctx;

best::layout lay(size_t size, size_t align) { return best::layout(best::unsafe("valid"), size, align); }

struct Blk {
  unsigned char* p;
  size_t size, align;
  unsigned char tag;
};

struct Sys {
  Ctx& c;
  std::vector<Blk> bs;
  unsigned char next = 1;
  int zeroed = -1;

  static unsigned char byte(const Blk& b, size_t i) { return (unsigned char)(b.tag * 37 + i * 11 + (i >> 8)); }
  void fill(Blk& b, size_t from = 0) {
    b.tag = next;
    next = next % 200 + 1;
    for (size_t i = 0; i < b.size; ++i) b.p[i] = byte(b, i);
    (void)from;
  }
  void fresh(const Blk& b) {
    CHECK(b.p != nullptr, "the allocator returned null");
    CHECK((uintptr_t)b.p >= 0x1000, "not an address");
    CHECK((uintptr_t)b.p % b.align == 0, "block of alignment %zu at %p", b.align, (void*)b.p);
    for (auto& o : bs)
      CHECK(b.p + b.size <= o.p || o.p + o.size <= b.p || !o.size || !b.size, "blocks overlap");
    for (auto& o : bs) CHECK(o.p != b.p, "two blocks at one address");
  }
  void check() {
    for (auto& b : bs)
      for (size_t i = 0; i < b.size; ++i)
        CHECK(b.p[i] == byte(b, i), "byte %zu of a block of %zu:%zu is 0x%02x, expected 0x%02x", i, b.size, b.align, b.p[i], byte(b, i));
  }
};
struct L {
  size_t size, align;
};
constexpr L Few[] = {{0, 1}, {1, 1}, {24, 8}, {48, 16}, {32, 32}, {192, 64}};
constexpr L Many[] = {{0, 1},   {1, 1},    {7, 1},    {2, 2},    {12, 4},   {0, 8},     {8, 8},     {40, 8},      {4000, 8}, {0, 16},
                      {16, 16}, {176, 16}, {0, 32},   {32, 32},  {96, 32},  {1024, 32}, {64, 64},   {640, 64},    {128, 128}, {256, 256},
                      {4096, 4096}, {12288, 4096}, {5000, 4}, {70000, 16}, {70016, 64}};

template <size_t N>
void run(Ctx& c, int depth, const L (&ls)[N]) {
  Sys s{c};
  for (int d = 0; d < depth; ++d) {
    c.step();
    int op = s.bs.empty() ? c.pick(2) : c.pick(4);
    if (op < 2) {
      if (s.bs.size() == 8) mc::fail("harness");
      L l = ls[c.pick(N)];
      c.note("%salloc(%zu:%zu)", op ? "z" : "", l.size, l.align);
      Blk b{nullptr, l.size, l.align, 0};
      auto p = op ? best::malloc::zalloc(lay(l.size, l.align)) : best::malloc::alloc(lay(l.size, l.align));
      b.p = (unsigned char*)p.raw();
      s.fresh(b);
      if (op)
        for (size_t i = 0; i < b.size; ++i) CHECK(b.p[i] == 0, "byte %zu of a zeroed block of %zu:%zu is 0x%02x", i, b.size, b.align, b.p[i]);
      s.fill(b);
      s.bs.push_back(b);
    } else {
      int i = c.pick(int(s.bs.size()));
      Blk b = s.bs[i];
      if (op == 2) {
        L l = ls[c.pick(N)];
        c.note("realloc(#%d %zu:%zu, %zu:%zu)", i, b.size, b.align, l.size, l.align);
        auto p = best::malloc::realloc(b.p, lay(b.size, b.align), lay(l.size, l.align));
        Blk n{(unsigned char*)p.raw(), l.size, l.align, b.tag};
        s.bs.erase(s.bs.begin() + i);
        s.fresh(n);
        for (size_t k = 0; k < b.size && k < n.size; ++k)
          CHECK(n.p[k] == Sys::byte(b, k), "byte %zu was 0x%02x before and is 0x%02x after resizing from %zu:%zu to %zu:%zu", k,
                Sys::byte(b, k), n.p[k], b.size, b.align, n.size, n.align);
        s.fill(n);
        s.bs.push_back(n);
      } else {
        c.note("dealloc(#%d %zu:%zu)", i, b.size, b.align);
        best::malloc::dealloc(b.p, lay(b.size, b.align));
        s.bs.erase(s.bs.begin() + i);
      }
    }
    s.check();
    uint64_t h = depth - d;
    for (auto& b : s.bs) h = Ctx::mix(h, b.size * 131 + b.align);
    c.state(h);
  }
  for (auto& b : s.bs) best::malloc::dealloc(b.p, lay(b.size, b.align));
}

SCENARIO(alloc_few, "all sequences of 4 (thorough 5) alloc/zalloc/realloc/dealloc with 6 layouts (sizes 0..192, alignments 1..64), every live block chosen", mc::LeakCheck) {
  Ctx& cc = c;
  if (cc.thorough()) run(cc, 5, Few);
  else run(cc, 4, Few);
}
SCENARIO(alloc_many, "all sequences of 2 (thorough 3) with 25 layouts, sizes 0..70016, alignments 1..4096", mc::LeakCheck) {
  if (c.thorough()) run(c, 3, Many);
  else run(c, 2, Many);
}
SCENARIO(wrong_layout, "freeing and resizing a block with every other of 25 layouts, null and dangling pointers", mc::None) {
  L a = Many[c.pick(25)];
  int j = c.pick(25);
  L b = Many[j];
  c.step();
  c.state(j);
  auto p = best::malloc::alloc(lay(a.size, a.align));
  bool same = a.size == b.size && a.align == b.align;
  bool moved = (a.align > 16 ? a.align : 16) != (b.align > 16 ? b.align : 16);
  // The check looks just before the block; elsewhere there is nothing to be checked.
  if (!same && !moved) {
    CHECK(mc::crashes([&] { best::malloc::dealloc(p, lay(b.size, b.align)); }), "freeing %zu:%zu as %zu:%zu", a.size, a.align, b.size, b.align);
    CHECK(mc::crashes([&] { best::malloc::realloc(p, lay(b.size, b.align), lay(8, 8)); }), "resizing %zu:%zu as %zu:%zu", a.size, a.align, b.size, b.align);
  }
  best::malloc::dealloc(p, lay(a.size, a.align));
  for (uintptr_t bad : {uintptr_t(0), uintptr_t(1), uintptr_t(8), uintptr_t(0xfff)}) {
    CHECK(mc::crashes([&] { best::malloc::dealloc((void*)bad, lay(b.size, b.align)); }));
    CHECK(mc::crashes([&] { best::malloc::realloc((void*)bad, lay(b.size, b.align), lay(8, 8)); }));
  }
}
// Vectors are the main user of realloc.
struct alignas(64) Big64 {
  long v;
  bool operator==(const Big64&) const = default;
};
struct alignas(128) BEST_RELOCATABLE Big128 {
  long v;
};
template <typename T>
void grow(Ctx& c) {
  best::vec<T, 0> v;
  std::vector<long> m;
  int steps = c.thorough() ? 6 : 5;
  for (int d = 0; d < steps; ++d) {
    c.step();
    switch (c.pick(5)) {
      case 0: v.push(T{long(m.size()) + 5}), m.push_back(long(m.size()) + 5); break;
      case 1:
        for (int i = 0; i < 9; ++i) v.push(T{long(m.size()) + 50}), m.push_back(long(m.size()) + 50);
        break;
      case 2: v.shrink_to_fit(); break;
      case 3: v.reserve(17); break;
      case 4:
        v.truncate(v.size() / 2);
        m.resize(m.size() / 2);
        break;
    }
    CHECK(v.size() == m.size());
    CHECK(v.capacity() == 0 || (uintptr_t)v.data().raw() % alignof(T) == 0, "misaligned vector data");
    for (size_t i = 0; i < m.size(); ++i) CHECK(v[i].v == m[i], "element %zu is %ld, expected %ld", i, v[i].v, m[i]);
    c.state(Ctx::mix(m.size(), v.capacity()));
  }
}
SCENARIO(vec_grow, "all sequences of 5 (thorough 6) of push, push 9, shrink, reserve, truncate on vectors of over-aligned elements (64, 128)", mc::LeakCheck) {
  if (c.flip()) grow<Big64>(c);
  else grow<Big128>(c);
}
}  // namespace
