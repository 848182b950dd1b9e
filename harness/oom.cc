// M01: when the system has no memory, the program ends; nothing goes on with a null pointer.
#include <string>

#include "best/container/box.h"
#include "best/container/vec.h"
#include "best/memory/allocator.h"
#include "best/memory/layout.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"
#include "mc.h"

// The calls of the library are linked to these; the armed one fails.
static bool g_on = false;
static int g_calls = 0, g_fail = -1;
static bool fails() { return g_on && g_calls++ == g_fail; }
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { return fails() ? nullptr : __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { return fails() ? nullptr : __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return fails() ? nullptr : __real_aligned_alloc(a, n); }
}

namespace {
using mc::Ctx;
best::layout lay(size_t size, size_t align) { return best::layout(best::unsafe("valid"), size, align); }

// Runs f with the fail-th allocation failing.
template <typename F>
void with_failure(Ctx& c, int fail, const char* what, F f) {
  mc::take_output();
  g_calls = 0;
  g_fail = fail;
  int code = mc::exits([&] {
    g_on = true;
    f();
    g_on = false;
  });
  g_on = false;
  c.step();
  std::string out = mc::take_output();
  if (fail < g_calls) {
    CHECK(code == 128, "%s: allocation %d of %d fails, and the program %s (%d)", what, fail, g_calls, code < 0 ? "goes on" : "ends", code);
    CHECK(out.find("returned a null pointer") != std::string::npos, "%s: allocation %d fails: %s", what, fail, out.c_str());
  } else {
    CHECK(code == -1, "%s ends the program (%d): %s", what, code, out.c_str());
  }
}

SCENARIO(direct, "alloc, zalloc and resizing from 0, 1, 64, 5000 bytes at alignments 1..4096: the first or second allocation fails", 0) {
  const size_t sizes[] = {0, 1, 64, 5000}, aligns[] = {1, 8, 16, 32, 4096};
  size_t n = sizes[c.pick(4)], m = sizes[c.pick(4)], a = aligns[c.pick(5)], b = aligns[c.pick(5)];
  n = (n + a - 1) / a * a;
  m = (m + b - 1) / b * b;
  int how = c.pick(4), fail = c.pick(3);
  c.note("%zu:%zu, %zu:%zu, way %d, failure %d", n, a, m, b, how, fail);
  with_failure(c, fail, "best::malloc", [&] {
    best::malloc mem;
    auto p = how & 1 ? mem.zalloc(lay(n, a)) : mem.alloc(lay(n, a));
    if (how & 2) {
      p = mem.realloc(p, lay(n, a), lay(m, b));
      mem.dealloc(p, lay(m, b));
    } else {
      mem.dealloc(p, lay(n, a));
    }
  });
}
struct alignas(64) Wide { int x; };
SCENARIO(containers, "histories of 3 (thorough 4) operations on a vec, a vec of wide elements, a strbuf and a box: each of the first 8 allocations fails", 0) {
  int depth = c.thorough() ? 4 : 3, fail = c.pick(8);
  int ops[4] = {};
  for (int i = 0; i < depth; ++i) ops[i] = c.pick(10);
  with_failure(c, fail, "history", [&] {
    best::vec<int> v;
    best::vec<Wide> w;
    best::strbuf s;
    best::box<int> b(1);
    for (int i = 0; i < depth; ++i) {
      switch (ops[i]) {
        case 0: v.push(i); break;
        case 1: v.reserve(40); break;
        case 2: for (int k = 0; k < 30; ++k) v.push(k); break;
        case 3: v.shrink_to_fit(); break;
        case 4: { best::vec<int> u = v; u.push(1); v = u; break; }
        case 5: w.push(Wide{i}); break;
        case 6: s.push("a text that is too long to be kept inline"); break;
        case 7: { auto t = best::format("{}, {:?}", 12345, s); s = t; break; }
        case 8: b = best::box<int>(2); break;
        case 9: { best::box<int> d = b; b = std::move(d); break; }
      }
    }
  });
}
}  // namespace
