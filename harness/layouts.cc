// M02: best::layout, size_of and align_of against what the compiler does.
#include <array>
#include <tuple>
#include <vector>

#include "best/container/object.h"
#include "best/container/row.h"
#include "best/memory/layout.h"
#include "best/memory/ptr.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"
#include "mc.h"

namespace {
using mc::Ctx;
struct Empty {};
struct Three {
  char x[3];
};
struct alignas(32) Wide {
  char x[33];
};
struct Odd {
  char a;
  long b;
  char c;
};
struct Poly {
  virtual ~Poly() {}
  char c;
};
template <typename A>
struct S1 {
  A a;
};
template <typename A, typename B>
struct S2 {
  A a;
  B b;
};
template <typename A, typename B, typename C>
struct S3 {
  A a;
  B b;
  C c;
};
template <typename A, typename B, typename C, typename D>
struct S4 {
  A a;
  B b;
  C c;
  D d;
};
template <typename... Ts>
union U {};
template <typename A>
union U<A> {
  A a;
  U() {}
  ~U() {}
};
template <typename A, typename B>
union U<A, B> {
  A a;
  B b;
  U() {}
  ~U() {}
};
template <typename A, typename B, typename C>
union U<A, B, C> {
  A a;
  B b;
  C c;
  U() {}
  ~U() {}
};
template <typename... Ts>
struct list {};
// Types, and what they are stored as.
using Ts = list<char, short, int, long, long double, bool, Empty, Three, Wide, Odd, Poly, int[3], const int, int*, int&, int&&, const int&, int(), void>;
template <typename T>
using stored = std::conditional_t<std::is_reference_v<T> || std::is_function_v<T>, std::remove_reference_t<T>*,
                                  std::conditional_t<std::is_void_v<T>, Empty, T>>;

struct Row {
  best::layout got, want;
  std::string what;
};
std::vector<Row>* rows;
void add(best::layout got, size_t size, size_t align, const char* what) {
  rows->push_back({got, best::layout(best::unsafe("as sizeof says"), size, align), what});
}
template <typename T>
void one() {
  using O = stored<T>;
  add(best::layout::of<T>(), sizeof(S1<O>), alignof(O), "of");
  add(best::layout(best::unsafe(""), best::size_of<T>, best::align_of<T>), sizeof(O), alignof(O), "size_of, align_of");
  add(best::layout::of_struct<T>(), sizeof(S1<O>), alignof(S1<O>), "struct of one");
  add(best::layout::of_union<T>(), sizeof(U<O>), alignof(U<O>), "union of one");
  add(best::layout::of<T>(), sizeof(best::object<T>), alignof(best::object<T>), "object");
  add(best::ptr<T>{}.layout(), sizeof(O), alignof(O), "ptr");
}
template <typename A, typename B>
void two() {
  using X = stored<A>;
  using Y = stored<B>;
  add(best::layout::of_struct<A, B>(), sizeof(S2<X, Y>), alignof(S2<X, Y>), "struct of two");
  add(best::layout::of_union<A, B>(), sizeof(U<X, Y>), alignof(U<X, Y>), "union of two");
}
template <typename A, typename B, typename C>
void three() {
  using X = stored<A>;
  using Y = stored<B>;
  using Z = stored<C>;
  add(best::layout::of_struct<A, B, C>(), sizeof(S3<X, Y, Z>), alignof(S3<X, Y, Z>), "struct of three");
  add(best::layout::of_union<A, B, C>(), sizeof(U<X, Y, Z>), alignof(U<X, Y, Z>), "union of three");
}
template <typename A, typename... Bs>
void twos(list<Bs...>) {
  (two<A, Bs>(), ...);
}
template <typename A, typename B, typename... Cs>
void threes3(list<Cs...>) {
  (three<A, B, Cs>(), ...);
}
using Fs = list<char, short, int, long double, Empty, Three, Wide, Odd, int&, void>;
template <typename A, typename... Bs>
void threes2(list<Bs...>) {
  (threes3<A, Bs>(Fs{}), ...);
}
template <typename... As>
void all1(list<As...>) {
  (one<As>(), ...);
  (twos<As>(list<As...>{}), ...);
}
template <typename... As>
void all3(list<As...>) {
  (threes2<As>(Fs{}), ...);
}

void build() {
  mc::Internal in;
  if (rows) return;
  rows = new std::vector<Row>;
  all1(Ts{});
  all3(Fs{});
  add(best::layout::of_struct<>(), 1, 1, "struct of none");
  add(best::layout::of_union<>(), 1, 1, "union of none");
  add(best::layout(), 1, 1, "default");
  add(best::layout::of_struct<char, long, char, Wide>(), sizeof(S4<char, long, char, Wide>), 32, "struct of four");
}
SCENARIO(structs, "all structs and unions of up to 2 of 19 types (objects, references, functions, void) and of 3 of 10 types", mc::None) {
  build();
  c.bulk(rows->size(), 200, [&](uint64_t i) {
    auto& r = (*rows)[i];
    CHECK(r.got.size() == r.want.size() && r.got.align() == r.want.align(), "#%d %s: %zu:%zu, expected %zu:%zu", int(i), r.what.c_str(),
          r.got.size(), r.got.align(), r.want.size(), r.want.align());
    CHECK(r.got == r.want && !(r.got != r.want));
    CHECK(r.got.size() % r.got.align() == 0);
  });
}
SCENARIO(fits, "all pairs of the layouts with sizes 0..256 and alignments 1..64", mc::None) {
  struct P {
    size_t s, a;
  };
  static std::vector<P> ps;
  if (ps.empty()) {
    mc::Internal in;
    for (size_t a = 1; a <= 64; a *= 2)
      for (size_t k : {0, 1, 2, 3, 4}) ps.push_back({k * a, a});
  }
  c.bulk(ps.size() * ps.size(), 300, [&](uint64_t i) {
    P x = ps[i / ps.size()], y = ps[i % ps.size()];
    best::layout a(best::unsafe(""), x.s, x.a), b(best::unsafe(""), y.s, y.a);
    CHECK(a.fits_in(b) == (x.s <= y.s && x.a <= y.a), "%zu:%zu in %zu:%zu", x.s, x.a, y.s, y.a);
    CHECK((a == b) == (x.s == y.s && x.a == y.a));
    auto t = best::format("{:?}", a);
    std::string want = "{size: " + std::to_string(x.s) + ", align: " + std::to_string(x.a) + "}";
    CHECK(std::string(t.data(), t.size()).find("size: " + std::to_string(x.s)) != std::string::npos, "%.*s", int(t.size()), t.data());
    CHECK(std::string(t.data(), t.size()).find("align: " + std::to_string(x.a)) != std::string::npos);
  });
}
template <typename T>
void arrays(Ctx& c) {
  // Every count around the points at which the size wraps around.
  std::vector<uint64_t> ns;
  {
    mc::Internal in;
    for (uint64_t n = 0; n < 40; ++n) ns.push_back(n);
    for (int k = 0; k < 64; ++k)
      for (int d = -2; d <= 2; ++d) ns.push_back((uint64_t(1) << k) + d);
    for (uint64_t m = 1; m < 8; ++m)
      for (int d = -2; d <= 2; ++d) {
        ns.push_back(uint64_t(((unsigned __int128)1 << 64) * m / sizeof(stored<T>)) + d);
        ns.push_back(uint64_t(((unsigned __int128)1 << 63) * m / sizeof(stored<T>)) + d);
      }
  }
  for (uint64_t n : ns) {
    c.step();
    c.state(n);
    unsigned __int128 want = (unsigned __int128)n * sizeof(stored<T>);
    if (want > UINT64_MAX) {
      CHECK(mc::crashes([&] { (void)best::layout::array<T>(n); }), "array of %zu x %lu bytes", sizeof(stored<T>), n);
      continue;
    }
    if (want > INT64_MAX) continue;  // Objects this large do not exist.
    auto l = best::layout::array<T>(n);
    CHECK(l.size() == uint64_t(want) && l.align() == alignof(stored<T>), "array of %zu x %lu bytes is %zu:%zu", sizeof(stored<T>), n, l.size(), l.align());
    if constexpr (std::is_object_v<T> && !std::is_array_v<T>) {
      best::ptr<T[]> p(nullptr, n);
      CHECK(p.layout() == l);
    }
  }
  {
    mc::Internal in;
    std::vector<uint64_t>().swap(ns);
  }
}
SCENARIO(array, "arrays of 9 types and every length near every power of two and every overflow point", mc::None) {
  switch (c.pick(9)) {
    case 0: return arrays<char>(c);
    case 1: return arrays<short>(c);
    case 2: return arrays<Three>(c);
    case 3: return arrays<long>(c);
    case 4: return arrays<Odd>(c);
    case 5: return arrays<Wide>(c);
    case 6: return arrays<int&>(c);
    case 7: return arrays<int[3]>(c);
    case 8: return arrays<void>(c);
  }
}
template <size_t S, size_t A>
void raw(Ctx& c) {
  constexpr best::layout l(best::unsafe(""), S, A);
  using D = best::laid_out<l>;
  static_assert(D::layout() == l);
  c.step();
  c.state(S * 1000 + A);
  if constexpr (S == 0) {
    CHECK(std::is_empty_v<D>, "laid_out of size 0");
  } else {
    CHECK(sizeof(D) == S && alignof(D) == A, "laid_out<%zu:%zu> is %zu:%zu", S, A, sizeof(D), alignof(D));
    CHECK((best::has_layout<D, l>));
    CHECK((best::fits_in_layout<D, l>));
  }
  D* d = new D;
  const D* k = d;
  CHECK(d->get() == (void*)d && k->get() == d->get() && (uintptr_t)d->get() % A == 0);
  memset(d->get(), 0x5a, S);
  delete d;
}
SCENARIO(blocks, "blocks of 24 layouts", mc::LeakCheck) {
  c.pick(1);
  raw<0, 1>(c), raw<1, 1>(c), raw<2, 1>(c), raw<3, 1>(c), raw<7, 1>(c), raw<2, 2>(c), raw<4, 2>(c), raw<6, 2>(c);
  raw<4, 4>(c), raw<8, 4>(c), raw<12, 4>(c), raw<8, 8>(c), raw<16, 8>(c), raw<24, 8>(c), raw<16, 16>(c), raw<48, 16>(c);
  raw<32, 32>(c), raw<96, 32>(c), raw<64, 64>(c), raw<640, 64>(c), raw<128, 128>(c), raw<4096, 8>(c), raw<0, 2>(c), raw<0, 16>(c);
}
}  // namespace
