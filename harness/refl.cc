// F04: reflection reports exactly the fields, values, names and tags of a type.
#include <array>
#include <string>
#include <type_traits>
#include <vector>

#include "best/meta/bit_enum.h"
#include "best/meta/reflect.h"
#include "best/text/format.h"
#include "mc.h"

#ifndef RF_PART
#define RF_PART 0
#endif
#define PART(n_) (RF_PART == 0 || RF_PART == n_)

using mc::Ctx;
static std::string S(best::str s) { return std::string(s.data(), s.size()); }
template <typename T>
static std::string show(const T& x) { auto s = best::format("{:?}", x); return std::string(s.data(), s.size()); }

#define F1(k) int f##k;
#define L0
#define L1 L0 F1(0)
#define L2 L1 F1(1)
#define L3 L2 F1(2)
#define L4 L3 F1(3)
#define L5 L4 F1(4)
#define L6 L5 F1(5)
#define L7 L6 F1(6)
#define L8 L7 F1(7)
#define L9 L8 F1(8)
#define L10 L9 F1(9)
#define L11 L10 F1(10)
#define L12 L11 F1(11)
#define L13 L12 F1(12)
#define L14 L13 F1(13)
#define L15 L14 F1(14)
#define L16 L15 F1(15)
#define L17 L16 F1(16)
#define L18 L17 F1(17)
#define L19 L18 F1(18)
#define L20 L19 F1(19)
#define L21 L20 F1(20)
#define L22 L21 F1(21)
#define L23 L22 F1(22)
#define L24 L23 F1(23)
#define L25 L24 F1(24)
#define L26 L25 F1(25)
#define L27 L26 F1(26)
#define L28 L27 F1(27)
#define L29 L28 F1(28)
#define L30 L29 F1(29)
#define L31 L30 F1(30)
#define L32 L31 F1(31)
#define L33 L32 F1(32)
#define L34 L33 F1(33)
#define L35 L34 F1(34)
#define L36 L35 F1(35)
#define L37 L36 F1(36)
#define L38 L37 F1(37)
#define L39 L38 F1(38)
#define L40 L39 F1(39)
#define L41 L40 F1(40)
#define L42 L41 F1(41)
#define L43 L42 F1(42)
#define L44 L43 F1(43)
#define L45 L44 F1(44)
#define L46 L45 F1(45)
#define L47 L46 F1(46)
#define L48 L47 F1(47)
#define L49 L48 F1(48)
#define L50 L49 F1(49)
#define L51 L50 F1(50)
#define L52 L51 F1(51)
#define L53 L52 F1(52)
#define L54 L53 F1(53)
#define L55 L54 F1(54)
#define L56 L55 F1(55)
#define L57 L56 F1(56)
#define L58 L57 F1(57)
#define L59 L58 F1(58)
#define L60 L59 F1(59)
#define L61 L60 F1(60)
#define L62 L61 F1(61)
#define L63 L62 F1(62)
#define L64 L63 F1(63)
#define EACH_SIZE(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63) X(64)

#if PART(5)
// Every number of fields: RF_FROM gives the remainder modulo 4 when split.
namespace refl_sizes {
#define SD(n) struct N##n { L##n };
EACH_SIZE(SD)
}  // namespace refl_sizes
namespace {
template <typename T, size_t n>
void size_of(Ctx& c) {
  T x{};
  int* raw = reinterpret_cast<int*>(&x);
  size_t k = 0;
  best::reflect<T>.each([&](auto f) {
    c.step();
    CHECK(S(f.name()) == "f" + std::to_string(k) && &(x->*f) == raw + k, "field %zu of %zu", k, n);
    ++k;
  });
  CHECK(k == n, "each visits %zu of %zu", k, n);
}
SCENARIO(structs_sizes, "structs of every number of fields from 0 to 64: each field's name and address", 0) {
#ifdef RF_FROM
#define SR(n) if constexpr (n % 4 == RF_FROM) size_of<refl_sizes::N##n, n>(c);
#else
#define SR(n) size_of<refl_sizes::N##n, n>(c);
#endif
  [&](auto) { EACH_SIZE(SR) }(0);
}
}  // namespace
#endif

#if PART(1)
// Structs of n ints (named f0, f1, ...), in a namespace of their own: reflected types need linkage.
namespace refl_structs {
struct S0 {};
struct S1 { L1 };
struct S2 { L2 };
struct S3 { L3 };
struct S4 { L4 };
struct S5 { L5 };
struct S8 { L8 };
struct S9 { L9 };
struct S16 { L16 };
struct S17 { L17 };
}  // namespace refl_structs
namespace {
using namespace refl_structs;

template <typename T, size_t n>
void ints(Ctx& c, const char* name) {
  T x{};
  int* raw = reinterpret_cast<int*>(&x);
  for (size_t i = 0; i < n; ++i) raw[i] = int(i) * 3 + 1;
  const T cx = x;
  const int* craw = reinterpret_cast<const int*>(&cx);
  auto r = best::reflect<T>;
  c.step();
  CHECK(S(r.name()) == name && S(best::type_name<T>) == name && S(r.names().path_with_params()) == std::string("refl_structs::") + name,
        "name of %s: %s", name, S(r.name()).c_str());
  // each and apply: every field, in order, with its name, address and category.
  size_t k = 0;
  std::string text;
  r.each([&](auto f) {
    c.step();
    CHECK(S(f.name()) == "f" + std::to_string(k), "field %zu of %s is named %s", k, name, S(f.name()).c_str());
    static_assert(std::is_same_v<typename decltype(f)::type, int> && std::is_same_v<typename decltype(f)::reflected, T>);
    static_assert(std::is_same_v<decltype(x->*f), int&> && std::is_same_v<decltype(cx->*f), const int&> &&
                  std::is_same_v<decltype(std::move(x)->*f), int&&> && std::is_same_v<decltype(std::move(cx)->*f), const int&&> &&
                  std::is_same_v<decltype((&x)->*f), int&> && std::is_same_v<decltype((&cx)->*f), const int&>);
    CHECK(&(x->*f) == raw + k && &(cx->*f) == craw + k && &((&x)->*f) == raw + k && &((&cx)->*f) == craw + k, "field %zu of %s", k, name);
    int&& rr = std::move(x)->*f;
    CHECK(&rr == raw + k, "field %zu of an expiring %s", k, name);
    text += (k ? ", f" : "f") + std::to_string(k) + ": " + std::to_string(raw[k]);
    ++k;
  });
  CHECK(k == n, "each visits %zu of the %zu fields of %s", k, n, name);
  std::vector<int*> addrs = r.apply([&](auto... f) { return std::vector<int*>{&(x->*f)...}; });
  CHECK(addrs.size() == n, "apply to %zu fields", addrs.size());
  for (size_t i = 0; i < n; ++i) CHECK(addrs[i] == raw + i, "apply, field %zu", i);
  // fields().
  auto check_row = [&](auto row, const int* from) {
    std::vector<const int*> at;
    row.apply([&](auto&&... e) { (at.push_back(&e), ...); });
    CHECK(at.size() == n, "fields() of %s has %zu elements", name, at.size());
    for (size_t i = 0; i < n; ++i) CHECK(at[i] == from + i, "fields() of %s, element %zu", name, i);
  };
  check_row(best::fields(x), raw);
  check_row(best::fields(cx), craw);
  if constexpr (n > 0) {
    static_assert(std::is_same_v<typename decltype(best::fields(x))::template type<0>, int&>);
    static_assert(std::is_same_v<typename decltype(best::fields(cx))::template type<0>, const int&>);
    static_assert(std::is_same_v<typename decltype(best::fields(std::move(x)))::template type<0>, int&&>);
  }
  // zip_fields.
  T y = x;
  for (size_t i = 0; i < n; ++i) reinterpret_cast<int*>(&y)[i] += 1000;
  k = 0;
  r.zip_fields(x, cx, y, [&](int& a, const int& b, int& d) {
    CHECK(&a == raw + k && &b == craw + k && &d == reinterpret_cast<int*>(&y) + k, "zip_fields, field %zu", k);
    ++k;
  });
  CHECK(k == n, "zip_fields visits %zu of %zu", k, n);
  k = 0;
  r.zip_fields(std::move(x), [&](int&& a) { CHECK(&a == raw + k, "zip_fields of one"); ++k; });
  CHECK(k == n, "zip_fields visits %zu of %zu", k, n);
  // Formatting.
  CHECK(show(x) == std::string(name) + " {" + text + "}", "%s formats as %s", name, show(x).c_str());
  // match: every name, and near misses.
  {
    auto lookup = [&](std::string s) -> const int* {
      const int* at = nullptr;
      r.match(best::str(best::unsafe("test"), best::span<const char>(s.data(), s.size())), [&] { at = nullptr; }, [&](auto f) { at = &(x->*f); });
      return at;
    };
    for (size_t i = 0; i < n; ++i) {
      c.step();
      std::string nm = "f" + std::to_string(i);
      CHECK(lookup(nm) == raw + i, "match(%s) of %s", nm.c_str(), name);
      CHECK(!lookup(nm + "_") && !lookup("F" + std::to_string(i)) && !lookup(" " + nm), "match near %s", nm.c_str());
    }
    CHECK(!lookup("") && !lookup("f") && !lookup("e") && !lookup("g") && !lookup("f" + std::to_string(n)) && !lookup("f99") && !lookup(std::string("f\0", 2)),
          "match of a name that is not there");
  }
}
SCENARIO(structs, "structs of 0, 1, 2, 3, 4, 5, 8, 9, 16, 17 fields: each, apply, match, fields, zip_fields, formatting, names", 0) {
  switch (c.pick(10)) {
    case 0: return ints<S0, 0>(c, "S0");
    case 1: return ints<S1, 1>(c, "S1");
    case 2: return ints<S2, 2>(c, "S2");
    case 3: return ints<S3, 3>(c, "S3");
    case 4: return ints<S4, 4>(c, "S4");
    case 5: return ints<S5, 5>(c, "S5");
    case 6: return ints<S8, 8>(c, "S8");
    case 7: return ints<S9, 9>(c, "S9");
    case 8: return ints<S16, 16>(c, "S16");
    case 9: return ints<S17, 17>(c, "S17");
  }
}
}  // namespace
#endif

#if PART(2)
// Tags and hiding, in every combination. The struct has three fields of different
// types; `spec` holds one digit (base 4) per field: 0 nothing, 1 tag A, 2 tags A, B (one
// with), 3 hidden; and how the reflection starts (inferred, or from nothing).
namespace refl_tags {
struct KeyA {}; struct KeyB {};
struct A { using BestRowKey = KeyA; int v; };
struct B { using BestRowKey = KeyB; int v; };
template <int spec>
struct T {
  char a = 'a';
  best::str c = "see";
  bool d = true;
  constexpr friend auto BestReflect(auto& m, T*) {
    auto f0 = [](const auto& m, auto pm, auto d_) {
      constexpr int d = d_.value;
      if constexpr (d == 1) return m.with(pm, A{10});
      else if constexpr (d == 2) return m.with(pm, A{10}, B{20});
      else if constexpr (d == 3) return m.hide(pm);
      else return m.with(pm);
    };
#define D(k) std::integral_constant<int, ((spec >> (2 * k)) & 3)>{}
    // The last field first: the order of with() must not reorder inferred fields.
    return f0(f0(f0(m.infer().with(A{1}), &T::d, D(2)), &T::a, D(0)), &T::c, D(1)).with(B{2}, A{3});
  }
};
// Nothing inferred: fields as listed, tags appended by repeated with().
template <int order>
struct U {
  int a = 1, b = 2, c = 3;
  constexpr friend auto BestReflect(auto& m, U*) {
    if constexpr (order == 0) return m.with(&U::a);
    else if constexpr (order == 1) return m.with(&U::c).with(&U::a);
    else if constexpr (order == 2) return m.with(&U::b, A{1}).with(&U::c).with(&U::b, B{2}).with(&U::a, A{5});
    else if constexpr (order == 3) return m.with(&U::b, A{1}).with(&U::b, A{2}, B{3}).with(&U::b, A{4});
    else if constexpr (order == 4) return m.with(&U::a).with(&U::b).with(&U::c).hide(&U::b);
    else if constexpr (order == 5) return m.with(&U::a).with(&U::b, A{9}).hide(&U::b).with(&U::b);
    else if constexpr (order == 7) return m.with(A{1}).with(&U::a, B{2}).hide(&U::a).infer();
    else return m.infer().hide(&U::a).hide(&U::c).with(&U::a, B{7});
  }
};
}  // namespace refl_tags
namespace {
using namespace refl_tags;

template <typename Tags>
std::string vals(const Tags& t) {
  std::string s;
  t.apply([&](auto... x) { ((s += std::to_string(x.v) + " "), ...); });
  return s;
}
template <typename R>
std::string describe(R r) {
  std::string s = "A:" + vals(r.tags(best::types<KeyA>)) + "B:" + vals(r.template tags<KeyB>()) + "|";
  r.each([&](auto f) { s += S(f.name()) + " A:" + vals(f.tags(best::types<KeyA>)) + "B:" + vals(f.template tags<KeyB>()) + ";"; });
  return s;
}
template <int spec>
void tags_one(Ctx& c) {
  c.step();
  const char* names[] = {"a", "c", "d"};
  const char* vals_[] = {"97", "\"see\"", "true"};
  std::string want = "A:1 3 B:2 |", text;
  for (int k = 0; k < 3; ++k) {
    int d = (spec >> (2 * k)) & 3;
    if (d == 3) continue;
    want += std::string(names[k]) + " A:" + (d ? "10 " : "") + "B:" + (d == 2 ? "20 " : "") + ";";
    text += std::string(text.empty() ? "" : ", ") + names[k] + ": " + vals_[k];
  }
  using X = T<spec>;
  CHECK(describe(best::reflect<X>) == want, "spec %d: %s, expected %s", spec, describe(best::reflect<X>).c_str(), want.c_str());
  X x;
  CHECK(show(x) == "T {" + text + "}", "spec %d: formats as %s, expected T {%s}", spec, show(x).c_str(), text.c_str());
  for (int k = 0; k < 3; ++k) {
    const void* at = nullptr;
    best::reflect<X>.match(best::str(best::unsafe("test"), best::span<const char>(names[k], 1)), [] {}, [&](auto f) { at = &(x->*f); });
    const void* addr[] = {&x.a, &x.c, &x.d};
    CHECK(at == (((spec >> (2 * k)) & 3) == 3 ? nullptr : addr[k]), "spec %d: match(%s)", spec, names[k]);
  }
}
template <size_t from, size_t... i>
void tags_from(Ctx& c, std::index_sequence<i...>) { (tags_one<int(from + i)>(c), ...); }
#if RF_PART == 2 || RF_PART == 0
SCENARIO(tags_all, "a struct of three fields, each untagged, tagged, tagged twice or hidden: all 64 combinations", 0) {
#ifdef RF_FROM
  tags_from<RF_FROM>(c, std::make_index_sequence<16>{});
#else
  tags_from<0>(c, std::make_index_sequence<64>{});
#endif
}
SCENARIO(listed, "fields listed without infer(), in every order of with() and hide() that is distinguished", 0) {
  auto is = [&](auto r, const char* want) {
    c.step();
    CHECK(describe(r) == want, "%s, expected %s", describe(r).c_str(), want);
  };
  is(best::reflect<U<0>>, "A:B:|a A:B:;");
  is(best::reflect<U<1>>, "A:B:|c A:B:;a A:B:;");
  is(best::reflect<U<2>>, "A:B:|b A:1 B:2 ;c A:B:;a A:5 B:;");
  is(best::reflect<U<3>>, "A:B:|b A:1 2 4 B:3 ;");
  is(best::reflect<U<4>>, "A:B:|a A:B:;c A:B:;");
  is(best::reflect<U<5>>, "A:B:|a A:B:;b A:B:;");
  is(best::reflect<U<6>>, "A:B:|b A:B:;a A:B:7 ;");
  is(best::reflect<U<7>>, "A:B:|a A:B:;b A:B:;c A:B:;");
  U<1> u;
  CHECK(show(u) == "U {c: 3, a: 1}", "%s", show(u).c_str());
}
#endif
}  // namespace
#endif

#if PART(3)
namespace refl_enums {
enum class E0 {};
enum class E1 { A };
enum class E3 { A, B, C };
enum class Gaps { Zero, Five = 5, Last = 63 };
enum class Past { A = 1, Out = 64, Far = 1000 };
enum Plain { PA, PB = 7, PC };
enum class U8 : uint8_t { A = 0, M = 200 };
enum class I8 : int8_t { N = -1, A = 0, B = 1, Max = 63 };
enum class Dup { A, B, Same = 1, C };
enum class High : uint64_t { A = 100, B = 110, C = 130 };
constexpr auto BestReflect(auto& m, High*) { return m.template infer<best::bounds{.start = 100, .end = 130}>(); }
enum class Incl { A = 3, B = 4, C = 8, D = 9 };
constexpr auto BestReflect(auto& m, Incl*) { return m.template infer<best::bounds{.start = 4, .including_end = 8}>(); }
enum class Cnt { A = 3, B = 4, C = 8, D = 9 };
constexpr auto BestReflect(auto& m, Cnt*) { return m.template infer<best::bounds{.start = 4, .count = 5}>(); }
enum class Hid { A, B, C, D };
constexpr auto BestReflect(auto& m, Hid*) { return m.infer().hide(Hid::A).hide(Hid::C); }
enum class Lst { A, B, C, D = 5000 };
constexpr auto BestReflect(auto& m, Lst*) { return m.with(Lst::D).with(Lst::B); }
struct KeyA {}; struct KeyB {};
struct A { using BestRowKey = KeyA; int v; };
struct B { using BestRowKey = KeyB; int v; };
enum class Tg { P, Q, R, S };
constexpr auto BestReflect(auto& m, Tg*) {
  return m.infer().with(A{1}).with(Tg::R, A{2}, B{3}).hide(Tg::S).with(Tg::P, B{4}).with(Tg::R, A{5}).with(B{6});
}
template <typename T> struct Outer { enum class In { X, Y }; struct Nest { T t; }; };
// Bit operations.
enum class Bits : uint8_t {};
BEST_BIT_ENUM(Bits)
BEST_ENUM_CMP(Bits)
enum class Wide : int32_t {};
BEST_BIT_ENUM(Wide)
BEST_ENUM_CMP(Wide)
}  // namespace refl_enums
namespace {
using namespace refl_enums;
enum class Anon { P, Q = 2 };

struct Ent { const char* name; long value; };
// `known` is in the order of the reflection.
template <typename E>
void enums(Ctx& c, const char* name, std::vector<Ent> known, std::vector<long> probe) {
  using UT = std::underlying_type_t<E>;
  auto r = best::reflect<E>;
  CHECK(S(r.name()) == name, "%s is named %s", name, S(r.name()).c_str());
  std::string got, want, got2;
  r.each([&](auto v) {
    static_assert(std::is_same_v<typename decltype(v)::reflected, E> && std::is_same_v<std::remove_cv_t<decltype(v.value)>, E>);
    got += S(v.name()) + "=" + std::to_string(long(v.value)) + " ";
  });
  r.apply([&](auto... v) { ((got2 += S(v.name()) + "=" + std::to_string(long(v.value)) + " "), ...); });
  for (auto& e : known) want += std::string(e.name) + "=" + std::to_string(e.value) + " ";
  CHECK(got == want, "values of %s: %s, expected %s", name, got.c_str(), want.c_str());
  CHECK(got2 == want, "apply to %s: %s, expected %s", name, got2.c_str(), want.c_str());
  for (auto& e : known) probe.push_back(e.value), probe.push_back(e.value + 1), probe.push_back(e.value - 1);
  for (long p = -2; p < 70; ++p) probe.push_back(p);
  for (long p : probe) {
    if (long(UT(p)) != p) continue;
    c.step();
    const Ent* e = nullptr;
    for (auto& x : known) if (x.value == p && !e) e = &x;
    std::string found = "-";
    r.match(E(p), [&] { found = "-"; }, [&](auto v) { found = S(v.name()); CHECK(long(v.value) == p, "match gives another value"); });
    CHECK(found == (e ? e->name : "-"), "match(%s(%ld)) finds %s", name, p, found.c_str());
    std::string text = e ? std::string(name) + "::" + e->name : std::string(name) + "(" + (std::is_signed_v<UT> ? std::to_string(p) : std::to_string((unsigned long)UT(p))) + ")";
    CHECK(show(E(p)) == text, "%s(%ld) formats as %s, expected %s", name, p, show(E(p)).c_str(), text.c_str());
  }
  for (const char* n : {"A", "B", "C", "D", "N", "", "Zero", "Five", "Last", "Out", "Far", "PA", "PB", "PC", "M", "Max", "Same", "a", "AA", "E1", "X", "P", "Q", "::A", "E1::A"}) {
    const Ent* e = nullptr;
    for (auto& x : known) if (std::string(x.name) == n) e = &x;
    long at = -12345;
    r.match(best::str(best::unsafe("test"), best::span<const char>(n, strlen(n))), [&] { at = -12345; }, [&](auto v) { at = long(v.value); });
    CHECK(at == (e ? e->value : -12345), "match(\"%s\") of %s", n, name);
  }
}
SCENARIO(enums_all, "enums of each shape (gaps, edges of the searched range, duplicates, signed, wide, listed, hidden): every value near an enumerator and all of -2..69", 0) {
  switch (c.pick(15)) {
    case 0: return enums<E1>(c, "E1", {{"A", 0}}, {100});
    case 1: return enums<E3>(c, "E3", {{"A", 0}, {"B", 1}, {"C", 2}}, {100});
    case 2: return enums<Gaps>(c, "Gaps", {{"Zero", 0}, {"Five", 5}, {"Last", 63}}, {-1000});
    case 3: return enums<Past>(c, "Past", {{"A", 1}}, {64, 1000, 999});
    case 4: return enums<Plain>(c, "Plain", {{"PA", 0}, {"PB", 7}, {"PC", 8}}, {});
    case 5: return enums<U8>(c, "U8", {{"A", 0}}, {200, 255});
    case 6: return enums<I8>(c, "I8", {{"A", 0}, {"B", 1}, {"Max", 63}}, {-1, -128, 127});
    case 7: return enums<Dup>(c, "Dup", {{"A", 0}, {"B", 1}, {"C", 2}}, {});
    case 8: return enums<High>(c, "High", {{"A", 100}, {"B", 110}}, {130, 99, 101});
    case 9: return enums<Incl>(c, "Incl", {{"B", 4}, {"C", 8}}, {3, 9});
    case 10: return enums<Cnt>(c, "Cnt", {{"B", 4}, {"C", 8}}, {3, 9});
    case 11: return enums<Hid>(c, "Hid", {{"B", 1}, {"D", 3}}, {});
    case 12: return enums<Lst>(c, "Lst", {{"D", 5000}, {"B", 1}}, {});
    case 14: return enums<E0>(c, "E0", {}, {100});
    case 13: return enums<Anon>(c, "Anon", {{"P", 0}, {"Q", 2}}, {});
  }
}
template <typename Tags>
std::string evals(const Tags& t) {
  std::string s;
  t.apply([&](auto... x) { ((s += std::to_string(x.v) + " "), ...); });
  return s;
}
SCENARIO(enum_tags, "tags of enums and of enumerators", 0) {
  auto r = best::reflect<Tg>;
  std::string s = "A:" + evals(r.tags(best::types<KeyA>)) + "B:" + evals(r.template tags<KeyB>()) + "|";
  r.each([&](auto f) { c.step(); s += S(f.name()) + " A:" + evals(f.tags(best::types<KeyA>)) + "B:" + evals(f.template tags<KeyB>()) + ";"; });
  CHECK(s == "A:1 B:6 |P A:B:4 ;Q A:B:;R A:2 5 B:3 ;", "tags of an enum: %s", s.c_str());
  for (int i = 0; i < 5; ++i) {
    std::string got = "-";
    r.match(Tg(i), [] {}, [&](auto f) { got = evals(f.tags(best::types<KeyA>)) + "/" + evals(f.tags(best::types<KeyB>)); });
    CHECK(got == (i == 0 ? "/4 " : i == 1 ? "/" : i == 2 ? "2 5 /3 " : "-"), "tags of enumerator %d: %s", i, got.c_str());
  }
}
SCENARIO(value_names, "value_name and field_name of enumerators and members", 0) {
  auto is = [&](best::option<best::str> n, const char* want) {
    c.step();
    CHECK(n ? want && S(*n) == want : !want, "%s, expected %s", n ? S(*n).c_str() : "none", want ? want : "none");
  };
  is(best::value_name<E3::B>, "B");
  is(best::value_name<E3(7)>, nullptr);
  is(best::value_name<PB>, "PB");
  is(best::value_name<Past::Far>, "Far");
  is(best::value_name<I8::N>, "N");
  is(best::value_name<I8(-2)>, nullptr);
  is(best::value_name<Anon::Q>, "Q");
  is(best::value_name<Anon(1)>, nullptr);
  is(best::value_name<Outer<Outer<int>::In>::In::Y>, "Y");
  is(best::value_name<Outer<Outer<int>::In>::In(9)>, nullptr);
  is(best::field_name<&Outer<Outer<int>::In>::Nest::t>, "t");
  enum class Local { Y1, Y2 };
  is(best::value_name<Local::Y2>, "Y2");
  is(best::value_name<Local(4)>, nullptr);
}

struct N { const char *name, *path, *ns, *params, *np, *full; };
template <typename T>
void name_is(Ctx& c, N n) {
  c.step();
  auto t = best::type_names::of<T>;
  CHECK(S(t.path_with_params()) == n.full, "full name %s, expected %s", S(t.path_with_params()).c_str(), n.full);
  CHECK(S(t.name()) == n.name && S(best::type_name<T>) == n.name, "name of %s: %s", n.full, S(t.name()).c_str());
  CHECK(S(t.path()) == n.path, "path of %s: %s", n.full, S(t.path()).c_str());
  CHECK(S(t.name_space()) == n.ns, "namespace of %s: %s", n.full, S(t.name_space()).c_str());
  CHECK(S(t.params()) == n.params, "parameters of %s: %s", n.full, S(t.params()).c_str());
  CHECK(S(t.name_with_params()) == n.np, "name with parameters of %s: %s", n.full, S(t.name_with_params()).c_str());
}
}  // namespace
struct GlobalThing {};
template <typename...> struct GlobalTemplate {};
namespace na { struct T {}; template <typename> struct P { struct I {}; template <typename> struct Q { struct J {}; }; };
namespace nb { struct T {}; template <typename, int = 0> struct P {}; } }
namespace {
struct Hidden {};
SCENARIO(type_names_all, "the names of plain, namespaced, nested, templated and doubly nested types", 0) {
  name_is<int>(c, {"int", "int", "", "", "int", "int"});
  name_is<unsigned long>(c, {"unsigned long", "unsigned long", "", "", "unsigned long", "unsigned long"});
  name_is<GlobalThing>(c, {"GlobalThing", "GlobalThing", "", "", "GlobalThing", "GlobalThing"});
  name_is<na::T>(c, {"T", "na::T", "na", "", "T", "na::T"});
  name_is<na::nb::T>(c, {"T", "na::nb::T", "na::nb", "", "T", "na::nb::T"});
  name_is<GlobalTemplate<>>(c, {"GlobalTemplate", "GlobalTemplate", "", "<>", "GlobalTemplate<>", "GlobalTemplate<>"});
  name_is<GlobalTemplate<int, na::T>>(c, {"GlobalTemplate", "GlobalTemplate", "", "<int, na::T>", "GlobalTemplate<int, na::T>", "GlobalTemplate<int, na::T>"});
  name_is<na::P<int>>(c, {"P", "na::P", "na", "<int>", "P<int>", "na::P<int>"});
  name_is<na::P<na::nb::T>>(c, {"P", "na::P", "na", "<na::nb::T>", "P<na::nb::T>", "na::P<na::nb::T>"});
  name_is<na::P<na::nb::T>::I>(c, {"I", "na::P<na::nb::T>::I", "na::P<na::nb::T>", "", "I", "na::P<na::nb::T>::I"});
  name_is<na::P<int>::Q<na::T>>(c, {"Q", "na::P<int>::Q", "na::P<int>", "<na::T>", "Q<na::T>", "na::P<int>::Q<na::T>"});
  name_is<na::P<na::P<int>::I>::Q<na::T>::J>(c, {"J", "na::P<na::P<int>::I>::Q<na::T>::J", "na::P<na::P<int>::I>::Q<na::T>", "", "J", "na::P<na::P<int>::I>::Q<na::T>::J"});
  name_is<Hidden>(c, {"Hidden", "(anonymous namespace)::Hidden", "(anonymous namespace)", "", "Hidden", "(anonymous namespace)::Hidden"});
  name_is<na::P<Hidden>>(c, {"P", "na::P", "na", "<(anonymous namespace)::Hidden>", "P<(anonymous namespace)::Hidden>", "na::P<(anonymous namespace)::Hidden>"});
  CHECK(show(Outer<na::T*>::Nest{nullptr}) == "Nest {t: nullptr}", "a nested struct formats as %s", show(Outer<na::T*>::Nest{nullptr}).c_str());
  CHECK(show(Outer<na::T>::In::Y) == "In::Y", "a nested enum formats as %s", show(Outer<na::T>::In::Y).c_str());
}

template <typename E, typename UT>
void bits(Ctx& c, std::vector<UT> vs) {
  for (UT a : vs) for (UT b : vs) {
    c.step();
    CHECK((E(a) | E(b)) == UT(a | b) && (E(a) & E(b)) == UT(a & b) && (E(a) ^ E(b)) == UT(a ^ b) && (~E(a)) == UT(~a), "bit operations on %ld and %ld", long(a), long(b));
    CHECK((E(a) == E(b)) == (a == b) && (E(a) != E(b)) == (a != b) && (E(a) == b) == (a == b) && (E(a) != b) == (a != b) &&
            (a == E(b)) == (a == b) && (a != E(b)) == (a != b), "comparison of %ld and %ld", long(a), long(b));
    static_assert(std::is_same_v<decltype(E(a) | E(b)), E> && std::is_same_v<decltype(E(a) & E(b)), E> && std::is_same_v<decltype(E(a) ^ E(b)), E> &&
                  std::is_same_v<decltype(~E(a)), E>);
  }
}
SCENARIO(bit_enums, "all pairs of 8-bit values (and edge values of 32) under | & ^ ~ == !=", 0) {
  std::vector<uint8_t> all;
  for (int i = 0; i < 256; ++i) all.push_back(uint8_t(i));
  bits<Bits, uint8_t>(c, all);
  bits<Wide, int32_t>(c, {0, 1, 2, 3, -1, -2, 0x7fffffff, -0x7fffffff - 1, 0x0f0f0f0f, 0x55555555});
}
}  // namespace
#endif

#if PART(4)
// Fields of other types: order of layout, padding, empty, const, arrays of structs, nested, move-only, references by name.
namespace refl_mixed {
struct E {};
struct Mixed {
  char a = 'x';
  double b = 2.5;
  E c;
  best::str d = "dee";
  const int e = 5;
  bool f = false;
  uint8_t g = 200;
  int* h = nullptr;
};
struct Inner { int p = 1, q = 2; };
struct Nested { Inner i; Mixed m; Inner j; };
struct Dup { E a, b; };
struct NUA { [[no_unique_address]] E a; [[no_unique_address]] E b; int x = 3; };
}  // namespace refl_mixed
namespace {
using namespace refl_mixed;
SCENARIO(mixed, "fields of mixed types, nested structs: addresses, types, names, formatting", 0) {
  Mixed m;
  std::vector<const void*> want{&m.a, &m.b, &m.c, &m.d, &m.e, &m.f, &m.g, &m.h}, got;
  std::string names;
  best::reflect<Mixed>.each([&](auto f) { c.step(); got.push_back(&(m->*f)); names += S(f.name()); });
  CHECK(got == want && names == "abcdefgh", "fields of Mixed: %s", names.c_str());
  auto row = best::fields(m);
  static_assert(std::is_same_v<decltype(row), best::row<char&, double&, E&, best::str&, const int&, bool&, uint8_t&, int*&>>);
  static_assert(std::is_same_v<decltype(best::fields(std::move(m))), best::row<char&&, double&&, E&&, best::str&&, const int&&, bool&&, uint8_t&&, int*&&>>);
  best::reflect<Mixed>.match("e", [] {}, [](auto f) { if constexpr (!std::is_same_v<typename decltype(f)::type, const int>) mc::fail("type of e"); });
  best::reflect<Mixed>.match("b", [] {}, [](auto f) { if constexpr (!std::is_same_v<typename decltype(f)::type, double>) mc::fail("type of b"); });
  Nested n;
  got.clear();
  best::reflect<Nested>.each([&](auto f) { got.push_back(&(n->*f)); });
  CHECK((got == std::vector<const void*>{&n.i, &n.m, &n.j}), "fields of Nested");
  CHECK(show(n.i) == "Inner {p: 1, q: 2}", "%s", show(n.i).c_str());
  Dup d;
  got.clear();
  best::reflect<Dup>.each([&](auto f) { got.push_back(&(d->*f)); names = S(f.name()); });
  CHECK((got == std::vector<const void*>{&d.a, &d.b}) && names == "b", "fields of Dup");
  std::array<int, 3> a{4, 5, 6};
  int sum = 0;
  best::fields(a).apply([&](auto&... x) { CHECK(((&x >= &a[0] && &x <= &a[2]) && ...), "fields of an array"); sum = (0 + ... + x); });
  CHECK(sum == 15, "fields of an array");
  CHECK((best::is_reflected_struct<Mixed> && best::is_reflected_struct<const Mixed&> && !best::is_reflected_enum<Mixed> && !best::reflected<int> &&
         !best::reflected<int*> && !best::reflected<void>), "reflected");
}
}  // namespace
#endif
