// U01: text encodings against the tables of the Unicode standard.
#include <stdlib.h>
#include <string.h>

#include <vector>

#include "best/text/ascii.h"
#include "best/text/rune.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
#include "mc.h"
#include "refenc.h"

namespace {
using best::encoding_error;
using best::rune;
using mc::Ctx;

// Exact-size heap buffers, so that any over-read is caught.
template <typename C>
C* buf(size_t n) {
  static C* bufs[8] = {};
  if (!bufs[n]) {
    mc::Internal in;
    bufs[n] = static_cast<C*>(malloc(n ? n * sizeof(C) : 1));
  }
  return n ? bufs[n] : bufs[n] + 1;  // The empty buffer may not be read at all.
}

// Everything about decoding one string of codes.
template <typename E>
void decoding(const best::code<E>* src, size_t n) {
  using C = best::code<E>;
  using R = Ref<E>;
  C* p = sizeof(C) * n ? buf<C>(n) : reinterpret_cast<C*>(buf<char>(0));
  memcpy(p, src, n * sizeof(C));
  best::span<const C> in(p, n);
  u32 r = 0;
  int len = R::decode(p, n, r);
  auto h = [&] { return hex(p, n); };

  best::span<const C> rest = in;
  auto d = rune::decode(&rest, E{});
  if (len > 0) {
    CHECK(d.ok().has_value(), "%s: %s does not decode, expected %x", R::name, h().c_str(), r);
    CHECK(d.ok()->to_int() == r, "%s: %s decodes to %x, expected %x", R::name, h().c_str(), d.ok()->to_int(), r);
    CHECK(rest.data().raw() == p + len && rest.size() == n - size_t(len), "%s: decoding %s consumes %zu codes, expected %d", R::name, h().c_str(), n - rest.size(), len);
  } else {
    CHECK(!d.ok().has_value(), "%s: ill-formed %s decodes to %x", R::name, h().c_str(), d.ok()->to_int());
    CHECK(rest.data().raw() == p && rest.size() == n, "%s: failing to decode %s advances the input", R::name, h().c_str());
    if (len == 0) CHECK(*d.err() == encoding_error::OutOfBounds, "%s: truncated %s is reported as invalid", R::name, h().c_str());
    if (len < 0 && n >= 4) CHECK(*d.err() == encoding_error::Invalid, "%s: ill-formed %s is reported as truncated", R::name, h().c_str());
  }

  // Backwards: the input ends with a well-formed rune iff some suffix is one.
  int blen = 0;
  u32 br = 0;
  for (int k = 1; k <= 4 && size_t(k) <= n; ++k) {
    u32 x;
    if (R::decode(p + n - k, size_t(k), x) == k) blen = k, br = x;
  }
  rest = in;
  auto b = rune::undecode(&rest, E{});
  if (blen > 0) {
    CHECK(b.ok().has_value(), "%s: %s does not decode backwards, expected %x", R::name, h().c_str(), br);
    CHECK(b.ok()->to_int() == br, "%s: %s decodes backwards to %x, expected %x", R::name, h().c_str(), b.ok()->to_int(), br);
    CHECK(rest.data().raw() == p && rest.size() == n - size_t(blen), "%s: decoding %s backwards consumes %zu codes, expected %d", R::name, h().c_str(), n - rest.size(), blen);
  } else {
    CHECK(!b.ok().has_value(), "%s: ill-formed %s decodes backwards to %x", R::name, h().c_str(), b.ok()->to_int());
    CHECK(rest.data().raw() == p && rest.size() == n, "%s: failing to decode %s backwards advances the input", R::name, h().c_str());
    if (n == 0) CHECK(*b.err() == encoding_error::OutOfBounds);
  }

  // Validation and boundaries.
  bool valid = true;
  bool bound[8] = {};
  for (size_t i = 0; i < n;) {
    u32 x;
    bound[i] = true;
    int l = R::decode(p + i, n - i, x);
    if (l <= 0) {
      valid = false;
      break;
    }
    i += size_t(l);
  }
  bound[n] = true;
  CHECK(rune::validate(in, E{}) == valid, "%s: %s validates as %s", R::name, h().c_str(), valid ? "ill-formed" : "well-formed");
  if (valid) {
    for (size_t i = 0; i <= n; ++i) CHECK(rune::is_boundary(in, i, E{}) == bound[i], "%s: is_boundary(%s, %zu) is %d", R::name, h().c_str(), i, !bound[i]);
  }
  CHECK(!rune::is_boundary(in, n + 1, E{}), "%s: is_boundary(%s) past the end", R::name, h().c_str());
}

// Everything about encoding one rune.
template <typename E>
void encoding(rune r) {
  using C = best::code<E>;
  using R = Ref<E>;
  u32 v = r.to_int();
  int len = R::size(v);
  auto sz = r.size(E{});
  CHECK(sz.ok().has_value() == (len > 0), "%s: size(%x) is %s", R::name, v, len > 0 ? "an error" : "not an error");
  if (len > 0) CHECK(*sz.ok() == size_t(len), "%s: size(%x) is %zu, expected %d", R::name, v, *sz.ok(), len);
  if (len > 0) CHECK(size_t(len) <= E::About.max_codes_per_rune, "%s: %x needs more codes than announced", R::name, v);
  for (size_t room = 0; room <= 5; ++room) {
    C* p = room ? buf<C>(room) : reinterpret_cast<C*>(buf<char>(0));
    for (size_t i = 0; i < room; ++i) p[i] = C(0x55);
    best::span<C> out(p, room);
    auto w = r.encode(&out, E{});
    if (len > 0 && size_t(len) <= room) {
      CHECK(w.ok().has_value(), "%s: %x does not encode into %zu codes", R::name, v, room);
      CHECK(w.ok()->data().raw() == p && w.ok()->size() == size_t(len), "%s: encoding %x returns %zu codes, expected %d", R::name, v, w.ok()->size(), len);
      CHECK(out.data().raw() == p + len && out.size() == room - size_t(len), "%s: encoding %x advances wrongly", R::name, v);
      u32 back = ~0u;
      CHECK(R::decode(p, size_t(len), back) == len && back == v, "%s: %x is encoded as %s", R::name, v, hex(p, size_t(len)).c_str());
      for (size_t i = size_t(len); i < room; ++i) CHECK(p[i] == C(0x55), "%s: encoding %x writes past its end", R::name, v);
    } else {
      CHECK(!w.ok().has_value(), "%s: %x encodes into %zu codes", R::name, v, room);
      CHECK(out.data().raw() == p && out.size() == room, "%s: failing to encode %x advances the output", R::name, v);
      if (len > 0) CHECK(*w.err() == encoding_error::OutOfBounds, "%s: no room for %x is reported as invalid", R::name, v);
      if (len < 0 && room >= 4) CHECK(*w.err() == encoding_error::Invalid, "%s: unencodable %x is reported as no room", R::name, v);
    }
  }
}

template <typename E>
void all_runes(Ctx& c) {
  using C = best::code<E>;
  using R = Ref<E>;
  c.bulk(0x110000, 4096, [&](u64 i) {
    bool sur = i >= 0xd800 && i < 0xe000;
    auto strict = rune::from_int(u32(i));
    auto loose = rune::from_int_allow_surrogates(u32(i));
    CHECK(strict.has_value() == !sur && loose.has_value(), "from_int(%x)", u32(i));
    encoding<E>(*loose);
    // Round trip, and order of consecutive runes.
    C a[4], b[4];
    auto x = loose->encode(best::span<C>(a, 4), E{});
    if (!x) return;
    decoding<E>(a, x.ok()->size());
    if (R::lex && i > 0) {
      auto y = rune::from_int_allow_surrogates(u32(i - 1))->encode(best::span<C>(b, 4), E{});
      if (y) CHECK(*y.ok() < *x.ok(), "%s: the encoding of %x is not ordered before that of %x", R::name, u32(i - 1), u32(i));
    }
  });
  static_assert(E::About.is_universal == R::universal);
  static_assert(E::About.allows_surrogates == R::surrogates);
  static_assert(E::About.is_self_syncing);
  static_assert(E::About.is_lexicographic == R::lex);
}
SCENARIO_T(runes_utf8, "every rune (and surrogate), every room 0..5", 0, all_runes<best::utf8>);
SCENARIO_T(runes_wtf8, "every rune (and surrogate), every room 0..5", 0, all_runes<best::wtf8>);
SCENARIO_T(runes_utf16, "every rune (and surrogate), every room 0..5", 0, all_runes<best::utf16>);
SCENARIO_T(runes_utf32, "every rune (and surrogate), every room 0..5", 0, all_runes<best::utf32>);
SCENARIO_T(runes_ascii, "every rune (and surrogate), every room 0..5", 0, all_runes<best::ascii>);
SCENARIO_T(runes_latin1, "every rune (and surrogate), every room 0..5", 0, all_runes<best::latin1>);

SCENARIO(not_runes, "every 32-bit integer around the limits, and one per 4096 beyond", 0) {
  c.bulk(0x100000, 4096, [&](u64 i) {
    for (u32 v : {u32(i * 4096), u32(0x110000 + i), u32(0 - i - 1), u32(0x80000000u + i), u32(0x7fffffff - i)}) {
      bool uni = v <= 0x10ffff, sur = v >= 0xd800 && v <= 0xdfff;
      CHECK(rune::from_int(v).has_value() == (uni && !sur), "from_int(%x)", v);
      CHECK(rune::from_int_allow_surrogates(v).has_value() == uni, "from_int_allow_surrogates(%x)", v);
      CHECK(rune::from_int(int32_t(v)).has_value() == (uni && !sur), "from_int(int %x)", v);
      CHECK(rune::from_int_allow_surrogates(int32_t(v)).has_value() == uni, "from_int_allow_surrogates(int %x)", v);
    }
  });
}

// Byte strings.
const u8 kClass[] = {0x00, 0x41, 0x42, 0x61, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2,
                     0xc3, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb,
                     0xfc, 0xfe, 0xff};
const u8 kFew[] = {0x41, 0x7f, 0x80, 0x90, 0xa0, 0xbf, 0xc2, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xff};
template <typename E>
void bytes12(Ctx& c) {
  if (c.flip()) {
    c.bulk(0x10000, 2048, [&](u64 i) {
      char s[2] = {char(i >> 8), char(i)};
      decoding<E>(s, 2);
    });
  } else {
    c.bulk(257, 257, [&](u64 i) {
      char s[1] = {char(i)};
      decoding<E>(s, i < 256 ? 1 : 0);
    });
  }
}
template <typename E, bool all>
void bytes3(Ctx& c) {
  if (all || c.thorough()) {
    c.bulk(1 << 24, 1 << 16, [&](u64 i) {
      char s[3] = {char(i >> 16), char(i >> 8), char(i)};
      decoding<E>(s, 3);
    });
  } else {
    constexpr u64 N = sizeof(kClass);
    c.bulk(256 * N * 256, 1 << 14, [&](u64 i) {
      char s[3] = {char(i / N / 256), char(kClass[i / 256 % N]), char(i)};
      decoding<E>(s, 3);
    });
  }
}
template <typename E>
void bytes4(Ctx& c) {
  constexpr u64 N = sizeof(kClass);
  c.bulk(N * N * N * N, 1 << 14, [&](u64 i) {
    char s[4] = {char(kClass[i % N]), char(kClass[i / N % N]), char(kClass[i / N / N % N]), char(kClass[i / N / N / N])};
    decoding<E>(s, 4);
  });
}
template <typename E>
void bytes5(Ctx& c) {
  constexpr u64 N = sizeof(kFew);
  c.bulk(N * N * N * N * N, 1 << 14, [&](u64 i) {
    char s[5];
    for (char& x : s) x = char(kFew[i % N]), i /= N;
    decoding<E>(s, 5);
  });
}
template <typename E>
void bytes4all(Ctx& c) {
  c.bulk(u64(1) << 31, 1 << 20, [&](u64 i) {  // (those starting with ASCII are 3-byte strings in disguise)
    char s[4] = {char(i >> 24 | 0x80), char(i >> 16), char(i >> 8), char(i)};
    decoding<E>(s, 4);
  });
}
SCENARIO_T(short_utf8, "every string of up to 2 bytes", 0, bytes12<best::utf8>);
SCENARIO_T(short_wtf8, "every string of up to 2 bytes", 0, bytes12<best::wtf8>);
SCENARIO_T(short_ascii, "every string of up to 2 bytes", 0, bytes12<best::ascii>);
SCENARIO_T(short_latin1, "every string of up to 2 bytes", 0, bytes12<best::latin1>);
SCENARIO_T(three_utf8, "every string of 3 bytes", 0, bytes3<best::utf8, true>);
SCENARIO_T(three_wtf8, "every string of 3 bytes (second byte: 35 classes; thorough: all)", 0, bytes3<best::wtf8, false>);
SCENARIO_T(four_utf8, "every string of 4 bytes of 35 classes", 0, bytes4<best::utf8>);
SCENARIO_T(four_wtf8, "every string of 4 bytes of 35 classes", 0, bytes4<best::wtf8>);
SCENARIO_T(five_utf8, "every string of 5 bytes of 14 classes", 0, bytes5<best::utf8>);
SCENARIO_T(five_wtf8, "every string of 5 bytes of 14 classes", 0, bytes5<best::wtf8>);
SCENARIO_T(allfour_utf8, "every string of 4 bytes not starting with ASCII", mc::ThoroughOnly, bytes4all<best::utf8>);

const char16_t kUnits[] = {0, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xdffe, 0xdfff, 0xe000, 0xfffd, 0xffff};
SCENARIO(units16, "every UTF-16 string of up to 1 unit, of 2 with either one of 20 classes, of 3 and 4 of 20 classes", 0) {
  constexpr u64 N = std::size(kUnits);
  switch (c.pick(4)) {
    case 0:
      c.bulk(0x10001, 4096, [&](u64 i) {
        char16_t s[1] = {char16_t(i)};
        decoding<best::utf16>(s, i < 0x10000 ? 1 : 0);
      });
      break;
    case 1:
      c.bulk(0x10000 * N, 1 << 14, [&](u64 i) {
        char16_t s[2] = {char16_t(i / N), kUnits[i % N]};
        decoding<best::utf16>(s, 2);
        std::swap(s[0], s[1]);
        decoding<best::utf16>(s, 2);
      });
      break;
    case 2:
      c.bulk(N * N * N, 1 << 12, [&](u64 i) {
        char16_t s[3] = {kUnits[i % N], kUnits[i / N % N], kUnits[i / N / N]};
        decoding<best::utf16>(s, 3);
      });
      break;
    case 3:
      c.bulk(N * N * N * N, 1 << 12, [&](u64 i) {
        char16_t s[4] = {kUnits[i % N], kUnits[i / N % N], kUnits[i / N / N % N], kUnits[i / N / N / N]};
        decoding<best::utf16>(s, 4);
      });
      break;
  }
}
SCENARIO(surrogate_pairs, "every high surrogate with every low surrogate", 0) {
  c.bulk(1024 * 1024, 1 << 14, [&](u64 i) {
    char16_t s[2] = {char16_t(0xd800 + i / 1024), char16_t(0xdc00 + i % 1024)};
    decoding<best::utf16>(s, 2);
  });
}
const char32_t kWide[] = {0, 0x41, 0x7f, 0x80, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff};
SCENARIO(units32, "every UTF-32 string of up to 1 unit below 0x120000, of up to 3 of 17 classes", 0) {
  constexpr u64 N = std::size(kWide);
  switch (c.pick(3)) {
    case 0:
      c.bulk(0x120001, 1 << 14, [&](u64 i) {
        char32_t s[1] = {char32_t(i)};
        decoding<best::utf32>(s, i < 0x120000 ? 1 : 0);
      });
      break;
    case 1:
      c.bulk(N * N, 1 << 12, [&](u64 i) {
        char32_t s[2] = {kWide[i % N], kWide[i / N]};
        decoding<best::utf32>(s, 2);
      });
      break;
    case 2:
      c.bulk(N * N * N, 1 << 12, [&](u64 i) {
        char32_t s[3] = {kWide[i % N], kWide[i / N % N], kWide[i / N / N]};
        decoding<best::utf32>(s, 3);
      });
      break;
  }
}
}  // namespace
