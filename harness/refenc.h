// Reference encoders and decoders, from the tables of the Unicode standard.
#ifndef VERIF_REFENC_H_
#define VERIF_REFENC_H_
#include <stdio.h>

#include <string>
#include <vector>

#include "best/text/ascii.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"

namespace {
using u8 = unsigned char;
using u32 = uint32_t;
using u64 = uint64_t;

// The reference. Each decoder returns the length of the well-formed rune the
// input starts with, 0 if the input is a proper prefix of one (or empty), and
// -1 otherwise.
template <bool wobbly>
int ref8(const char* p_, size_t n, u32& r) {
  auto p = reinterpret_cast<const u8*>(p_);
  if (n == 0) return 0;
  if (p[0] < 0x80) return r = p[0], 1;
  int len;
  u8 lo = 0x80, hi = 0xbf;  // Table 3-7 of the Unicode standard.
  if (p[0] >= 0xc2 && p[0] <= 0xdf) len = 2, r = p[0] - 0xc0;
  else if (p[0] >= 0xe0 && p[0] <= 0xef) {
    len = 3, r = p[0] - 0xe0;
    if (p[0] == 0xe0) lo = 0xa0;
    if (p[0] == 0xed && !wobbly) hi = 0x9f;
  } else if (p[0] >= 0xf0 && p[0] <= 0xf4) {
    len = 4, r = p[0] - 0xf0;
    if (p[0] == 0xf0) lo = 0x90;
    if (p[0] == 0xf4) hi = 0x8f;
  } else return -1;
  for (int i = 1; i < len; ++i) {
    if (size_t(i) >= n) return 0;
    if (p[i] < lo || p[i] > hi) return -1;
    r = r * 64 + (p[i] - 0x80);
    lo = 0x80, hi = 0xbf;
  }
  return len;
}
template <typename E>
struct Ref;
template <>
struct Ref<best::utf8> {
  static constexpr bool universal = true, surrogates = false, lex = true;
  static int decode(const char* p, size_t n, u32& r) { return ref8<false>(p, n, r); }
  static int size(u32 r) { return r < 0x80 ? 1 : r < 0x800 ? 2 : r >= 0xd800 && r < 0xe000 ? -1 : r < 0x10000 ? 3 : 4; }
  static constexpr const char* name = "utf8";
};
template <>
struct Ref<best::wtf8> {
  static constexpr bool universal = true, surrogates = true, lex = true;
  static int decode(const char* p, size_t n, u32& r) { return ref8<true>(p, n, r); }
  static int size(u32 r) { return r < 0x80 ? 1 : r < 0x800 ? 2 : r < 0x10000 ? 3 : 4; }
  static constexpr const char* name = "wtf8";
};
template <>
struct Ref<best::utf16> {
  static constexpr bool universal = true, surrogates = false, lex = false;
  static int decode(const char16_t* p, size_t n, u32& r) {
    if (n == 0) return 0;
    if (p[0] < 0xd800 || p[0] > 0xdfff) return r = p[0], 1;
    if (p[0] > 0xdbff) return -1;
    if (n == 1) return 0;
    if (p[1] < 0xdc00 || p[1] > 0xdfff) return -1;
    r = 0x10000 + (u32(p[0]) - 0xd800) * 1024 + (u32(p[1]) - 0xdc00);
    return 2;
  }
  static int size(u32 r) { return r >= 0xd800 && r < 0xe000 ? -1 : r < 0x10000 ? 1 : 2; }
  static constexpr const char* name = "utf16";
};
template <>
struct Ref<best::utf32> {
  static constexpr bool universal = true, surrogates = false, lex = true;
  static int decode(const char32_t* p, size_t n, u32& r) {
    if (n == 0) return 0;
    if (p[0] > 0x10ffff || (p[0] >= 0xd800 && p[0] <= 0xdfff)) return -1;
    return r = p[0], 1;
  }
  static int size(u32 r) { return r >= 0xd800 && r < 0xe000 ? -1 : 1; }
  static constexpr const char* name = "utf32";
};
template <>
struct Ref<best::ascii> {
  static constexpr bool universal = false, surrogates = false, lex = true;
  static int decode(const char* p, size_t n, u32& r) {
    if (n == 0) return 0;
    if (u8(p[0]) > 127) return -1;
    return r = u8(p[0]), 1;
  }
  static int size(u32 r) { return r < 128 ? 1 : -1; }
  static constexpr const char* name = "ascii";
};
template <>
struct Ref<best::latin1> {
  static constexpr bool universal = false, surrogates = false, lex = true;
  static int decode(const char* p, size_t n, u32& r) {
    if (n == 0) return 0;
    return r = u8(p[0]), 1;
  }
  static int size(u32 r) { return r < 256 ? 1 : -1; }
  static constexpr const char* name = "latin1";
};

template <typename C>
std::string hex(const C* p, size_t n) {
  std::string s;
  char b[16];
  for (size_t i = 0; i < n; ++i) {
    snprintf(b, sizeof b, "%s%x", i ? " " : "", unsigned(p[i]) & (sizeof(C) == 1 ? 0xff : ~0u));
    s += b;
  }
  return s;
}


// Appends the encoding of r; false if it has none.
template <typename E>
bool ref_encode(std::basic_string<best::code<E>>& out, u32 r) {
  using C = best::code<E>;
  int k = Ref<E>::size(r);
  if (k < 0) return false;
  if constexpr (sizeof(C) == 1 && Ref<E>::universal) {
    if (k == 1) out += C(r);
    if (k == 2) out += C(0xc0 | r >> 6), out += C(0x80 | (r & 63));
    if (k == 3) out += C(0xe0 | r >> 12), out += C(0x80 | (r >> 6 & 63)), out += C(0x80 | (r & 63));
    if (k == 4) out += C(0xf0 | r >> 18), out += C(0x80 | (r >> 12 & 63)), out += C(0x80 | (r >> 6 & 63)), out += C(0x80 | (r & 63));
  } else if (k == 2) {
    out += C(0xd800 + ((r - 0x10000) >> 10)), out += C(0xdc00 + ((r - 0x10000) & 1023));
  } else {
    out += C(r);
  }
  return true;
}

// A decoded item: a rune, or Err for one ill-formed code.
constexpr u32 Err = ~u32(0);
struct Item {
  u32 r;
  size_t at, len;
};
template <typename E>
std::vector<Item> ref_items(const best::code<E>* p, size_t n) {
  std::vector<Item> v;
  for (size_t i = 0; i < n;) {
    u32 r = 0;
    int k = Ref<E>::decode(p + i, n - i, r);
    if (k <= 0) r = Err, k = 1;
    v.push_back({r, i, size_t(k)});
    i += size_t(k);
  }
  return v;
}
}  // namespace
#endif
