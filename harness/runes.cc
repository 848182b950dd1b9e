// R01: classification, digits and escapes of every rune.
#include <ctype.h>
#include <string.h>

#include <string>

#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/utf8.h"
#include "mc.h"

namespace {
using best::rune;
using mc::Ctx;
using u32 = uint32_t;
using u64 = uint64_t;

rune mk(u32 v) { return *rune::from_int_allow_surrogates(v); }
std::string S(const best::strbuf& s) { return std::string(s.data(), s.size()); }

std::string utf8(u32 v) {
  std::string s;
  if (v < 0x80) s += char(v);
  else if (v < 0x800) s += char(0xc0 | v >> 6), s += char(0x80 | (v & 63));
  else if (v < 0x10000) s += char(0xe0 | v >> 12), s += char(0x80 | (v >> 6 & 63)), s += char(0x80 | (v & 63));
  else s += char(0xf0 | v >> 18), s += char(0x80 | (v >> 12 & 63)), s += char(0x80 | (v >> 6 & 63)), s += char(0x80 | (v & 63));
  return s;
}

SCENARIO(classes, "every rune and unpaired surrogate: every predicate, case mapping, niche and order", 0) {
  c.bulk(0x110000, 4096, [&](u64 i) {
    u32 v = u32(i);
    rune r = mk(v);
    bool a = v < 128;
    int ch = int(v);
#define P(f_, want_) CHECK(r.f_() == bool(want_), "U+%04X." #f_ "() is %d", v, !bool(want_))
    P(is_ascii, a);
    P(is_ascii_alpha, a && isalpha(ch));
    P(is_ascii_alnum, a && isalnum(ch));
    P(is_ascii_control, a && iscntrl(ch));
    P(is_ascii_digit, a && isdigit(ch));
    P(is_ascii_hex, a && isxdigit(ch));
    P(is_ascii_lower, a && islower(ch));
    P(is_ascii_upper, a && isupper(ch));
    P(is_ascii_punct, a && ispunct(ch));
    P(is_ascii_space, v == ' ' || v == '\t' || v == '\n' || v == '\f' || v == '\r');
    P(is_unpaired_surrogate, v >= 0xd800 && v <= 0xdfff);
    P(is_low_surrogate, v >= 0xdc00 && v <= 0xdfff);
    P(is_high_surrogate, v >= 0xd800 && v <= 0xdbff);
    CHECK(r.to_ascii_lower().to_int() == (a ? u32(tolower(ch)) : v), "U+%04X to lower", v);
    CHECK(r.to_ascii_upper().to_int() == (a ? u32(toupper(ch)) : v), "U+%04X to upper", v);
    CHECK(r.to_int() == v && u32(r) == v, "U+%04X to int", v);
    best::option<rune> o(r);
    CHECK(o.has_value() && *o == r, "U+%04X does not survive an option", v);
    if (v > 0) CHECK(mk(v - 1) < r && mk(v - 1) != r, "U+%04X order", v);
  });
}
SCENARIO(from_ints, "integers to runes: 0..2097151 and 4096 values on each side of every multiple of 2^24 (thorough: all 2^32)", 0) {
  auto check = [&](u32 v) {
    bool sur = v >= 0xd800 && v <= 0xdfff, uni = v <= 0x10ffff;
    auto a = rune::from_int(v), b = rune::from_int(int32_t(v)), d = rune::from_int_allow_surrogates(v), e = rune::from_int_allow_surrogates(int32_t(v));
    CHECK(a.has_value() == (uni && !sur) && b.has_value() == (uni && !sur), "from_int(0x%x) %s", v, a ? "has a value" : "has no value");
    CHECK(d.has_value() == uni && e.has_value() == uni, "from_int_allow_surrogates(0x%x) %s", v, d ? "has a value" : "has no value");
    if (a) CHECK(a->to_int() == v && b->to_int() == v, "from_int(0x%x) is U+%04X", v, a->to_int());
    if (d) CHECK(d->to_int() == v && e->to_int() == v, "from_int_allow_surrogates(0x%x) is U+%04X", v, d->to_int());
  };
  if (c.thorough()) c.bulk(0x10000, 1, [&](u64 i) { for (u32 k = 0; k < 0x10000; ++k) check(u32(i) << 16 | k); });
  else c.bulk(0x400000, 4096, [&](u64 i) { check(i < 0x200000 ? u32(i) : u32((i - 0x200000) / 8192 << 24) + u32(i % 8192) - 4096); });
}
SCENARIO(digits, "every rune below U+0200 (and a few others) in every radix 0..40; every digit 0..80 in every radix", 0) {
  c.bulk(41, 1, [&](u64 i) {
    u32 radix = u32(i);
    if (radix > 36) {
      CHECK(mc::crashes([&] { (void)mk('0').to_digit(radix); }), "to_digit in radix %u does not crash", radix);
      CHECK(mc::crashes([&] { (void)mk('0').is_digit(radix); }), "is_digit in radix %u does not crash", radix);
      CHECK(mc::crashes([&] { (void)rune::from_digit(0, radix); }), "from_digit in radix %u does not crash", radix);
      return;
    }
    for (u32 v = 0; v < 0x200 + 4; ++v) {
      u32 cp = v < 0x200 ? v : (const u32[]){0xff10, 0x0660, 0x10ffff, 0xd830}[v - 0x200];
      u32 want = 99;
      if (cp >= '0' && cp <= '9') want = cp - '0';
      if (cp >= 'a' && cp <= 'z') want = cp - 'a' + 10;
      if (cp >= 'A' && cp <= 'Z') want = cp - 'A' + 10;
      auto d = mk(cp).to_digit(radix);
      CHECK(d.has_value() == (want < radix), "U+%04X.to_digit(%u) %s", cp, radix, d ? "has a value" : "has no value");
      if (d) CHECK(*d == want, "U+%04X.to_digit(%u) is %u", cp, radix, *d);
      CHECK(mk(cp).is_digit(radix) == (want < radix), "U+%04X.is_digit(%u)", cp, radix);
    }
    for (u64 w : {u64(0), u64(80), u64(0xffffffff)})
      for (u32 n = u32(w > 80 ? w - 3 : 0); n <= w && n >= (w > 80 ? 1u : 0u); ++n) {
        auto d = rune::from_digit(n, radix);
        CHECK(d.has_value() == (n < radix), "from_digit(%u, %u)", n, radix);
        if (d) {
          CHECK(d->to_int() == u32("0123456789abcdefghijklmnopqrstuvwxyz"[n]), "from_digit(%u, %u) is U+%04X", n, radix, d->to_int());
          CHECK(d->to_digit(radix) == n);
        }
        if (n == 0xffffffff) break;
      }
  });
}
std::string escape(u32 v) {
  switch (v) {
    case '\'': return "\\'";
    case '"': return "\\\"";
    case '\\': return "\\\\";
    case 0: return "\\0";
    case '\a': return "\\a";
    case '\b': return "\\b";
    case '\f': return "\\f";
    case '\n': return "\\n";
    case '\r': return "\\r";
    case '\t': return "\\t";
    case '\v': return "\\v";
    case 0x200d: return "\\u200D";
  }
  if (v < 32 || v == 127) {
    char b[8];
    snprintf(b, sizeof b, "\\x%02x", v);
    return b;
  }
  return utf8(v);
}
SCENARIO(escapes, "every rune: printed, quoted and escaped", 0) {
  c.bulk(0x110000, 4096, [&](u64 i) {
    u32 v = u32(i);
    if (v >= 0xd800 && v < 0xe000) return;
    rune r = mk(v);
    CHECK(S(best::format("{}", r)) == utf8(v), "U+%04X prints as %s", v, S(best::format("{}", r)).c_str());
    std::string e = escape(v);
    if (v < 0x3000 || i % 16 == 0 || c.thorough()) {
      std::string g = S(best::format("{}", r.escaped()));
      CHECK(strcasecmp(g.c_str(), e.c_str()) == 0, "U+%04X is escaped as %s, expected %s", v, g.c_str(), e.c_str());
      g = S(best::format("{:?}", r));
      CHECK(strcasecmp(g.c_str(), ("'" + e + "'").c_str()) == 0, "U+%04X is debug-printed as %s, expected '%s'", v, g.c_str(), e.c_str());
      CHECK(S(best::format("{:q}", r)) == g, "U+%04X: {:q} differs from {:?}", v);
    }
  });
}
SCENARIO(fresh, "default construction", 0) {
  alignas(rune) unsigned char mem[sizeof(rune)];
  memset(mem, c.pick(256), sizeof mem);
  c.step();
  rune* r = new (mem) rune();
  CHECK(r->to_int() == 0, "a default rune is U+%04X", r->to_int());
  rune* q = new (mem) rune;
  memset(mem, 0xa5, sizeof mem);
  q = new (mem) rune;
  CHECK(q->to_int() == 0, "a default rune is U+%04X", q->to_int());
}
}  // namespace
