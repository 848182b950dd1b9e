// F01: numbers. F02: templates. F03: strings and structured output.
#include <stdio.h>
#include <string.h>

#include <optional>
#include <string>
#include <vector>

#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/text/format.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "mc.h"
#include "refenc.h"

#ifndef FMT_PART
#define FMT_PART 1
#endif

namespace fmtv {
using mc::Ctx;
using W = __int128;
using Sp = best::format_spec;
using S = std::string;

template <typename T>
struct With {
  const Sp& spec;
  const T& value;
  friend void BestFmt(auto& fmt, const With& w) { fmt.format(w.spec, w.value); }
};
template <typename T>
S render(const Sp& spec, const T& value) {
  best::strbuf out = best::format("{:?}", With<T>{spec, value});
  return S(out.data(), out.size());
}
S u8s(u32 r) {
  S s;
  if (!ref_encode<best::utf8>(s, r)) ref_encode<best::utf8>(s, 0xfffd);
  return s;
}
S show(const Sp& s) {
  char b[200];
  snprintf(b, sizeof b, "{alt=%d debug=%d zero=%d align=%d fill=%x width=%u prec=%d method=%c}", s.alt, s.debug, s.sign_aware_padding,
           s.alignment ? int(*s.alignment) : -1, s.fill.to_int(), s.width, s.prec ? int(*s.prec) : -1, s.method ? char(s.method->to_int()) : '-');
  return b;
}
S pad(const Sp& s, const S& body, size_t runes, int dflt) {
  size_t p = s.width > runes ? s.width - runes : 0;
  int al = s.alignment ? int(*s.alignment) : dflt;
  size_t pre = al == 0 ? 0 : al == 1 ? p / 2 : p;
  S out;
  for (size_t i = 0; i < pre; ++i) out += u8s(s.fill.to_int());
  out += body;
  for (size_t i = pre; i < p; ++i) out += u8s(s.fill.to_int());
  return out;
}

// -------------------------------------------------------------- numbers
S number(const Sp& s, W v) {
  unsigned base = 10;
  S prefix;
  bool up = false;
  switch (s.method ? s.method->to_int() : 0) {
    case 'b': base = 2, prefix = "0b"; break;
    case 'o': base = 8, prefix = "0"; break;
    case 'X': up = true;
    case 'x': base = 16, prefix = "0x"; break;
  }
  S head = v < 0 ? "-" : "", digits;
  if (s.alt) head += prefix;
  unsigned __int128 m = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
  do digits.insert(digits.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[m % base]);
  while (m /= base);
  if (s.sign_aware_padding) {
    while (head.size() + digits.size() < s.width) digits.insert(digits.begin(), '0');
    return head + digits;
  }
  return pad(s, head + digits, head.size() + digits.size(), 2);
}
template <typename F>
void specs(Ctx& c, const std::vector<unsigned>& widths, const char* methods, F f) {
  Sp s;
  for (int alt = 0; alt < 2; ++alt)
  for (const char* m = methods;; ++m) {
    s.alt = alt;
    s.method = best::none;
    if (*m) s.method = *best::rune::from_int(*m);
    for (unsigned w : widths) {
      s.width = w;
      s.debug = false;
      s.fill = ' ';
      s.alignment = best::none;
      s.sign_aware_padding = false;
      f(s);
      s.sign_aware_padding = w > 0;
      f(s);
      s.debug = true;
      f(s);
      s.debug = false;
      s.sign_aware_padding = false;
      for (u32 fill : {u32(' '), u32('0'), 0xe9u, 0x1f600u}) {
        s.fill = *best::rune::from_int(fill);
        s.alignment = best::none;
        if (fill != ' ') f(s);
        for (auto al : {Sp::Left, Sp::Center, Sp::Right}) {
          s.alignment = al;
          f(s);
        }
      }
    }
    if (!*m) break;
  }
}
template <typename T>
W wide(T x) {
  if constexpr (std::is_same_v<T, std::byte>) return W(unsigned(x));
  else return W(x);
}
template <typename T>
const std::vector<T>& values() {
  static std::vector<T> v = [] {
    std::vector<T> r;
    if (sizeof(T) == 1) {
      for (int i = 0; i < 256; ++i) r.push_back(T(i));
      return r;
    }
    if constexpr (!std::is_same_v<T, std::byte>) {
      using U = std::make_unsigned_t<T>;
      auto add = [&](U x) {
        for (T y : r)
          if (y == T(x)) return;
        r.push_back(T(x));
      };
      for (int b = 0; b < int(8 * sizeof(T)); b += 3)
        for (int d = -1; d <= 1; ++d) add(U(U(1) << b) + U(d)), add(U(0) - (U(U(1) << b) + U(d)));
      for (U p = 1;; p = U(p * 10)) {
        add(p), add(U(p - 1)), add(U(0) - p);
        if (p > U(-1) / 10) break;
      }
      for (int d = -2; d <= 2; ++d) add(U(U(U(1) << (8 * sizeof(T) - 1)) + U(d)));
    }
    return r;
  }();
  return v;
}
template <typename T>
void numbers(Ctx& c) {
  auto& vs = values<T>();
  std::vector<unsigned> widths{0, 1, 3, 9, 20};
  if (c.thorough()) widths = {0, 1, 2, 3, 4, 5, 9, 10, 11, 20, 66, 130};
  c.bulk(vs.size(), 4, [&](u64 i) {
    T v = vs[i];
    specs(c, widths, "boxX", [&](const Sp& s) {
      S got = render(s, v), want = number(s, wide(v));
      CHECK(got == want, "%lld with %s: \"%s\", expected \"%s\"", (long long)wide(v), show(s).c_str(), got.c_str(), want.c_str());
    });
  });
}
template <typename T>
void all16(Ctx& c) {
  c.bulk(65536, 1024, [&](u64 i) {
    T v = T(i);
    char want[32];
    auto same = [&](const best::strbuf& g, const char* t) { CHECK(S(g.data(), g.size()) == want, "%d as %s: \"%s\"", int(v), t, S(g.data(), g.size()).c_str()); };
    snprintf(want, sizeof want, "%d", int(v));
    same(best::format("{}", v), "{}");
    same(best::format("{:?}", v), "{:?}");
    snprintf(want, sizeof want, "%8d", int(v));
    same(best::format("{:8}", v), "{:8}");
    snprintf(want, sizeof want, "%08d", int(v));
    same(best::format("{:08}", v), "{:08}");
    snprintf(want, sizeof want, "%-8d|", int(v));
    same(best::format("{:<8}|", v), "{:<8}|");
    if (v >= 0) {
      snprintf(want, sizeof want, "%#o %x %X %#x", int(v), int(v), int(v), int(v));
      if (v == 0) strcpy(want, "00 0 0 0x0");
      same(best::format("{0:#o} {0:x} {0:X} {0:#x}", v), "{0:#o} {0:x} {0:X} {0:#x}");
    }
  });
}
void pointers(Ctx& c) {
  int x = 0;
  struct Big {
    long a[5];
  } big{};
  int* p = c.flip() ? &x : nullptr;
  char want[32];
  snprintf(want, sizeof want, "%#lx", (unsigned long)p);
  if (!p) strcpy(want, "0x0");
  Sp s;
  s.method = best::rune('p');
  CHECK(render(s, p) == want, "{:p} of a pointer: %s", render(s, p).c_str());
  CHECK(render(s, (const int*)p) == want && render(s, (void*)p) == want, "{:p} of a pointer");
  CHECK(render(s, best::ptr<int>(p)) == want && render(Sp{}, best::ptr<int>(p)) == want, "best::ptr");
  CHECK(render(Sp{}, p) == (p ? want : "nullptr"), "{} of a pointer: %s", render(Sp{}, p).c_str());
  const char* str = "text";
  snprintf(want, sizeof want, "%#lx", (unsigned long)str);
  CHECK(render(s, str) == want && render(Sp{}, str) == "text", "C string");
  best::box<int> b(42);
  snprintf(want, sizeof want, "%#lx", (unsigned long)b.as_ptr().raw());
  CHECK(render(s, b) == want, "{:p} of a box: \"%s\", expected %s", render(s, b).c_str(), want);
  CHECK(render(Sp{}, b) == "42", "{} of a box");
  s.method = best::rune('x');
  CHECK(render(s, b) == "2a", "{:x} of a box");
  (void)big;
  c.step();
  c.state(p != nullptr);
}

// ------------------------------------------------------------- templates
struct Ev {
  S text;  // if arg < 0
  long arg = -1;
  Sp spec;
};
struct Parsed {
  bool ok = true, skip = false;
  std::vector<Ev> evs;
  void text(const S& s) {
    if (!evs.empty() && evs.back().arg < 0) evs.back().text += s;
    else evs.push_back({s});
  }
};
// The documented grammar, by recursive descent.
Parsed parse(const S& t) {
  Parsed out;
  size_t i = 0;
  long next = 0;
  auto bad = [&] {
    out.ok = false;
    return out;
  };
  auto peek = [&](size_t k = 0) { return i + k < t.size() ? t[i + k] : '\0'; };
  auto num = [&](unsigned& v) {
    if (!isdigit(peek())) return false;
    unsigned long long w = 0;
    bool big = false;
    while (i < t.size() && isdigit(peek())) {
      w = w * 10 + (t[i++] - '0');
      if (w >= 0xffffffffull) big = true, w = 0;
    }
    v = unsigned(w);
    return !big;
  };
  while (i < t.size()) {
    if (t[i] == '}') {
      if (peek(1) != '}') return bad();
      out.text("}");
      i += 2;
      continue;
    }
    if (t[i] != '{') {
      out.text(S(1, t[i++]));
      continue;
    }
    if (peek(1) == '{') {
      out.text("{");
      i += 2;
      continue;
    }
    ++i;
    Ev e;
    if (isdigit(peek())) {
      unsigned v;
      if (!num(v)) return bad();
      e.arg = v;
    } else e.arg = next++;
    if (peek() == ':') {
      ++i;
      if (peek() == '!') {
        ++i;
        e.spec.pass_through = e.spec.debug = true;
        if (peek() != '}') {
          // Combinations of `!` with other flags or as a fill are unspecified.
          out.skip = true;
          return out;
        }
      }
      auto align = [](char ch) { return ch == '<' || ch == '^' || ch == '>'; };
      bool aligned = true;
      if (i + 1 < t.size() && align(peek(1))) {
        if (peek() == '{' || peek() == '}') {
          out.skip = true;  // A brace as a fill is ambiguous.
          return out;
        }
        e.spec.fill = *best::rune::from_int(u8(peek()));
        ++i;
      } else if (!align(peek())) aligned = false;
      if (aligned) e.spec.alignment = peek() == '<' ? Sp::Left : peek() == '^' ? Sp::Center : Sp::Right, ++i;
      if (peek() == '#') e.spec.alt = true, ++i;
      bool zero = peek() == '0';
      if (zero) {
        if (aligned) return bad();
        e.spec.sign_aware_padding = true, ++i;
      }
      if (isdigit(peek())) {
        if (!num(e.spec.width) || e.spec.width == 0) return bad();
      } else if (zero || aligned) return bad();
      if (peek() == '.') {
        ++i;
        unsigned p;
        if (!num(p)) return bad();
        e.spec.prec = p;
      }
      if (isalpha(peek())) e.spec.method = *best::rune::from_int(t[i++]);
      if (peek() == '?') e.spec.debug = true, ++i;
    }
    if (peek() != '}') return bad();
    ++i;
    out.evs.push_back(e);
  }
  return out;
}
void grammar_one(const S& t) {
  Parsed want = parse(t);
  if (want.skip) return;
  Parsed got;
  char* heap = new char[t.size()];
  memcpy(heap, t.data(), t.size());
  got.ok = best::format_internal::visit_template(
    (const char*)heap, t.size(),
    [&](best::str s) {
      got.text(S(s.data(), s.size()));
      return true;
    },
    [&](size_t n, const Sp& spec) {
      got.evs.push_back({"", long(n), spec});
      return true;
    });
  delete[] heap;
  CHECK(got.ok == want.ok, "template \"%s\" is %s", t.c_str(), got.ok ? "accepted" : "rejected");
  if (!want.ok) return;
  CHECK(got.evs.size() == want.evs.size(), "template \"%s\": %zu pieces, expected %zu", t.c_str(), got.evs.size(), want.evs.size());
  for (size_t k = 0; k < want.evs.size(); ++k) {
    auto &g = got.evs[k], &w = want.evs[k];
    CHECK(g.text == w.text && g.arg == w.arg, "template \"%s\", piece %zu: \"%s\"/%ld, expected \"%s\"/%ld", t.c_str(), k, g.text.c_str(), g.arg, w.text.c_str(), w.arg);
    if (w.arg >= 0) CHECK(g.spec == w.spec, "template \"%s\", piece %zu: %s%s, expected %s%s", t.c_str(), k, show(g.spec).c_str(), g.spec.pass_through ? "!" : "", show(w.spec).c_str(), w.spec.pass_through ? "!" : "");
  }
}
// Every string of up to `len` characters of `ab`, between two fixed ends.
void grammar(Ctx& c, const char* ab, int len, const char* pre, const char* post) {
  u64 n = strlen(ab), total = 0, pw = 1;
  for (int l = 0; l <= len; ++l) total += pw, pw *= n;
  c.bulk(total, 8192, [&](u64 i) {
    S t;
    u64 k = i, w = 1;
    int l = 0;
    while (k >= w) k -= w, w *= n, ++l;
    for (int j = 0; j < l; ++j) t += ab[k % n], k /= n;
    grammar_one(pre + t + post);
  });
}
void big_numbers(Ctx& c) {
  const char* forms[] = {"{%s}", "{%s:x}", "{:%s}", "{:0%s}", "{:<%s}", "{:.%s}", "{:5.%s?}", "{%s", "{:%s", "{:.%s", "{:é<%s}"};
  const char* nums[] = {"0",          "1",          "00",          "007",         "2147483647", "2147483648", "4294967293", "4294967294", "4294967295",
                        "4294967296", "4294967297", "04294967297", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999999"};
  const char* f = c.pick_of(forms);
  const char* n = c.pick_of(nums);
  char t[200];
  snprintf(t, sizeof t, f, n);
  c.note("%s", t);
  c.step();
  if (S(t).find("é") == S::npos) grammar_one(t);
}

// Which templates are accepted for which types, decided at compile time.
#define V(T_, t_) ([]<typename X>(X*) { return requires { best::format_template<X>(t_); }; }((T_*)nullptr))
struct Plain {
  friend void BestFmt(auto& fmt, const Plain&) { fmt.write("plain"); }
};
void literals(Ctx& c) {
  c.step();
#define YES(T_, t_) CHECK(V(T_, t_), "template " #t_ " is rejected for " #T_)
#define NO(T_, t_) CHECK(!V(T_, t_), "template " #t_ " is accepted for " #T_)
  YES(int, "");
  YES(int, "{}");
  YES(int, "{{}}{}");
  YES(int, "{0}{0}{0:x}");
  YES(int, "{:x}{{");
  YES(int, "{:5b}");
  YES(int, "{:#010X}");
  YES(int, "{:?}");
  NO(int, "{:q}");
  NO(int, "{:.3}");
  NO(int, "{}{}");
  NO(int, "{1}");
  NO(int, "{");
  NO(int, "}");
  NO(int, "{:");
  NO(int, "{0");
  NO(int, "{:5");
  NO(int, "{:4294967301}");
  NO(int, "{4294967296}");
  YES(best::str, "{:.3}");
  YES(best::str, "{:q}");
  YES(best::str, "{:*^7.3}");
  NO(best::str, "{:x}");
  YES(best::str, "{:?}");
  YES(Plain, "{:?}");
  YES(Plain, "{:!}");
  YES(Plain, "{0:!}");
  NO(Plain, "{}");
  NO(Plain, "{:5?}");
  NO(Plain, "{:.5?}");
  YES(best::rune, "{}");
  YES(best::rune, "{:q}");
  NO(best::rune, "{:x}");
  YES(bool, "{}");
  YES(bool, "{:?}");
  YES(char16_t, "{}");
  YES(char32_t, "{}");
  YES(char8_t, "{}");
  YES(std::byte, "{:02x}");
  YES(int*, "{:p}");
  NO(int*, "{:x}");
  YES(best::vec<int>, "{:x}");
  NO(best::vec<int>, "{:.2}");
}

// --------------------------------------------------------------- strings
S escape(u32 r) {
  switch (r) {
    case '\'': return "\\'";
    case '"': return "\\\"";
    case '\\': return "\\\\";
    case 0: return "\\0";
    case 7: return "\\a";
    case 8: return "\\b";
    case 12: return "\\f";
    case 10: return "\\n";
    case 13: return "\\r";
    case 9: return "\\t";
    case 11: return "\\v";
  }
  char b[8];
  if (r < 0x20 || r == 0x7f) return snprintf(b, sizeof b, "\\x%02x", r), b;
  if (r == 0x200d) return "\\u200D";
  return u8s(r);
}
template <typename E, bool kText>
void strings(Ctx& c, const std::vector<best::code<E>>& ab, int len) {
  std::basic_string<best::code<E>> s;
  int n = c.pick(len + 1);
  for (int i = 0; i < n; ++i) s += ab[c.pick(int(ab.size()))];
  best::code<E>* heap = new best::code<E>[s.size()];
  std::copy(s.begin(), s.end(), heap);
  best::pretext<E> p(best::span<const best::code<E>>(heap, s.size()));
  std::vector<u32> runes;
  for (auto& it : ref_items<E>(s.data(), s.size())) runes.push_back(it.r == Err ? 0xfffd : it.r);
  auto text = best::text<E>::from(p);
  if (kText && !text) {
    delete[] heap;
    throw mc::Skip{};
  }
  auto go = [&](const Sp& sp) {
    S got = kText ? render(sp, *text) : render(sp, p);
    S want;
    if (sp.method == 'q' || sp.debug) {
      want = "\"";
      for (u32 r : runes) want += escape(r);
      want += "\"";
    } else {
      size_t k = runes.size();
      if (sp.prec) k = std::min<size_t>(k, *sp.prec);
      for (size_t i = 0; i < k; ++i) want += u8s(runes[i]);
      want = pad(sp, want, k, 0);
    }
    CHECK(got == want, "%s [%s] with %s: \"%s\", expected \"%s\"", Ref<E>::name, hex(s.data(), s.size()).c_str(), show(sp).c_str(), got.c_str(), want.c_str());
    c.step();
  };
  Sp q;
  q.debug = true;
  go(q);
  q.debug = false;
  q.method = best::rune('q');
  go(q);
  for (int prec : {-1, 0, 1, 2, 3, 9, 0x7fffffff}) {
    for (unsigned w : {0u, 1u, 2u, 4u, 7u}) {
      Sp sp;
      sp.width = w;
      if (prec >= 0) sp.prec = unsigned(prec);
      go(sp);
      if (!w) continue;
      sp.fill = *best::rune::from_int(0xe9);
      go(sp);
      for (auto al : {Sp::Left, Sp::Center, Sp::Right}) {
        sp.alignment = al;
        go(sp);
      }
    }
  }
  // print() and friends write exactly that.
  if (kText && n <= 2) {
    mc::take_output();
    S want = render(Sp{}, *text);
    switch (c.pick(4)) {
      case 0: best::print("{}", *text); break;
      case 1: best::println("{}", *text), want += "\n"; break;
      case 2: best::eprint("{}", *text); break;
      case 3: best::eprintln("{}", *text), want += "\n"; break;
    }
    S got = mc::take_output();
    CHECK(got == want, "printed [%s], expected [%s]", hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str());
  }
  c.state(std::hash<S>()(S((char*)s.data(), s.size() * sizeof(best::code<E>))));
  delete[] heap;
}
void characters(Ctx& c) {
  c.bulk(0x110010, 8192, [&](u64 i) {
    auto want = [&](u32 r, const S& got, bool q, const char* what) {
      S w = q ? "'" + escape(r) + "'" : u8s(r);
      CHECK(got == w, "%s U+%04X: \"%s\", expected \"%s\"", what, r, got.c_str(), w.c_str());
    };
    Sp plain, debug;
    debug.debug = true;
    if (i < 256) {
      want(u32(i), render(plain, char8_t(i)), false, "char8_t");
      want(u32(i), render(debug, char8_t(i)), true, "char8_t");
    }
    if (i < 65536) {
      want(u32(i), render(plain, char16_t(i)), false, "char16_t");
      want(u32(i), render(debug, char16_t(i)), true, "char16_t");
    }
    if (i < 0x110000) {
      want(u32(i), render(plain, char32_t(i)), false, "char32_t");
      want(u32(i), render(debug, char32_t(i)), true, "char32_t");
    } else {
      char b[32];
      snprintf(b, sizeof b, "<U+%X>", unsigned(i));
      CHECK(render(plain, char32_t(i)) == b && render(debug, char32_t(i)) == "'" + S(b) + "'", "char32_t %x: %s", unsigned(i), render(plain, char32_t(i)).c_str());
    }
  });
}

// ------------------------------------------------------ structured output
struct Node {
  int kind;  // 0: string, 1: number, 2: rune, 3..5: list, tuple, record, 6: direct writes
  S str, title;
  int finish = 0;   // 0: destructor, 1: explicitly, 2: twice, and then ignored calls
  int advise = -1;  // advise_size()
  int spec = 0;     // how entries are formatted: 0 inherited, 1 own spec
  std::vector<std::pair<std::string, Node>> kids;
  friend void BestFmt(auto& fmt, const Node& n);
};
best::str lit(const S& s) { return *best::str::from(best::pretext<best::utf8>(best::span<const char>(s.data(), s.size()))); }
Sp own_spec() {
  Sp s;
  s.alt = true;
  s.method = best::rune('x');
  return s;
}
void BestFmt(auto& fmt, const Node& n) {
  switch (n.kind) {
    case 0: fmt.write(lit(n.str)); return;
    case 1: fmt.format(42); return;
    case 2: for (char ch : n.str) fmt.write(best::rune::from_int(ch).value_or()); return;
    case 6: {
      std::u16string u(n.str.begin(), n.str.end());
      fmt.write(best::pretext<best::utf16>(best::span<const char16_t>(u.data(), u.size())));
      return;
    }
    default: break;
  }
  auto body = [&](auto&& b) {
    if (n.advise >= 0) b.advise_size(n.advise);
    for (auto& [name, kid] : n.kids) {
      if (n.kind == 5) {
        if (n.spec) b.field(lit(name), own_spec(), kid);
        else b.field(lit(name), kid);
      } else {
        if (n.spec) b.entry(own_spec(), kid);
        else b.entry(kid);
      }
    }
    if (n.finish) b.finish();
    if (n.finish == 2) {
      b.finish();
      b.entry(1);
      b.field("x", 1);
      b.pair(1, 2);
    }
  };
  if (n.kind == 3) body(fmt.list(lit(n.title)));
  else if (n.kind == 4) body(fmt.tuple(lit(n.title)));
  else body(fmt.record(lit(n.title)));
}
struct Out {
  S s;
  int indent = 0;
  bool fresh = false;
  void put(const S& t) {
    for (char ch : t) {
      if (ch == '\n') fresh = true;
      else if (fresh) {
        for (int i = 0; i < indent; ++i) s += "  ";
        fresh = false;
      }
      s += ch;
    }
  }
};
void model(Out& o, const Node& n, const Sp& sp) {
  if (n.kind == 0 || n.kind == 2 || n.kind == 6) return o.put(n.str);
  if (n.kind == 1) return o.put(number(sp, 42));
  if (!n.title.empty()) o.put(n.title + " ");
  o.put(n.kind == 3 ? "[" : n.kind == 4 ? "(" : "{");
  bool multi = sp.alt && n.advise != 1;
  if (multi) ++o.indent;
  bool first = true;
  for (auto& [name, kid] : n.kids) {
    if (!first) o.put(",");
    if (multi) o.put("\n");
    else if (!first) o.put(" ");
    first = false;
    if (n.kind == 5) o.put(name + ": ");
    model(o, kid, n.spec ? own_spec() : sp);
  }
  if (multi && !first) o.put(",\n");
  if (multi) --o.indent;
  o.put(n.kind == 3 ? "]" : n.kind == 4 ? ")" : "}");
}
Node tree(Ctx& c, int depth, int& budget, bool variants) {
  Node n;
  int k = c.pick(depth > 0 ? 9 : 6);
  if (variants && k < 4 && k % 2) throw mc::Skip{};
  static const char* strs[] = {"ab", "a\nb", "\n", "\n\nc\n"};
  if (k < 4) {
    static const int kinds[] = {0, 2, 6};
    n.kind = variants ? c.pick_of(kinds) : 0;
    n.str = strs[k];
  } else if (k == 4) n.kind = 1;
  else if (k == 5) n.kind = 0, n.str = "";
  else {
    n.kind = 3 + (k - 6);
    if (variants) {
      n.title = c.flip() ? "T" : "";
      n.finish = c.pick(3);
      n.spec = c.pick(2);
    } else {
      n.title = n.kind == 5 ? "T" : "";
      n.finish = n.kind == 4;
      n.spec = 0;
    }
    int kids = c.pick(std::min(budget, 3) + 1);
    budget -= kids;
    if (kids == 1 && (!variants || c.flip())) n.advise = 1;
    for (int i = 0; i < kids; ++i) {
      static const char* names[] = {"a", "b\nc", ""};
      Node kid = tree(c, depth - 1, budget, variants);
      n.kids.push_back({names[i], kid});
    }
  }
  return n;
}
void trees(Ctx& c, int depth, int budget, bool variants) {
  Sp sp;
  sp.alt = c.flip();
  sp.debug = true;
  Node n = tree(c, depth, budget, variants);
  c.step();
  // Twice in a row, with text around, so that nothing leaks from one to the next.
  best::strbuf out = best::format("<{:?}|\n{:?}>", With<Node>{sp, n}, With<Node>{sp, n});
  Out o;
  o.put("<");
  model(o, n, sp);
  o.put("|\n");
  model(o, n, sp);
  o.put(">");
  S got(out.data(), out.size());
  CHECK(got == o.s, "got\n%s\nexpected\n%s", got.c_str(), o.s.c_str());
  c.state(std::hash<S>()(got));
}

// Library containers: entries get the specifier of the whole.
void containers(Ctx& c) {
  Sp sp;
  sp.alt = c.flip();
  sp.debug = c.flip();
  if (c.flip()) sp.method = best::rune('x');
  if (c.flip()) sp.width = 4;
  auto num = [&](int v) { return number(sp, v); };
  auto block = [&](const char* open, const std::vector<S>& kids, const char* close) {
    Out o;
    o.put(open);
    ++o.indent;
    bool first = true;
    for (auto& k : kids) {
      if (!first) o.put(",");
      o.put(sp.alt ? "\n" : first ? "" : " ");
      o.put(k);
      first = false;
    }
    if (sp.alt && !first) o.put(",\n");
    --o.indent;
    o.put(close);
    return o.s;
  };
  auto same = [&](const S& got, const S& want, const char* what) { CHECK(got == want, "%s with %s: \"%s\", expected \"%s\"", what, show(sp).c_str(), got.c_str(), want.c_str()); };
  int a = c.pick(3) * 17, b = -c.pick(2) * 300;
  int n = c.pick(4);
  best::vec<int> v;
  std::vector<S> vs;
  for (int i = 0; i < n; ++i) v.push(i ? b : a), vs.push_back(num(i ? b : a));
  same(render(sp, v), block("[", vs, "]"), "vec");
  same(render(sp, v.as_span()), block("[", vs, "]"), "span");
  same(render(sp, std::vector<int>(2, a)), block("[", {num(a), num(a)}, "]"), "std::vector");
  best::vec<best::vec<int>> vv;
  vv.push(v);
  vv.push(best::vec<int>{});
  vv.push(v);
  {
    S e = block("[", vs, "]");
    same(render(sp, vv), block("[", {e, block("[", {}, "]"), e}, "]"), "vec of vecs");
  }
  best::row<int, int> r2{a, b};
  same(render(sp, r2), block("(", {num(a), num(b)}, ")"), "row of two");
  same(render(sp, best::row<>{}), block("(", {}, ")"), "empty row");
  best::option<int> o1 = a, o0;
  same(render(sp, o1), "option(" + num(a) + ")", "option");
  same(render(sp, o0), "none", "none");
  same(render(sp, best::option<best::vec<int>>(v)), "option(" + block("[", vs, "]") + ")", "option of vec");
  best::result<int, best::vec<int>> ok = best::ok(a), er = best::err(v);
  same(render(sp, ok), "ok(" + num(a) + ")", "ok");
  same(render(sp, er), "err(" + block("[", vs, "]") + ")", "err");
  best::choice<int, best::vec<int>> c0(best::index<0>, a), c1(best::index<1>, v);
  same(render(sp, c0), "choice<0>(" + num(a) + ")", "choice 0");
  same(render(sp, c1), "choice<1>(" + block("[", vs, "]") + ")", "choice 1");
  best::choice<int, void> cv(best::index<1>);
  same(render(sp, cv), "choice<1>(void)", "choice of void");
  best::box<int> bx(a);
  same(render(sp, bx), num(a), "box");
  same(render(sp, true), "true", "true");
  same(render(sp, false), "false", "false");
  c.step();
  c.state(std::hash<S>()(render(sp, vv)));
}
}  // namespace fmtv
using namespace fmtv;

#if FMT_PART == 1
#define N(T) SCENARIO_T(num_##T, "every value of 8 bits, edge values of wider types, times methods b/o/x/X/none, 5 (thorough 12) widths, 4 fills, alignments, #, 0, ?: " #T, 0, numbers<T>)
using i8 = signed char;
using byte = std::byte;
using i16 = short;
using i32 = int;
using i64 = long;
using ill = long long;
using u16 = unsigned short;
N(i8); N(u8); N(char); N(byte);
N(i16); N(u16); N(i32); N(u32); N(i64); N(u64); N(ill);
SCENARIO_T(all_i16, "every 16-bit value through nine literal templates, against printf: short", 0, all16<short>);
SCENARIO_T(all_u16, "every 16-bit value through nine literal templates, against printf: unsigned short", 0, all16<unsigned short>);
SCENARIO(pointers, "null and non-null pointers and boxes", 0) { pointers(c); }
#elif FMT_PART == 2
SCENARIO(whole, "every template of up to 6 (thorough 7) of 10 characters", 0) { grammar(c, "{}:!<#05x?", c.thorough() ? 7 : 6, "", ""); }
SCENARIO(inside, "every text of up to 5 (thorough 6) of 14 characters between {: and }", 0) { grammar(c, "{}:!<^>#05.x?q", c.thorough() ? 6 : 5, "{:", "}"); }
SCENARIO(inside_more, "every text of up to 5 (thorough 6) of 12 characters between { and x?} {}", 0) { grammar(c, "019:!>#.Zq? ", c.thorough() ? 6 : 5, "{", "x?} {}"); }
SCENARIO(unterminated, "every text of up to 5 (thorough 6) of 12 characters after {", 0) { grammar(c, "019:!>#.Zq? ", c.thorough() ? 6 : 5, "{", ""); }
SCENARIO(big_numbers, "numbers around the powers of two as index, width and precision", 0) { big_numbers(c); }
SCENARIO(literals, "which literal templates 12 types accept", 0) { literals(c); }
#elif FMT_PART == 3
#define STRS(E, T, what, ...) SCENARIO_T(E##_##what, "every " #E " " #what " of up to 4 (thorough 5) codes of {" #__VA_ARGS__ "}, 147 specifiers", mc::LeakCheck, [](Ctx& c) { strings<best::E, T>(c, {__VA_ARGS__}, c.thorough() ? 5 : 4); })
STRS(utf8, true, text, 'a', char(0xc3), char(0xa9), '\n', '"');
STRS(utf16, true, text, 'a', 0xe9, 0xd83d, 0xde00, 1);
STRS(utf32, true, text, 'a', 0xe9, 0x1f600, 0x200d);
STRS(latin1, true, text, 'a', char(0xe9), '\\', 0x7f);
STRS(wtf8, true, text, 'a', char(0xed), char(0xa0), char(0x80));
STRS(utf8, false, pretext, 'a', char(0xf0), char(0x9f), char(0x98), char(0x80));
STRS(utf16, false, pretext, 'a', 0xd83d, 0xde00, '\'');
SCENARIO(characters, "every char8_t, char16_t and char32_t up to U+11000F, plain and quoted", 0) { characters(c); }
#elif FMT_PART == 4
SCENARIO(plain, "every tree of lists, tuples and records of up to 5 (thorough 6) nodes and depth 3, strings with newlines as leaves, in both modes", mc::LeakCheck) { trees(c, 3, c.thorough() ? 5 : 4, false); }
SCENARIO(variants, "every tree of up to 3 (thorough 4) nodes and depth 2, with titles, explicit finish, own specifiers, size advice, three ways to write", mc::LeakCheck) { trees(c, 2, c.thorough() ? 3 : 2, true); }
SCENARIO(containers, "vec, span, row, option, result, choice, box, times 16 specifiers and small contents", mc::LeakCheck) { containers(c); }
#endif
