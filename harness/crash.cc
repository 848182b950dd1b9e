// E01: a failed check ends the process with status 128, and says where it was asked for and why.
#include <memory>
#include <string>
#include <vector>

#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/log/wtf.h"
#include "best/math/overflow.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "mc.h"

namespace crash_types {
struct Loud {
  std::string text;
  friend void BestFmt(auto& fmt, const Loud& l) { fmt.write(best::str(best::unsafe("test"), best::span<const char>(l.text.data(), l.text.size()))); }
  constexpr friend void BestFmtQuery(auto& query, Loud*) { query.requires_debug = false; }
};
struct Silent { int x; };
}  // namespace crash_types
namespace {
using namespace crash_types;
using mc::Ctx;
std::string S(best::str s) { return std::string(s.data(), s.size()); }

struct Died {
  int code = -1;
  std::string file;
  unsigned line = 0;
  std::string message;
};
template <typename F>
Died run(F f) {
  Died d;
  mc::take_output();
  d.code = mc::exits(std::move(f));
  std::string raw = mc::take_output(), out;
  // Remove colours.
  for (size_t i = 0; i < raw.size(); ++i) {
    if (raw[i] == 27 && i + 1 < raw.size() && raw[i + 1] == '[') {
      size_t m = raw.find('m', i);
      if (m != std::string::npos && m - i <= 4) { i = m; continue; }
    }
    out += raw[i];
  }
  size_t at = out.find(" crashed at ");
  if (at == std::string::npos) { d.message = "(no location)" + out; return d; }
  at += 12;
  size_t nl = out.find('\n', at), colon = out.rfind(':', nl);
  if (nl == std::string::npos || colon == std::string::npos || colon < at) { d.message = "(no location)" + out; return d; }
  d.file = out.substr(at, colon - at);
  d.line = unsigned(atoi(out.c_str() + colon + 1));
  d.message = out.substr(nl + 1);
  const char* tag = "libbest: ";
  if (d.message.rfind(tag, 0) == 0) d.message = d.message.substr(strlen(tag));
  if (!d.message.empty() && d.message.back() == '\n') d.message.pop_back();
  return d;
}
void died(Ctx& c, const Died& d, const char* what, unsigned line, std::initializer_list<const char*> parts) {
  c.step();
  CHECK(d.code == 128, "%s: exit status %d", what, d.code);
  CHECK(d.file == __FILE__ && d.line == line, "%s: reported at %s:%u, asked for at line %u", what, d.file.c_str(), d.line, line);
  for (auto p : parts) CHECK(d.message.find(p) != std::string::npos, "%s: the message is \"%s\", without %s", what, d.message.c_str(), p);
}
// Runs an expression on one line; it must end the process, and name this line.
#define DIES(parts, ...) died(c, run([&]() { __VA_ARGS__; }), #__VA_ARGS__, __LINE__, parts)
#define P(...) std::initializer_list<const char*>{__VA_ARGS__}

template <typename T>
best::vec<T> v_of(best::span<T> s) { return best::vec<T>(s); }

template <typename T>
void spans(Ctx& c, size_t n, size_t i) {
  std::unique_ptr<T[]> mem(new T[n + 1]());
  best::span<T> sp(mem.get(), n);
  best::span<const T> cs = sp;
  std::string is = std::to_string(i), ns = std::to_string(n);
  if (i >= n) {
    DIES(P(is.c_str(), ns.c_str(), ">="), (void)sp[i]);
    DIES(P(is.c_str(), ns.c_str(), ">="), (void)cs[i]);
    const size_t ci = i;
    DIES(P(is.c_str(), ns.c_str()), (void)sp[ci]);
    DIES(P(is.c_str(), ns.c_str()), (void)sp[size_t(i)]);
    if (n) DIES(P(is.c_str(), ns.c_str()), sp.swap(i, 0));
    if (n) DIES(P(is.c_str(), ns.c_str()), sp.swap(0, i));
    DIES(P(is.c_str(), ns.c_str()), best::bounds{.start = i, .count = 1}.compute_count(n));
    best::vec<T> v(cs);
    const auto& cv = v;
    DIES(P(is.c_str(), ns.c_str()), (void)v[i]);
    DIES(P(is.c_str(), ns.c_str()), (void)cv[i]);
    DIES(P(is.c_str(), ns.c_str()), (void)v[ci]);
    if (n) DIES(P(is.c_str(), ns.c_str()), (void)v[best::track_location<size_t>(i)]);
  }
  if (i > n) {
    DIES(P(is.c_str(), ns.c_str(), ">"), (void)(sp[{.start = i}]));
    DIES(P(is.c_str(), ns.c_str(), ">"), (void)(sp[{.end = i}]));
    DIES(P(is.c_str(), ns.c_str(), ">"), (void)(cs[{.end = i}]));
    best::vec<T> v(cs);
    const auto& cv = v;
    DIES(P(is.c_str(), ns.c_str(), ">"), (void)(v[{.start = i}]));
    DIES(P(is.c_str(), ns.c_str(), ">"), (void)(cv[{.end = i}]));
    DIES(P(is.c_str(), ns.c_str(), ">"), best::bounds{.end = i}.compute_count(n));
    best::location where = best::here; unsigned line = __LINE__;
    died(c, run([&] { best::bounds{.end = i}.compute_count(n, where); }), "compute_count(n, loc)", line, P(is.c_str(), ns.c_str()));
    best::track_location<size_t> kept = i; line = __LINE__;
    died(c, run([&] { (void)sp[kept]; }), "sp[a stored index]", line, P(is.c_str(), ns.c_str()));
    const best::track_location<size_t> ckept = kept;
    died(c, run([&] { (void)v[ckept]; }), "v[a copied index]", line, P(is.c_str(), ns.c_str()));
    auto assigned = best::track_location<size_t>(0);
    assigned = kept;
    died(c, run([&] { (void)v[std::move(assigned)]; }), "v[an assigned index]", line, P(is.c_str(), ns.c_str()));
  }
  if (n != 3) {
    typedef best::span<T, 3> fixed;
    DIES(P("3", ns.c_str()), fixed f(best::ptr<T>(mem.get()), n));
    DIES(P("3", ns.c_str()), fixed f(sp));
    DIES(P("3", ns.c_str()), auto v = v_of(sp); fixed f(v));
  }
}
SCENARIO(span_sites, "spans and vecs of 0..4 elements, every index past the end up to 9 and the largest: every way to ask, and where it is reported", 0) {
  size_t n = size_t(c.pick(5));
  size_t i = size_t(c.pick(11));
  if (i == 10) i = SIZE_MAX;
  if (c.pick(2)) spans<int>(c, n, i);
  else spans<std::string>(c, n, i);
}

template <typename T>
void text_sites(Ctx& c, const char* data, size_t len, size_t from, size_t to, bool boundary) {
  best::str s(best::unsafe("test"), best::span<const char>(data, len));
  best::strbuf b(s);
  std::string f = std::to_string(from), t = std::to_string(to), l = std::to_string(len);
  if (to > len) {
    DIES(P(t.c_str(), l.c_str(), ">"), (void)(s[{.start = from, .end = to}]));
    DIES(P(t.c_str(), l.c_str(), ">"), (void)(b[{.start = from, .end = to}]));
    DIES(P(t.c_str(), l.c_str(), ">"), (void)(best::pretext(s)[{.start = from, .end = to}]));
  } else if (!boundary) {
    DIES(P(f.c_str(), t.c_str(), "character"), (void)(s[{.start = from, .end = to}]));
    DIES(P(f.c_str(), t.c_str(), "character"), (void)(b[{.start = from, .end = to}]));
  }
}
SCENARIO(texts, "every slice of a text of 1- to 4-byte characters: out of range or through a character", 0) {
  static const char text[] = "aé€\U0001F680z";
  size_t len = sizeof text - 1;
  size_t from = size_t(c.pick(int(len) + 1)), to = from + size_t(c.pick(int(len) + 4 - int(from)));
  auto edge = [&](size_t i) { return i >= len || (text[i] & 0xc0) != 0x80; };
  text_sites<int>(c, text, len, from, to, edge(from) && edge(to));
}

template <typename O>
void options(Ctx& c, O o) {
  const O& co = o;
  DIES(P("none"), (void)o.value());
  DIES(P("none"), (void)co.value());
  DIES(P("none"), (void)std::move(o).value());
  DIES(P("none"), (void)std::move(co).value());
  best::location where = best::here; unsigned line = __LINE__;
  died(c, run([&] { (void)o.value(where); }), "value(loc)", line, P("none"));
  died(c, run([&] { (void)co.value(where); }), "value(loc)", line, P("none"));
  died(c, run([&] { (void)std::move(o).value(where); }), "value(loc)", line, P("none"));
  died(c, run([&] { (void)std::move(co).value(where); }), "value(loc)", line, P("none"));
}
struct Moves { std::unique_ptr<int> p; };
SCENARIO(values, "value() of empty options of every kind of storage, in every category, with and without a given location", 0) {
  switch (c.pick(6)) {
    case 0: return options(c, best::option<int>());
    case 1: return options(c, best::option<int&>());
    case 2: return options(c, best::option<best::str>());
    case 3: return options(c, best::option<Moves>());
    case 4: return options(c, best::option<bool>());
    case 5: return options(c, best::option<best::ptr<int>>());
  }
}

template <typename A, typename B>
void numbers(Ctx& c) {
  A a = 5;
  B z = 0;
  best::overflow<A> oa(a);
  best::overflow<B> oz(z);
  DIES(P("division by zero"), (void)best::div(a, z));
  DIES(P("division by zero"), (void)best::div(oa, oz));
  best::location where = best::here; unsigned line = __LINE__;
  died(c, run([&] { (void)best::div(a, z, where); }), "div(a, b, loc)", line, P("division by zero"));
  died(c, run([&] { (void)best::div(oa, oz, where); }), "div(a, b, loc)", line, P("division by zero"));
  if constexpr (std::is_same_v<A, B>) {
    DIES(P("division by zero"), (void)(oa / oz));
    DIES(P("division by zero"), (void)(oa % oz));
    const auto ca = oa;
    DIES(P("division by zero"), (void)(ca / oz));
    DIES(P("division by zero"), (void)(best::overflow<A>(a) % oz));
  }
  best::overflow<A> top(best::max_of<A>);
  auto of = top * best::overflow<A>(best::max_of<A>);
  if (of.overflowed) {
    DIES(P("overflow"), (void)of.strict());
    DIES(P("overflow"), (void)(top * top).strict());
    died(c, run([&] { (void)of.strict(where); }), "strict(loc)", line, P("overflow"));
  }
}
SCENARIO(arithmetic, "division by zero and strict() after overflow, for every pair of eight integer types", 0) {
  int b = c.pick(8);
  auto with = [&]<typename A>(A) {
    switch (b) {
      case 0: return numbers<A, int8_t>(c);
      case 1: return numbers<A, uint8_t>(c);
      case 2: return numbers<A, int16_t>(c);
      case 3: return numbers<A, uint16_t>(c);
      case 4: return numbers<A, int32_t>(c);
      case 5: return numbers<A, uint32_t>(c);
      case 6: return numbers<A, int64_t>(c);
      case 7: return numbers<A, uint64_t>(c);
    }
  };
  switch (c.pick(8)) {
    case 0: return with(int8_t());
    case 1: return with(uint8_t());
    case 2: return with(int16_t());
    case 3: return with(uint16_t());
    case 4: return with(int32_t());
    case 5: return with(uint32_t());
    case 6: return with(int64_t());
    case 7: return with(uint64_t());
  }
}

// The internal buffer of 512 bytes is the edge to look at.
size_t length(Ctx& c) {
  size_t n = size_t(c.pick(c.thorough() ? 1101 : 200));
  return c.thorough() ? n : n < 60 ? n : n < 160 ? n - 60 + 460 : n - 160 + 1000;
}
SCENARIO(wtfs, "best::wtf() with messages of every length of 0..59, 460..559, 1000..1039 (thorough: 0..1100): printed whole, at the call", 0) {
  size_t n = length(c);
  std::string m;
  for (size_t i = 0; i < n; ++i) m += char('a' + i % 26);
  best::str s(best::unsafe("test"), best::span<const char>(m.data(), n));
  auto whole = [&](const Died& d, unsigned line, std::string want) {
    died(c, d, "wtf()", line, {});
    CHECK(d.message == want, "wtf() printed \"%s\", expected \"%s\"", d.message.c_str(), want.c_str());
  };
  whole(run([&] { best::wtf("{}", s); }), __LINE__, n ? m : "explicit call to best::wtf()");
  whole(run([&] { best::wtf("<{}|{:?}>", s, int(n)); }), __LINE__, "<" + m + "|" + std::to_string(n) + ">");
  if (!n) {
    whole(run([&] { best::wtf("100%s {{}}"); }), __LINE__, "100%s {}");
    whole(run([&] { best::wtf("%n%d"); }), __LINE__, "%n%d");
  }
}
// An error of a result is shown by its debugging format; long ones may be cut.
SCENARIO(errors, "unwrapping errors whose text has every length as above", 0) {
  size_t n = length(c);
  std::string m;
  for (size_t i = 0; i < n; ++i) m += "%sdxn"[i % 5];
  best::result<int, Loud> r = best::err(Loud{m});
  best::result<void, Loud> rv = best::err(Loud{m});
  auto good = [&](const Died& d) {
    c.step();
    std::string want = "unwrapped a best::err(" + m + ")";
    CHECK(d.code == 128, "exit status %d", d.code);
    size_t common = 0;
    while (common < want.size() && common < d.message.size() && want[common] == d.message[common]) ++common;
    CHECK(common == want.size() ? d.message == want : (common == d.message.size() && common >= 500), "error of %zu shown as \"%s\"", n, d.message.c_str());
  };
  good(run([&] { (void)*r; }));
  good(run([&] { (void)*std::move(r); }));
  good(run([&] { (void)*rv; }));
  good(run([&] { (void)*std::as_const(r); }));
  if (!n) {
    best::result<int, void> nothing = best::err();
    Died d = run([&] { (void)*nothing; });
    CHECK(d.code == 128 && d.message == "unwrapped a best::err(void)", "%s", d.message.c_str());
    best::result<int, int> num = best::err(42);
    d = run([&] { (void)*num; });
    CHECK(d.code == 128 && d.message == "unwrapped a best::err(42)", "%s", d.message.c_str());
    best::result<int, best::str> str = best::err(best::str("q\n"));
    d = run([&] { (void)*str; });
    CHECK(d.code == 128 && d.message == "unwrapped a best::err(\"q\\n\")", "%s", d.message.c_str());
    best::result<int, Silent> si = best::err(Silent{1});
    d = run([&] { (void)*si; });
    CHECK(d.code == 128 && d.message.rfind("unwrapped a best::err(", 0) == 0, "%s", d.message.c_str());
  }
}
SCENARIO(choices, "every wrong alternative of choices of 2..4: the message names both", 0) {
  int have = c.pick(4), want = c.pick(4);
  if (have == want) return;
  best::choice<int, int, int, int> ch(best::index<0>, 1);
  switch (have) {
    case 1: ch.emplace(best::index<1>, 2); break;
    case 2: ch.emplace(best::index<2>, 2); break;
    case 3: ch.emplace(best::index<3>, 2); break;
  }
  auto probe = [&](auto i) {
    std::string both = std::to_string(want) + " != " + std::to_string(have);
    auto good = [&](const Died& d) {
      c.step();
      CHECK(d.code == 128 && d.message.find(both) != std::string::npos, "exit %d, message \"%s\"", d.code, d.message.c_str());
    };
    good(run([&] { (void)ch[i]; }));
    good(run([&] { (void)std::as_const(ch)[i]; }));
    good(run([&] { (void)std::move(ch)[i]; }));
    good(run([&] { (void)std::move(std::as_const(ch))[i]; }));
  };
  switch (want) {
    case 0: return probe(best::index<0>);
    case 1: return probe(best::index<1>);
    case 2: return probe(best::index<2>);
    case 3: return probe(best::index<3>);
  }
}
SCENARIO(locations, "locations: file, line, conversions and formatting", 0) {
  best::location a = best::here; unsigned line = __LINE__;
  best::track_location<int> t = 5; unsigned tl = __LINE__;
  c.step();
  CHECK(S(a.file()) == __FILE__ && a.line() == line && a.col() > 0, "here is %s:%u", S(a.file()).c_str(), a.line());
  CHECK(S(a.func()).find("run") != std::string::npos || S(a.func()).size() > 0, "function %s", S(a.func()).c_str());
  CHECK(*t == 5 && t.line() == tl && t.location().line() == tl, "tracked argument at %u", t.line());
  best::location b = t;
  CHECK(b.line() == tl, "a location from a tracked argument is %u", b.line());
  const auto t2 = t;
  auto t3 = t2;
  auto t4 = std::move(t);
  CHECK(t2.line() == tl && t3.line() == tl && t4.line() == tl && *t2 == 5 && *t3 == 5 && *t4 == 5, "copies of a tracked argument at %u %u %u", t2.line(), t3.line(), t4.line());
  best::track_location<int> t5(7, b);
  CHECK(*t5 == 7 && t5.line() == tl, "a tracked argument with a location at %u", t5.line());
  best::track_location<long> t6(8, t5);
  CHECK(*t6 == 8 && t6.line() == tl, "a tracked argument with another's location at %u", t6.line());
  CHECK(S(best::format("{:?}", a)) == std::string(__FILE__) + ":" + std::to_string(line), "%s", best::format("{:?}", a).data());
  CHECK(S(best::format("{:?}", t5)) == std::string("7 @ ") + __FILE__ + ":" + std::to_string(tl), "%s", S(best::format("{:?}", t5)).c_str());
}
}  // namespace
