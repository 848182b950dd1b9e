// C02: what help pages list, and how argument values are read.
#include <algorithm>
#include <set>
#include <string>
#include <vector>

#include "best/cli/cli.h"
#include "best/cli/parser.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "mc.h"

#ifndef HELP_PART
#define HELP_PART 1
#endif
using mc::Ctx;
using best::cli;

namespace hlp {
using S = std::string;
template <typename T> using V = std::vector<T>;
inline S sv(best::str t) { return S(t.data(), t.size()); }

struct Out {
  bool ok, fatal;
  S msg;
};
template <typename F> Out run(const V<S>& argv, F* to = nullptr) {
  best::vec<best::pretext<best::wtf8>> v;
  for (auto& a : argv) v.push(best::pretext<best::wtf8>(best::span(a.data(), a.size())));
  auto res = best::parse_flags<F>("exe", v.as_span());
  if (res) {
    if (to) *to = *res;
    return {true, false, ""};
  }
  return {false, res.err()->is_fatal(), sv(res.err()->message())};
}
constexpr best::str pick(bool b, best::str s) { return b ? s : best::str(); }
constexpr cli::visibility Vis[] = {cli::Public, cli::Hidden, cli::Invisible, cli::Delete};

#if HELP_PART == 1 || HELP_PART == 4
// ---- listing ----------------------------------------------------------------
struct Name {
  S name;
  cli::visibility vis;
};
struct Fl {
  char letter;
  V<Name> names;  // with their visibility
  S arg, help;    // arg "" for none
};
struct All {
  int pub = 0, hid = 0, inv = 0, del = 0;
  int pub_l = 0, hid_l = 0, inv_l = 0, del_l = 0;
  int pub_al = 0, hid_al = 0, inv_al = 0, pub_lal = 0;
  best::option<bool> sw, lsw;
  best::vec<int> rep;
  int undoc = 0;
  best::str long_name_that_goes_past_the_column;
  constexpr friend auto BestReflect(auto& m, All*) {
    return m.infer()
      .with(&All::pub, cli::flag{.help = "help of pub"})
      .with(&All::hid, cli::flag{.vis = cli::Hidden, .help = "help of hid"})
      .with(&All::inv, cli::flag{.vis = cli::Invisible, .help = "help of inv"})
      .with(&All::del, cli::flag{.vis = cli::Delete, .help = "help of del"})
      .with(&All::pub_l, cli::flag{.letter = 'a', .arg = "INT", .help = "help of pub_l\nsecond line\nthird line"})
      .with(&All::hid_l, cli::flag{.letter = 'b', .vis = cli::Hidden, .arg = "X Y", .help = "help of hid_l"})
      .with(&All::inv_l, cli::flag{.letter = 'c', .vis = cli::Invisible, .help = "help of inv_l"})
      .with(&All::del_l, cli::flag{.letter = 'd', .vis = cli::Delete, .help = "help of del_l"})
      .with(&All::pub_al, cli::flag{.help = "help of pub_al\nsecond"}, cli::alias{"p-same"}, cli::alias{"p-hid", cli::Hidden}, cli::alias{"p_inv", cli::Invisible}, cli::alias{"p-del", cli::Delete}, cli::alias{"p-pub", cli::Public})
      .with(&All::hid_al, cli::flag{.vis = cli::Hidden, .help = "help of hid_al"}, cli::alias{"h-same"}, cli::alias{"h-inv", cli::Invisible}, cli::alias{"h-del", cli::Delete})
      .with(&All::inv_al, cli::flag{.vis = cli::Invisible, .help = "help of inv_al"}, cli::alias{"i-same"}, cli::alias{"i-del", cli::Delete})
      .with(&All::pub_lal, cli::flag{.letter = 'e', .help = "help of pub_lal"}, cli::alias{"l-same"}, cli::alias{"l-hid", cli::Hidden})
      .with(&All::sw, cli::flag{.help = "help of sw\none\ntwo\nthree"}, cli::alias{"w2"})
      .with(&All::lsw, cli::flag{.letter = 'w', .arg = "ignored", .help = "help of lsw"})
      .with(&All::rep, cli::flag{.name = "re_named", .help = "help of rep"})
      .with(&All::undoc, cli::flag{})
      .with(&All::long_name_that_goes_past_the_column, cli::flag{.letter = 'z', .arg = "ARGUMENT", .help = "help of long\nmore"});
  }
};
const V<Fl>& all_flags() {
  constexpr auto P = cli::Public, H = cli::Hidden, I = cli::Invisible, D = cli::Delete;
  static V<Fl> f = {
    {0, {{"pub", P}}, "ARG", "help of pub"},
    {0, {{"hid", H}}, "ARG", "help of hid"},
    {0, {{"inv", I}}, "ARG", "help of inv"},
    {0, {{"del", D}}, "ARG", "help of del"},
    {'a', {{"pub-l", P}}, "INT", "help of pub_l\nsecond line\nthird line"},
    {'b', {{"hid-l", H}}, "X Y", "help of hid_l"},
    {'c', {{"inv-l", I}}, "ARG", "help of inv_l"},
    {'d', {{"del-l", D}}, "ARG", "help of del_l"},
    {0, {{"pub-al", P}, {"p-same", P}, {"p-hid", H}, {"p-inv", I}, {"p-del", D}, {"p-pub", P}}, "ARG", "help of pub_al\nsecond"},
    {0, {{"hid-al", H}, {"h-same", H}, {"h-inv", I}, {"h-del", D}}, "ARG", "help of hid_al"},
    {0, {{"inv-al", I}, {"i-same", I}, {"i-del", D}}, "ARG", "help of inv_al"},
    {'e', {{"pub-lal", P}, {"l-same", P}, {"l-hid", H}}, "ARG", "help of pub_lal"},
    {0, {{"sw", P}, {"w2", P}}, "", "help of sw\none\ntwo\nthree"},
    {'w', {{"lsw", P}}, "", "help of lsw"},
    {0, {{"re-named", P}}, "ARG", "help of rep"},
    {0, {{"undoc", P}}, "ARG", ""},
    {'z', {{"long-name-that-goes-past-the-column", P}}, "ARGUMENT", "help of long\nmore"},
  };
  return f;
}
enum Kind { Top, Flat, Named, Both, Letter, SubC };

template <int vis> struct FlatRoot {
  All f;
  best::option<bool> own;
  constexpr friend auto BestReflect(auto& m, FlatRoot*) { return m.infer().with(&FlatRoot::f, cli::group{.vis = Vis[vis], .help = "help of group"}).with(&FlatRoot::own, cli::flag{.help = "help of own"}); }
};
template <int vis> struct NamedRoot {
  All f;
  best::option<bool> own;
  constexpr friend auto BestReflect(auto& m, NamedRoot*) { return m.infer().with(&NamedRoot::f, cli::group{.name = "grp", .vis = Vis[vis], .help = "help of group"}).with(&NamedRoot::own, cli::flag{.help = "help of own"}); }
};
template <int vis> struct BothRoot {
  All f;
  best::option<bool> own;
  constexpr friend auto BestReflect(auto& m, BothRoot*) { return m.infer().with(&BothRoot::f, cli::group{.name = "grp", .letter = 'G', .vis = Vis[vis], .help = "help of group\nis long"}).with(&BothRoot::own, cli::flag{.help = "help of own"}); }
};
template <int vis> struct LetterRoot {
  All f;
  best::option<bool> own;
  constexpr friend auto BestReflect(auto& m, LetterRoot*) { return m.infer().with(&LetterRoot::f, cli::group{.letter = 'G', .vis = Vis[vis], .help = "help of group"}).with(&LetterRoot::own, cli::flag{.help = "help of own"}); }
};
template <int vis> struct SubRoot {
  All f;
  best::option<bool> own;
  constexpr friend auto BestReflect(auto& m, SubRoot*) {
    return m.infer().with(&SubRoot::f, cli::subcommand{.name = "grp", .vis = Vis[vis], .help = "help of group", .about = pick(vis % 2, "longer\ntext")}).with(&SubRoot::own, cli::flag{.help = "help of own"});
  }
};
cli::visibility worse(cli::visibility a, cli::visibility b) { return std::max(a, b); }
bool shown(cli::visibility v, bool hidden) { return v == cli::Public || (hidden && v == cli::Hidden); }

struct Entry {
  char letter;
  S name, arg;
  bool comma;
  size_t line;
  bool operator==(const Entry& o) const { return letter == o.letter && name == o.name && arg == o.arg && comma == o.comma; }
};
S show(const V<Entry>& es) {
  S o;
  for (auto& e : es) o += S(" [") + (e.letter ? S("-") + e.letter + ", " : S()) + e.name + " " + e.arg + (e.comma ? "," : "") + "]";
  return o;
}
struct Page {
  V<S> lines;
  V<Entry> flags, subs;
  S letters, usage;
};
bool blank(const S& s) { return s.find_first_not_of(' ') == S::npos; }
Page parse(const S& text) {
  Page p;
  for (size_t i = 0; i <= text.size();) {
    size_t j = text.find('\n', i);
    if (j == S::npos) j = text.size();
    p.lines.push_back(text.substr(i, j - i));
    i = j + 1;
  }
  p.usage = p.lines[0];
  size_t d = p.usage.find(" -", p.usage.find("[SUBOPTION]") == S::npos ? 0 : p.usage.find("[SUBOPTION]"));
  // Groups are named by their letter before their own letters.
  if (d != S::npos) p.letters = p.usage.substr(d + 2, p.usage.find(' ', d + 2) - d - 2);
  int sect = 0;
  for (size_t i = 0; i < p.lines.size(); ++i) {
    const S& l = p.lines[i];
    if (l == "# Subcommands") sect = 1;
    else if (l == "# Flags") sect = 2;
    else if (l.substr(0, 9) == "Version: " || l.substr(0, 9) == "Website: " || l.substr(0, 3) == "(c)") sect = 0;
    else if (sect == 2 && l.size() > 8 && l.substr(6, 2) == "--") {
      Entry e = {0, "", "", false, i};
      if (l[2] == '-') e.letter = l[3];
      // The name goes on until the filler; the argument is what follows it.
      size_t k = l.find_first_of(" ,", 8);
      e.name = l.substr(8, k == S::npos ? k : k - 8);
      S rest = k == S::npos ? "" : l.substr(k, l.size() > 30 && l.substr(0, 30).find_last_not_of(" .") < 30 && k < 30 ? 30 - k : S::npos);
      while (!rest.empty() && (rest.back() == ' ' || rest.back() == '.')) rest.pop_back();
      if (!rest.empty() && rest.back() == ',') e.comma = true, rest.pop_back();
      if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1);
      e.arg = rest;
      p.flags.push_back(e);
    } else if (sect == 1 && l.size() > 6 && l[6] != ' ') {
      size_t k = l.find(' ', 6);
      p.subs.push_back({0, l.substr(6, k == S::npos ? k : k - 6), "", false, i});
    }
  }
  return p;
}
// The help of a listing that starts on line `at` and has `names` entries.
S help_at(const Page& p, size_t at, const std::set<size_t>& starts, size_t own) {
  S out;
  for (size_t i = at, n = 0; i < p.lines.size() && !p.lines[i].empty(); ++i) {
    if (starts.count(i) && ++n > own) break;
    if (p.lines[i].size() <= 30) {
      continue;
    }
    if (starts.count(i) && p.lines[i][29] != ' ') continue;  // too long for a column
    if (!starts.count(i)) CHECK(blank(p.lines[i].substr(0, 30)), "line \"%s\" does not start in column 30", p.lines[i].c_str());
    out += (out.empty() ? "" : "\n") + p.lines[i].substr(30);
  }
  return out;
}
// The listing that a flag should have; `floor`: at least that hidden.
void expect_flag(const Fl& f, const S& prefix, cli::visibility floor, bool hidden, V<Entry>& want, bool letter, bool group = false) {
  if (!shown(worse(f.names[0].vis, floor), hidden)) return;
  V<Entry> mine;
  for (auto& n : f.names)
    if (shown(worse(n.vis, floor == cli::Hidden && hidden ? cli::Public : floor), hidden)) mine.push_back({mine.empty() && letter ? f.letter : char(0), prefix + n.name, f.arg, true, 0});
  if (!mine.empty()) mine.back().comma = false;
  (void)group;
  want.insert(want.end(), mine.begin(), mine.end());
}
void sort(V<Entry>& v) {
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.name < b.name; });
}
void check_page(const S& what, const S& text, V<Entry> want, const S& letters, const V<std::pair<S, S>>& helps, const V<S>& subs, bool hidden) {
  Page p = parse(text);
  want.push_back({'h', "help", "", false, 0});
  if (hidden) want.push_back({0, "help-hidden", "", false, 0});
  auto got = p.flags;
  sort(got), sort(want);
  CHECK(got == want, "%s: lists\n%s\ninstead of\n%s\n%s", what.c_str(), show(got).c_str(), show(want).c_str(), text.c_str());
  std::set<char> a(p.letters.begin(), p.letters.end()), b(letters.begin(), letters.end());
  CHECK(p.letters.size() == letters.size() && a == b, "%s: usage shows letters %s instead of %s", what.c_str(), p.letters.c_str(), letters.c_str());
  std::set<size_t> starts;
  for (auto& e : p.flags) starts.insert(e.line);
  for (auto& e : p.subs) starts.insert(e.line);
  for (auto& [n, h] : helps) {
    for (size_t i = 0; i < p.flags.size(); ++i) {
      if (p.flags[i].name != n) continue;
      size_t own = 1;
      while (p.flags[i + own - 1].comma) ++own;
      S g = help_at(p, p.flags[i].line, starts, own);
      CHECK(g == h, "%s: help of --%s is \"%s\" instead of \"%s\"", what.c_str(), n.c_str(), g.c_str(), h.c_str());
    }
  }
  V<S> ss;
  for (auto& e : p.subs) {
    ss.push_back(e.name);
    S g = help_at(p, e.line, starts, 1);
    CHECK(g == "help of group", "%s: help of %s is \"%s\"", what.c_str(), e.name.c_str(), g.c_str());
    CHECK(p.usage.find("[" + e.name + "]") != S::npos, "%s: %s is missing in the usage line", what.c_str(), e.name.c_str());
  }
  CHECK(ss == subs, "%s: lists other subcommands: %s", what.c_str(), text.c_str());
  for (auto& l : p.lines) CHECK(l.find("grp") == S::npos || !subs.empty() || l.find("--grp") != S::npos || l.find("exe") != 7 || l.find("exe grp") != S::npos, "%s: shows %s", what.c_str(), l.c_str());
}

template <template <int> typename Root, int vis> void page(Ctx& c, Kind kind) {
  using R = Root<vis>;
  bool hidden = c.flip();
  int from = c.pick(2);  // the command, or the group itself
  cli::visibility gv = Vis[vis];
  V<Entry> want;
  S letters = "h";
  V<std::pair<S, S>> helps;
  auto letter = [&](const Fl& f, cli::visibility floor) {
    if (f.letter && shown(worse(f.names[0].vis, floor), hidden)) letters += f.letter;
  };
  S what = std::to_string(kind) + "/" + std::to_string(vis) + (hidden ? " --help-hidden" : " --help") + (from ? " of the group" : "");
  S help = hidden ? "help-hidden" : "help";
  V<S> argv = {"--" + help};
  if (from == 0) {
    want.push_back({0, "own", "", false, 0});
    helps.push_back({"own", "help of own"});
    for (auto& f : all_flags()) {
      S h = f.help.empty() ? "<undocumented>" : f.help;
      if (kind == Flat) {
        if (!f.help.empty() || hidden) expect_flag(f, "", gv, hidden, want, true);
        letter(f, gv);
        helps.push_back({f.names[0].name, h});
      } else if (kind == Named || kind == Both) {
        // Only listed if hidden things are.
        if (hidden && gv <= cli::Hidden) expect_flag(f, "grp.", gv, hidden, want, false);
        helps.push_back({"grp." + f.names[0].name, h});
      }
    }
    if (kind != Flat && kind != SubC && shown(gv, hidden)) {
      bool l = kind != Named;
      want.push_back({l ? 'G' : char(0), kind == Letter ? "G" : "grp", "FLAG", false, 0});
      if (l) letters += 'G';
      helps.push_back({kind == Letter ? "G" : "grp", kind == Both ? "help of group\nis long" : "help of group"});
    }
    // The names of flags in a letter-only group are left open.
    Out o = run<R>(argv);
    CHECK(!o.ok && !o.fatal, "%s: %s", what.c_str(), o.msg.c_str());
    V<S> subs;
    if (kind == SubC && shown(gv, hidden)) subs = {"grp"};
    check_page(what, o.msg, want, letters, helps, subs, hidden);
    return;
  }
  if (kind == Flat) return;
  argv = kind == SubC ? V<S>{"grp", "--" + help} : kind == Letter ? V<S>{"-G", help} : V<S>{"--grp", help};
  Out o = run<R>(argv);
  if (gv == cli::Delete) {
    CHECK(!o.ok && o.fatal, "%s: deleted, but has help: %s", what.c_str(), o.msg.c_str());
    return;
  }
  CHECK(!o.ok && !o.fatal, "%s: %s", what.c_str(), o.msg.c_str());
  for (auto& f : all_flags()) {
    if (!f.help.empty() || hidden) expect_flag(f, "", cli::Public, hidden, want, true);
    helps.push_back({f.names[0].name, f.help.empty() ? "<undocumented>" : f.help});
    if (kind == SubC) letter(f, cli::Public);
  }
  // Pages of groups show the letters of the command.
  if (kind != SubC && kind != Named && shown(gv, hidden)) letters += 'G';
  check_page(what, o.msg, want, letters, helps, {}, hidden);
  S first = "Usage: exe " + S(kind == SubC ? "grp" : kind == Named ? "--grp" : "-G") + " ";
  CHECK(o.msg.substr(0, first.size()) == first, "%s: usage is %s", what.c_str(), o.msg.substr(0, 60).c_str());
  S about = kind == SubC && vis % 2 ? "longer\ntext" : kind == Both ? "help of group\nis long" : "help of group";
  CHECK(o.msg.find("\n" + about + "\n\n# Flags\n") != S::npos, "%s: does not show \"%s\":\n%s", what.c_str(), about.c_str(), o.msg.c_str());
}
// Whether every name works: deleted ones do not, all others do.
template <template <int> typename Root, int vis> void names(Ctx& c, Kind kind) {
  using R = Root<vis>;
  cli::visibility gv = Vis[vis];
  auto& fs = all_flags();
  auto& f = fs[size_t(c.pick(int(fs.size())))];
  int n = c.pick(int(f.names.size()) + 1);
  int form = c.pick(kind == Flat || kind == SubC ? 1 : kind == Named ? 2 : kind == Letter ? 4 : 6);
  if (n == int(f.names.size()) && !f.letter) return;
  S name = n < int(f.names.size()) ? f.names[size_t(n)].name : S(1, f.letter);
  cli::visibility v = n < int(f.names.size()) ? f.names[size_t(n)].vis : f.names[0].vis;
  V<S> argv;
  if (kind == Letter && form > 1) form += 2;
  switch (form) {
    case 0:
      if (kind == SubC) argv = {"grp", "--" + name};
      else argv = {kind == Flat ? "--" + name : kind == Letter ? "-G" + name : "--grp." + name};
      break;
    case 1: argv = {kind == Letter ? "-G" : "--grp", name}; break;
    case 2: argv = {"-G" + name}; break;
    case 3: argv = {"-G", name}; break;
    case 4: argv = {"--G" + name}; break;
    case 5: argv = {"--G", name}; break;
  }
  // A run of letters is not a name.
  if (argv[0][1] == 'G' && argv[0][0] == '-' && argv[0].size() > 3 && form != 4) {
    S t = argv[0].substr(2);
    for (auto& g : fs)
      if (g.letter && t[0] == g.letter && g.arg.empty()) return;
    if (t[0] == 'h') return;
  }
  if (!f.arg.empty()) argv.push_back("5");
  Out o = run<R>(argv);
  S what;
  for (auto& a : argv) what += " " + a;
  bool works = v != cli::Delete && gv != cli::Delete;
  CHECK(o.ok == works, "%d/%d:%s: %s %s", kind, vis, what.c_str(), o.ok ? "works, but was deleted" : "does not work:", o.msg.c_str());
  if (!works && kind != SubC) CHECK(o.msg.find("unknown flag") != S::npos, "%s: %s", what.c_str(), o.msg.c_str());
}
#define EACH(F, c, R, K)                            \
  switch (c.pick(4)) {                              \
    case 0: F<R, 0>(c, K); break;                   \
    case 1: F<R, 1>(c, K); break;                   \
    case 2: F<R, 2>(c, K); break;                   \
    case 3: F<R, 3>(c, K); break;                   \
  }
#if HELP_PART == 1
#define KINDS(F)                                    \
  switch (c.pick(2)) {                              \
    case 0: EACH(F, c, FlatRoot, Flat) break;       \
    case 1: EACH(F, c, NamedRoot, Named) break;     \
  }
#else
#define KINDS(F)                                    \
  switch (c.pick(3)) {                              \
    case 0: EACH(F, c, BothRoot, Both) break;       \
    case 1: EACH(F, c, LetterRoot, Letter) break;   \
    case 2: EACH(F, c, SubRoot, SubC) break;        \
  }
#endif
SCENARIO(pages, "both help pages of a command and of its group, for 17 flags covering every visibility with and without letters and aliases, as groups of each kind or a subcommand, of every visibility", 0) { KINDS(page) }
SCENARIO(accepted, "every name and letter of the same flags, in every way to spell it", 0) { KINDS(names) }
#endif

#if HELP_PART == 2
// ---- what is said about the program -----------------------------------------
template <int bits> struct App {
  best::option<bool> x;
  constexpr friend auto BestReflect(auto& m, App*) {
    return m.infer()
      .with(cli::app{
        .name = pick(bits & 1, "the name"),
        .authors = pick(bits & 2, "the authors"),
        .about = pick(bits & 4, "about\nit"),
        .version = pick(bits & 8, "1.2"),
        .url = pick(bits & 16, "http://u"),
        .copyright_year = bits & 32 ? best::option<uint32_t>(1999) : best::option<uint32_t>(),
        .license = pick(bits & 64, "MIT"),
      })
      .with(&App::x, cli::flag{.help = "help"});
  }
};
template <int bits> void about(bool hidden) {
  Out o = run<App<bits>>({hidden ? "--help-hidden" : "--help"});
  CHECK(!o.ok && !o.fatal, "%s", o.msg.c_str());
  S want = "Usage: exe -h [OPTIONS]\n";
  if (bits & 4) want += "about\nit\n\n";
  want += "# Flags\n      --x . . . . . . . . . . help\n\n  -h, --help  . . . . . . . . show usage and exit\n";
  if (hidden) want += "      --help-hidden . . . . . show extended usage and exit\n";
  if (bits & (8 | 16)) want += "\n";
  if (bits & 8) want += S("Version: ") + (bits & 1 ? "the name" : "exe") + " v1.2\n";
  if (bits & 16) want += "Website: <http://u>\n";
  if (bits & 2) want += S("\n(c) ") + (bits & 32 ? "1999 " : "") + "the authors" + (bits & 64 ? ", licensed MIT\n" : ", all rights reserved\n");
  CHECK(o.msg == want, "app %d: help is\n%s\ninstead of\n%s", bits, o.msg.c_str(), want.c_str());
}
// Bits that can matter to each other: name, version and url with everything
// else or nothing else; authors, year and license likewise.
constexpr int Subsets[] = {
  0, 1, 8, 9, 16, 17, 24, 25, 102, 103, 110, 111, 118, 119, 126, 127,
  2, 32, 34, 64, 66, 96, 98, 29, 31, 61, 63, 93, 95, 125, 4, 123,
};
template <int... i> void abouts(int which, bool hidden, std::integer_sequence<int, i...>) { ((i == which ? about<Subsets[i]>(hidden) : void()), ...); }
SCENARIO(apps, "32 subsets of the 7 things that can be said about a program, on both help pages", 0) {
  int which = c.pick(32);
  bool hidden = c.flip();
  abouts(which, hidden, std::make_integer_sequence<int, 32>{});
}
#endif

#if HELP_PART == 3
// ---- positionals in the usage line -------------------------------------------
template <int named, int n, cli::count k0, cli::count k1> struct Pos {
  best::option<int> a;
  best::vec<int> b;
  constexpr friend auto BestReflect(auto& m, Pos*) {
    if constexpr (n == 0) return m.infer().with(&Pos::a, cli::positional{.name = pick(named & 1, "AA"), .count = k0}).with(&Pos::b, cli::positional{.name = pick(named & 2, "BB"), .count = k1});
    else return m.infer().with(&Pos::a, cli::positional{}).with(&Pos::b, cli::positional{});
  }
};
template <int named, int n, cli::count k0, cli::count k1> void usage() {
  Out o = run<Pos<named, n, k0, k1>>({"-h"});
  auto one = [](S name, cli::count k) { return k == cli::Optional ? " [" + name + "]" : k == cli::Required ? " <" + name + ">" : " [" + name + "]..."; };
  S want = "Usage: exe -h [OPTIONS]" + one(n == 0 && named & 1 ? "AA" : "ARG1", n ? cli::Optional : k0) + one(n == 0 && named & 2 ? "BB" : "ARG2", n ? cli::Repeated : k1) + "\n";
  CHECK(o.msg.substr(0, want.size()) == want, "usage is %s instead of %s", o.msg.substr(0, o.msg.find('\n')).c_str(), want.c_str());
}
template <int named> void usages(int k) {
  switch (k) {
    case 0: return usage<named, 0, cli::Optional, cli::Optional>();
    case 1: return usage<named, 0, cli::Required, cli::Optional>();
    case 2: return usage<named, 0, cli::Required, cli::Required>();
    case 3: return usage<named, 0, cli::Required, cli::Repeated>();
    case 4: return usage<named, 0, cli::Optional, cli::Repeated>();
    case 5: return usage<named, 1, cli::Optional, cli::Optional>();
  }
}
SCENARIO(positionals, "usage lines of two positionals with every count, named or not", 0) {
  int k = c.pick(6);
  switch (c.pick(4)) {
    case 0: return usages<0>(k);
    case 1: return usages<1>(k);
    case 2: return usages<2>(k);
    case 3: return usages<3>(k);
  }
}
// ---- values -----------------------------------------------------------------
struct Vals {
  best::option<bool> b;
  best::option<best::rune> r;
  best::option<best::str> s;
  best::option<best::strbuf> t;
  best::vec<best::rune> rs;
  best::vec<bool> bs;
  best::option<best::pretext<best::wtf8>> none;
  constexpr friend auto BestReflect(auto& m, Vals*) {
    return m.infer().hide(&Vals::none).with(&Vals::b, cli::flag{}).with(&Vals::r, cli::flag{}).with(&Vals::s, cli::flag{}).with(&Vals::t, cli::flag{}).with(&Vals::rs, cli::flag{}).with(&Vals::bs, cli::flag{});
  }
};
// A rune in strict UTF-8: its length, or 0.
int utf8(const S& s, size_t i, uint32_t& r) {
  auto at = [&](size_t k) { return k < s.size() ? uint8_t(s[k]) : 0u; };
  uint32_t a = at(i);
  if (a < 0x80) return r = a, 1;
  int n = a >= 0xf0 && a < 0xf8 ? 4 : a >= 0xe0 && a < 0xf0 ? 3 : a >= 0xc0 && a < 0xe0 ? 2 : 0;
  if (!n || i + size_t(n) > s.size()) return 0;
  r = a & (0x7fu >> n);
  for (int k = 1; k < n; ++k) {
    if ((at(i + size_t(k)) & 0xc0) != 0x80) return 0;
    r = r << 6 | (at(i + size_t(k)) & 0x3f);
  }
  if (r > 0x10ffff || (r >= 0xd800 && r < 0xe000)) return 0;
  return (n == 2 && r < 0x80) || (n == 3 && r < 0x800) || (n == 4 && r < 0x10000) ? 0 : n;
}
SCENARIO(bools, "--b=WORD for all words of up to 4 of 15 characters, and every known spelling in wrong case and with a tail", 0) {
  static const S xs = "truefalsyno01xbT ";
  static const char* const yes[] = {"", "true", "t", "yes", "y", "on"};
  static const char* const no[] = {"false", "f", "no", "n", "off"};
  mc::u64 n = 0, p = 1;
  for (int l = 0; l <= (c.thorough() ? 5 : 4); ++l, p *= xs.size()) n += p;
  c.bulk(n + 1000, 2000, [&](mc::u64 i) {
    S w;
    if (i < n) {
      mc::u64 p = 1;
      int len = 0;
      while (i >= p) i -= p, p *= xs.size(), ++len;
      for (int k = 0; k < len; ++k) w += xs[i % xs.size()], i /= xs.size();
    } else {
      i -= n;
      int k = int(i % 11);
      w = k < 6 ? yes[k] : no[k - 6];
      i /= 11;
      if (i % 3 == 1 && !w.empty()) w[0] = char(w[0] - 32);
      if (i % 3 == 2) w += "e";
      if (i / 3 % 2) w = " " + w;
    }
    int want = -1;
    for (auto y : yes) if (w == y) want = 1;
    for (auto y : no) if (w == y) want = 0;
    // 0 and 1 in any of the ways integers can be written.
    if (!w.empty() && (w[0] == '0' || w[0] == '1')) {
      S d = w;
      if (d.size() > 2 && d[0] == '0' && (d[1] == 'x' || d[1] == 'b' || d[1] == 'o')) d = d.substr(2);
      size_t z = d.find_first_not_of('0');
      if (z == S::npos) want = 0;
      else if (d.substr(z) == "1") want = 1;
    }
    Vals v;
    Out o = run<Vals>({"--b=" + w}, &v);
    if (want < 0) CHECK(!o.ok && o.fatal && o.msg == "exe: fatal: could not parse argument for --b: invalid bool: \"" + w + "\"", "\"%s\" is not a bool, got %s", w.c_str(), o.ok ? "a value" : o.msg.c_str());
    else CHECK(o.ok && v.b.has_value() && *v.b == (want == 1), "\"%s\": %s", w.c_str(), o.ok ? "other value" : o.msg.c_str());
    Out o2 = run<Vals>({"--bs=" + w, "--bs", "--bs=no"}, &v);
    CHECK(o2.ok == (want >= 0), "in a list: %s", o2.msg.c_str());
    if (want >= 0) CHECK(v.bs.size() == 3 && v.bs[0] == (want == 1) && v.bs[1] && !v.bs[2], "list for \"%s\"", w.c_str());
  });
}
SCENARIO(texts, "--r, --s and --t with all byte strings of up to 4 of 13 bytes that begin, continue and break runes", 0) {
  static const S xs("aZ\x01\x7f\x80\xbf\xc3\xed\xa0\xf0\x9f\xff\x90", 13);
  mc::u64 n = 0, p = 1;
  for (int l = 0; l <= (c.thorough() ? 5 : 4); ++l, p *= xs.size()) n += p;
  c.bulk(n, 1000, [&](mc::u64 i) {
    S w;
    mc::u64 p = 1;
    int len = 0;
    while (i >= p) i -= p, p *= xs.size(), ++len;
    for (int k = 0; k < len; ++k) w += xs[i % xs.size()], i /= xs.size();
    size_t at = 0;
    uint32_t r = 0;
    int runes = 0;
    while (at < w.size()) {
      int l = utf8(w, at, r);
      if (!l) break;
      at += size_t(l), ++runes;
    }
    bool valid = at == w.size();
    bool sur = false;  // surrogates are fine in argv, and as runes
    for (size_t k = 0; k + 1 < w.size(); ++k) sur |= w[k] == '\xed' && uint8_t(w[k + 1]) >= 0xa0;
    Vals v;
    for (int form = 0; form < 2; ++form) {
      auto put = [&](S f) { return form ? V<S>{f, w} : V<S>{f + "=" + w}; };
      V<S> argv = put("--s");
      Out o = run<Vals>(argv, &v);
      CHECK(o.ok == valid, "--s: %s", o.ok ? "took badly encoded text" : o.msg.c_str());
      if (valid) CHECK(v.s.has_value() && sv(*v.s) == w, "--s: other text");
      else CHECK(o.fatal && o.msg.find("for --s: string is not correctly encoded") != S::npos, "--s: %s", o.msg.c_str());
      if (valid) {
        o = run<Vals>(put("--t"), &v);
        CHECK(o.ok && v.t.has_value() && sv(v.t->as_text()) == w, "--t: %s", o.msg.c_str());
      }
      if (sur) continue;
      o = run<Vals>(put("--r"), &v);
      CHECK(o.ok == (valid && runes == 1), "--r: %s", o.ok ? "took more or less than one rune" : o.msg.c_str());
      if (o.ok) CHECK(v.r.has_value() && v.r->to_int() == r, "--r: other rune");
      else CHECK(o.fatal && o.msg.find("for --r: invalid rune: ") != S::npos, "--r: %s", o.msg.c_str());
      Vals l;
      V<S> a = put("--rs");
      a.push_back("--rs=q");
      Out o2 = run<Vals>(a, &l);
      CHECK(o2.ok == o.ok, "--rs: %s", o2.msg.c_str());
      if (o.ok) CHECK(l.rs.size() == 2 && l.rs[0].to_int() == r && l.rs[1] == 'q', "--rs: other runes");
    }
  });
}
#endif
}  // namespace hlp
