// C01/C02: command-line parsing, against a reference parser written from the
// documentation, and help pages, against a list of what must be on them.
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "best/cli/cli.h"
#include "best/cli/parser.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "mc.h"

#ifndef CLI_PART
#define CLI_PART 1
#endif
using mc::Ctx;
using best::cli;

namespace clis {
using S = std::string;
template <typename T> using V = std::vector<T>;
inline S sv(best::pretext<best::wtf8> t) { return S(t.data(), t.size()); }
inline S sv(best::str t) { return S(t.data(), t.size()); }

// ---- the reference ----------------------------------------------------------
enum Kind { Int, Bool, Str };
enum Count { Opt, Req, Rep };
enum Out { Ok, Help, HelpHidden, Unknown, Extra, TwiceK, NoArg, NoSub, HasArg, BadVal, BadPos, MissF, MissP };
struct Cmd;
struct FlagS {
  S slot;
  Kind kind;
  Count count;
  char letter;
  V<S> names;
  bool list = false;  // collects every value
};
struct PosS {
  S slot, name;
  Kind kind;
  Count count;
  bool list = false;
};
struct GroupS {
  V<S> names;  // empty and no letter: flattened
  char letter;
  const Cmd* cmd;
};
struct SubS {
  V<S> names;
  const Cmd* cmd;
};
struct Cmd {
  S id;  // how to ask for its help
  V<FlagS> flags;
  V<GroupS> groups;
  V<SubS> subs;
  V<PosS> pos;
};
struct Ref {
  Out out = Ok;
  S msg;       // the expected message, if it is pinned down exactly
  V<S> any;    // or: any of these
  S where;     // for help
  std::map<S, V<S>> vals;
};

struct Target {
  const FlagS* flag = nullptr;
  const GroupS* group = nullptr;
  const Cmd* help = nullptr;
  bool hidden = false;
  S prefix;  // slots of the flag start with this
};
inline S fold(S s) {
  for (char& c : s)
    if (c == '_') c = '-';
  return s;
}
// Every name by which something can be set after `--` in a command or group.
inline std::map<S, Target> table(const Cmd& c, bool own_help = true) {
  std::map<S, Target> out;
  if (own_help) {
    out["help"] = out["h"] = {.help = &c};
    out["help-hidden"] = {.help = &c, .hidden = true};
  }
  for (auto& f : c.flags) {
    for (auto& n : f.names) out[fold(n)] = {.flag = &f};
    if (f.letter) out[S(1, f.letter)] = {.flag = &f};
  }
  for (auto& g : c.groups) {
    bool flat = g.names.empty() && !g.letter;
    auto inner = table(*g.cmd, !flat);
    for (auto& [k, t] : inner) {
      if (flat) out[k] = t;
      for (auto& n : g.names) out[fold(n) + "." + k] = t;
      if (g.letter) {
        out[S(1, g.letter) + "." + k] = t;
        out[S(1, g.letter) + k] = t;
      }
    }
    for (auto& n : g.names) out[fold(n)] = {.group = &g};
    if (g.letter) out[S(1, g.letter)] = {.group = &g};
  }
  return out;
}
// What can be given as a letter.
inline bool letters(const Cmd& c, char r, Target& t) {
  if (r == 'h') {
    t = {.help = &c};
    return true;
  }
  for (auto& f : c.flags)
    if (f.letter == r) {
      t = {.flag = &f};
      return true;
    }
  for (auto& g : c.groups) {
    if (g.letter == r && r) {
      t = {.group = &g};
      return true;
    }
    if (g.names.empty() && !g.letter && r != 'h' && letters(*g.cmd, r, t)) return true;
  }
  return false;
}
inline std::map<S, const Cmd*> subtable(const Cmd& c) {
  std::map<S, const Cmd*> out;
  for (auto& s : c.subs)
    for (auto& n : s.names) out[fold(n)] = s.cmd;
  for (auto& g : c.groups) {
    bool flat = g.names.empty() && !g.letter;
    for (auto& [k, t] : subtable(*g.cmd)) {
      if (flat) out[k] = t;
      for (auto& n : g.names) out[fold(n) + "." + k] = t;
      if (g.letter) out[S(1, g.letter) + "." + k] = t;
    }
  }
  return out;
}
inline bool parse_val(Kind k, const S& raw, S& out) {
  switch (k) {
    case Int: {
      const char* p = raw.c_str();
      bool neg = *p == '-';
      if (*p == '-' || *p == '+') ++p;
      int base = 10;
      if (p[0] == '0' && (p[1] == 'x' || p[1] == 'b' || p[1] == 'o')) {
        base = p[1] == 'x' ? 16 : p[1] == 'b' ? 2 : 8;
        p += 2;
      } else if (p[0] == '0' && p[1]) {
        base = 8;
        ++p;
      }
      if (!*p) return false;
      mc::i64 v = 0;
      for (; *p; ++p) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'F' ? *p - 'A' + 10 : 99;
        if (d >= base) return false;
        v = v * base + d;
        if (v > 3000000000) return false;
      }
      if (neg) v = -v;
      if (v > 2147483647 || v < -2147483648ll) return false;
      out = std::to_string(v);
      return true;
    }
    case Bool: {
      for (const char* t : {"", "true", "t", "yes", "y", "on", "1"})
        if (raw == t) return out = "1", true;
      for (const char* t : {"false", "f", "no", "n", "off", "0"})
        if (raw == t) return out = "0", true;
      return false;
    }
    case Str: {
      for (char c : raw)
        if (c == '\xff') return false;
      out = raw;
      return true;
    }
  }
  return false;
}
inline const char* bad(Kind k) { return k == Int ? "invalid integer" : k == Bool ? "invalid bool" : "string is not correctly encoded"; }
inline bool plain(const S& s) {
  for (char c : s)
    if (c & 0x80) return false;
  return true;
}
inline S badmsg(Kind k, const S& v) { return S(bad(k)) + ": \"" + v + "\""; }

inline void req_flags(const Cmd& c, const std::map<const FlagS*, int>& seen, S exe, Ref& r, bool exact) {
  for (auto& f : c.flags)
    if (f.count == Req && !seen.count(&f)) {
      r.out = MissF;
      r.any.push_back(exact ? exe + ": fatal: missing flag --" + fold(f.names[0]) : S());
    }
  for (auto& g : c.groups) req_flags(*g.cmd, seen, exe, r, exact && g.names.empty() && !g.letter);
}

inline Ref reference(const Cmd& root, S exe, const V<S>& argv) {
  Ref r;
  auto slash = exe.rfind('/');
  if (slash != S::npos) exe = exe.substr(slash + 1);
  V<const Cmd*> path = {&root};
  V<size_t> npos = {0};
  std::map<const FlagS*, int> seen;
  bool raw = false;
  auto fatal = [&](Out o, S msg) {
    r.out = o;
    r.msg = msg.empty() ? "" : exe + ": fatal: " + msg;
    return r;
  };
  auto set = [&](const FlagS& f, S val) -> bool {
    S v;
    if (!parse_val(f.kind, val, v)) return false;
    auto& dst = r.vals[f.slot];
    if (!f.list) dst.clear();
    dst.push_back(v);
    return true;
  };
  auto twice = [&](const FlagS& f) { return seen[&f]++ > 0 && f.count != Rep; };

  for (size_t i = 0; i < argv.size(); ++i) {
    const S& tok = argv[i];
    const Cmd* cmd = path.back();
    if (!raw && tok == "--") {
      raw = true;
      continue;
    }
    if (!raw && tok.size() > 1 && tok[0] == '-') {
      auto eq = tok.find('=');
      S head = tok.substr(0, eq), val;
      bool has = eq != S::npos;
      if (has) val = tok.substr(eq + 1);
      bool one = head.substr(0, 2) != "--";
      S rest = head.substr(one ? 1 : 2);
      S dash = one ? "-" : "--";
      const Cmd* cur = cmd;
      bool nested = false, done = false;
      // Moves on to the next argument for a flag in a group.
      auto into = [&](const GroupS& g) -> Out {
        if (has) return HasArg;
        if (++i >= argv.size()) return NoSub;
        rest = argv[i];
        auto eq = rest.find('=');
        if (eq != S::npos) {
          has = true;
          val = rest.substr(eq + 1);
          rest = rest.substr(0, eq);
        }
        cur = g.cmd;
        nested = true;
        return Ok;
      };
      if (one) {
        Target t;
        while (!rest.empty() && letters(*cur, rest[0], t)) {
          S name = "-" + rest.substr(0, 1);
          if (t.group) {
            if (rest.size() == 1) {
              Out o = into(*t.group);
              if (o == HasArg) return fatal(o, "unexpected argument after " + head);
              if (o == NoSub) return fatal(o, "expected sub-flag after " + head);
              break;
            }
            cur = t.group->cmd;
            rest = rest.substr(1);
            nested = true;
            continue;
          }
          if (t.help) {
            r.out = Help;
            r.where = t.help->id;
            return r;
          }
          if (t.flag->kind != Bool) break;
          if (twice(*t.flag)) return fatal(TwiceK, "flag " + name + " appeared more than once");
          S v = rest.size() == 1 && has ? val : "";
          if (!set(*t.flag, v)) return fatal(BadVal, plain(v) ? "could not parse argument for " + name + ": " + badmsg(t.flag->kind, v) : "");
          rest = rest.substr(1);
          if (rest.empty()) done = true;
        }
      }
      while (!done) {
        auto tab = table(*cur);
        auto it = tab.find(fold(rest));
        if (it == tab.end())
          return fatal(Unknown, nested || !plain(head) ? "" : "unknown flag \"" + head + "\"\n" + exe + ": you can use `--` if you meant to pass this as a positional argument");
        Target t = it->second;
        if (t.group) {
          Out o = into(*t.group);
          if (o == HasArg) return fatal(o, nested ? "" : "unexpected argument after " + head);
          if (o == NoSub) return fatal(o, nested ? "" : "expected sub-flag after " + head);
          continue;
        }
        if (t.help) {
          r.out = t.hidden ? HelpHidden : Help;
          r.where = t.help->id;
          return r;
        }
        S name = dash + rest;
        if (twice(*t.flag)) return fatal(TwiceK, nested ? "" : "flag " + name + " appeared more than once");
        if (!has && t.flag->kind != Bool) {
          if (++i >= argv.size()) return fatal(NoArg, nested ? "" : "expected argument after " + head);
          val = argv[i];
        }
        if (!set(*t.flag, val)) return fatal(BadVal, !nested && plain(val) ? "could not parse argument for " + name + ": " + badmsg(t.flag->kind, val) : "");
        done = true;
      }
      continue;
    }
    auto subs = subtable(*cmd);
    auto it = subs.find(fold(tok));
    if (it != subs.end()) {
      path.push_back(it->second);
      npos.push_back(0);
      continue;
    }
    if (npos.back() >= cmd->pos.size()) return fatal(Extra, plain(tok) ? "unexpected extra argument \"" + tok + "\"" : "");
    auto& p = cmd->pos[npos.back()];
    S v;
    if (!parse_val(p.kind, tok, v)) return fatal(BadPos, plain(tok) ? "could not parse argument: " + badmsg(p.kind, tok) : "");
    auto& dst = r.vals[p.slot];
    if (!p.list) dst.clear();
    dst.push_back(v);
    if (p.count != Rep) ++npos.back();
  }
  for (size_t k = 0; k < path.size(); ++k) req_flags(*path[k], seen, exe, r, true);
  for (size_t k = 0; k < path.size(); ++k)
    for (size_t j = npos[k]; j < path[k]->pos.size(); ++j)
      if (path[k]->pos[j].count == Req) {
        r.out = MissP;
        auto& n = path[k]->pos[j].name;
        r.any.push_back(exe + ": fatal: missing argument <" + (n.empty() ? "ARG" + std::to_string(j + 1) : n) + ">");
      }
  return r;
}

// ---- running the library ----------------------------------------------------
struct Got {
  bool ok = false, fatal = false;
  S msg;
  std::map<S, V<S>> vals;
};
struct Put {
  std::map<S, V<S>>& out;
  void operator()(const char* slot, int v, int dflt = 0) {
    if (v != dflt) out[slot] = {std::to_string(v)};
  }
  void operator()(const char* slot, best::str v) {
    if (!v.is_empty()) out[slot] = {sv(v)};
  }
  void operator()(const char* slot, const best::strbuf& v) { (*this)(slot, v.as_text()); }
  void operator()(const char* slot, const best::option<int>& v) {
    if (v) out[slot] = {std::to_string(*v)};
  }
  void operator()(const char* slot, const best::option<bool>& v) {
    if (v) out[slot] = {*v ? "1" : "0"};
  }
  void operator()(const char* slot, const best::option<best::str>& v) {
    if (v) out[slot] = {sv(*v)};
  }
  void operator()(const char* slot, const best::vec<int>& v) {
    for (int x : v) out[slot].push_back(std::to_string(x));
  }
  void operator()(const char* slot, const best::vec<bool>& v) {
    for (bool x : v) out[slot].push_back(x ? "1" : "0");
  }
  void operator()(const char* slot, const best::vec<best::str>& v) {
    for (auto x : v) out[slot].push_back(sv(x));
  }
};
inline S show(const std::map<S, V<S>>& m) {
  S o = "{";
  for (auto& [k, v] : m) {
    o += " " + k + "=";
    for (auto& x : v) o += "[" + x + "]";
  }
  return o + " }";
}
inline S show(const V<S>& argv) {
  S o;
  for (auto& a : argv) {
    o += " '";
    for (char ch : a) {
      if (ch >= ' ' && ch < 127) o += ch;
      else {
        char b[8];
        snprintf(b, 8, "\\x%02x", mc::u8(ch));
        o += b;
      }
    }
    o += "'";
  }
  return o;
}
template <typename F> Got run(const S& exe, const V<S>& argv) {
  best::vec<best::pretext<best::wtf8>> v;
  for (auto& a : argv) v.push(best::pretext<best::wtf8>(best::span(a.data(), a.size())));
  Got g;
  auto res = best::parse_flags<F>(best::pretext<best::wtf8>(best::span(exe.data(), exe.size())), v.as_span());
  if (res) {
    g.ok = true;
    res->put(Put{g.vals});
  } else {
    g.fatal = res.err()->is_fatal();
    g.msg = sv(res.err()->message());
  }
  return g;
}
// Help pages are compared with what the plainest way of asking for them says.
template <typename F> S help(S where, bool hidden) {
  V<S> argv;
  size_t i = 0;
  while (i < where.size()) {
    size_t j = where.find(' ', i);
    if (j == S::npos) j = where.size();
    argv.push_back(where.substr(i, j - i));
    i = j + 1;
  }
  bool in_group = !argv.empty() && argv.back()[0] == '-';
  bool nested = argv.size() > 1 && argv[argv.size() - 2][0] == '-';
  argv.push_back((in_group || nested ? S() : S("--")) + (hidden ? "help-hidden" : "help"));
  Got g = run<F>("exe", argv);
  CHECK(!g.ok && !g.fatal, "%s does not print help: %s", show(argv).c_str(), g.msg.c_str());
  return g.msg;
}

template <typename F> void compare(const Cmd& root, const S& exe, const V<S>& argv) {
  Ref want = reference(root, exe, argv);
  Got got = run<F>(exe, argv);
  S a = show(argv);
  if (want.out == Ok) {
    CHECK(got.ok, "%s: parsing failed: %s", a.c_str(), got.msg.c_str());
    // Defaults cannot be told from nothing.
    for (auto it = want.vals.begin(); it != want.vals.end();)
      if (!it->second.empty() && F::is_default(it->first, it->second[0])) it = want.vals.erase(it);
      else ++it;
    CHECK(got.vals == want.vals, "%s: set %s instead of %s", a.c_str(), show(got.vals).c_str(), show(want.vals).c_str());
    return;
  }
  CHECK(!got.ok, "%s: parsing worked, and set %s (expected: failure %d %s%s)", a.c_str(), show(got.vals).c_str(), want.out, want.msg.c_str(), want.any.empty() ? "" : want.any[0].c_str());
  if (want.out == Help || want.out == HelpHidden) {
    CHECK(!got.fatal, "%s: asked for help, failed: %s", a.c_str(), got.msg.c_str());
    static std::map<S, S> pages;
    mc::Internal in;
    S key = want.where + (want.out == HelpHidden ? "|h" : "");
    if (!pages.count(key)) pages[key] = help<F>(want.where, want.out == HelpHidden);
    CHECK(exe != "exe" || got.msg == pages[key], "%s: asked for help of \"%s\", got\n%s\ninstead of\n%s", a.c_str(), want.where.c_str(), got.msg.c_str(), pages[key].c_str());
    return;
  }
  CHECK(got.fatal, "%s: got help instead of an error", a.c_str());
  static const char* const part[] = {"", "", "", ": fatal: unknown flag ", ": fatal: unexpected extra argument ", ": fatal: flag ", ": fatal: expected argument after ", ": fatal: expected sub-flag after ", ": fatal: unexpected argument after ", ": fatal: could not parse argument for ", ": fatal: could not parse argument: ", ": fatal: missing flag --", ": fatal: missing argument <"};
  if (!want.msg.empty()) CHECK(got.msg == want.msg, "%s: failed with \"%s\" instead of \"%s\"", a.c_str(), got.msg.c_str(), want.msg.c_str());
  else if (!want.any.empty()) {
    bool any = false;
    for (auto& m : want.any) any |= m.empty() ? got.msg.find(": fatal: missing flag --") != S::npos : got.msg == m;
    CHECK(any, "%s: failed with \"%s\" instead of e.g. \"%s\"", a.c_str(), got.msg.c_str(), want.any[0].c_str());
  } else {
    CHECK(got.msg.find(part[want.out]) != S::npos, "%s: failed with \"%s\" instead of \"%s\"", a.c_str(), got.msg.c_str(), part[want.out]);
  }
}

// All argument lists of up to `depth` tokens.
template <typename F> void all(Ctx& c, const Cmd& root, const V<S>& toks, int depth) {
  mc::u64 n = 0, p = 1;
  for (int d = 0; d <= depth; ++d, p *= toks.size()) n += p;
  c.bulk(n, 2000, [&](mc::u64 i) {
    int len = 0;
    mc::u64 p = 1;
    while (i >= p) {
      i -= p;
      p *= toks.size();
      ++len;
    }
    V<S> argv;
    for (int k = 0; k < len; ++k) {
      argv.push_back(toks[i % toks.size()]);
      i /= toks.size();
    }
    compare<F>(root, "exe", argv);
  });
}

#if CLI_PART == 1
// ---- flags, letters, aliases, repetition, subcommands, positionals ------------
struct Sub {
  int sf = 0;
  best::option<bool> sb;
  int pos = 0;
  constexpr friend auto BestReflect(auto& m, Sub*) {
    return m.infer().with(&Sub::sf, cli::flag{.letter = 's', .help = "x"}).with(&Sub::sb, cli::flag{.letter = 'a', .help = "x"});
  }
};
struct Kit {
  best::option<bool> all, big;
  int num = 0;
  best::vec<int> many;
  best::vec<bool> bits;
  best::str last;
  best::option<best::str> two_words;
  int gone = 0, ghost = 0;
  Sub in_it, quit;
  best::option<best::str> first;
  best::vec<best::str> rest;
  constexpr friend auto BestReflect(auto& m, Kit*) {
    return m.infer()
      .with(&Kit::all, cli::flag{.letter = 'a', .help = "x"})
      .with(&Kit::big, cli::flag{.name = "large", .letter = 'b', .count = cli::Repeated, .help = "x"})
      .with(&Kit::num, cli::flag{.letter = 'n', .help = "x"})
      .with(&Kit::many, cli::flag{.help = "x"})
      .with(&Kit::bits, cli::flag{.letter = 'i', .help = "x"})
      .with(&Kit::last, cli::flag{.letter = 'l', .count = cli::Repeated, .help = "x"})
      .with(&Kit::two_words, cli::flag{.help = "x"}, cli::alias{"other_name"}, cli::alias{"o-t", cli::Invisible})
      .with(&Kit::gone, cli::flag{.letter = 'g', .vis = cli::Delete, .count = cli::Required, .help = "x"})
      .with(&Kit::ghost, cli::flag{.vis = cli::Invisible, .help = "x"})
      .with(&Kit::in_it, cli::subcommand{.help = "x"}, cli::alias{"inn"})
      .with(&Kit::quit, cli::subcommand{.name = "stop", .vis = cli::Hidden, .help = "x"});
  }
  void put(Put p) const {
    p("all", all), p("big", big), p("num", num), p("many", many), p("bits", bits), p("last", last), p("two", two_words), p("gone", gone), p("ghost", ghost);
    p("in.sf", in_it.sf), p("in.sb", in_it.sb), p("in.pos", in_it.pos), p("q.sf", quit.sf), p("q.sb", quit.sb), p("q.pos", quit.pos);
    p("first", first), p("rest", rest);
  }
  static bool is_default(const S& slot, const S& v) {
    if (slot == "num" || slot == "ghost" || slot == "in.sf" || slot == "in.pos" || slot == "q.sf" || slot == "q.pos") return v == "0";
    return slot == "last" && v == "";
  }
};
const Cmd& kit() {
  static Cmd in = {.id = "in-it", .flags = {{"in.sf", Int, Opt, 's', {"sf"}}, {"in.sb", Bool, Opt, 'a', {"sb"}}}, .pos = {{"in.pos", "", Int, Opt}}};
  static Cmd q = {.id = "stop", .flags = {{"q.sf", Int, Opt, 's', {"sf"}}, {"q.sb", Bool, Opt, 'a', {"sb"}}}, .pos = {{"q.pos", "", Int, Opt}}};
  static Cmd k = {.id = "",
                  .flags = {{"all", Bool, Opt, 'a', {"all"}}, {"big", Bool, Rep, 'b', {"large"}}, {"num", Int, Opt, 'n', {"num"}}, {"many", Int, Rep, 0, {"many"}, true}, {"bits", Bool, Rep, 'i', {"bits"}, true}, {"last", Str, Rep, 'l', {"last"}}, {"two", Str, Opt, 0, {"two-words", "other-name", "o-t"}}, {"ghost", Int, Opt, 0, {"ghost"}}},
                  .subs = {{{"in-it", "inn"}, &in}, {{"stop"}, &q}},
                  .pos = {{"first", "", Str, Opt}, {"rest", "", Str, Rep, true}}};
  return k;
}
const V<S> kit_toks = {
  "-a", "--all=no", "-ab", "-b", "-bn=4", "-n", "--num", "--many=2", "--many", "-l", "-bl=z", "--two_words=q", "--other-name", "--o_t=", "-n=0x10", "7",
  "-", "--", "", "x", "a", "aa", "--gone=1", "-g", "--ghost=3", "in-it", "in_it", "stop", "-s", "-as=5", "-h", "--help-hidden", "-aq", "-iai=no",
};
const V<S> kit_more = {"--bits", "-i", "\xc3\xa9", "-\xc3\xa9", "-\xff", "\xff", "-=", "--=x", "--all=maybe", "=", "=a", "-a=", "-a=1", "-ba=0", "--n", "--a", "-ah", "-nh", "--big", "--large", "--sf=2", "inn", "--last=--", "---a", "--num=", "--num=99999999999", "--num=-7", "-7", "--help", "--unknown", "-z", "--two-words", "--two-words==", "in-it=", "--in-it", "N\xc3\xa9", "--l\xc3\xa9=1", "--help_hidden", "--all", "--large=n", "o"};
SCENARIO(kit_lists, "every list of up to 3 (thorough 4) of 34 arguments, for a struct with flags, letters, aliases, repeated, deleted and invisible flags, positionals and subcommands", 0) {
  all<Kit>(c, kit(), kit_toks, c.thorough() ? 4 : 3);
}
SCENARIO(kit_words, "every list of up to 2 (thorough 3) of 75 arguments, including empty, malformed and badly encoded ones", 0) {
  V<S> t = kit_toks;
  t.insert(t.end(), kit_more.begin(), kit_more.end());
  all<Kit>(c, kit(), t, c.thorough() ? 3 : 2);
}
SCENARIO(kit_pairs, "every list of 1 argument before or after any 1 of the same arguments between fixed ones: before, inside and after a subcommand, and after `--`", 0) {
  V<S> t = kit_toks;
  t.insert(t.end(), kit_more.begin(), kit_more.end());
  int n = int(t.size());
  c.bulk(mc::u64(n) * n * 4, 500, [&](mc::u64 i) {
    S a = t[i % n], b = t[i / n % n];
    V<S> argv;
    switch (i / n / n) {
      case 0: argv = {"-b", a, "w", b}; break;
      case 1: argv = {a, "inn", b, "3"}; break;
      case 2: argv = {"stop", a, b, "-s=2"}; break;
      case 3: argv = {"first", "--", a == "stop" || a.substr(0, 2) == "in" ? S("-a") : a, b == "stop" || b.substr(0, 2) == "in" ? S("--") : b}; break;
    }
    compare<Kit>(kit(), "exe", argv);
  });
}
SCENARIO(exes, "program names with and without directories", 0) {
  static const char* const exes[] = {"exe", "/usr/bin/exe", "./a b", "", "x/", "/", "\xc3\xa9/\xc3\xa9"};
  S exe = c.pick_of(exes);
  static const char* const one[] = {"--nope", "--num=x", "-aa", "--num", "q", "--help"};
  S a = c.pick_of(one);
  if (a == "--help") {
    Got g = run<Kit>(exe, {a});
    auto sl = exe.rfind('/');
    S base = sl == S::npos ? exe : exe.substr(sl + 1);
    S want = "Usage: " + base + " ";
    CHECK(g.msg.substr(0, want.size()) == want, "usage for %s starts with %s", exe.c_str(), g.msg.substr(0, 60).c_str());
    return;
  }
  compare<Kit>(kit(), exe, {a});
}
#endif

#if CLI_PART == 2
// ---- groups -----------------------------------------------------------------
struct Deep {
  int d = 0;
  best::option<bool> e_f;
  constexpr friend auto BestReflect(auto& m, Deep*) { return m.infer().with(&Deep::d, cli::flag{.help = "x"}).with(&Deep::e_f, cli::flag{.letter = 'e', .help = "x"}, cli::alias{"ef2"}); }
};
struct Do {
  int val = 0;
  constexpr friend auto BestReflect(auto& m, Do*) { return m.infer().with(&Do::val, cli::flag{.letter = 'v', .help = "x"}); }
};
struct Mid {
  int ex = 0;
  best::option<bool> yes;
  Deep deep, flat;
  Do act;
  constexpr friend auto BestReflect(auto& m, Mid*) {
    return m.infer()
      .with(&Mid::ex, cli::flag{.letter = 'x', .help = "x"})
      .with(&Mid::yes, cli::flag{.letter = 'y', .help = "x"})
      .with(&Mid::deep, cli::group{.name = "deep", .letter = 'D', .help = "x"})
      .with(&Mid::flat, cli::group{.help = "x"})
      .with(&Mid::act, cli::subcommand{.help = "x"});
  }
};
struct Outer {
  int ind = 0;
  Deep named;
  Do make;
  constexpr friend auto BestReflect(auto& m, Outer*) { return m.infer().with(&Outer::ind, cli::flag{.letter = 'i', .help = "x"}).with(&Outer::named, cli::group{.name = "in_ner", .help = "x"}).with(&Outer::make, cli::subcommand{.help = "x"}); }
};
struct Box {
  best::option<bool> all;
  Do own;
  Mid both;
  Deep only;
  Outer flat;
  best::option<best::str> pos;
  constexpr friend auto BestReflect(auto& m, Box*) {
    return m.infer()
      .with(&Box::all, cli::flag{.letter = 'a', .help = "x"})
      .with(&Box::own, cli::subcommand{.help = "x"})
      .with(&Box::both, cli::group{.name = "the_mid", .letter = 'G', .help = "x"}, cli::alias{"mid2"})
      .with(&Box::only, cli::group{.letter = 'L', .help = "x"})
      .with(&Box::flat, cli::group{.help = "x"});
  }
  void put(Put p) const {
    p("all", all), p("x", both.ex), p("yes", both.yes), p("gd", both.deep.d), p("ge", both.deep.e_f), p("fd", both.flat.d), p("fe", both.flat.e_f), p("v", both.act.val), p("ov", own.val), p("mv", flat.make.val);
    p("ld", only.d), p("le", only.e_f), p("i", flat.ind), p("nd", flat.named.d), p("ne", flat.named.e_f), p("pos", pos);
  }
  static bool is_default(const S& slot, const S& v) { return (slot == "x" || slot == "gd" || slot == "fd" || slot == "v" || slot == "ov" || slot == "mv" || slot == "ld" || slot == "i" || slot == "nd") && v == "0"; }
};
const Cmd& box() {
  auto deep = [](S id, S p) { return Cmd{.id = id, .flags = {{p + "d", Int, Opt, 0, {"d"}}, {p + "e", Bool, Opt, 'e', {"e-f", "ef2"}}}}; };
  static Cmd gd = deep("-G deep", "g"), fd = deep("?", "f"), ld = deep("-L", "l"), nd = deep("--in-ner", "n");
  static Cmd act = {.id = "the-mid.act", .flags = {{"v", Int, Opt, 'v', {"val"}}}};
  static Cmd own = {.id = "own", .flags = {{"ov", Int, Opt, 'v', {"val"}}}};
  static Cmd make = {.id = "make", .flags = {{"mv", Int, Opt, 'v', {"val"}}}};
  static Cmd mid = {.id = "-G", .flags = {{"x", Int, Opt, 'x', {"ex"}}, {"yes", Bool, Opt, 'y', {"yes"}}}, .groups = {{{"deep"}, 'D', &gd}, {{}, 0, &fd}}, .subs = {{{"act"}, &act}}};
  static Cmd outer = {.id = "?", .flags = {{"i", Int, Opt, 'i', {"ind"}}}, .groups = {{{"in-ner"}, 0, &nd}}, .subs = {{{"make"}, &make}}};
  static Cmd b = {.id = "", .flags = {{"all", Bool, Opt, 'a', {"all"}}}, .groups = {{{"the-mid", "mid2"}, 'G', &mid}, {{}, 'L', &ld}, {{}, 0, &outer}}, .subs = {{{"own"}, &own}}, .pos = {{"pos", "", Str, Opt}}};
  return b;
}
const V<S> box_toks = {
  "-G", "-Gx", "-Gx=3", "--G", "--the_mid", "--the-mid.x=4", "--mid2.x", "-Gyx=1", "-Gy", "-GDe", "-GD", "--Gdeep.d=2", "-Gdeep", "-L", "-Ld=6", "-Le", "--in_ner", "--in-ner.d=7", "-i", "-ia=8",
  "-aGe", "d", "d=9", "x", "x=2", "e", "e_f=no", "ef2", "D", "deep", "deep.d=1", "5", "help", "h", "help-hidden", "-h", "-GDh", "--", "-a", "the-mid.act", "own", "make", "-v=3",
};
const V<S> box_more = {"G.act", "--the-mid=3", "-G=1", "-L=", "--deep.d=1", "--the-mid.deep.help", "--the-mid.deep.help-hidden", "--mid2.help", "--G.help", "-Ghelp", "--in-ner.help", "--in_ner.help_hidden", "--in-ner.h", "--the-mid.deep.ef2", "--the_mid.deep.e_f=0", "--mid2.e-f", "--flat.i=2", "--only.d=2", "--Ld=1", "--L.d=1", "-L.d=1", "-Gdeep.e", "--mid2.act", "mid2.act", "act", "-GLd=1", "-GDLe", "-GDd=3", "--L", "--Le", "", "-", "-Gq", "-Gyy", "-GyDe", "-aL", "-aa", "-GDee", "\xff"};
SCENARIO(box_lists, "every list of up to 3 (thorough 4) of 43 arguments, for a struct with named, lettered, letter-only, flattened and nested groups", 0) {
  all<Box>(c, box(), box_toks, c.thorough() ? 4 : 3);
}
SCENARIO(box_words, "every list of up to 2 (thorough 3) of 81 arguments", 0) {
  V<S> t = box_toks;
  t.insert(t.end(), box_more.begin(), box_more.end());
  all<Box>(c, box(), t, c.thorough() ? 3 : 2);
}
#endif

#if CLI_PART == 3
// ---- required things --------------------------------------------------------
struct Leaf {
  int key = 0;
  int at = 0;
  best::vec<int> more;
  constexpr friend auto BestReflect(auto& m, Leaf*) { return m.infer().with(&Leaf::key, cli::flag{.letter = 'k', .count = cli::Required, .help = "x"}).with(&Leaf::at, cli::positional{.name = "AT", .count = cli::Required}).with(&Leaf::more, cli::positional{}); }
};
struct Twig {
  best::option<int> opt;
  Leaf leaf;
  best::option<int> one;
  constexpr friend auto BestReflect(auto& m, Twig*) { return m.infer().with(&Twig::opt, cli::flag{.help = "x"}).with(&Twig::leaf, cli::subcommand{.help = "x"}).with(&Twig::one, cli::positional{.count = cli::Required}); }
};
struct Grp {
  int gee = 0;
  constexpr friend auto BestReflect(auto& m, Grp*) { return m.infer().with(&Grp::gee, cli::flag{.letter = 'g', .count = cli::Required, .help = "x"}); }
};
struct Tree {
  int r_q = 0;
  best::vec<int> rep;
  Twig twig;
  Leaf leaf;
  Grp flat;
  best::option<best::str> a, b;
  constexpr friend auto BestReflect(auto& m, Tree*) {
    return m.infer()
      .with(&Tree::r_q, cli::flag{.letter = 'r', .count = cli::Required, .help = "x"}, cli::alias{"rr"})
      .with(&Tree::rep, cli::flag{.count = cli::Required, .help = "x"})
      .with(&Tree::twig, cli::subcommand{.help = "x"})
      .with(&Tree::leaf, cli::subcommand{.help = "x"})
      .with(&Tree::flat, cli::group{})
      .with(&Tree::a, cli::positional{.name = "FIRST", .count = cli::Required})
      .with(&Tree::b, cli::positional{.name = "SECOND"});
  }
  void put(Put p) const {
    p("rq", r_q), p("rep", rep), p("g", flat.gee), p("a", a), p("b", b), p("opt", twig.opt), p("one", twig.one), p("tk", twig.leaf.key), p("tat", twig.leaf.at), p("tmore", twig.leaf.more), p("lk", leaf.key), p("lat", leaf.at), p("lmore", leaf.more);
  }
  static bool is_default(const S&, const S&) { return false; }
};
const Cmd& tree() {
  static Cmd tl = {.id = "twig leaf", .flags = {{"tk", Int, Req, 'k', {"key"}}}, .pos = {{"tat", "AT", Int, Req}, {"tmore", "", Int, Rep, true}}};
  static Cmd ll = {.id = "leaf", .flags = {{"lk", Int, Req, 'k', {"key"}}}, .pos = {{"lat", "AT", Int, Req}, {"lmore", "", Int, Rep, true}}};
  static Cmd tw = {.id = "twig", .flags = {{"opt", Int, Opt, 0, {"opt"}}}, .subs = {{{"leaf"}, &tl}}, .pos = {{"one", "", Int, Req}}};
  static Cmd gr = {.id = "?", .flags = {{"g", Int, Req, 'g', {"gee"}}}};
  static Cmd t = {.id = "", .flags = {{"rq", Int, Req, 'r', {"r-q", "rr"}}, {"rep", Int, Req, 0, {"rep"}, true}}, .groups = {{{}, 0, &gr}}, .subs = {{{"twig"}, &tw}, {{"leaf"}, &ll}}, .pos = {{"a", "FIRST", Str, Req}, {"b", "SECOND", Str, Opt}}};
  return t;
}
const V<S> tree_toks = {"-r=1", "--rr=2", "--rep=3", "-g=4", "p", "twig", "leaf", "-k=5", "6", "--", "--opt=7", "--help"};
SCENARIO(tree_lists, "every list of up to 6 (thorough 7) of 12 arguments, for a struct with required flags, positionals and flattened groups, in nested subcommands", 0) {
  all<Tree>(c, tree(), tree_toks, c.thorough() ? 7 : 5);
}
SCENARIO(tree_orders, "all ways to give, drop or repeat each of the 9 things that are required along three nested commands, in every order of the first four", 0) {
  static const char* const top[] = {"-r=1", "--rep=3", "-g=4", "p"};
  int idx[4] = {0, 1, 2, 3};
  int perm = c.pick(24);
  for (int i = 4, p = perm; i > 1; --i) {
    std::swap(idx[i - 1], idx[p % i]);
    p /= i;
  }
  V<S> argv;
  for (int i : idx) {
    int n = c.pick(2);
    for (int k = 0; k < n; ++k) argv.push_back(top[i]);
  }
  auto some = [&](const char* t, int max = 3) {
    int n = c.pick(max);
    for (int k = 0; k < n; ++k) argv.push_back(t);
  };
  some("q", 2);
  if (c.flip()) {
    argv.push_back("twig");
    some("2", 2);
    some("--opt=7");
  }
  argv.push_back("leaf");
  some("-k=5");
  some("6");
  if (c.flip()) argv.push_back("-k=1");
  compare<Tree>(tree(), "exe", argv);
}
#endif
}  // namespace clis
