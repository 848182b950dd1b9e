// C03: best::app, run in forked processes.
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "best/cli/app.h"
#include "best/cli/cli.h"
#include "best/cli/parser.h"
#include "best/text/format.h"
#include "mc.h"

using mc::Ctx;
namespace appl {
using S = std::string;
template <typename T> using V = std::vector<T>;
using best::cli;
inline S sv(best::pretext<best::wtf8> t) { return S(t.data(), t.size()); }

struct Shared {
  volatile int code, calls, done;
  volatile size_t nout, nerr, nseen;
  char out[8192], err[8192], seen[4096];
};
Shared* sh;
// Runs f in a new process, until that ends.
template <typename F> void child(const F& f) {
  if (!sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void*>(sh), 0, sizeof(Shared));
  sh->code = -2;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  CHECK(pid >= 0, "fork");
  if (pid == 0) {
    int o = memfd_create("o", 0), e = memfd_create("e", 0);
    dup2(o, 1);
    dup2(e, 2);
    sh->code = mc::exits([&] { f(); });
    fflush(stdout);
    fflush(stderr);
    ssize_t n = pread(1, sh->out, sizeof sh->out, 0), m = pread(2, sh->err, sizeof sh->err, 0);
    sh->nout = n > 0 ? size_t(n) : 0, sh->nerr = m > 0 ? size_t(m) : 0;
    sh->done = 1;
    syscall(SYS_exit_group, 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (!sh->done) {
    mc::fail("the process was killed: status %d", st);
  }
}
S out() { return S(sh->out, sh->nout); }
S err() { return S(sh->err, sh->nerr); }
// What main saw.
void record(const S& extra = "") {
  sh->calls = sh->calls + 1;
  S s = "exe=" + sv(best::app::exe());
  for (auto a : best::app::argv()) s += "|" + sv(a);
  s += extra;
  memcpy(sh->seen, s.data(), s.size());
  sh->nseen = s.size();
}
struct Args {
  int num = 0;
  best::vec<best::str> rest;
  constexpr friend auto BestReflect(auto& m, Args*) {
    return m.infer().with(&Args::num, cli::flag{.letter = 'n', .help = "a number"});
  }
};
S text(const Args& a) {
  S s = ";" + std::to_string(a.num);
  for (auto r : a.rest) s += "," + S(r.data(), r.size());
  return s;
}
int ret;
void f_void() { record(); }
int f_int() { return record(), ret; }
best::result<int, best::str> f_res() {
  record();
  if (ret % 2) return best::err(best::str("the reason"));
  return best::ok(ret);
}
best::result<void, best::strbuf> f_res_void() {
  record();
  if (ret % 2) return best::err(best::strbuf("the reason"));
  return best::ok();
}
void a_void(Args& a) { record(text(a)); }
int a_int(Args& a) { return record(text(a)), ret; }
best::result<int, best::str> a_res(Args& a) {
  record(text(a));
  if (ret % 2) return best::err(best::str("the reason"));
  return best::ok(ret);
}
void start(const V<S>& argv) {
  static char buf[4096];
  static char* ptrs[64];
  char* p = buf;
  int n = 0;
  for (auto& a : argv) {
    ptrs[n++] = p;
    memcpy(p, a.c_str(), a.size() + 1);
    p += a.size() + 1;
  }
  ptrs[n] = nullptr;
  best::app::start(n, ptrs);
}

SCENARIO(runs, "11 kinds of app, as functions and lambdas, 6 return values, all lists of up to 2 (thorough 3) of 11 arguments", 0) {
  static const char* const toks[] = {"-n=3", "pos", "--help", "--bad", "", "\xc3\xa9", "-n", "--", "0x10", "-nq", "-h"};
  static const int rets[] = {0, 1, 2, 127, 128, 255};
  int kind = c.pick(11);
  V<S> argv;
  static const char* const exes[] = {"prog", "/usr/bin/prog", ""};
  argv.push_back(c.pick_of(exes));
  int n = c.pick(c.thorough() ? 4 : 3);
  for (int i = 0; i < n; ++i) argv.push_back(c.pick_of(toks));
  bool returns = kind != 0 && kind != 4 && kind != 7;
  int r = returns ? c.pick_of(rets) : 0;
  // One return value each for longer lists.
  if (n > 1 && returns && r != rets[(n + int(argv[1].size())) % 6]) throw mc::Skip{};
  S what = "kind " + std::to_string(kind) + ":";
  for (auto& a : argv) what += " '" + a + "'";

  child([&] {
    ret = r;
    switch (kind) {
      case 0: { static best::app a = &f_void; return start(argv); }
      case 1: { static best::app a = &f_int; return start(argv); }
      case 2: { static best::app a = &f_res; return start(argv); }
      case 3: { static best::app a = &f_res_void; return start(argv); }
      case 4: { static best::app a = &a_void; return start(argv); }
      case 5: { static best::app a = &a_int; return start(argv); }
      case 6: { static best::app a = &a_res; return start(argv); }
      case 7: { static best::app a = [] { f_void(); }; return start(argv); }
      case 8: { static best::app a = [] { return f_int(); }; return start(argv); }
      case 9: { static best::app a = [](Args& x) { return a_int(x); }; return start(argv); }
      case 10: { static best::app a = [](Args& x) -> best::result<int, best::str> { return a_res(x); }; return start(argv); }
    }
  });
  c.step();
  bool args = kind == 4 || kind == 5 || kind == 6 || kind == 9 || kind == 10;
  S want = "exe=" + argv[0];
  for (size_t i = 1; i < argv.size(); ++i) want += "|" + argv[i];
  if (args) {
    // What the flags come to is C01's business; here it matters what is done
    // about it.
    best::vec<best::pretext<best::wtf8>> v;
    for (size_t i = 1; i < argv.size(); ++i) v.push(best::pretext<best::wtf8>(best::span(argv[i].data(), argv[i].size())));
    auto res = best::parse_flags<Args>(best::pretext<best::wtf8>(best::span(argv[0].data(), argv[0].size())), v.as_span());
    if (!res) {
      bool fatal = res.err()->is_fatal();
      auto m = res.err()->message();
      S msg(m.data(), m.size());
      CHECK(sh->calls == 0, "%s: was run", what.c_str());
      CHECK(sh->code == (fatal ? 128 : 0), "%s: exited with %d", what.c_str(), sh->code);
      CHECK((fatal ? err() : out()).find(msg) != S::npos, "%s: did not print \"%s\" but \"%s\"", what.c_str(), msg.c_str(), (fatal ? err() : out()).c_str());
      CHECK((fatal ? out() : err()).empty(), "%s: printed to the wrong stream: %s", what.c_str(), (fatal ? out() : err()).c_str());
      return;
    }
    want += text(*res);
  }
  CHECK(sh->calls == 1, "%s: was run %d times", what.c_str(), sh->calls);
  CHECK(S(sh->seen, sh->nseen) == want, "%s: saw %s instead of %s", what.c_str(), S(sh->seen, sh->nseen).c_str(), want.c_str());
  bool res = kind == 2 || kind == 3 || kind == 6 || kind == 10;
  if (res) {
    bool ok = r % 2 == 0;
    CHECK(sh->code == (ok ? 0 : 128), "%s: exited with %d for result %d", what.c_str(), sh->code, r);
    CHECK(ok ? err().empty() : err().find("the reason") != S::npos, "%s: stderr is %s", what.c_str(), err().c_str());
  } else {
    CHECK(sh->code == r, "%s: exited with %d instead of %d", what.c_str(), sh->code, r);
    CHECK(err().empty(), "%s: stderr is %s", what.c_str(), err().c_str());
  }
  CHECK(out().empty(), "%s: stdout is %s", what.c_str(), out().c_str());
}
SCENARIO(misuse, "no app, two apps, starting twice, starting from inside, and what can be asked before the start", 0) {
  int how = c.pick(5);
  child([&] {
    switch (how) {
      case 0: return start({"x"});
      case 1: {
        static best::app a = &f_void;
        static best::app b = &f_int;
        return start({"x"});
      }
      case 2: {
        static best::app a = [] { start({"y"}); };
        return start({"x"});
      }
      case 3: {
        static best::app a = &f_void;
        if (!best::app::argv().is_empty() || best::app::argv().size() || best::app::exe().size()) sh->calls = 9;
        return;
      }
      case 4: {
        static best::app a = &f_void;
        return start({});
      }
    }
  });
  static const int codes[] = {128, 128, 128, -1, 0};
  static const int calls[] = {0, 0, 0, 0, 1};
  static const char* const text[] = {"no apps were declared", "two distinct", "called twice", "", ""};
  CHECK(sh->code == codes[how], "%d: exited with %d", how, sh->code);
  CHECK(sh->calls == calls[how], "%d: main ran %d times", how, sh->calls);
  CHECK(err().find(text[how]) != S::npos, "%d: said %s", how, err().c_str());
}
SCENARIO(print_exit, "print_and_exit() of errors and help, with the default and 4 other codes", 0) {
  bool fatal = c.flip();
  static const int codes[] = {-1, 0, 1, 2, 255};
  int code = c.pick_of(codes);
  static const char* const msgs[] = {"", "a", "two\nlines", "{}", "\xf0\x9f\xa7\xb6"};
  const char* m = c.pick_of(msgs);
  child([&] {
    cli::error e(best::strbuf(*best::str::from_nul(m)), fatal);
    if (code < 0) e.print_and_exit();
    e.print_and_exit(code);
  });
  CHECK(sh->code == (!fatal ? 0 : code < 0 ? 128 : code), "%s error, exited with %d", fatal ? "fatal" : "non-fatal", sh->code);
  CHECK((fatal ? err() : out()).find(m) != S::npos && (fatal ? out() : err()).empty(), "out is \"%s\", err is \"%s\"", out().c_str(), err().c_str());
  if (!fatal) CHECK(out() == S(m) + "\n", "out is \"%s\"", out().c_str());
}
}  // namespace appl
