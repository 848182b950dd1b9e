#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(
  void (*malloc_hook)(const volatile void*, size_t),
  void (*free_hook)(const volatile void*));
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __wrap_exit(int) __attribute__((noreturn));
void __wrap__exit(int) __attribute__((noreturn));
void __wrap__Exit(int) __attribute__((noreturn));
void __wrap_quick_exit(int) __attribute__((noreturn));
void __wrap_abort() __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
}

namespace mc {
namespace {
constexpr int MaxChoices = 512;
constexpr int MaxMsg = 3072;

struct Slot {
  volatile u64 execs, steps, states, pruned;
  volatile u64 beat;
  volatile int running;  // an execution is in progress
  volatile int nchoices;
  volatile int choices[MaxChoices];
  volatile int failed;  // 1: check failed
  volatile int done;    // 1: finished enumeration
  volatile int capped;
  volatile int max_depth;
  char key[256];
  char msg[MaxMsg];
  int nknown;
  char known[32][128];
  u64 known_count[32];
  u64 known_choice_n[32];
  int nsamples;
  int sample_len[4];
  int samples[4][MaxChoices];
};

Scenario* g_scenarios = nullptr;
Slot* g_slot = nullptr;  // current worker's slot
std::vector<int>* g_prefix;  // choices to replay
int g_pos;
bool g_active = false;  // inside a body
bool g_count = false;   // attribute mallocs
i64 g_live = 0;
jmp_buf g_fail_jmp;
sigjmp_buf g_crash_jmp;
bool g_in_crashes = false;
int g_exit_code = 0;
int g_tracefd = -1;
size_t g_tracelen = 0;
std::vector<int>* g_arity;
int g_shard = 0, g_nshards = 1;
u64 g_shard_ctr;
int g_shard_depth = 2;
bool g_new_prefix;
bool g_rerun = false;
int g_rerun_result, g_rerun_pos;
bool g_pruned;
std::vector<std::string>* g_known;

struct HashSet {
  // open addressing set/map of u64 -> int
  std::vector<u64> keys;
  std::vector<int> vals;
  size_t n = 0;
  HashSet() : keys(1 << 12), vals(1 << 12) {}
  int* find(u64 k, bool& fresh) {
    if (k == 0) k = 1;
    if (n * 2 > keys.size()) grow();
    size_t m = keys.size() - 1, i = (k * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (keys[i] && keys[i] != k) i = (i + 1) & m;
    fresh = !keys[i];
    if (fresh) keys[i] = k, n++;
    return &vals[i];
  }
  void grow() {
    std::vector<u64> ok(keys.size() * 2);
    std::vector<int> ov(keys.size() * 2);
    std::swap(ok, keys), std::swap(ov, vals);
    size_t m = keys.size() - 1;
    for (size_t j = 0; j < ok.size(); ++j)
      if (ok[j]) {
        size_t i = (ok[j] * 0x9e3779b97f4a7c15ull >> 20) & m;
        while (keys[i]) i = (i + 1) & m;
        keys[i] = ok[j], vals[i] = ov[j];
      }
  }
};
HashSet* g_states;
HashSet* g_visited;
constexpr size_t StateCap = 8'000'000;

void mhook(const volatile void*, size_t) {
  if (g_count) ++g_live;
}
void fhook(const volatile void* p) {
  if (g_count && p) --g_live;
}
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
}  // namespace

Internal::Internal() : saved(g_count) { g_count = false; }
Internal::~Internal() { g_count = saved; }
i64 live_blocks() { return g_live; }

Scenario::Scenario(const char* n, const char* b, void (*f)(Ctx&), unsigned fl)
  : name(n), body(f), flags(fl), bounds(b), next(nullptr) {
  Scenario** p = &g_scenarios;
  while (*p) p = &(*p)->next;
  *p = this;
}

int Ctx::pick(int n) {
  if (n <= 0) fail("harness error: pick(%d)", n);
  Internal in;
  int v;
  if (g_pos < int(g_prefix->size())) {
    v = (*g_prefix)[size_t(g_pos)];
    if (v >= n) {
      fprintf(stderr, "harness error: replay divergence at %d\n", g_pos);
      fail("replay divergence: choice %d of %d at position %d", v, n, g_pos);
    }
    if (size_t(g_pos) >= g_arity->size()) g_arity->push_back(n);
  } else {
    v = 0;
    g_prefix->push_back(0);
    g_arity->push_back(n);
    if (g_pos < g_shard_depth) g_new_prefix = true;
  }
  if (g_pos >= MaxChoices) {
    fprintf(stderr, "harness error: too many choices\n");
    __real__exit(97);
  }
  g_slot->choices[g_pos] = v;
  g_pos++;
  g_slot->nchoices = g_pos;
  g_slot->beat = g_slot->beat + 1;
  if (g_pos == g_shard_depth && g_nshards > 1 && g_new_prefix) {
    u64 k = g_shard_ctr++;
    g_new_prefix = false;
    if (int(k % u64(g_nshards)) != g_shard) throw Skip{};
  }
  return v;
}
void Ctx::step() {
  g_slot->steps = g_slot->steps + 1;
  g_slot->beat = g_slot->beat + 1;
}
void Ctx::state(u64 h) {
  Internal in;
  if (g_states->n >= StateCap) return;
  bool fresh;
  g_states->find(h, fresh);
  if (fresh) g_slot->states = g_slot->states + 1;
}
void Ctx::prune(u64 h, int remaining) {
  state(h);
  if (tracing_) return;
  Internal in;
  if (g_rerun) {
    if (g_rerun_result == 2 && g_pos == g_rerun_pos) throw Skip{};
    return;
  }
  bool stop = false;
  {
    if (g_visited->n >= StateCap) return;
    // Only prune on states first expanded by this worker, beyond the prefix.
    bool fresh;
    int* v = g_visited->find(h, fresh);
    // A replayed prefix revisits its own states; those must not prune.
    if (g_pos < int(g_prefix->size())) {
      if (fresh || *v < remaining) *v = remaining;
      return;
    }
    if (!fresh && *v >= remaining) stop = true;
    else *v = remaining;
  }
  if (stop) {
    g_slot->pruned = g_slot->pruned + 1;
    g_pruned = true;
    throw Skip{};
  }
}
void Ctx::note(const char* fmt, ...) {
  if (!tracing_) return;
  Internal in;
  char buf[1024];
  va_list va;
  va_start(va, fmt);
  vsnprintf(buf, sizeof buf, fmt, va);
  va_end(va);
  std::string t = g_tracelen ? std::string("; ") + buf : std::string(buf);
  if (g_tracelen + t.size() > 60000) return;
  g_tracelen += t.size();
  if (write(g_tracefd, t.data(), t.size()) < 0) {}
}

std::string str(const char* fmt, ...) {
  char buf[2048];
  va_list va;
  va_start(va, fmt);
  vsnprintf(buf, sizeof buf, fmt, va);
  va_end(va);
  return buf;
}
static void record(const char* key, const char* msg) {
  Internal in;
  snprintf(g_slot->key, sizeof g_slot->key, "%s", key);
  snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg);
}
[[noreturn]] static void raise_fail() {
  g_count = false;
  longjmp(g_fail_jmp, 1);
}
void fail_key(const char* key, const char* fmt, ...) {
  char buf[2048];
  va_list va;
  va_start(va, fmt);
  vsnprintf(buf, sizeof buf, fmt, va);
  va_end(va);
  record(key, buf);
  raise_fail();
}
void fail(const char* fmt, ...) {
  char buf[2048];
  va_list va;
  va_start(va, fmt);
  vsnprintf(buf, sizeof buf, fmt, va);
  va_end(va);
  record("", buf);
  raise_fail();
}
void fail_at(const char* file, int line, const char* cond,
             const std::string& msg) {
  const char* b = strrchr(file, '/');
  char buf[2048];
  snprintf(buf, sizeof buf, "%s:%d: %s failed%s%s", b ? b + 1 : file, line,
           cond, msg.empty() ? "" : ": ", msg.c_str());
  record("", buf);
  raise_fail();
}

static void on_process_end(int code) __attribute__((noreturn));
static void on_process_end(int code) {
  g_exit_code = code;
  if (g_in_crashes) siglongjmp(g_crash_jmp, 1);
  if (g_active) {
    fflush(stderr);
    std::string out = take_output();
    char buf[2048];
    snprintf(buf, sizeof buf, "unexpected crash of the library (exit %d): %s",
             code, out.c_str());
    record("", buf);
    raise_fail();
  }
  __real__exit(code);
}
int exits_impl(void (*f)(void*), void* arg) {
  bool old = g_in_crashes;
  sigjmp_buf saved;
  memcpy(&saved, &g_crash_jmp, sizeof saved);
  volatile int result = -1;
  // Memory abandoned by a crash is not a leak of the surviving process.
  volatile i64 live = g_live;
  if (sigsetjmp(g_crash_jmp, 0) == 0) {
    g_in_crashes = true;
    f(arg);
  } else {
    result = g_exit_code;
    g_live = live;
  }
  g_in_crashes = old;
  memcpy(&g_crash_jmp, &saved, sizeof saved);
  return result;
}
bool crashes_impl(void (*f)(void*), void* arg) {
  return exits_impl(f, arg) != -1;
}
static int g_outfd = -1;
std::string take_output() {
  fflush(stdout);
  fflush(stderr);
  off_t n = lseek(g_outfd, 0, SEEK_END);
  std::string s;
  if (n > 0) {
    s.resize(size_t(n));
    ssize_t r = pread(g_outfd, s.data(), size_t(n), 0);
    s.resize(r > 0 ? size_t(r) : 0);
    if (ftruncate(g_outfd, 0)) {}
    lseek(g_outfd, 0, SEEK_SET);
  }
  return s;
}

static void redirect() {
  fflush(stdout);
  fflush(stderr);
  if (g_outfd < 0) g_outfd = memfd_create("mc-out", 0);
  if (g_outfd < 0) return;
  fcntl(g_outfd, F_SETFL, O_APPEND);
  dup2(g_outfd, 1);
  dup2(g_outfd, 2);
}

static void sig_handler(int s) {
  if (g_in_crashes && (s == SIGILL || s == SIGTRAP || s == SIGABRT)) {
    sigset_t m;
    sigemptyset(&m);
    sigaddset(&m, s);
    sigprocmask(SIG_UNBLOCK, &m, nullptr);
    g_exit_code = 128 + s;
    siglongjmp(g_crash_jmp, 1);
  }
  signal(s, SIG_DFL);
  raise(s);
}

// Runs one execution from *g_prefix. 0: ok, 1: failed, 2: skipped.
static int run_one(Scenario* s, Ctx& c) {
  g_pos = 0;
  g_arity->clear();
  g_slot->nchoices = 0;
  g_slot->running = 1;
  // The node at the shard depth is new when the changed choice is above it.
  g_new_prefix = !g_rerun && int(g_prefix->size()) <= g_shard_depth;
  volatile int r = 0;
  g_live = 0;
  if (setjmp(g_fail_jmp) == 0) {
    try {
      g_active = true;
      g_count = true;
      s->body(c);
      g_count = false;
    } catch (Skip&) {
      g_count = false;
      r = 2;
    }
  } else {
    r = 1;
  }
  g_active = false;
  g_in_crashes = false;
  g_count = false;
  g_slot->running = 0;
  static unsigned trim = 0;
  if (g_outfd >= 0 && (++trim & 0xff) == 0) {
    if (lseek(g_outfd, 0, SEEK_END) > (1 << 20)) take_output();
  }
  return r;
}
static int run_leak(Scenario* s, Ctx& c) {
  g_pruned = false;
  int r = run_one(s, c);
  if ((r == 0 || (r == 2 && g_pruned)) && (s->flags & LeakCheck) &&
      g_live != 0) {
    // A lazily initialised static may allocate once; a leak repeats.
    int first = g_rerun_result = r;
    g_rerun_pos = g_pos;
    g_rerun = true;
    r = run_one(s, c);
    g_rerun = false;
    if (r == first && g_live != 0) {
      char buf[128];
      snprintf(buf, sizeof buf, "%lld heap blocks leaked", (long long)g_live);
      record("", buf);
      r = 1;
    }
  }
  return r;
}

static int find_known(const char* key) {
  if (!key[0]) return -1;
  for (size_t i = 0; i < g_known->size(); ++i)
    if ((*g_known)[i] == key) return int(i);
  return -1;
}

static void init_worker(Slot* slot) {
  g_slot = slot;
  g_prefix = new std::vector<int>;
  g_arity = new std::vector<int>;
  g_prefix->reserve(MaxChoices);
  g_arity->reserve(MaxChoices);
  g_states = new HashSet;
  g_visited = new HashSet;
  redirect();
  signal(SIGILL, sig_handler);
  signal(SIGTRAP, sig_handler);
  __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
}

[[noreturn]] static void worker(Scenario* s, Slot* slot, int shard, int n,
                                bool thorough, double deadline) {
  init_worker(slot);
  g_shard = shard;
  g_nshards = n;
  g_shard_ctr = 0;
  Ctx c;
  c.thorough_ = thorough;
  u64 since = 0;
  for (;;) {
    int r = run_leak(s, c);
    bool early = r != 2 && g_pos < g_shard_depth && g_nshards > 1;
    // An execution shorter than the shard depth is counted by shard 0 only.
    bool mine = r == 2 ? false : (!early || shard == 0);
    if (r != 2 && mine) {
      slot->execs = slot->execs + 1;
      if (g_pos > slot->max_depth) slot->max_depth = g_pos;
      u64 e = slot->execs;
      if (e == 1 || e == 100 || e == 3000) {
        int k = slot->nsamples;
        if (k < 4) {
          slot->sample_len[k] = g_pos;
          for (int i = 0; i < g_pos; ++i) slot->samples[k][i] = (*g_prefix)[size_t(i)];
          slot->nsamples = k + 1;
        }
      }
    }
    if (r == 1) {
      int k = find_known(slot->key);
      if (k < 0) {
        slot->nchoices = g_pos;
        slot->failed = 1;
        __real__exit(3);
      }
      int j = 0;
      while (j < slot->nknown && strcmp(slot->known[j], slot->key)) ++j;
      if (j == slot->nknown && j < 32) {
        snprintf(slot->known[j], sizeof slot->known[j], "%s", slot->key);
        slot->nknown++;
      }
      if (j < 32) slot->known_count[j]++;
    }
    // Advance to the next choice vector.
    g_prefix->resize(size_t(g_pos));
    while (!g_prefix->empty() &&
           g_prefix->back() + 1 >= (*g_arity)[g_prefix->size() - 1])
      g_prefix->pop_back();
    if (g_prefix->empty()) break;
    g_prefix->back()++;
    if ((++since & 255) == 0 && now() > deadline) {
      slot->capped = 1;
      break;
    }
  }
  slot->done = 1;
  __real__exit(0);
}

static Slot* map_slots(int n) {
  void* p = mmap(nullptr, sizeof(Slot) * size_t(n), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    __real__exit(98);
  }
  memset(p, 0, sizeof(Slot) * size_t(n));
  return static_cast<Slot*>(p);
}

static std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') o += '\\', o += char(ch);
    else if (ch < 0x20 || ch >= 0x7f) snprintf(b, 8, "\\u%04x", ch), o += b;
    else o += char(ch);
  }
  return o + "\"";
}

// Replays a choice vector in a fresh process. Returns "" if it passes, else a
// description; `trace` receives the notes.
static std::string replay(Scenario* s, const std::vector<int>& ch,
                          bool thorough, int timeout_s, std::string& trace,
                          std::string& key) {
  Slot* slot = map_slots(1);
  int fds[2];
  if (pipe(fds)) return "pipe failed";
  fflush(stdout);
  int outfd = memfd_create("mc-out", 0);
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    g_tracefd = fds[1];
    g_outfd = outfd;
    init_worker(slot);
    *g_prefix = ch;
    g_nshards = 1;
    Ctx c;
    c.thorough_ = thorough;
    c.tracing_ = true;
    // Keep the process's diagnostic output for the report.
    int r = run_leak(s, c);
    slot->failed = r == 1;
    slot->done = 1;
    __real__exit(0);
  }
  close(fds[1]);
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  double end = now() + timeout_s;
  int st = 0;
  bool dead = false, timeout = false;
  trace.clear();
  auto drain = [&] {
    char buf[4096];
    ssize_t k;
    while ((k = read(fds[0], buf, sizeof buf)) > 0) trace.append(buf, size_t(k));
  };
  while (!dead) {
    drain();
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) dead = true;
    else if (now() > end) {
      timeout = true;
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      dead = true;
    } else usleep(2000);
  }
  drain();
  close(fds[0]);
  std::string res;
  if (timeout) res = "does not terminate (no progress in " + std::to_string(timeout_s) + " s)";
  else if (slot->failed) res = slot->msg, key = slot->key;
  else if (!slot->done) {
    if (WIFSIGNALED(st)) res = "process killed by signal " + std::to_string(WTERMSIG(st));
    else res = "process aborted (memory error or abort), exit code " + std::to_string(WEXITSTATUS(st));
    // The summary of the sanitizer's report, and the frames it names.
    char buf[8192];
    ssize_t k = outfd >= 0 ? pread(outfd, buf, sizeof buf, 0) : 0;
    std::string o(buf, k > 0 ? size_t(k) : 0);
    size_t at = o.find("ERROR: AddressSanitizer");
    if (at == std::string::npos) at = o.find("runtime error");
    if (at != std::string::npos) {
      res += ": " + o.substr(at, o.find('\n', at) - at);
      int frames = 0;
      for (size_t f = o.find("    #", at); f != std::string::npos && frames < 6; f = o.find("    #", f + 5), ++frames) {
        std::string line = o.substr(f + 4, o.find('\n', f) - f - 4);
        if (line.size() > 300) line = line.substr(0, 150) + "..." + line.substr(line.size() - 150);
        res += " | " + line;
      }
    }
  }
  if (outfd >= 0) close(outfd);
  munmap(slot, sizeof(Slot));
  return res;
}

static long rss_mb(pid_t pid) {
  char p[64];
  snprintf(p, sizeof p, "/proc/%d/statm", pid);
  FILE* f = fopen(p, "r");
  if (!f) return 0;
  long a = 0, b = 0;
  if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
  fclose(f);
  return b * 4096 / (1 << 20);
}

int main_impl(int argc, char** argv) {
  std::string only, out, replay_arg, known_file;
  int jobs = 8;
  bool thorough = false, list = false;
  double limit = 600;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--scenario") only = next();
    else if (a == "--out") out = next();
    else if (a == "--replay") replay_arg = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--limit") limit = atof(next().c_str());
    else if (a == "--known") known_file = next();
    else if (a == "--list") list = true;
  }
  g_known = new std::vector<std::string>;
  if (!known_file.empty()) {
    FILE* f = fopen(known_file.c_str(), "r");
    char line[512];
    while (f && fgets(line, sizeof line, f)) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
      if (!l.empty()) g_known->push_back(l);
    }
    if (f) fclose(f);
  }
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!o) return 96;
  if (list) {
    for (Scenario* s = g_scenarios; s; s = s->next) printf("%s\n", s->name);
    return 0;
  }
  bool any_fail = false;
  std::set<std::string> samples_done;
  for (Scenario* s = g_scenarios; s; s = s->next) {
    if (!only.empty() && only != s->name) continue;
    if (!thorough && (s->flags & ThoroughOnly) && only.empty()) continue;
    if (!replay_arg.empty()) {
      std::vector<int> ch;
      const char* p = replay_arg.c_str();
      while (*p) {
        char* e;
        ch.push_back(int(strtol(p, &e, 10)));
        if (e == p) break;
        p = *e ? e + 1 : e;
      }
      if (replay_arg == "-") ch.clear();
      std::string tr, key;
      std::string r = replay(s, ch, thorough, 120, tr, key);
      printf("scenario %s\ntrace: %s\nresult: %s%s%s\n", s->name, tr.c_str(),
             r.empty() ? "passes" : r.c_str(), key.empty() ? "" : " key=",
             key.c_str());
      return r.empty() ? 0 : 1;
    }
    double t0 = now();
    Slot* slots = map_slots(jobs);
    std::vector<pid_t> pids(static_cast<size_t>(jobs));
    fflush(stdout);
    fflush(o);
    for (int i = 0; i < jobs; ++i) {
      pid_t p = fork();
      if (p == 0) worker(s, &slots[i], i, jobs, thorough, t0 + limit);
      pids[size_t(i)] = p;
    }
    struct Cand {
      std::vector<int> ch;
      std::string why, key;
    };
    std::vector<Cand> cands;
    std::vector<u64> beat(static_cast<size_t>(jobs));
    std::vector<double> since(static_cast<size_t>(jobs), t0);
    int alive = jobs;
    auto cand_of = [&](int i, std::string why) {
      Cand k;
      for (int j = 0; j < slots[i].nchoices && j < MaxChoices; ++j)
        k.ch.push_back(int(slots[i].choices[j]));
      k.why = std::move(why);
      k.key = slots[i].key;
      cands.push_back(std::move(k));
    };
    while (alive > 0) {
      usleep(3000);
      double t = now();
      for (int i = 0; i < jobs; ++i) {
        pid_t& p = pids[size_t(i)];
        if (!p) continue;
        int st;
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) {
          p = 0;
          --alive;
          if (slots[i].failed) cand_of(i, slots[i].msg);
          else if (!slots[i].done) cand_of(i, "process died");
          continue;
        }
        if (slots[i].beat != beat[size_t(i)]) {
          beat[size_t(i)] = slots[i].beat;
          since[size_t(i)] = t;
        }
        bool hung = t - since[size_t(i)] > 45;
        static unsigned ctr = 0;
        bool fat = (++ctr % 32) == 0 && rss_mb(p) > 3300;
        if (hung || fat) {
          kill(p, SIGKILL);
          waitpid(p, &st, 0);
          p = 0;
          --alive;
          cand_of(i, hung ? "no progress" : "memory exhausted");
        }
      }
      if (!cands.empty() && alive > 0) {
        // Give the others a moment to find a shorter counterexample, then stop.
        double end = now() + 2;
        while (now() < end && alive > 0) {
          usleep(5000);
          for (int i = 0; i < jobs; ++i) {
            pid_t& p = pids[size_t(i)];
            int st;
            if (p && waitpid(p, &st, WNOHANG) == p) {
              p = 0;
              --alive;
              if (slots[i].failed) cand_of(i, slots[i].msg);
              else if (!slots[i].done) cand_of(i, "process died");
            }
          }
        }
        for (auto& p : pids)
          if (p) {
            int st;
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            p = 0;
            --alive;
          }
      }
    }
    // Aggregate.
    u64 execs = 0, steps = 0, states = 0, pruned = 0;
    int capped = 0, maxd = 0;
    std::map<std::string, u64> known;
    for (int i = 0; i < jobs; ++i) {
      execs += slots[i].execs;
      steps += slots[i].steps;
      states += slots[i].states;
      pruned += slots[i].pruned;
      capped |= slots[i].capped;
      maxd = std::max(maxd, int(slots[i].max_depth));
      for (int j = 0; j < slots[i].nknown; ++j)
        known[slots[i].known[j]] += slots[i].known_count[j];
    }
    fprintf(o,
            "{\"scenario\":%s,\"bounds\":%s,\"executions\":%llu,\"steps\":%llu,"
            "\"states\":%llu,\"pruned\":%llu,\"capped\":%d,\"max_choices\":%d,",
            json(s->name).c_str(), json(s->bounds).c_str(),
            (unsigned long long)execs, (unsigned long long)steps,
            (unsigned long long)states, (unsigned long long)pruned, capped,
            maxd);
    fprintf(o, "\"known\":{");
    bool first = true;
    for (auto& [k, v] : known) {
      fprintf(o, "%s%s:%llu", first ? "" : ",", json(k).c_str(),
              (unsigned long long)v);
      first = false;
    }
    fprintf(o, "},\"samples\":[");
    fflush(o);
    first = true;
    if (cands.empty())
      for (int k = 0; k < 3; ++k) {
        int i = k == 0 ? 0 : (k == 1 ? jobs / 2 : jobs - 1);
        if (k >= slots[i].nsamples) continue;
        std::vector<int> ch(slots[i].samples[k],
                            slots[i].samples[k] + slots[i].sample_len[k]);
        std::string tr, key;
        replay(s, ch, thorough, 60, tr, key);
        if (tr.size() > 600) tr.resize(600);
        std::string cs;
        for (int v : ch) cs += (cs.empty() ? "" : ",") + std::to_string(v);
        fprintf(o, "%s%s", first ? "" : ",",
                json(tr.empty() ? "choices " + cs : tr).c_str());
        first = false;
      }
    fprintf(o, "]");
    if (!cands.empty()) {
      std::stable_sort(cands.begin(), cands.end(), [](auto& a, auto& b) {
        return a.ch.size() < b.ch.size();
      });
      bool confirmed = false;
      for (auto& k : cands) {
        std::string tr, key;
        std::string r = replay(s, k.ch, thorough, 90, tr, key);
        if (r.empty()) continue;
        confirmed = true;
        any_fail = true;
        std::string cs;
        for (int v : k.ch) cs += (cs.empty() ? "" : ",") + std::to_string(v);
        fprintf(o,
                ",\"violation\":{\"choices\":%s,\"why\":%s,\"key\":%s,\"trace\":"
                "%s}",
                json(cs).c_str(), json(r).c_str(), json(key).c_str(),
                json(tr).c_str());
        break;
      }
      if (!confirmed) {
        std::string cs;
        for (int v : cands[0].ch) cs += (cs.empty() ? "" : ",") + std::to_string(v);
        fprintf(o, ",\"unconfirmed\":{\"choices\":%s,\"why\":%s}",
                json(cs).c_str(), json(cands[0].why).c_str());
      }
    }
    fprintf(o, ",\"wall\":%.2f}\n", now() - t0);
    fflush(o);
    munmap(slots, sizeof(Slot) * size_t(jobs));
  }
  if (o != stdout) fclose(o);
  return any_fail ? 1 : 0;
}
}  // namespace mc

extern "C" {
void __wrap_exit(int c) { mc::on_process_end(c); }
void __wrap__exit(int c) { mc::on_process_end(c); }
void __wrap__Exit(int c) { mc::on_process_end(c); }
void __wrap_quick_exit(int c) { mc::on_process_end(c); }
void __wrap_abort() { mc::on_process_end(134); }
}
int main(int argc, char** argv) {
  int r = mc::main_impl(argc, argv);
  fflush(nullptr);
  __real__exit(r);
}
