#include "simcore.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <csignal>
#include <ctime>
#include <atomic>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <fstream>
#include <sstream>
#include <iostream>
#include <regex>
#include <set>
#include <cxxabi.h>
#include <fcntl.h>

namespace sim {
  // ---- shared memory -----------------------------------------------------------
  struct Slot {
    volatile i64 run; volatile int state;       // 0 idle 1 running 2 ok 3 violation
    volatile int op; volatile u64 loghash; volatile u64 histhash;
    char kind[96]; char detail[3000];
  };
  constexpr int MAXW = 64, NPROBE = 1024; constexpr u32 NEDGE = 1u << 20; constexpr u64 NSET = 1u << 22;
  struct Probe { std::atomic<u64> used; char name[56]; std::atomic<u64> count; };
  struct Shm {
    std::atomic<int> stop; std::atomic<u64> runs, ops, steps, simtime, dupruns, known;
    std::atomic<i64> viol_run; std::atomic<int> lock;
    Slot slots[MAXW]; char vkind[96], vdetail[3000]; int vop;
    char knownlines[8][400];
    std::atomic<u64> nstates, nhist; std::atomic<u32> nondet;
    char nondet_msg[400];
    Probe probes[NPROBE];
    unsigned char edges[NEDGE];
    std::atomic<u64> states[NSET]; std::atomic<u64> hists[NSET];
  };
  static Shm* shm = nullptr; static Slot* slot = nullptr; static Slot dummy_slot;
  static u32 nguards = 0;
  __thread u64 steps = 0, step_limit = 0; __thread bool step_on = false;
  bool verbose = false, replaying = false;
  static std::FILE* logout = nullptr;
  static u64 op_count = 0;

  std::string strf(char const* fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
  }
  std::string hexdump(void const* p, size_t n, size_t max) {
    std::string o; auto* b = (unsigned char const*) p;
    for (size_t i = 0; i < n && i < max; ++i) { char t[4]; snprintf(t, 4, "%02x", b[i]); o += t; }
    if (n > max) o += "..";
    return o;
  }
  static void setstr(char* d, size_t n, char const* s) { strncpy(d, s, n - 1); d[n - 1] = 0; for (char* c = d; *c; ++c) if (*c == '\n') *c = ' '; }
  static void flush_counts() {
    if (shm) { shm->ops += op_count; shm->steps += steps; op_count = 0; steps = 0; }
  }
  [[noreturn]] void die_kind(char const* kind, char const* detail) {
    in_lib = 0;
    if (slot && slot->state != 3) { setstr(slot->kind, sizeof slot->kind, kind); setstr(slot->detail, sizeof slot->detail, detail); slot->state = 3; }
    if (verbose) { fprintf(stderr, "!! %s: %s\n", kind, detail); }
    if (logout) fflush(logout);
    flush_counts();
    _exit(66);
  }
  void fail(std::string kind, char const* fmt, ...) {
    in_lib = 0; char buf[2900]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    die_kind(kind.c_str(), buf);
  }
  void probe(char const* name, u64 n) {
    if (!shm) return;
    u64 h = hash_str(name); if (!h) h = 1;
    for (u64 i = h % NPROBE, k = 0; k < NPROBE; ++k, i = (i + 1) % NPROBE) {
      u64 cur = shm->probes[i].used.load(std::memory_order_acquire);
      if (cur == 0) { u64 z = 0; if (shm->probes[i].used.compare_exchange_strong(z, h)) { strncpy(shm->probes[i].name, name, 55); cur = h; } else cur = z; }
      if (cur == h) { shm->probes[i].count += n; return; }
    }
  }
  static void setadd(std::atomic<u64>* s, std::atomic<u64>& n, u64 h) {
    if (!h) h = 1;
    if (n.load() > NSET / 2) return;
    for (u64 i = h & (NSET - 1), k = 0; k < 256; ++k, i = (i + 1) & (NSET - 1)) {
      u64 cur = s[i].load(std::memory_order_relaxed);
      if (cur == h) return;
      if (cur == 0) { u64 z = 0; if (s[i].compare_exchange_strong(z, h)) { ++n; return; } if (z == h) return; }
    }
  }
  void note_state(u64 h) { if (shm) setadd(shm->states, shm->nstates, h); }
  void note_history(u64 h) { if (slot) slot->histhash = mix(slot->histhash, h); }
  void logf(char const* fmt, ...) {
    int save = in_lib; in_lib = 0;
    char buf[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n < 0) n = 0; if (n >= (int) sizeof buf) n = sizeof buf - 1;
    if (slot) slot->loghash = hash_bytes(buf, (size_t) n, slot->loghash ^ 0x9e37);
    if (logout) { fputs(buf, logout); fputc('\n', logout); }
    in_lib = save;
  }
  void set_op(int i) { if (slot) slot->op = i; ++op_count; }
  void sim_time(u64 t) { if (shm) shm->simtime += t; }

  static void on_terminate() {
    std::string d = "std::terminate";
    if (auto* t = abi::__cxa_current_exception_type()) {
      int st; char* dm = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
      d = std::string("std::terminate called, exception in flight: ") + (dm ? dm : t->name());
    } else d = "std::terminate called with no exception";
    die_kind("terminate", d.c_str());
  }
  static void on_signal(int s) {
    if (s == SIGABRT) die_kind("terminate:abort", "abort() called");
    die_kind(s == SIGALRM ? "hang:wall" : "signal", strsignal(s));
  }
}

extern "C" {
  __attribute__((weak)) void __asan_set_error_report_callback(void (*)(char const*));
  char const* __asan_default_options() {
    return "detect_leaks=0:symbolize=0:log_path=/dev/null:allocator_may_return_null=1:"
           "detect_stack_use_after_return=1:min_uar_stack_size_log=16:max_uar_stack_size_log=16:handle_abort=0:exitcode=77:quarantine_size_mb=16:malloc_context_size=1:"
           "print_legend=0:detect_odr_violation=0";
  }
  void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    for (; a < b; ++a) if (!*a) *a = ++sim::nguards;
  }
  void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!(sim::in_lib | sim::step_on)) return;
    if (++sim::steps > sim::step_limit && sim::step_limit) sim::die_kind("hang:steps", "step budget exceeded");
    if (sim::shm && *g < sim::NEDGE) sim::shm->edges[*g] = 1;
  }
}

namespace sim {
  static void asan_cb(char const* rep) {
    char const* p = strstr(rep, "AddressSanitizer: ");
    char kind[96] = "memory:unknown"; std::string detail;
    if (p) {
      p += strlen("AddressSanitizer: "); char const* e = p; while (*e && *e != ' ' && *e != '\n') ++e;
      snprintf(kind, sizeof kind, "memory:%.*s", (int) (e - p), p);
      if (!strncmp(p, "attempting double-free", 22)) snprintf(kind, sizeof kind, "memory:double-free");
      char const* q = strstr(rep, "READ of"); if (!q) q = strstr(rep, "WRITE of");
      if (q) { char const* z = q; while (*z && *z != '\n' && strncmp(z, " at ", 4)) ++z; detail.assign(q, z); } else detail = kind;
    }
    in_lib = 0;
    if (slot && slot->state != 3) { setstr(slot->kind, sizeof slot->kind, kind); setstr(slot->detail, sizeof slot->detail, detail.c_str()); slot->state = 3; }
    flush_counts();
    if (verbose) fprintf(stderr, "%s\n", rep);
    if (logout) fflush(logout);
    _exit(66);
  }

  // ---- plan text ------------------------------------------------------------------
  static std::string plan_text(Plan const& p, Engine& e) {
    std::string o = strf("engine %s\nproperty %s\nprofile %s\nseed %llu\n", p.engine.c_str(), p.prop.c_str(), p.profile.c_str(), (unsigned long long) p.seed);
    for (auto& c : p.cfg) o += strf("cfg %s %lld\n", c.first.c_str(), (long long) c.second);
    for (auto& op : p.ops) {
      o += strf("op %s", e.opnames[(size_t) op.code]);
      for (int i = 0; i < NARG; ++i) o += strf(" %lld", (long long) op.a[i]);
      o += strf(" %d %lld\n", op.fk, (long long) op.fn);
    }
    return o;
  }
  struct Expect { std::string kind; u64 loghash = 0; bool has = false; };
  static bool plan_parse(std::string const& path, Plan& p, Engine& e, Expect& x) {
    std::ifstream in(path); if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream s(line); std::string w; s >> w;
      if (w == "engine") s >> p.engine; else if (w == "property") s >> p.prop; else if (w == "profile") s >> p.profile;
      else if (w == "seed") s >> p.seed;
      else if (w == "cfg") { std::string k; i64 v; s >> k >> v; p.cfg[k] = v; }
      else if (w == "kind") { s >> x.kind; x.has = true; }
      else if (w == "loghash") { s >> std::hex >> x.loghash; }
      else if (w == "op") {
        std::string n; s >> n; Op op; op.code = -1;
        for (size_t i = 0; i < e.opnames.size(); ++i) if (n == e.opnames[i]) op.code = (int) i;
        if (op.code < 0) return false;
        for (int i = 0; i < NARG; ++i) s >> op.a[i];
        s >> op.fk >> op.fn; p.ops.push_back(op);
      }
    }
    return true;
  }

  // ---- running one plan in an isolated process ----------------------------------------
  struct Result { int state = 0; std::string kind, detail; int op = -1; u64 loghash = 0, hist = 0; bool bad() const { return state == 3; } };
  static int wall_limit = 60;

  static int pass_no = 1; static std::map<std::pair<int, std::string>, std::string> suspects;
  void suspect(char const* kind, char const* fmt, ...) {
    int save = in_lib; in_lib = 0; char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    auto k = std::make_pair(slot ? slot->op : -1, std::string(kind)); auto it = suspects.find(k);
    if (pass_no == 1) { if (it == suspects.end()) suspects[k] = buf; } else if (it != suspects.end()) fail(kind, "%s", it->second.c_str());
    in_lib = save;
  }
  static void child_setup() {
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
    std::set_terminate(on_terminate);
    signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGFPE, on_signal); signal(SIGILL, on_signal); signal(SIGPIPE, SIG_DFL);
    if (!__asan_set_error_report_callback) { signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); }
    alarm((unsigned) wall_limit);
  }
  static void child_run(Engine& e, Plan const& p, Slot* s) {
    slot = s; s->loghash = 0; s->histhash = 0; s->op = -1; s->kind[0] = s->detail[0] = 0; s->state = 1;
    child_setup();
    e.execute(p);
    in_lib = 0;
    if (!suspects.empty()) { pass_no = 2; mem.base = mem.live_blocks; probe("sim:repeated-for-a-suspicion"); s->op = -1; e.execute(p); in_lib = 0; }
    setadd(shm->hists, shm->nhist, s->histhash);
    s->state = 2;
    flush_counts();
    if (logout) fflush(logout);
    _exit(0);
  }
  static Result run_isolated(Engine& e, Plan const& p, Slot* s) {
    s->state = 0; s->kind[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) child_run(e, p, s);
    Result r;
    if (pid < 0) { r.state = 4; r.kind = "harness:fork"; return r; }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    r.state = s->state; r.kind = s->kind; r.detail = s->detail; r.op = s->op; r.loghash = s->loghash; r.hist = s->histhash;
    if (r.state != 3 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.state == 2)) {
      r.state = 3;
      if (WIFSIGNALED(st)) { r.kind = WTERMSIG(st) == SIGKILL ? "harness:killed" : "signal"; r.detail = strf("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
      else { r.kind = "exit"; r.detail = strf("process exited with status %d during the run", WEXITSTATUS(st)); }
    }
    return r;
  }
  static std::string kclass(std::string const& k) { return k.substr(0, k.find(':')); }

  int on_small_stack(std::function<int()> const& f) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      for (int sig : {SIGSEGV, SIGBUS, SIGABRT, SIGILL}) signal(sig, SIG_DFL);
      rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = 8 << 20; setrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      in_lib = 0; int rc = f(); _exit(rc & 127);
    }
    int st = 0; waitpid(pid, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  }

  // ---- known findings --------------------------------------------------------------------
  struct Known { std::string re; std::regex rx; };
  static std::vector<Known> knowns;
  static bool is_known(Result const& r) {
    std::string t = r.kind + ": " + r.detail;
    for (auto& k : knowns) if (std::regex_search(t, k.rx)) return true;
    return false;
  }

  // ---- shrinking ----------------------------------------------------------------------------
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }
  static Plan shrink(Engine& e, Plan p, Result const& want, Slot* s, double budget, u64& tried) {
    double end = now() + budget; std::string cls = kclass(want.kind);
    auto same = [&] (Plan const& q) { ++tried; Result r = run_isolated(e, q, s); return r.bad() && kclass(r.kind) == cls && !is_known(r); };
    // nothing after the failing op matters
    if (want.op >= 0 && (size_t) want.op + 1 < p.ops.size()) { Plan q = p; q.ops.resize((size_t) want.op + 1); if (same(q)) p = q; }
    for (int round = 0; round < 4 && now() < end; ++round) {
      size_t before = p.ops.size(); bool changed = false;
      for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
        for (size_t i = 0; i < p.ops.size() && now() < end;) {
          Plan q = p; q.ops.erase(q.ops.begin() + (long) i, q.ops.begin() + (long) std::min(q.ops.size(), i + chunk));
          if (!q.ops.empty() && same(q)) { p = q; changed = true; } else i += chunk;
        }
        if (chunk == 1) break;
      }
      for (size_t i = 0; i < p.ops.size() && now() < end; ++i) {
        if (p.ops[i].fk) { Plan q = p; q.ops[i].fk = 0; q.ops[i].fn = 0; if (same(q)) { p = q; changed = true; } }
        for (int a = 0; a < NARG && now() < end; ++a) if (p.ops[i].a[a] != 0 && e.shrinkable_arg(p.ops[i].code, a)) {
          for (i64 v : {i64(0), i64(1), p.ops[i].a[a] / 2}) if (v != p.ops[i].a[a]) { Plan q = p; q.ops[i].a[a] = v; if (same(q)) { p = q; changed = true; break; } }
        }
      }
      if (!changed || p.ops.size() == before) { if (!changed) break; }
    }
    return p;
  }

  static void jstr(std::string& o, std::string const& s) {
    o += '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) o += strf("\\u%04x", c); else o += (char) c; } o += '"';
  }

  static int do_replay(Engine& e, std::string const& path, bool quiet) {
    Plan p; Expect x;
    if (!plan_parse(path, p, e, x)) { fprintf(stderr, "cannot parse %s\n", path.c_str()); return 2; }
    replaying = true; if (!quiet) { verbose = true; logout = stdout; }
    Result r = run_isolated(e, p, &shm->slots[0]);
    printf("REPLAY kind=%s loghash=%016llx op=%d detail=%s\n", r.bad() ? r.kind.c_str() : "none", (unsigned long long) r.loghash, r.op, r.detail.c_str());
    if (x.has) printf("EXPECT kind=%s loghash=%016llx %s\n", x.kind.c_str(), (unsigned long long) x.loghash,
      (r.bad() && r.kind == x.kind && r.loghash == x.loghash) ? "REPRODUCED" : "DIFFERENT");
    if (!r.bad()) return 0;
    return (!x.has || (r.kind == x.kind && r.loghash == x.loghash)) ? 1 : 4;
  }

  int sim_main(int argc, char** argv, Engine& e) {
    // fixed address layout: address-dependent behaviour of a broken tree replays too
    if (!getenv("SIM_NOASLR")) {
      int pers = personality(0xffffffff);
      if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long) (pers | ADDR_NO_RANDOMIZE)) != -1) {
        setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv);
      }
    }
    shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 2; }
    shm->viol_run = -1;
    std::string mode = argc > 1 ? argv[1] : "";
    Options opt; u64 seed = 1; i64 runs = 1000, start = 0; double tlimit = 20; int jobs = 8; std::string out, replay, known; bool quiet = false; double shrink_s = 25; int dup = 25;
    std::string file;
    for (int i = 2; i < argc; ++i) {
      std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
      if (a == "--prop") opt.prop = nx(); else if (a == "--profile") opt.profile = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "--runs") runs = atoll(nx().c_str()); else if (a == "--start") start = atoll(nx().c_str()); else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
      else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") known = nx(); else if (a == "--quiet") quiet = true;
      else if (a == "--wall") wall_limit = atoi(nx().c_str()); else if (a == "--shrink") shrink_s = atof(nx().c_str()); else if (a == "--dup") dup = atoi(nx().c_str());
      else if (a == "--cfg") { auto kv = nx(); auto q = kv.find('='); opt.cfg[kv.substr(0, q)] = atoll(kv.c_str() + q + 1); }
      else file = a;
    }
    if (!known.empty()) {   // lines: KNOWN: property=<id> match=<regex>
      std::ifstream in(known); std::string l;
      while (std::getline(in, l)) {
        if (l.rfind("KNOWN:", 0)) continue;
        auto pp = l.find("property="), mm = l.find("match=");
        if (pp == std::string::npos || mm == std::string::npos) continue;
        std::string pid = l.substr(pp + 9, l.find(' ', pp) - pp - 9);
        if (pid != opt.prop) continue;
        Known k; k.re = l.substr(mm + 6); k.rx = std::regex(k.re); knowns.push_back(k);
      }
    }
    if (mode == "replay") return do_replay(e, file, quiet);
    auto plan_for = [&] (i64 i) {
      u64 s = mix(mix(seed, hash_str(opt.profile.c_str())), (u64) i);
      Plan p = e.generate(s, opt); p.seed = s; p.engine = e.name; p.prop = opt.prop; p.profile = opt.profile; return p;
    };
    if (mode == "show") { Plan p = plan_for(start); printf("%s", plan_text(p, e).c_str()); return 0; }
    if (mode != "run") { fprintf(stderr, "usage: run|replay|show\n"); return 2; }

    double t0 = now();
    std::vector<pid_t> ws;
    for (int w = 0; w < jobs; ++w) {
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        Slot* s = &shm->slots[w];
        for (i64 i = start + w; i < start + runs; i += jobs) {
          if (shm->stop.load() || now() - t0 > tlimit) break;
          Plan p = plan_for(i);
          Result r = run_isolated(e, p, s);
          ++shm->runs;
          if (r.bad()) {
            if (kclass(r.kind) != "harness" && is_known(r)) {
              u64 k = shm->known++; if (k < 8) setstr(shm->knownlines[k], 400, (r.kind + ": " + r.detail).c_str()); continue;
            }
            while (shm->lock.exchange(1)) usleep(100);
            i64 cur = shm->viol_run.load();
            if (cur < 0 || i < cur) { shm->viol_run = i; setstr(shm->vkind, 96, r.kind.c_str()); setstr(shm->vdetail, 3000, r.detail.c_str()); shm->vop = r.op; }
            shm->lock = 0; shm->stop = 1; break;
          }
          if (dup > 0 && (i / jobs) % dup == 0) {      // same seed again: must be the same execution
            Result r2 = run_isolated(e, p, s); ++shm->dupruns;
            if (r2.bad() || r2.loghash != r.loghash) { if (!shm->nondet.exchange(1)) setstr(shm->nondet_msg, 400, strf("run %lld: %016llx vs %016llx %s %s", (long long) i, (unsigned long long) r.loghash, (unsigned long long) r2.loghash, r2.kind.c_str(), r2.detail.c_str()).c_str()); }
          }
        }
        _exit(0);
      }
      ws.push_back(pid);
    }
    for (auto p : ws) { int st; waitpid(p, &st, 0); }
    double t1 = now();
    int rc = 0; std::string vline; u64 tried = 0; Plan minp; Result fin; std::string errmsg;
    i64 vr = shm->viol_run.load();
    if (vr >= 0) {
      Plan p = plan_for(vr); Result want; want.state = 3; want.kind = shm->vkind; want.detail = shm->vdetail; want.op = shm->vop;
      u64 runs_before = shm->runs.load(); (void) runs_before;
      Result again = run_isolated(e, p, &shm->slots[0]);
      if (kclass(want.kind) == "harness") { rc = 3; errmsg = "harness failure: " + want.kind + " " + want.detail; }
      else if (!again.bad() || kclass(again.kind) != kclass(want.kind)) { rc = 3; errmsg = "violation did not reproduce: run " + std::to_string(vr) + " " + want.kind + " " + want.detail + " / " + again.kind + " " + again.detail; }
      else {
        for (int attempt = 0; attempt < 2; ++attempt) {
          minp = attempt == 0 ? shrink(e, p, again, &shm->slots[0], shrink_s, tried) : p;
          fin = run_isolated(e, minp, &shm->slots[0]);
          std::ofstream f(replay);
          f << "# replay with: python3 /verif/check.py replay <this file>\n" << "# " << fin.kind << ": " << fin.detail << "\n";
          f << plan_text(minp, e) << "kind " << fin.kind << "\nloghash " << strf("%llx", (unsigned long long) fin.loghash) << "\n";
          std::string d = e.describe(minp); std::istringstream ds(d); std::string l; while (std::getline(ds, l)) f << "# " << l << "\n";
          f.close();
          int good = 0;
          for (int k = 0; k < 2; ++k) {
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); execl("/proc/self/exe", argv[0], "replay", replay.c_str(), "--quiet", (char*) nullptr); _exit(9); }
            int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 1) ++good;
          }
          if (good == 2) { rc = 1; break; }
          rc = 3; errmsg = "replay in a fresh process differs: " + fin.kind + " " + fin.detail;
        }
      }
    } else if (shm->nondet.load()) { rc = 3; errmsg = std::string("nondeterministic execution: ") + shm->nondet_msg; }

    // stats
    std::string o = "{";
    o += strf("\"engine\":\"%s\",\"profile\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"ops\":%llu,\"steps\":%llu,\"sim_ticks\":%llu,\"dup_runs\":%llu,\"states\":%llu,\"histories\":%llu,\"known\":%llu,\"wall_s\":%.3f,\"jobs\":%d,",
      e.name, opt.profile.c_str(), (unsigned long long) seed, (unsigned long long) shm->runs.load(), (unsigned long long) shm->ops.load(), (unsigned long long) shm->steps.load(), (unsigned long long) shm->simtime.load(),
      (unsigned long long) shm->dupruns.load(), (unsigned long long) shm->nstates.load(), (unsigned long long) shm->nhist.load(), (unsigned long long) shm->known.load(), t1 - t0, jobs);
    u64 eh = 0; for (u32 i = 0; i < NEDGE; ++i) eh += shm->edges[i];
    o += strf("\"edges_hit\":%llu,\"edges_total\":%u,\"probes\":{", (unsigned long long) eh, nguards);
    std::map<std::string, u64> pr; for (auto& p : shm->probes) if (p.used) pr[p.name] = p.count;
    bool first = true; for (auto& p : pr) { if (!first) o += ","; first = false; jstr(o, p.first); o += strf(":%llu", (unsigned long long) p.second); }
    o += "},\"known_lines\":["; for (u64 i = 0; i < std::min<u64>(8, shm->known.load()); ++i) { if (i) o += ","; jstr(o, shm->knownlines[i]); }
    o += "],\"samples\":["; for (int i = 0; i < 2; ++i) { if (i) o += ","; Plan p = plan_for(start + i * 7); std::string t = plan_text(p, e); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; jstr(o, t); }
    o += "],\"violation\":"; if (rc == 1) { o += "{\"kind\":"; jstr(o, fin.kind); o += ",\"detail\":"; jstr(o, fin.detail); o += strf(",\"run\":%lld,\"ops\":%zu,\"shrink_runs\":%llu,\"replay\":", (long long) vr, minp.ops.size(), (unsigned long long) tried); jstr(o, replay); o += "}"; } else o += "null";
    o += ",\"error\":"; jstr(o, errmsg); o += strf(",\"rc\":%d}\n", rc);
    if (!out.empty()) { std::ofstream f(out); f << o; } else fputs(o.c_str(), stdout);
    if (rc == 1) fprintf(stderr, "violation: %s: %s (run %lld, shrunk to %zu ops)\n", fin.kind.c_str(), fin.detail.c_str(), (long long) vr, minp.ops.size());
    if (rc == 3) fprintf(stderr, "error: %s\n", errmsg.c_str());
    return rc;
  }
}
