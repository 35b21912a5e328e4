#include "sim.h"
#include "real.h"
#include <algorithm>
#include <queue>
#include <unordered_map>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <sys/mman.h>
#include <pthread.h>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <sanitizer/asan_interface.h>
extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom_old, size_t *size_old);
void sim_switch(void **save, void *load);
}
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch, .-sim_switch
)");

namespace sim {
const char *fault_names[] = {
#define X(a, b) b,
    FAULT_KINDS(X)
#undef X
};
const char *probe_names[] = {
#define X(a) #a,
    PROBES(X)
#undef X
};
Shared *sh;
double fault_rate[FK_COUNT];
int faults_armed = 0;
ns stall_total = 0; uint64_t sig_step = 0; std::function<void()> on_sig_step;
bool gen_mode = true;
bool tracing = false;
Policy policy;
Proc proc;
ns now_ = 0;
Fiber *cur = nullptr;
static uint64_t seed_;
std::map<uint64_t, uint32_t> *replay_map[NSTREAM];

struct Fiber {
  int id; std::string name; bool server; void *sp = nullptr; char *stack = nullptr; size_t stack_size = 0;
  const void *bottom = nullptr; size_t bsize = 0; void *fake = nullptr; int err = 0;
  std::function<void()> fn; bool done = false, dead = false, started = false, in_ready = false, is_main = false;
  uint64_t memcnt = 0, wait_gen = 0; bool woken = false, timed_out = false, sig_wake = false; const char *why = ""; WaitQ *wq = nullptr;
  WaitQ joinq; long prio = 0; std::vector<std::pair<uint64_t, uint32_t>> mem_pre; size_t mem_pos = 0;
};
static std::vector<Fiber *> fibers, ready;
static Fiber *controller;
struct Ev { ns t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;
static uint64_t evseq;
static long mem_countdown;
static uint64_t mem_draws, dsp_draws; static long dsp_countdown;
static std::vector<uint64_t> pct_points; static size_t pct_i; static long pct_low;
static uint64_t loop_edges;
static int in_event;

static inline uint64_t sm(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static inline uint64_t rnd(uint64_t a, uint64_t b, uint64_t c) { return sm(sm(sm(seed_ ^ a * 0x1234567ull) + b) ^ (c * 0x9E3779B97F4A7C15ull)); }
void mix(uint64_t x) { sh->hash = (sh->hash ^ x) * 0x100000001b3ull; sh->hash ^= sh->hash >> 29; }

static std::vector<uint32_t> idxs[NSTREAM];
static inline uint64_t nextkey(Stream s, uint32_t sub) {
  auto &v = idxs[s];
  if (v.size() <= sub) v.resize(sub + 64, 0);
  return ((uint64_t)sub << 40) | v[sub]++;
}
static void record(Stream s, uint64_t key, uint32_t v) {
  uint32_t n = sh->ndec;
  if (n < MAXDEC) { sh->dec[n] = Dec{key, v, (uint8_t)s}; sh->ndec = n + 1; }
}
static uint32_t lookup(Stream s, uint64_t key) {
  auto it = replay_map[s]->find(key);
  return it == replay_map[s]->end() ? 0 : it->second;
}
uint32_t choose(Stream s, uint32_t sub, uint32_t n) {
  uint64_t k = nextkey(s, sub);
  if (n <= 1) return 0;
  uint32_t v;
  if (gen_mode) { v = (uint32_t)(rnd(s + 1, k >> 20, k) % n); }
  else { v = lookup(s, k); if (v >= n) v %= n; }
  if (v) record(s, k, v);
  return v;
}
uint32_t choose_p(Stream s, uint32_t sub, uint32_t n, double pnz) {
  uint64_t k = nextkey(s, sub);
  if (n <= 1) return 0;
  uint32_t v = 0;
  if (gen_mode) {
    if (pnz > 0) {
      uint64_t r = rnd(s + 11, k >> 20, k);
      if ((r >> 11) * (1.0 / 9007199254740992.0) < pnz) v = 1 + (uint32_t)(sm(r) % (n - 1));
    }
  } else { v = lookup(s, k); if (v >= n) v = 1 + (v - 1) % (n - 1); }
  if (v) record(s, k, v);
  return v;
}
uint32_t fault_n(FaultKind k, uint32_t n) { return fault_rated(k, n, fault_rate[k]); }
uint32_t fault_rated(FaultKind k, uint32_t n, double rate) {
  if (!faults_armed) return 0;
  uint32_t v = choose_p(F, k, n, rate);
  if (v) { sh->faults[k]++; TRACE("FAULT %s (%u) in %s", fault_names[k], v, fiber_name()); mix(0xfa000 + k); }
  return v;
}
bool fault(FaultKind k) { return fault_n(k, 2) != 0; }
void note_fault(FaultKind k) { sh->faults[k]++; mix(0xfb000 + k); TRACE("FAULT %s", fault_names[k]); }

bool has_viol() { return sh->nviol != 0; }
static void vviol(const char *cls, const char *fmt, va_list ap) {
  char b[sizeof(Viol::msg)]; vsnprintf(b, sizeof b, fmt, ap);
  TRACE("VIOLATION %s: %s", cls, b);
  for (uint32_t i = 0; i < sh->nviol; i++) if (!strcmp(sh->viol[i].cls, cls)) return;
  if (sh->nviol >= MAXVIOL) return;
  Viol &v = sh->viol[sh->nviol];
  snprintf(v.cls, sizeof v.cls, "%s", cls);
  snprintf(v.msg, sizeof v.msg, "%s", b);
  sh->nviol++;
}
void viol(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviol(cls, fmt, ap); va_end(ap); }
void fatal(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviol(cls, fmt, ap); va_end(ap); end_run(); }
void end_run() { sh->simtime = now_; sh->finished = 1; _exit(0); }
void trace_(const char *fmt, ...) {
  char b[700]; int n = snprintf(b, sizeof b, "%10.6f #%llu [%s] ", now_ / 1e9, (unsigned long long)sh->steps, cur ? cur->name.c_str() : "-");
  va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  if (n && b[n - 1] != '\n') b[n++] = '\n';
  __real_write(2, b, n);
}

int fiber_id() { return cur ? cur->id : -1; }
bool in_server() { return cur && cur->server; }
const char *fiber_name() { return cur ? cur->name.c_str() : "-"; }
bool fiber_done(Fiber *f) { return f->done; }

void at(ns t, std::function<void()> fn) { if (t < now_) t = now_; evq.push(new Ev{t, evseq++, std::move(fn)}); }
static void run_due() {
  while (!evq.empty() && evq.top()->t <= now_) {
    Ev *e = evq.top(); evq.pop();
    in_event++; e->fn(); in_event--;
    delete e;
  }
}
static void make_ready(Fiber *f) {
  if (f->done || f->dead || f->in_ready || f == cur) return;
  f->in_ready = true; ready.push_back(f);
}
static char *stack_pool[256]; static int stack_pool_n;
static constexpr size_t STK = 512 * 1024;
static void fiber_entry();
static Fiber *prev_dead;

static void finish(Fiber *f) {
  const void *b; size_t s;
  __sanitizer_finish_switch_fiber(f->fake, &b, &s);
  if (controller && !controller->bottom) { controller->bottom = b; controller->bsize = s; }
  if (prev_dead) {
    Fiber *d = prev_dead; prev_dead = nullptr;
    if (d->stack) { __asan_unpoison_memory_region(d->stack, STK); if (stack_pool_n < 256) stack_pool[stack_pool_n++] = d->stack; d->stack = nullptr; }
  }
}
static void switch_to(Fiber *n) {
  Fiber *p = cur;
  if (n == p) return;
  sh->switches++; mix(0x5000 + n->id);
  sh->sched_hash = (sh->sched_hash ^ (n->id + 1) ^ (sh->steps << 8)) * 0x100000001b3ull;
  p->err = errno;
  bool dying = p->done || p->dead;
  cur = n;
  if (dying) prev_dead = p->done ? p : nullptr;
  __sanitizer_start_switch_fiber(dying && p->done ? nullptr : &p->fake, n->bottom, n->bsize);
  sim_switch(&p->sp, n->sp);
  finish(p);
  errno = p->err;
}
static void fiber_entry() {
  Fiber *f = cur;
  finish(f);
  f->started = true; errno = 0;
  f->fn();
  f->fn = nullptr;
  f->done = true;
  mix(0xdead00 + f->id);
  TRACE("thread ends");
  wake_all(f->joinq);
  extern void sched_block(); sched_block();
  abort();
}
static Fiber *pick(bool with_cur) {
  // candidates: [cur if with_cur] + ready
  size_t n = ready.size() + (with_cur ? 1 : 0);
  if (n == 1) { if (with_cur) return cur; Fiber *f = ready[0]; ready.clear(); f->in_ready = false; return f; }
  uint32_t v = 0;
  auto cand = [&](size_t i) { return with_cur ? (i == 0 ? cur : ready[i - 1]) : ready[i]; };
  uint64_t k = nextkey(S, (uint32_t)cur->id);
  if (gen_mode) {
    uint64_t r = rnd(77, k >> 20, k);
    double u = (r >> 11) * (1.0 / 9007199254740992.0);
    switch (policy.kind) {
      case 1: {  // PCT
        if (pct_i < pct_points.size() && sh->steps >= pct_points[pct_i]) { pct_i++; cur->prio = --pct_low; }
        long best = cand(0)->prio;
        for (size_t i = 1; i < n; i++) if (cand(i)->prio > best) { best = cand(i)->prio; v = i; }
        break;
      }
      case 3: {  // starve threads whose name starts with policy.starve
        std::vector<uint32_t> ok;
        for (size_t i = 0; i < n; i++) if (cand(i)->name.compare(0, policy.starve.size(), policy.starve) != 0) ok.push_back(i);
        if (ok.empty() || u > 0.97) { v = sm(r) % n; break; }
        if (with_cur && ok[0] == 0 && u > policy.p) v = 0; else v = ok[sm(r) % ok.size()];
        break;
      }
      default:
        if (!with_cur) v = policy.kind == 2 && u > 0.3 ? 0 : sm(r) % n;
        else if (u < policy.p) v = sm(r) % n;
    }
  } else { v = lookup(S, k); if (v >= n) v %= n; }
  if (v) { record(S, k, v); if (with_cur) sh->probes[PR_PREEMPT]++; }
  if (with_cur && v == 0) return cur;
  size_t ri = with_cur ? v - 1 : v;
  Fiber *f = ready[ri]; ready.erase(ready.begin() + ri); f->in_ready = false;
  return f;
}
void proc_signal(int);
static void step(int op) {
  sh->steps++;
  loop_edges = 0;
  if (sh->steps > policy.max_steps) fatal("livelock", "no end after %llu steps; %s", (unsigned long long)sh->steps, dump_fibers().c_str());
  now_ += policy.step_ns;
  mix(((uint64_t)op << 16) ^ cur->id);
  if (sig_step && sh->steps >= sig_step) { sig_step = 0; if (on_sig_step) on_sig_step(); note_fault(FK_SIGNAL); proc_signal(SIGTERM); }
}
void check_pending_sig() {
  if (!proc.any_pend || cur != proc.main || proc.exited) return;
  for (int s = 1; s < 65; s++) if (proc.pend[s]) {
    proc.pend[s] = false; 
    if (proc.handler[s] == SIG_IGN) continue;
    if (proc.handler[s] == SIG_DFL) { proc_die(s, 0); return; }
    TRACE("signal %d delivered", s);
    int e = errno; proc.handler[s](s); errno = e;
  }
  proc.any_pend = false;
  for (int s = 1; s < 65; s++) if (proc.pend[s]) proc.any_pend = true;
}
void sched_block() {  // cur is not ready any more (blocked, done or dead): run something else
  for (;;) {
    run_due();
    if (!ready.empty()) break;
    if (cur->in_ready) abort();
    if (evq.empty()) fatal("deadlock", "nothing can run any more; %s", dump_fibers().c_str());
    if (evq.top()->t > now_) now_ = evq.top()->t;
  }
  // cur may itself have been made ready by an event (make_ready skips cur) -- handled through woken flag
  Fiber *f = pick(false);
  switch_to(f);
}
// a place where a thread may be held up for long, with its own rate
void slow_point(double rate) {
  if (in_event || !cur || !cur->server || !faults_armed || rate <= 0) { yield_point(30); return; }
  double o = fault_rate[FK_STALL]; fault_rate[FK_STALL] = rate; uint32_t v = fault_n(FK_STALL, 12); fault_rate[FK_STALL] = o;
  if (v) { stall_total += (ns)MS << v; sleep_ns((ns)MS << v); } else yield_point(30);
}
void yield_point(int op) {
  if (in_event || !cur) return;
  if (cur->dead) { sched_block(); }
  step(op);
  run_due();
  if (cur->dead) sched_block();
  if (cur->is_main && proc.any_pend) check_pending_sig();
  if (cur->server && faults_armed) {
    uint32_t v = fault_n(FK_STALL, 12);
    if (v) { stall_total += (ns)MS << v; sleep_ns((ns)MS << v); return; }
  }
  if (ready.empty()) return;
  Fiber *f = pick(true);
  if (f == cur) return;
  cur->in_ready = true; ready.push_back(cur);
  Fiber *me = cur;
  switch_to(f);
  (void)me;
  if (cur->dead) sched_block();
  if (cur->is_main && proc.any_pend) check_pending_sig();
}
bool wait(WaitQ &q, ns deadline, const char *why) {
  Fiber *f = cur;
  if (f->dead) sched_block();
  if (deadline >= 0 && deadline <= now_) { return false; }
  f->woken = f->timed_out = f->sig_wake = false; f->why = why; f->wq = &q;
  uint64_t g = ++f->wait_gen;
  q.q.push_back(f);
  if (deadline >= 0)
    at(deadline, [f, g] {
      if (f->wait_gen == g && !f->woken && !f->done && !f->dead) {
        if (f->wq) { auto &v = f->wq->q; v.erase(std::remove(v.begin(), v.end(), f), v.end()); f->wq = nullptr; }
        f->timed_out = true; f->woken = true; if (f != cur) make_ready(f); else { f->in_ready = true; ready.push_back(f); }
      }
    });
  step(0x77);
  sched_block();
  f->wait_gen++;
  f->why = "";
  if (f->dead) sched_block();
  if (f->is_main && proc.any_pend) check_pending_sig();
  return !f->timed_out;
}
static void wake(Fiber *f) {
  f->wq = nullptr; f->woken = true;
  if (f->done || f->dead || f->in_ready) return;
  f->in_ready = true; ready.push_back(f);
}
void wake_all(WaitQ &q) { std::vector<Fiber *> v; v.swap(q.q); for (auto f : v) wake(f); }
void wake_one(WaitQ &q) {
  if (q.q.empty()) return;
  size_t i = q.q.size() > 1 ? choose(S, 3000, q.q.size()) : 0;
  Fiber *f = q.q[i]; q.q.erase(q.q.begin() + i); wake(f);
}
void sleep_ns(ns d) { WaitQ q; wait(q, now_ + (d > 0 ? d : 1), "sleep"); }
void join(Fiber *f) { while (!f->done) { if (f->dead) return; wait(f->joinq, -1, "join"); } }

Fiber *spawn(const std::string &name, bool server, std::function<void()> fn) {
  Fiber *f = new Fiber; f->id = (int)fibers.size(); f->name = name; f->server = server; f->fn = std::move(fn);
  if (stack_pool_n) f->stack = stack_pool[--stack_pool_n];
  else {
    f->stack = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE); f->stack += 4096;
  }
  f->bottom = f->stack; f->bsize = STK;
  uint64_t *sp = (uint64_t *)(f->stack + STK - 64);
  *--sp = 0; *--sp = (uint64_t)(void *)fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  fibers.push_back(f);
  f->prio = (long)(rnd(5, f->id, 1) % 1000000) + 1000;
  if (!gen_mode) for (auto &kv : *replay_map[M]) if ((int)(kv.first >> 40) == f->id) f->mem_pre.push_back({kv.first & ((1ull << 40) - 1), kv.second});
  mix(0xc0000 + f->id);
  make_ready(f);
  return f;
}
std::string dump_fibers() {
  std::string s;
  for (auto f : fibers) if (!f->done && !f->dead) { s += f->name; s += f == cur ? "(running)" : f->in_ready ? "(ready)" : std::string("(") + f->why + ")"; s += " "; }
  return s;
}
int live_server_threads() { int n = 0; for (auto f : fibers) if (f->server && !f->done && !f->dead && !f->is_main) n++; return n; }

// ---------------------------------------------------------------- process
void net_proc_exit();
void files_flush_at_exit();
static void proc_note_exit() {
  proc.threads_at_exit = 0; proc.fds_at_exit = fd_count(); proc.fd_exit_dump = fd_dump(); proc.file_exit_dump = file_dump();
  for (auto f : fibers) if (f->server && !f->done && !f->dead && !f->is_main) { proc.threads_at_exit++; proc.exit_dump += f->name + "(" + f->why + ") "; }
}
void proc_exit_from_fiber(int code) {
  proc_note_exit();
  files_flush_at_exit();
  proc_die(0, code);
  abort();
}
void proc_die(int killed_by, int code) {
  if (proc.exited) return;
  proc.exited = true; proc.killed_by = killed_by; proc.exit_code = code; proc.exit_time = now_;
  TRACE("process ends: signal %d code %d", killed_by, code);
  for (auto f : fibers) if (f->server && !f->done) {
    f->dead = true;
    if (f->in_ready) { ready.erase(std::remove(ready.begin(), ready.end(), f), ready.end()); f->in_ready = false; }
  }
  net_proc_exit();
  wake_all(proc.exitq);
  if (cur->server) sched_block();
}
void proc_signal(int s) {
  if (proc.exited || !proc.main) return;
  TRACE("signal %d sent", s);
  if (!proc.started) { proc_die(s, 0); return; }
  if (proc.handler[s] == SIG_DFL) { proc_die(s, 0); return; }
  proc.pend[s] = true; proc.any_pend = true;
  Fiber *f = proc.main;
  if (f->wq) {  // blocked: wake it, the waiting loop re-waits
    auto &v = f->wq->q; v.erase(std::remove(v.begin(), v.end(), f), v.end()); wake(f);
  }
}
void proc_start(std::function<int()> mainfn) {
  proc.main = spawn("main", true, [mainfn] {
    proc.started = true;
    check_pending_sig();
    int rc = mainfn();
    TRACE("main returned %d", rc);
    proc_exit_from_fiber(rc);
  });
  proc.main->is_main = true;
}

void kernel_init(uint64_t seed) {
  seed_ = seed;
  controller = new Fiber; controller->id = 0; controller->name = "control"; controller->server = false; controller->started = true;
  pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void *b; size_t s; pthread_attr_getstack(&a, &b, &s); pthread_attr_destroy(&a);
  controller->bottom = b; controller->bsize = s;
  fibers.push_back(controller); cur = controller;
  sh->hash = 0xcbf29ce484222325ull; sh->sched_hash = 0xcbf29ce484222325ull;
}
void policy_start() {  // after the world has chosen policy
  if (policy.kind == 1) {
    for (int i = 0; i < policy.depth; i++) pct_points.push_back(rnd(91, i, 3) % 30000);
    std::sort(pct_points.begin(), pct_points.end());
    pct_low = 500;
  }
  dsp_countdown = policy.dsp_gap > 0 ? 1 + (long)(policy.dsp_gap * 2 * ((rnd(94, 0, 0) >> 11) * (1.0 / 9007199254740992.0))) : 0;
  mem_countdown = policy.mem_gap > 0 ? 1 + (long)(policy.mem_gap * 2 * ((rnd(92, 0, 0) >> 11) * (1.0 / 9007199254740992.0))) : 0;
}
static ns dsp_slept;
static void mem_switch(Fiber *f, uint32_t v) {
  record(M, ((uint64_t)f->id << 40) | f->memcnt, v);
  sh->steps++; now_ += policy.step_ns; mix(0x3e3 ^ f->id);
  if (v >= 1000) { dsp_slept += (v - 1000) * US; sleep_ns((v - 1000) * US); return; }   // the computation takes its time
  size_t i = (v - 1) % ready.size();
  Fiber *n = ready[i]; ready.erase(ready.begin() + i); n->in_ready = false;
  f->in_ready = true; ready.push_back(f);
  switch_to(n);
  if (cur->dead) sched_block();
}
static inline void mem_point(Fiber *f, long &countdown, uint64_t &draws, double gap, int stream, int probe) {
  f->memcnt++;
  if (gen_mode) {
    if (countdown == 0 || --countdown) return;
    draws++;
    countdown = 1 + (long)(gap * 2 * ((rnd(stream, draws, 0) >> 11) * (1.0 / 9007199254740992.0)));
    if (stream == 94 && (ready.empty() || rnd(95, draws, 0) % 2) && dsp_slept < 300 * MS) { sh->probes[probe]++; mem_switch(f, 1000 + (1 << rnd(95, draws, 1) % 12)); return; }
    if (ready.empty()) return;
    sh->probes[probe]++;
    mem_switch(f, 1 + rnd(93, draws, stream == 92 ? 1 : 2) % ready.size());
  } else {
    while (f->mem_pos < f->mem_pre.size() && f->mem_pre[f->mem_pos].first < f->memcnt) f->mem_pos++;
    if (f->mem_pos >= f->mem_pre.size() || f->mem_pre[f->mem_pos].first != f->memcnt) return;
    uint32_t v = f->mem_pre[f->mem_pos++].second;
    if (ready.empty() && v < 1000) return;
    sh->probes[probe]++;
    mem_switch(f, v);
  }
}
static inline void memhook(void *addr) {
  Fiber *f = cur;
  if (!f || !f->server || in_event || f->dead) return;
  char *p = (char *)addr;
  if (p >= f->stack && p < f->stack + STK) return;
  mem_point(f, mem_countdown, mem_draws, policy.mem_gap, 92, PR_MEM_PREEMPT);
}
static uint32_t nguards;
}  // namespace sim
using namespace sim;
extern "C" {
#define NOSAN __attribute__((no_sanitize("address")))
NOSAN void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++nguards;
}
NOSAN void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!sh || !cur) return;
  uint32_t i = *g & (NEDGE - 1);
  if (!sh->edges[i]) { sh->edges[i] = 1; sh->nedges++; }
  if (++loop_edges > 20000000) fatal("spin", "%s executes without end between two system calls; %s", fiber_name(), dump_fibers().c_str());
}
// blocks of the signal processing code
NOSAN void __sanitizer_cov_trace_pc() {
  Fiber *f = cur;
  if (!f || !f->server || in_event || f->dead) return;
  mem_point(f, dsp_countdown, dsp_draws, policy.dsp_gap, 94, PR_DSP_PREEMPT);
}
#define LS(n) void __sanitizer_cov_load##n(void *a) { memhook(a); } void __sanitizer_cov_store##n(void *a) { memhook(a); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
