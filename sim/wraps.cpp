// libc seam: every call the modem makes to the operating system or the C library that can block, fail, or observe the
// outside world ends here (linked with -Wl,--wrap). Outside a simulated modem thread the real function is used.
#include "sim.h"
#include "real.h"
#include <unordered_map>
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#define REAL(r, n, ...) extern "C" r __real_##n(__VA_ARGS__)
REAL(int, vfprintf, FILE *, const char *, va_list);
REAL(FILE *, fopen, const char *, const char *);
REAL(size_t, fread, void *, size_t, size_t, FILE *);
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
REAL(int, fclose, FILE *);
REAL(int, fflush, FILE *);
REAL(int, ferror, FILE *);
REAL(int, feof, FILE *);
REAL(int, fseek, FILE *, long, int);
REAL(long, ftell, FILE *);
REAL(int, fputs, const char *, FILE *);
REAL(int, fputc, int, FILE *);
REAL(int, setvbuf, FILE *, char *, int, size_t);
REAL(time_t, time, time_t *);
REAL(int, gettimeofday, struct timeval *, void *);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(int, usleep, useconds_t);
REAL(unsigned, sleep, unsigned);
REAL(char *, getenv, const char *); REAL(struct tm *, gmtime, const time_t *);
REAL(void, exit, int);
REAL(void, _exit, int);
REAL(void, abort, void);
REAL(char *, strdup, const char *);
REAL(char *, strndup, const char *, size_t);
REAL(int, posix_memalign, void **, size_t, size_t);
REAL(void *, aligned_alloc, size_t, size_t);
REAL(void *, memalign, size_t, size_t);
REAL(int, poll, struct pollfd *, nfds_t, int);

namespace sim {
std::map<std::string, std::shared_ptr<FileData>> fs;
int64_t disk_free = -1;
int64_t wall_base = 1700000000, wall_skew = 0;
double slow_libc = 0;
std::function<void(const std::string &, const void *, size_t)> on_fwrite;
std::function<void(const std::string &)> on_fwrite_fail, on_fclose, on_fclose_fail;
std::function<void(const std::string &, const char *)> on_fopen;
std::function<void(Conn &)> conn_personality;
MemStat mem;
bool mem_track = true;
std::string env_tmpdir, env_align;
size_t mem_limit_total = 512u << 20, mem_limit_one = 24u << 20;

[[noreturn]] static void unsupported(const char *what) { fatal("unsupported", "the simulator does not model %s", what); }

// ------------------------------------------------------------------------------------------------ memory
struct Block { void *p; AllocInfo i; };
static std::unordered_map<void *, AllocInfo> *blocks;
static uint64_t alloc_seq;
static uint64_t mix64(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
int alloc_mode; uint64_t alloc_salt; static std::unordered_map<uint64_t, int> alloc_seen;
static void capture(void **out, void *fp0) {
  uintptr_t *fp = (uintptr_t *)fp0; uintptr_t lo = (uintptr_t)fp, hi = lo + 400 * 1024;
  for (int i = 0; i < 4; i++) {
    out[i] = nullptr;
    if (!fp) continue;
    out[i] = (void *)fp[1];
    uintptr_t nx = fp[0];
    if (nx <= (uintptr_t)fp || nx >= hi || (nx & 7)) fp = nullptr; else fp = (uintptr_t *)nx;
  }
}
static void *alloc(size_t n, size_t align, void *fp) {
  if (!blocks) blocks = new std::unordered_map<void *, AllocInfo>();
  if (n > mem_limit_one || mem.live_bytes + n > mem_limit_total) { TRACE("malloc(%zu) refused", n); errno = ENOMEM; return nullptr; }
  AllocInfo a; a.size = n; capture(a.site, fp);
  if (fault_rate[FK_ALLOC] > 0 && faults_armed) {
    double rate = fault_rate[FK_ALLOC];
    if (alloc_mode) {   // by place: the same place fails each time it is reached (1), or only the first visit of a place can fail (2)
      uint64_t h = alloc_salt; for (void *x : a.site) h = mix64((h + 0x9E3779B97F4A7C15ull) ^ (x ? (uint64_t)((char *)x - (char *)&capture) : 1));
      if (alloc_mode == 1) rate = h % 40 == 0 ? 0.9 : 0; else rate = alloc_seen[h]++ ? 0 : rate * 2;
    }
    if (fault_rated(FK_ALLOC, 2, rate)) { TRACE("allocation of %zu bytes fails at %s", n, site_str(a).c_str()); errno = ENOMEM; return nullptr; }
  }
  void *p;
  if (align > 16) { if (__real_posix_memalign(&p, align, n ? n : 1)) p = nullptr; } else p = __real_malloc(n);
  if (!p) { errno = ENOMEM; return nullptr; }
  memset(p, 0xCB, n);
  a.seq = ++alloc_seq;
  (*blocks)[p] = a;
  mem.live_blocks++; mem.live_bytes += n; mem.total++;
  return p;
}
static void sync_on_free(void *p, size_t n);
static void release(void *p) {
  if (!p) return;
  if (blocks) {
    auto it = blocks->find(p);
    if (it != blocks->end()) {
      sync_on_free(p, it->second.size);
      mem.live_blocks--; mem.live_bytes -= it->second.size; blocks->erase(it);
    }
  }
  __real_free(p);  // AddressSanitizer reports a bad or double free
}
std::map<uint64_t, std::pair<void *, AllocInfo>> mem_live() {
  std::map<uint64_t, std::pair<void *, AllocInfo>> r;
  if (blocks) for (auto &b : *blocks) r[b.second.seq] = {b.first, b.second};
  return r;
}
std::string site_str(const AllocInfo &a) {
  char b[160]; snprintf(b, sizeof b, "%zu bytes from @%lx<@%lx<@%lx", a.size, (long)a.site[0], (long)a.site[1], (long)a.site[2]);
  return b;
}

// ------------------------------------------------------------------------------------------------ threads
struct Thr { Fiber *f; bool joined = false, detached = false; void *ret = nullptr; bool *done; };
static std::vector<Thr *> thrs;       // id = index + 1
static std::map<int, long> fiber_thr;
static std::vector<void *> routines;
static std::map<void *, int> routine_ix;
struct ThreadExit {};
static int fid(Fiber *f);
long thread_create(void *(*fn)(void *), void *arg) {
  void *key = (void *)fn;
  if (!routine_ix.count(key)) { int n = (int)routine_ix.size(); routine_ix[key] = n; }
  int rix = routine_ix[key];
  Thr *t = new Thr; thrs.push_back(t); long id = (long)thrs.size();
  char nm[32]; snprintf(nm, sizeof nm, "T%d.%ld", rix, id);
  t->f = spawn(nm, true, [t, fn, arg, id] { fiber_thr[fiber_id()] = id; t->ret = fn(arg); });
  return id;
}
int thread_join(long id, void **ret) {
  if (id < 1 || id > (long)thrs.size()) return ESRCH;
  Thr *t = thrs[id - 1];
  if (t->joined) { viol("thread_join_twice", "thread %ld is joined a second time by %s (undefined behaviour)", id, fiber_name()); return ESRCH; }
  if (t->detached) { viol("thread_join_detached", "detached thread %ld is joined", id); return EINVAL; }
  if (fiber_thr.count(fiber_id()) && fiber_thr[fiber_id()] == id) return EDEADLK;
  t->joined = true;
  join(t->f);
  if (ret) *ret = t->ret;
  return 0;
}
int thread_detach(long id) { if (id < 1 || id > (long)thrs.size()) return ESRCH; thrs[id - 1]->detached = true; return 0; }
long thread_self() { auto it = fiber_thr.find(fiber_id()); return it == fiber_thr.end() ? 0x7fff0001 : it->second; }
int threads_unjoined() { int n = 0; for (auto t : thrs) if (!t->joined && !t->detached) n++; return n; }
std::string threads_dump() {
  std::string s; int i = 0;
  for (auto t : thrs) { i++; if (!t->joined && !t->detached) { char b[64]; snprintf(b, sizeof b, "T%d%s ", i, fiber_done(t->f) ? "(ended, not joined)" : "(running)"); s += b; } }
  return s;
}

// ------------------------------------------------------------------------------------------------ mutex / condition
struct Mtx { Fiber *owner = nullptr; WaitQ q; };
struct Cnd { WaitQ q; };
static std::map<void *, Mtx *> mtxs;
static std::map<void *, Cnd *> cnds;
static Mtx *mtx(void *m) { auto &x = mtxs[m]; if (!x) x = new Mtx; return x; }
static Cnd *cnd(void *c) { auto &x = cnds[c]; if (!x) x = new Cnd; return x; }
static void sync_on_free(void *p, size_t n) {
  for (auto it = mtxs.lower_bound(p); it != mtxs.end() && (char *)it->first < (char *)p + n; it = mtxs.erase(it)) {
    if (it->second->owner) viol("free_locked_mutex", "%s frees memory holding a locked mutex", fiber_name());
    if (!it->second->q.q.empty()) viol("free_waited_mutex", "%s frees memory holding a mutex another thread waits for", fiber_name());
  }
  for (auto it = cnds.lower_bound(p); it != cnds.end() && (char *)it->first < (char *)p + n; it = cnds.erase(it))
    if (!it->second->q.q.empty()) viol("free_waited_cond", "%s frees memory holding a condition another thread waits for", fiber_name());
}
static void touch(void *p) { *(volatile char *)p; }  // AddressSanitizer check on the object itself
static int lock(void *m) {
  touch(m);
  yield_point(1);
  touch(m);
  Mtx *x = mtx(m);
  while (x->owner) { wait(x->q, -1, "mutex"); }
  x->owner = cur;
  return 0;
}
static int unlock(void *m) {
  touch(m);
  Mtx *x = mtx(m);
  if (x->owner != cur) { viol("unlock_not_owner", "%s unlocks a mutex it does not own", fiber_name()); return EPERM; }
  x->owner = nullptr;
  wake_all(x->q);
  yield_point(2);
  return 0;
}
static int cwait(void *c, void *m, ns deadline) {
  touch(c);
  Mtx *x = mtx(m);
  if (x->owner != cur) { viol("condwait_not_owner", "%s waits on a condition without owning the mutex", fiber_name()); return EPERM; }
  Cnd *k = cnd(c);
  x->owner = nullptr; wake_all(x->q);
  bool in_time = true;
  if (fault(FK_SPURIOUS)) yield_point(3); else in_time = wait(k->q, deadline, "cond");
  while (x->owner) wait(x->q, -1, "mutex");
  x->owner = cur;
  return in_time ? 0 : ETIMEDOUT;
}

// ------------------------------------------------------------------------------------------------ files
struct SFile { std::string path; std::shared_ptr<FileData> d; bool rd, wr, app, err = false, eof = false, ro_err = false; size_t pos = 0; std::vector<uint8_t> buf; bool unbuffered = false; };
static std::set<SFile *> files;           // iterated only for counting and by insertion-independent dumps
static SFile *sfile(FILE *f, const char *what) {
  if (f == stdout || f == stderr || f == stdin) return nullptr;
  SFile *s = (SFile *)f;
  if (!files.count(s)) fatal("bad_file", "%s on a file that is not open", what);
  return s;
}
int file_handles() { return (int)files.size(); }
std::string file_dump() { std::set<std::string> n; for (auto f : files) n.insert(f->path); std::string s; for (auto &x : n) s += x + " "; return s; }
size_t stdio_block = 4096;                // st_blksize of the file system
static size_t disk_write(SFile *f, const uint8_t *p, size_t n) {
  if (uint32_t v = fault_n(FK_FWRITE, 4)) { errno = v == 1 ? EIO : ENOSPC; f->err = true; if (v == 1) return 0; note_fault(FK_FWRITE_SHORT); n = (v == 2 ? n / 2 : n - n / 8) / 8 * 8; }
  if (disk_free >= 0 && (int64_t)n > disk_free) { note_fault(FK_DISK_FULL); n = disk_free / 8 * 8; errno = ENOSPC; f->err = true; }
  if (disk_free >= 0) disk_free -= n;
  if (f->app) f->pos = f->d->d.size();
  if (n && f->pos < f->d->d.size()) viol("file_overwritten", "%s overwrites %zu bytes already stored in %s at %zu", fiber_name(), n, f->path.c_str(), f->pos);
  if (f->d->d.size() < f->pos + n) f->d->d.resize(f->pos + n);
  memcpy(f->d->d.data() + f->pos, p, n); f->pos += n;
  return n;
}
static bool flush_(SFile *f) {
  if (f->buf.empty()) return true;
  size_t w = disk_write(f, f->buf.data(), f->buf.size());
  bool ok = w == f->buf.size();
  f->buf.erase(f->buf.begin(), f->buf.begin() + w);
  return ok;
}
void files_flush_at_exit() { std::map<std::string, SFile *> m; for (auto f : files) m[f->path] = f; proc.files_at_exit = (int)m.size(); for (auto &x : m) flush_(x.second); }

// ------------------------------------------------------------------------------------------------ network
static int conn_ids, pipe_ids;
static std::vector<std::weak_ptr<Conn>> conns;
std::shared_ptr<Conn> conn_by_id(int id) { return id >= 0 && id < (int)conns.size() ? conns[id].lock() : nullptr; }
std::shared_ptr<Conn> new_conn() {
  auto c = std::make_shared<Conn>();
  c->id = conn_ids++; c->p[0].id = pipe_ids++; c->p[1].id = pipe_ids++; c->t_open = now_;
  conns.push_back(c);
  if (conn_personality) conn_personality(*c);
  return c;
}
static std::map<int, std::shared_ptr<Listener>> ports;
bool a_port_open(int port) { auto it = ports.find(port); return it != ports.end() && it->second->open; }
static void send_seg(std::shared_ptr<Conn> c, int to, int kind, const uint8_t *d, size_t n);
static void deliver(std::shared_ptr<Conn> c, int to) {
  Pipe &p = c->p[to];
  while (!p.flight.empty() && p.flight.front().at <= now_) {
    Seg s = std::move(p.flight.front()); p.flight.pop_front();
    if (s.kind == 0) {
      p.inflight -= s.d.size();
      if (p.rd_closed) { if (!p.rst_sent) { p.rst_sent = true; send_seg(c, 1 - to, 2, nullptr, 0); } wake_all(p.wrq); continue; }
      p.rx.insert(p.rx.end(), s.d.begin(), s.d.end());
      p.total_in += s.d.size();
    } else if (s.kind == 1) p.fin = true;
    else { p.rst = true; wake_all(c->p[1 - to].wrq); }
    wake_all(p.rdq);
  }
}
static void send_seg(std::shared_ptr<Conn> c, int to, int kind, const uint8_t *d, size_t n) {
  Pipe &p = c->p[to];
  ns lat = 20 * US;
  uint32_t l = p.lat_max > 0 ? choose_p(N, 2 * p.id, p.lat_max + 1, p.lat_p) : 0;
  if (l) { lat += (ns)l * 100 * US; if (l > 50) note_fault(FK_NET_DELAY); }
  ns t = std::max(now_ + lat, p.last_at);
  p.last_at = t;
  Seg s; s.at = t; s.kind = kind; if (n) s.d.assign(d, d + n);
  p.inflight += n;
  p.flight.push_back(std::move(s));
  at(t, [c, to] { deliver(c, to); });
}
static void push_data(std::shared_ptr<Conn> c, int to, const uint8_t *d, size_t n) {
  Pipe &p = c->p[to];
  int guard = 0;
  while (n) {
    size_t k = n;
    if (p.seg_p > 0 && n > 1 && guard++ < 64) { uint32_t v = choose_p(N, 2 * p.id + 1, (uint32_t)std::min<size_t>(n, 4096), p.seg_p); if (v) { k = v; probe(PR_FRAGMENTED); } }
    send_seg(c, to, 0, d, k);
    d += k; n -= k;
  }
}
static bool dead_for_write(Conn &c, int side) { return c.p[side].rst || c.p[1 - side].wr_closed; }
static size_t space(Pipe &p) { size_t u = p.rx.size() + p.inflight; return u >= p.cap ? 0 : p.cap - u; }
// returns bytes written (all, unless the connection dies or the deadline passes)
static long c_write(std::shared_ptr<Conn> c, int side, const uint8_t *d, size_t n, ns deadline) {
  size_t done = 0;
  Pipe &o = c->p[1 - side];
  while (done < n) {
    if (dead_for_write(*c, side)) break;
    size_t sp = space(o);
    if (o.rd_closed) sp = n;   // swallowed, the peer answers with a reset
    if (!sp) { if (!wait(o.wrq, deadline, "write")) break; continue; }
    size_t k = std::min(sp, n - done);
    push_data(c, 1 - side, d + done, k);
    done += k;
  }
  return (long)done;
}
static size_t c_take(std::shared_ptr<Conn> c, int side, void *buf, size_t n) {
  Pipe &p = c->p[side];
  size_t k = std::min(n, p.rx.size());
  std::copy(p.rx.begin(), p.rx.begin() + k, (uint8_t *)buf);
  p.rx.erase(p.rx.begin(), p.rx.begin() + k);
  p.total_out += k;
  p.reads.push_back({now_, p.total_out});
  if (k) wake_all(p.wrq);
  return k;
}
static void c_close(std::shared_ptr<Conn> c, int side, bool abortive) {
  if (!c->open[side]) return;
  c->open[side] = false; c->t_close[side] = now_;
  Pipe &in = c->p[side], &out = c->p[1 - side];
  bool rst = abortive || !in.rx.empty();
  in.rd_closed = true;
  if (abortive) { for (auto &s : out.flight) if (s.kind == 0) out.inflight -= s.d.size(); out.flight.clear(); }
  if (!in.rst) {
    if (rst) { in.rst_sent = true; send_seg(c, 1 - side, 2, nullptr, 0); }
    else if (!out.wr_closed) send_seg(c, 1 - side, 1, nullptr, 0);
  }
  out.wr_closed = true;
  in.rx.clear();
  wake_all(in.wrq); wake_all(in.rdq); wake_all(out.wrq);
}
void kill_conn(Conn &c) { if (c.t_killed < 0) c.t_killed = now();
  for (int i = 0; i < 2; i++) { c.p[i].flight.clear(); c.p[i].inflight = 0; c.p[i].rst = true; wake_all(c.p[i].rdq); wake_all(c.p[i].wrq); }
}
End a_connect(int port, ns timeout) {
  ns dl = now_ + timeout;
  sleep_ns(30 * US);
  for (;;) {
    auto it = ports.find(port);
    if (it == ports.end() || !it->second->open) return End();
    auto l = it->second;
    if ((int)l->pending.size() <= l->backlog) {
      auto c = new_conn();
      l->pending.push_back(End{c, 1}); wake_all(l->acceptq);
      sleep_ns(20 * US);
      return End{c, 0};
    }
    if (!wait(l->spaceq, dl, "connect")) return End();
  }
}
std::shared_ptr<Listener> a_listen(int port) {
  auto l = std::make_shared<Listener>(); l->port = port; l->backlog = 8; l->server = false; ports[port] = l; return l;
}
static void l_close(std::shared_ptr<Listener> l) {
  if (!l->open) return;
  l->open = false;
  for (auto &e : l->pending) c_close(e.c, e.side, true);
  l->pending.clear(); wake_all(l->acceptq); wake_all(l->spaceq);
  auto it = ports.find(l->port); if (it != ports.end() && it->second == l) ports.erase(it);
}
void a_unlisten(std::shared_ptr<Listener> l) { l_close(l); }
End a_accept(std::shared_ptr<Listener> l, ns timeout) {
  ns dl = timeout < 0 ? -1 : now_ + timeout;
  while (l->open && l->pending.empty()) if (!wait(l->acceptq, dl, "accept")) return End();
  if (!l->open) return End();
  End e = l->pending.front(); l->pending.pop_front(); wake_all(l->spaceq);
  return e;
}
long a_read(End &e, void *buf, size_t n, ns timeout) {
  ns dl = timeout < 0 ? -1 : now_ + timeout;
  Pipe &p = e.in();
  for (;;) {
    if (!p.rx.empty()) return (long)c_take(e.c, e.side, buf, n);
    if (p.rst) return -1;
    if (p.fin) return 0;
    if (p.rd_closed) return -1;
    if (timeout == 0) { return -2; }
    if (!wait(p.rdq, dl, "actor read")) return -2;
  }
}
long a_write(End &e, const void *buf, size_t n, ns timeout) {
  long r = c_write(e.c, e.side, (const uint8_t *)buf, n, timeout < 0 ? -1 : now_ + timeout);
  if (r == 0 && n && dead_for_write(*e.c, e.side)) return -1;
  return r;
}
void a_shutdown_wr(End &e) { if (!e.out().wr_closed) { send_seg(e.c, 1 - e.side, 1, nullptr, 0); e.out().wr_closed = true; } }
void a_close(End &e) { if (e.c) c_close(e.c, e.side, false); }
void a_reset(End &e) { if (e.c) c_close(e.c, e.side, true); }

// server side descriptors
struct Desc {
  int kind = 1;  // 1 fresh socket, 2 listener, 3 connected
  End e; std::shared_ptr<Listener> l; ns rcvto = 0, sndto = 0; int port = 0; uint32_t addr = 0; bool bound = false, shut_rd = false, err_seen = false, nonblock = false;
  void really_close() { if (kind == 2 && l) l_close(l); if (kind == 3) c_close(e.c, e.side, false); kind = 0; }
  ~Desc() { really_close(); }
};
static std::vector<std::shared_ptr<Desc>> fds;   // index = fd
static std::vector<std::weak_ptr<Desc>> all_desc;
static std::vector<bool> ever_used;
int fd_count() { int n = 0; for (auto &d : fds) if (d) n++; return n; }
std::string fd_dump() {
  std::string s; char b[80];
  for (size_t i = 0; i < fds.size(); i++) if (fds[i]) { snprintf(b, sizeof b, "fd%zu(%s%s%d) ", i, fds[i]->kind == 2 ? "listener" : fds[i]->kind == 3 ? "connection" : "socket", fds[i]->kind == 3 ? (fds[i]->e.side == 1 ? " from client c" : " to upstream c") : " ", fds[i]->kind == 3 ? fds[i]->e.c->id : fds[i]->port); s += b; }
  return s;
}
static int new_fd(std::shared_ptr<Desc> d) {
  if (fds.size() < 3) { fds.resize(3); }
  size_t i = 3;
  while (i < fds.size() && fds[i]) i++;
  if (i == fds.size()) fds.resize(i + 1);
  fds[i] = d; all_desc.push_back(d);
  return (int)i;
}
static std::shared_ptr<Desc> get(int fd, const char *call) {
  if (fd >= 3 && fd < (int)fds.size() && fds[fd]) return fds[fd];
  if (fd == -1) { errno = EBADF; return nullptr; }
  viol(fd >= 0 && fd <= 2 ? "std_fd_used" : "ebadf", "%s uses descriptor %d in %s, which is %s", fiber_name(), fd, call, fd >= 0 && fd <= 2 ? "a standard stream, not its socket" : "not open (it was released before)");
  errno = EBADF; return nullptr;
}
void net_proc_exit() {
  auto v = std::move(fds); fds.clear();
  for (auto &w : all_desc) if (auto d = w.lock()) d->really_close();
  for (auto f : files) (void)f;
  files.clear();
}
static void sigpipe() {
  if (proc.main && proc.handler[SIGPIPE] == SIG_DFL) { viol("sigpipe", "%s wrote to a closed connection and SIGPIPE killed the process", fiber_name()); proc_die(SIGPIPE, 0); }
}
static ssize_t s_write(int fd, const void *buf, size_t n, bool nosig, bool dontwait) {
  touch((void *)buf);
  if (n) touch((char *)buf + n - 1);
  yield_point(10);
  auto d = get(fd, "write"); if (!d) return -1;
  if (d->kind != 3) { errno = ENOTCONN; return -1; }
  if (fault(FK_SEND_EINTR)) { errno = EINTR; return -1; }
  if (fault(FK_CONN_RESET)) { TRACE("network kills connection c%d", d->e.c->id); kill_conn(*d->e.c); }
  if (n > 1) { uint32_t v = fault_n(FK_SEND_SHORT, (uint32_t)std::min<size_t>(n, 65536)); if (v) n = v; }
  if (n == 0) return 0;
  if (d->e.out().wr_closed) { if (!nosig) sigpipe(); errno = EPIPE; return -1; }
  if (d->e.in().rst) { if (!d->err_seen) { d->err_seen = true; errno = ECONNRESET; return -1; } if (!nosig) sigpipe(); errno = EPIPE; return -1; }
  ns dl = d->nonblock || dontwait ? now_ : d->sndto > 0 ? now_ + d->sndto : -1;
  long r = c_write(d->e.c, d->e.side, (const uint8_t *)buf, n, dl);
  TRACE("write(fd %d, %zu) = %ld", fd, n, r);
  if (r > 0) { yield_point(11); return r; }
  if (d->e.out().wr_closed) { if (!nosig) sigpipe(); errno = EPIPE; return -1; }
  if (d->e.in().rst) { d->err_seen = true; errno = ECONNRESET; return -1; }
  errno = EAGAIN; return -1;
}
static ssize_t s_recv(int fd, void *buf, size_t n, int flags) {
  if (n) { touch(buf); touch((char *)buf + n - 1); }
  yield_point(12);
  auto d = get(fd, "recv"); if (!d) return -1;
  if (d->kind != 3) { errno = ENOTCONN; return -1; }
  if (fault(FK_RECV_EINTR)) { errno = EINTR; return -1; }
  if (fault(FK_CONN_RESET)) { TRACE("network kills connection c%d", d->e.c->id); kill_conn(*d->e.c); }
  if (n > 1) { uint32_t v = fault_n(FK_RECV_SHORT, (uint32_t)std::min<size_t>(n, 65536)); if (v) n = v; }
  ns dl = (d->nonblock || (flags & MSG_DONTWAIT)) ? now_ : d->rcvto > 0 ? now_ + d->rcvto : -1;
  Pipe &p = d->e.in();
  size_t got = 0;
  for (;;) {
    if (!p.rx.empty()) {
      if (flags & MSG_PEEK) { size_t k = std::min(n, p.rx.size()); std::copy(p.rx.begin(), p.rx.begin() + k, (uint8_t *)buf); return k; }
      got += c_take(d->e.c, d->e.side, (char *)buf + got, n - got);
      if (got == n || !(flags & MSG_WAITALL)) { TRACE("recv(fd %d, %zu) = %zu", fd, n, got); return got; }
      continue;
    }
    if (p.rst) { if (got) return got; if (!d->err_seen) { d->err_seen = true; errno = ECONNRESET; return -1; } return 0; }
    if (p.fin || d->shut_rd) { TRACE("recv(fd %d) = %zu (end)", fd, got); return got; }
    if (n == 0) return 0;
    if (!wait(p.rdq, dl, "recv")) { if (got) return got; TRACE("recv(fd %d): timeout", fd); errno = EAGAIN; return -1; }
  }
}
}  // namespace sim
using namespace sim;
#define FP __builtin_frame_address(0)
#define SRV() (in_server())
extern "C" {
// ---- memory
void *__wrap_malloc(size_t n) { return SRV() ? alloc(n, 0, FP) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (!SRV()) return __real_calloc(a, b);
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  void *p = alloc(a * b, 0, FP); if (p) memset(p, 0, a * b); return p;
}
void __wrap_free(void *p) { if (SRV()) release(p); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  if (!SRV()) return __real_realloc(p, n);
  if (!p) return alloc(n, 0, FP);
  void *q = alloc(n, 0, FP); if (!q) return nullptr;
  size_t o = n; auto it = blocks->find(p); if (it != blocks->end()) o = it->second.size;
  memcpy(q, p, std::min(o, n)); release(p); return q;
}
char *__wrap_strdup(const char *s) { if (!SRV()) return __real_strdup(s); size_t n = strlen(s) + 1; char *p = (char *)alloc(n, 0, FP); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { if (!SRV()) return __real_strndup(s, m); size_t n = strnlen(s, m); char *p = (char *)alloc(n + 1, 0, FP); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { if (!SRV()) return __real_posix_memalign(o, a, n); void *p = alloc(n, a, FP); if (!p) return ENOMEM; *o = p; return 0; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return SRV() ? alloc(n, a, FP) : __real_aligned_alloc(a, n); }
void *__wrap_memalign(size_t a, size_t n) { return SRV() ? alloc(n, a, FP) : __real_memalign(a, n); }
// used by volk_sim.c
void *sim_volk_malloc(size_t n, size_t a) { return SRV() ? alloc(n, a < 16 ? 16 : a, FP) : aligned_alloc(a, (n + a - 1) / a * a); }

// ---- threads
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  yield_point(20);
  if (fault(FK_THREAD)) return EAGAIN;
  long id = thread_create(fn, arg);
  if (attr) { int st; pthread_attr_getdetachstate(attr, &st); if (st == PTHREAD_CREATE_DETACHED) thread_detach(id); }
  TRACE("creates thread T%ld", id);
  *t = (pthread_t)id;
  yield_point(21);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void **r) { yield_point(22); return thread_join((long)t, r); }
int __wrap_pthread_detach(pthread_t t) { return thread_detach((long)t); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return SRV() ? (pthread_t)thread_self() : __real_pthread_self(); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return SRV() ? lock(m) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return SRV() ? unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { yield_point(4); Mtx *x = mtx(m); if (x->owner) return EBUSY; x->owner = cur; return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); mtxs.erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { Mtx *x = mtx(m); if (x->owner) viol("destroy_locked_mutex", "%s destroys a locked mutex", fiber_name()); mtxs.erase(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); cnds.erase(c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { cnds.erase(c); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  ns dl = ((ns)t->tv_sec - wall_base - wall_skew) * SEC + t->tv_nsec; if (dl < 0) dl = 0; return cwait(c, m, dl);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { touch(c); wake_one(cnd(c)->q); yield_point(5); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { touch(c); wake_all(cnd(c)->q); yield_point(6); return 0; }

// ---- time, environment, signals, process
time_t __wrap_time(time_t *t) { if (!SRV()) return __real_time(t); yield_point(30); time_t v = wall_base + wall_skew + now_ / SEC; if (t) *t = v; return v; }
// the static result which all callers of gmtime share; other threads can run between the fields
struct tm *__wrap_gmtime(const time_t *t) {
  if (!SRV()) return __real_gmtime(t);
  static struct tm shared; struct tm v; gmtime_r(t, &v);
  shared.tm_sec = v.tm_sec; slow_point(slow_libc); shared = v; slow_point(slow_libc);
  return &shared;
}
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!SRV()) return __real_gettimeofday(t, z); t->tv_sec = wall_base + wall_skew + now_ / SEC; t->tv_usec = now_ % SEC / US; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!SRV()) return __real_clock_gettime(c, t);
  t->tv_sec = (c == CLOCK_REALTIME ? wall_base + wall_skew : 1000) + now_ / SEC; t->tv_nsec = now_ % SEC; return 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { if (!SRV()) return __real_nanosleep(t, r); sleep_ns((ns)t->tv_sec * SEC + t->tv_nsec); return 0; }
int __wrap_usleep(useconds_t u) { if (!SRV()) return __real_usleep(u); sleep_ns((ns)u * US); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!SRV()) return __real_sleep(s); sleep_ns((ns)s * SEC); return 0; }
char *__wrap_getenv(const char *n) { if (!SRV()) return __real_getenv(n); if (!strcmp(n, "VOLK_ALIGNMENT")) return env_align.empty() ? nullptr : (char *)env_align.c_str(); return !strcmp(n, "TMPDIR") && !env_tmpdir.empty() ? (char *)env_tmpdir.c_str() : nullptr; }
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) { yield_point(31); if (s < 1 || s > 64) { errno = EINVAL; return SIG_ERR; } sigh o = proc.handler[s]; proc.handler[s] = h; return o; }
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o) { yield_point(31); if (o) { memset(o, 0, sizeof *o); o->sa_handler = proc.handler[s]; } if (n) proc.handler[s] = n->sa_handler; return 0; }
void __wrap_exit(int c) { if (!SRV()) __real_exit(c); proc_exit_from_fiber(c); }
void __wrap__exit(int c) { if (!SRV()) __real__exit(c); proc_die(0, c); __real_abort(); }
void __wrap_abort(void) { if (SRV()) fatal("abort", "%s called abort()", fiber_name()); __real_abort(); }

// ---- console
static int con(const char *f, va_list ap) {
  if (sim::tracing) { char b[400]; vsnprintf(b, sizeof b, f, ap); TRACE("log: %s", b); }
  yield_point(40); return 1;
}
int __wrap_vfprintf(FILE *o, const char *f, va_list ap) {
  if (!SRV()) return __real_vfprintf(o, f, ap);
  if (o == stdout || o == stderr) return con(f, ap);
  char b[8192]; int n = vsnprintf(b, sizeof b, f, ap); SFile *s = sfile(o, "fprintf"); s->buf.insert(s->buf.end(), b, b + n); return n;
}
int __wrap_fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(o, f, ap); va_end(ap); return r; }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(stdout, f, ap); va_end(ap); return r; }
int __wrap_vprintf(const char *f, va_list ap) { return __wrap_vfprintf(stdout, f, ap); }
int __wrap_puts(const char *s) { return __wrap_printf("%s\n", s); }
int __wrap_putchar(int c) { return __wrap_printf("%c", c); }
int __wrap_fputs(const char *s, FILE *o) { return SRV() ? __wrap_fprintf(o, "%s", s) : __real_fputs(s, o); }
int __wrap_fputc(int c, FILE *o) { return SRV() ? __wrap_fprintf(o, "%c", c) : __real_fputc(c, o); }
void __wrap_perror(const char *s) { __wrap_fprintf(stderr, "%s: error %d\n", s, errno); }
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { if (!SRV()) return __real_setvbuf(f, b, m, n); SFile *s = sfile(f, "setvbuf"); if (s && m == _IONBF) s->unbuffered = true; return 0; }

// ---- files
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!SRV()) return __real_fopen(path, mode);
  yield_point(50);
  if (fault(FK_FOPEN)) { errno = EACCES; return nullptr; }
  std::string p = path; for (size_t i; (i = p.find("//")) != std::string::npos;) p.erase(i, 1);
  size_t sl = p.rfind('/');
  std::string dir = sl == std::string::npos ? "" : p.substr(0, sl);
  auto it = fs.find(p);
  bool rd = mode[0] == 'r' || strchr(mode, '+'), wr = mode[0] != 'r' || strchr(mode, '+');
  if (mode[0] == 'r') { if (it == fs.end()) { errno = ENOENT; return nullptr; } }
  else {
    if (!sim_dirs.count(dir)) { errno = ENOENT; return nullptr; }
    if (it == fs.end()) { fs[p] = std::make_shared<FileData>(); it = fs.find(p); }
    if (mode[0] == 'w' && it->second->opens_w) viol("file_truncated", "%s truncates %s, which an earlier session wrote", fiber_name(), path);
    if (mode[0] == 'w') it->second->d.clear();
    it->second->opens_w++;
  }
  SFile *s = new SFile; s->path = p; s->d = it->second; s->rd = rd; s->wr = wr; s->app = mode[0] == 'a';
  files.insert(s);
  TRACE("fopen(%s,%s)", path, mode);
  if (on_fopen) on_fopen(p, mode);
  return (FILE *)s;
}
size_t __wrap_fwrite(const void *b, size_t sz, size_t n, FILE *f) {
  if (!SRV()) return __real_fwrite(b, sz, n, f);
  if (f == stdout || f == stderr) { yield_point(40); return n; }
  size_t len = sz * n;
  if (len) { touch((void *)b); touch((char *)b + len - 1); }
  yield_point(51);
  SFile *s = sfile(f, "fwrite");
  if (!len) return 0;
  if (!s->wr) { errno = EBADF; s->err = true; return 0; }
  const uint8_t *p = (const uint8_t *)b;
  TRACE("fwrite(%s, %zu)", s->path.c_str(), len);
  size_t acc = len;
  size_t oldbuf = s->buf.size();
  s->buf.insert(s->buf.end(), p, p + len);
  size_t cap = s->unbuffered ? 0 : stdio_block;
  if (s->buf.size() > cap) {
    size_t out = s->unbuffered ? s->buf.size() : s->buf.size() / stdio_block * stdio_block;
    size_t w = disk_write(s, s->buf.data(), out);
    s->buf.erase(s->buf.begin(), s->buf.begin() + w);
    if (w < out) { acc = w > oldbuf ? (w - oldbuf) / sz * sz : 0; s->buf.resize(w < oldbuf ? oldbuf - w : 0); }   // what was accepted earlier stays buffered
  }
  if (acc == len) { if (on_fwrite) on_fwrite(s->path, b, len); return n; }
  if (on_fwrite && acc / sz) on_fwrite(s->path, b, acc / sz * sz);
  if (on_fwrite_fail) on_fwrite_fail(s->path);
  return acc / sz;
}
size_t __wrap_fread(void *b, size_t sz, size_t n, FILE *f) {
  if (!SRV()) return __real_fread(b, sz, n, f);
  size_t len = sz * n;
  if (len) { touch(b); touch((char *)b + len - 1); }
  yield_point(52);
  SFile *s = sfile(f, "fread");
  if (!len) return 0;
  if (fault(FK_FREAD)) { s->err = true; errno = EIO; return 0; }
  size_t k = s->pos >= s->d->d.size() ? 0 : std::min(len, s->d->d.size() - s->pos);
  memcpy(b, s->d->d.data() + s->pos, k); s->pos += k;
  if (k < len) s->eof = true;
  if (k < len) TRACE("fread: end of the file after %zu bytes", s->pos);
  return k / sz;
}
int __wrap_fclose(FILE *f) {
  if (!SRV()) return __real_fclose(f);
  yield_point(53);
  SFile *s = sfile(f, "fclose");
  if (!s) return 0;
  bool ok = flush_(s);
  TRACE("fclose(%s)", s->path.c_str());
  if (!ok && on_fclose_fail) on_fclose_fail(s->path);
  files.erase(s); s->buf.clear();
  if (on_fclose) on_fclose(s->path);
  if (fault(FK_FCLOSE)) ok = false;
  delete s;
  return ok ? 0 : EOF;
}
int __wrap_fflush(FILE *f) { if (!SRV()) return __real_fflush(f); if (!f) return 0; SFile *s = sfile(f, "fflush"); if (!s) return 0; yield_point(54); return flush_(s) ? 0 : EOF; }
int __wrap_ferror(FILE *f) { if (!SRV()) return __real_ferror(f); SFile *s = sfile(f, "ferror"); return s && s->err; }
int __wrap_feof(FILE *f) { if (!SRV()) return __real_feof(f); SFile *s = sfile(f, "feof"); return s && s->eof; }
int __wrap_fseek(FILE *f, long o, int w) {
  if (!SRV()) return __real_fseek(f, o, w);
  SFile *s = sfile(f, "fseek"); if (!s) return -1; flush_(s); s->eof = false;
  s->pos = w == SEEK_SET ? o : w == SEEK_CUR ? s->pos + o : s->d->d.size() + o; return 0;
}
void __wrap_rewind(FILE *f) { __wrap_fseek(f, 0, SEEK_SET); }
long __wrap_ftell(FILE *f) { if (!SRV()) return __real_ftell(f); SFile *s = sfile(f, "ftell"); return s ? (long)(s->pos + s->buf.size()) : -1; }

// ---- sockets
int __wrap_socket(int, int, int) {
  yield_point(60);
  if (fault(FK_SOCKET)) { errno = EMFILE; return -1; }
  return new_fd(std::make_shared<Desc>());
}
int __wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t len) {
  yield_point(61);
  auto d = get(fd, "setsockopt"); if (!d) return -1;
  if (fault(FK_SOCKOPT)) { errno = EINVAL; return -1; }
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { const timeval *t = (const timeval *)v; ns x = (ns)t->tv_sec * SEC + t->tv_usec * US; (opt == SO_RCVTIMEO ? d->rcvto : d->sndto) = x; }
  return 0;
}
int __wrap_getsockopt(int fd, int level, int opt, void *v, socklen_t *l) {
  auto d = get(fd, "getsockopt"); if (!d) return -1;
  if (v && l) memset(v, 0, *l);
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && v && l && *l >= sizeof(timeval)) {
    ns x = opt == SO_RCVTIMEO ? d->rcvto : d->sndto; ((timeval *)v)->tv_sec = x / SEC; ((timeval *)v)->tv_usec = (x % SEC) / US;
  }
  return 0;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t) {
  yield_point(62);
  auto d = get(fd, "bind"); if (!d) return -1;
  int port = ntohs(((const sockaddr_in *)a)->sin_port);
  if (fault(FK_BIND) || a_port_open(port)) { errno = EADDRINUSE; return -1; }
  d->port = port; d->addr = ntohl(((const sockaddr_in *)a)->sin_addr.s_addr); d->bound = true; return 0;
}
int __wrap_listen(int fd, int backlog) {
  yield_point(63);
  auto d = get(fd, "listen"); if (!d) return -1;
  if (!d->bound) { errno = EINVAL; return -1; }
  auto l = std::make_shared<Listener>(); l->port = d->port; l->backlog = backlog < 1 ? 1 : backlog; l->server = true;
  d->l = l; d->kind = 2; ports[d->port] = l; if (on_listen) on_listen(d->addr, d->port); return 0;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *al) {
  yield_point(64);
  auto d = get(fd, "accept"); if (!d) return -1;
  if (d->kind != 2) { errno = EINVAL; return -1; }
  uint32_t v = fault_n(FK_ACCEPT_ERR, 5);
  if (v) { static const int e[] = {ECONNABORTED, EMFILE, EINTR, ENFILE}; errno = e[v - 1]; return -1; }
  auto l = d->l;
  while (l->open && l->pending.empty()) wait(l->acceptq, -1, "accept");
  if (!l->open) { errno = EINVAL; return -1; }
  End e = l->pending.front(); l->pending.pop_front(); wake_all(l->spaceq);
  auto n = std::make_shared<Desc>(); n->kind = 3; n->e = e;
  if (a) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000 + e.c->id); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &s, std::min<size_t>(sizeof s, al ? *al : sizeof s)); if (al) *al = sizeof s; }
  int r = new_fd(n);
  TRACE("accept = fd %d (c%d)", r, e.c->id);
  return r;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *al, int) { return __wrap_accept(fd, a, al); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t) {
  yield_point(65);
  auto d = get(fd, "connect"); if (!d) return -1;
  if (d->kind != 1) { errno = EISCONN; return -1; }
  uint32_t v = fault_n(FK_CONNECT, 4);
  if (v) { static const int e[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH}; sleep_ns(v == 2 ? 20 * SEC : 30 * US); errno = e[v - 1]; return -1; }
  int port = ntohs(((const sockaddr_in *)a)->sin_port); if (on_connect) on_connect(ntohl(((const sockaddr_in *)a)->sin_addr.s_addr), port);
  End e = a_connect(port, 60 * SEC);
  TRACE("connect(fd %d, port %d) = %s", fd, port, e.valid() ? "ok" : "refused");
  if (!e.valid()) { errno = ECONNREFUSED; return -1; }
  d->kind = 3; d->e = e; return 0;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return SRV() ? s_write(fd, b, n, false, false) : __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return s_write(fd, b, n, fl & MSG_NOSIGNAL, fl & MSG_DONTWAIT); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return s_write(fd, b, n, fl & MSG_NOSIGNAL, fl & MSG_DONTWAIT); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return s_recv(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return s_recv(fd, b, n, fl); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return SRV() ? s_recv(fd, b, n, 0) : __real_read(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
  std::vector<uint8_t> b; for (int i = 0; i < c; i++) b.insert(b.end(), (uint8_t *)v[i].iov_base, (uint8_t *)v[i].iov_base + v[i].iov_len);
  return b.empty() ? 0 : s_write(fd, b.data(), b.size(), false, false);
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return s_recv(fd, v[i].iov_base, v[i].iov_len, 0); return 0; }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int) { return __wrap_writev(fd, m->msg_iov, m->msg_iovlen); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int) { return __wrap_readv(fd, m->msg_iov, m->msg_iovlen); }
int __wrap_shutdown(int fd, int how) {
  yield_point(66);
  auto d = get(fd, "shutdown"); if (!d) return -1;
  TRACE("shutdown(fd %d, %d)", fd, how);
  if (d->kind == 2) { l_close(d->l); return 0; }
  if (d->kind != 3) { errno = ENOTCONN; return -1; }
  if (d->e.in().rst) { errno = ENOTCONN; return -1; }
  if (how == SHUT_RD || how == SHUT_RDWR) { d->shut_rd = true; wake_all(d->e.in().rdq); }
  if (how == SHUT_WR || how == SHUT_RDWR) { a_shutdown_wr(d->e); wake_all(d->e.out().wrq); }
  return 0;
}
int __wrap_close(int fd) {
  if (!SRV()) return __real_close(fd);
  yield_point(67);
  auto d = get(fd, "close"); if (!d) return -1;
  TRACE("close(fd %d)", fd);
  fds[fd] = nullptr;
  d.reset();
  return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  auto d = get(fd, "fcntl"); if (!d) return -1;
  if (cmd == F_GETFL) return O_RDWR | (d->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { d->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
  if (!SRV()) return __real_poll(p, n, to);
  ns dl = to < 0 ? -1 : now_ + (ns)to * MS;
  for (;;) {
    yield_point(68);
    int r = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      auto d = get(p[i].fd, "poll"); if (!d) { p[i].revents = POLLNVAL; r++; continue; }
      if (d->kind == 2) { if (!d->l->open) p[i].revents |= POLLHUP; else if (!d->l->pending.empty()) p[i].revents |= p[i].events & POLLIN; }
      if (d->kind == 3) {
        Pipe &in = d->e.in();
        if (!in.rx.empty() || in.fin || in.rst || d->shut_rd) p[i].revents |= p[i].events & POLLIN;
        if (in.rst) p[i].revents |= POLLERR | POLLHUP;
        if (space(d->e.out())) p[i].revents |= p[i].events & POLLOUT;
      }
      if (p[i].revents) r++;
    }
    if (r) return r;
    if (dl >= 0 && now_ >= dl) return 0;
    sleep_ns(dl >= 0 ? std::min<ns>(500 * US, dl - now_) : 500 * US);
  }
}
int __wrap_select(int n, void *r, void *w, void *e, void *tv) {
  if (n != 0 || r || w || e || !tv) unsupported("select");
  timeval *t = (timeval *)tv; sleep_ns((ns)t->tv_sec * SEC + t->tv_usec * US); return 0;
}
int __wrap_ioctl(int, unsigned long, ...) { unsupported("ioctl"); }
void __wrap_pthread_exit(void *) { unsupported("pthread_exit"); }
int __wrap_pthread_kill(pthread_t, int) { unsupported("pthread_kill"); }
int __wrap_pthread_cancel(pthread_t) { unsupported("pthread_cancel"); }
}
