// Deterministic simulator: kernel, network, files, memory, process. One OS thread, fibers, virtual time.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <memory>

namespace sim {
typedef int64_t ns;
constexpr ns US = 1000, MS = 1000 * US, SEC = 1000 * MS;

// ---------------------------------------------------------------- decisions
// Every nondeterministic choice is one decision: (stream, sub, index) -> value. 0 is always the benign default.
enum Stream : uint8_t { W = 0, S = 1, F = 2, N = 3, M = 4, NSTREAM = 5 };

#define FAULT_KINDS(X) \
  X(ALLOC, "alloc_fail") X(THREAD, "thread_create_fail") X(RECV_EINTR, "recv_eintr") X(RECV_SHORT, "recv_short") \
  X(SEND_EINTR, "send_eintr") X(SEND_SHORT, "send_short") X(ACCEPT_ERR, "accept_error") X(SOCKOPT, "setsockopt_fail") \
  X(SOCKET, "socket_fail") X(CONNECT, "connect_fail") X(NET_DELAY, "net_delay") X(CONN_RESET, "net_reset") \
  X(SPURIOUS, "spurious_wakeup") X(STALL, "thread_stall") X(FOPEN, "fopen_fail") X(FWRITE, "fwrite_eio") \
  X(DISK_FULL, "disk_full") X(FREAD, "fread_eio") X(FCLOSE, "fclose_fail") X(IIO_REFILL, "iio_refill_fail") \
  X(IIO_PUSH, "iio_push_fail") X(IIO_BUF, "iio_buffer_fail") X(IIO_ATTR, "iio_attr_fail") X(IIO_FIND, "iio_find_fail") \
  X(IIO_CTX, "iio_context_fail") X(CLOCK_JUMP, "clock_jump") X(SIGNAL, "stop_signal") X(UP_REFUSE, "upstream_refuse") \
  X(UP_REJECT, "upstream_reject") X(UP_GARBAGE, "upstream_garbage") X(UP_EOF, "upstream_eof") X(UP_RESET, "upstream_reset") \
  X(UP_PAUSE, "upstream_pause") X(UP_HANG, "upstream_hang") X(CLI_RESET, "client_reset") X(CLI_CLOSE, "client_close") \
  X(CLI_STALL, "client_stall") X(CLI_GARBAGE, "client_garbage") X(CLI_TRUNC, "client_truncated") X(BIND, "bind_fail") \
  X(IIO_SHORT, "iio_short_refill") X(FWRITE_SHORT, "fwrite_short")
enum FaultKind {
#define X(a, b) FK_##a,
  FAULT_KINDS(X)
#undef X
  FK_COUNT
};
extern const char *fault_names[];

// probes: "this interesting condition was reached"
#define PROBES(X) \
  X(RX_ACCEPT) X(TX_ACCEPT) X(PING_OK) X(REFUSED) X(SHARED_UPSTREAM) X(OVERFLOW_DROP) X(QUEUE_BLOCKED) X(STREAM_CMP) X(STREAM_BYTES) \
  X(STREAM_SKIP_ILL) X(DUMP_CMP) X(TX_CMP) X(TX_SAMPLES) X(TX_MSG_OK) X(TX_MSG_FAIL) X(TX_IN_USE) X(RX_IN_USE) X(REACCEPT) X(UP_CONN) \
  X(UP_SHUTDOWN_SEEN) X(MID_SAMPLE_PAUSE) X(EOF_DELIVERED) X(GRACEFUL_LEAVE) X(ABRUPT_LEAVE) X(STOP_EARLY) X(STOP_LATE) X(DOPPLER_RX) X(DOPPLER_REFINED) X(LEFTOVERS) X(CONFIG_OK) X(CONFIG_REFUSED) \
  X(DOPPLER_TX) X(LOOPBACK_OK) X(QUEUE_OPS) X(QUEUE_OVERWRITE) X(IIO_CTX_OPEN) X(IIO_TX_WHILE_RX) X(PROBE_OK) X(ABORTED_START) \
  X(JOIN_LATE) X(LEAVE_WHILE_SHARED) X(CRASH_POINT_FILES) X(FRAGMENTED) X(REJECT_CODE_CHECK) X(MEM_PREEMPT) X(DSP_PREEMPT) X(WILD) X(PREEMPT) X(FILE_STREAM)
enum Probe {
#define X(a) PR_##a,
  PROBES(X)
#undef X
  PR_COUNT
};
extern const char *probe_names[];

struct Dec { uint64_t key; uint32_t v; uint8_t s; };  // key = sub<<40 | index

enum { MAXDEC = 400000, MAXVIOL = 6, NEDGE = 8192 };
struct Viol { char cls[96]; char msg[600]; };
struct Shared {  // result of one run, in memory shared with the parent
  volatile int finished, skipped;
  uint64_t hash, steps, sched_hash; ns simtime; uint64_t switches;
  uint32_t nviol; Viol viol[MAXVIOL];
  uint64_t faults[FK_COUNT]; uint64_t probes[PR_COUNT];
  uint8_t edges[NEDGE]; uint32_t nedges;
  char summary[1500];
  volatile uint32_t ndec; Dec dec[MAXDEC];
};
extern Shared *sh;

uint32_t choose(Stream s, uint32_t sub, uint32_t n);                  // uniform in gen mode, [0,n)
uint32_t choose_p(Stream s, uint32_t sub, uint32_t n, double pnz);    // 0 with probability 1-pnz, else uniform in [1,n)
uint32_t fault_rated(FaultKind k, uint32_t n, double rate);
bool fault(FaultKind k);                                               // fires with the swarm rate of k
uint32_t fault_n(FaultKind k, uint32_t n);                             // 0 or 1..n-1
void note_fault(FaultKind k);                                          // fault decided elsewhere (world), count it
inline void probe(Probe p, uint64_t n = 1) { sh->probes[p] += n; }
extern double fault_rate[FK_COUNT];
extern int faults_armed;          // rates apply only while armed
extern bool gen_mode;             // false while replaying

void viol(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void fatal(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));  // viol + end run
[[noreturn]] void end_run();
bool has_viol();

extern bool tracing;
void trace_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define TRACE(...) do { if (sim::tracing) sim::trace_(__VA_ARGS__); } while (0)
void mix(uint64_t x);

// ---------------------------------------------------------------- fibers
struct Fiber;
struct WaitQ { std::vector<Fiber *> q; };
extern Fiber *cur;
extern ns now_;
inline ns now() { return now_; }
struct Policy { int kind; double p; int depth; double stall_p; double mem_gap, dsp_gap; ns step_ns; uint64_t max_steps; std::string starve; };
extern Policy policy;

Fiber *spawn(const std::string &name, bool server, std::function<void()> fn);
bool fiber_done(Fiber *f);
void join(Fiber *f);
void slow_point(double rate);
void yield_point(int op = 0);                       // scheduling point
bool wait(WaitQ &q, ns deadline = -1, const char *why = "");  // false = deadline passed
void wake_all(WaitQ &q);
void wake_one(WaitQ &q);
void sleep_ns(ns d);
void at(ns t, std::function<void()> fn);            // event
int fiber_id();
bool in_server();                                   // current fiber belongs to the modem process
const char *fiber_name();
std::string dump_fibers();
int live_server_threads();                          // excluding main
void kernel_init(uint64_t seed);
void check_pending_sig();

// ---------------------------------------------------------------- process under test
struct Proc {
  bool started = false, exited = false; int exit_code = 0; int killed_by = 0;
  Fiber *main = nullptr; WaitQ exitq; ns exit_time = 0; int threads_at_exit = 0; std::string exit_dump; int files_at_exit = 0, fds_at_exit = 0; std::string fd_exit_dump, file_exit_dump;
  void (*handler[65])(int); bool pend[65]; bool any_pend = false;
};
extern Proc proc;
void proc_signal(int sig);
void proc_die(int killed_by, int code);
[[noreturn]] void proc_exit_from_fiber(int code);
long thread_create(void *(*fn)(void *), void *arg); int thread_join(long id, void **ret); int thread_detach(long id); long thread_self();
int threads_unjoined(); std::string threads_dump();
void proc_start(std::function<int()> mainfn);

// memory
struct AllocInfo { size_t size; void *site[4]; uint64_t seq; };
struct MemStat { uint64_t live_blocks = 0, live_bytes = 0, total = 0; };
extern int alloc_mode; extern uint64_t alloc_salt;                              // which allocations fail: each with the same rate, one kind of place, first visits of a place
extern MemStat mem;
extern bool mem_track;
std::map<uint64_t, std::pair<void *, AllocInfo>> mem_live();  // by seq
extern size_t mem_limit_total, mem_limit_one;
std::string site_str(const AllocInfo &a);

// ---------------------------------------------------------------- network
struct Seg { ns at; int kind; std::vector<uint8_t> d; };  // kind 0 data 1 fin 2 rst
struct Pipe {
  int id; std::deque<uint8_t> rx; std::deque<Seg> flight; size_t inflight = 0, cap = 65536; ns last_at = 0;
  bool fin = false, rst = false, wr_closed = false, rd_closed = false, rst_sent = false;
  uint64_t total_in = 0, total_out = 0; WaitQ rdq, wrq;
  double seg_p = 0, lat_p = 0; int lat_max = 0;   // network personality
  std::vector<std::pair<ns, uint64_t>> reads;     // (time, cumulative bytes read) by the receiver
};
struct Conn { int id; Pipe p[2]; bool open[2] = {true, true}; ns t_open, t_close[2] = {-1, -1}, t_killed = -1; };  // p[i] carries data towards end i
struct End { std::shared_ptr<Conn> c; int side = 0; bool valid() const { return (bool)c; } Pipe &in() const { return c->p[side]; } Pipe &out() const { return c->p[1 - side]; } };
struct Listener { int port; int backlog; std::deque<End> pending; WaitQ acceptq, spaceq; bool open = true; bool server; };
std::shared_ptr<Conn> new_conn();
extern std::function<void(Conn &)> conn_personality;
End a_connect(int port, ns timeout);                  // actor side connect; invalid on refusal
std::shared_ptr<Listener> a_listen(int port);
void a_unlisten(std::shared_ptr<Listener> l);
End a_accept(std::shared_ptr<Listener> l, ns timeout);
// <0: -1 reset/epipe; -2 timeout. returns bytes
long a_read(End &e, void *buf, size_t n, ns timeout);
long a_write(End &e, const void *buf, size_t n, ns timeout);
void a_shutdown_wr(End &e);
void a_close(End &e);
void a_reset(End &e);
bool a_port_open(int port);
int fd_count(); std::string fd_dump();
extern bool allow_real_net;
void kill_conn(Conn &c);                              // network fault: both ends see a reset
std::shared_ptr<Conn> conn_by_id(int id);

// ---------------------------------------------------------------- files
struct FileData { std::vector<uint8_t> d; uint64_t opens_w = 0; };
extern std::map<std::string, std::shared_ptr<FileData>> fs;
extern int64_t disk_free;
int file_handles(); std::string file_dump();
struct FileEv { ns t; uint64_t step; std::string path; size_t bytes; };
extern std::function<void(const std::string &path, const void *data, size_t n)> on_fwrite;  // called on each successful fwrite call of the server
extern std::function<void(const std::string &path)> on_fwrite_fail, on_fclose, on_fclose_fail;
extern std::function<void(const std::string &path, const char *mode)> on_fopen;
extern ns stall_total; extern uint64_t sig_step; extern std::function<void()> on_sig_step;      // injected stalls so far; stop signal when this step is reached

// ---------------------------------------------------------------- iio
struct IioCfg { int rx_batch_us = 1000; unsigned timeout_ms = 1000; };
struct IioState {
  int ctx_open = 0, ctx_total = 0, buffers = 0; bool tx_powerdown = false; bool tx_active = false, rx_active = false;
  std::function<void(const std::string &, const std::string &)> on_attr; std::function<void(bool ok, size_t n)> on_push; std::function<void()> on_refill_fail;
  std::function<void(const std::string &)> on_fir; std::function<void(bool tx, size_t n)> on_open; std::function<void(bool tx)> on_close;
  std::function<size_t(int16_t *dst, size_t n)> rx_source;   // fills n complex samples; returns how many
  std::vector<int16_t> tx_samples;                            // everything pushed
  std::map<std::string, std::string> attrs;                   // last written value by "device/channel/attr"
  std::vector<std::pair<std::string, std::string>> log;
  unsigned timeout = 0; int rx_sessions = 0, tx_sessions = 0; ns rx_block = 0; ns tx_block = 0;
};
extern IioState iio;
void iio_check_end();
int iio_libs_open();
bool iio_enabled(const std::string &dev, const std::string &channel);
extern size_t stdio_block;
extern std::string config_text;   // what config_read_file("/sim/modem.conf") sees
extern bool config_missing;        // the file cannot be read
extern std::set<std::string> sim_dirs; extern std::string env_tmpdir, env_align;
extern std::function<void(uint32_t addr, int port)> on_listen, on_connect;
void policy_start();
extern std::map<uint64_t, uint32_t> *replay_map[NSTREAM];

// wall clock
extern double slow_libc;
extern int64_t wall_base, wall_skew;  // seconds
}  // namespace sim
