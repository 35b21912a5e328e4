#include "world.h"
#include <cmath>
#include <tuple>
#include <atomic>
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdio>
extern "C" int modem_main(int argc, char **argv);
namespace world {
static int SDR_PORT = 8090, PORT = 8091;
static std::string bind_addr = "127.0.0.1", sdr_addr = "127.0.0.1", rec_dir = "/sim/out", bad_config;   // bad_config: why this configuration has to be refused
static int listened = 0;
static Profile P;
static inline bool F_(uint32_t f) { return (P.feat & f) != 0; }
struct Cfg { int T = 2, B = 1024; int Q = 64; int rx = 0, tx = 0; ns H = 300 * MS; int N = 3000; double pace = 1; } C;
struct Tun { double tx_gain = 0, rx_gain = 0; unsigned timeout = 10000; } tun;   // as configured, or the documented defaults

struct G { uint32_t sub; uint32_t operator()(uint32_t n) const { return choose(W, sub, n); } bool p(double pr) const { return choose_p(W, sub, 2, pr) != 0; }
  template <class T> T pick(std::initializer_list<T> l) const { return *(l.begin() + choose(W, sub, (uint32_t)l.size())); } };

struct Preset { uint64_t fs = 48000, center = 437000000; uint32_t baud = 4800, decim = 2, tw = 2000; int64_t dev = 5000; bool dc = true; };
static std::vector<Preset> presets;
static const char *TLE[3] = {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"};

// ------------------------------------------------------------------------------------------------ history
struct UpPlan { int resp = 0; ns delay = 0; int end = 0; int cut = 0; bool long_pauses = false; int pause_mid = 0; ns shut_delay = 0; bool noisy_close = false; };
struct UpConn {
  int idx; End e; uint32_t center = 0, rate = 0, band = 0; int dest = 0; bool got_req = false, accepted = false; UpPlan plan;
  ns t_conn = 0, t_ok = -1, t_end = -1, t_shut = -1, t_closed = -1; std::vector<cf> S; size_t sent = 0, total = 0; bool sending_done = false, shut = false, ended = false, bad_req = false;
  std::vector<std::pair<ns, size_t>> sentlog; ns max_block = 0; bool writer_done = false; size_t acked_resp = 0;
  size_t received_at(ns t) const {  // complete bytes of stream read by the modem by time t
    uint64_t b = 0; for (auto &r : e.out().reads) { if (r.first > t) break; b = r.second; }
    return b > acked_resp ? b - acked_resp : 0;
  }
  bool paused() const { if (plan.long_pauses) return true; ns l = -1; for (auto &r : e.out().reads) { if (l >= 0 && r.first - l > C.T * SEC - SEC / 10) return true; l = r.first; } return false; }   // the modem flushes an incomplete buffer then
  ns time_received(size_t bytes) const { for (auto &r : e.out().reads) if (r.second >= bytes + acked_resp) return r.first; return -1; }
};
enum Kind { PING = 0, RX = 1, TX = 2, BAD = 3 };
enum Leave { L_SHUTDOWN = 0, L_HALF = 1, L_CLOSE = 2, L_RESET = 3, L_STAY = 4 };
enum BadKind { B_UNKNOWN = 0, B_VERSION, B_GARBAGE, B_PARAM, B_OVERSIZE, B_SHUTDOWN_FIRST, B_HALF_HDR, B_HALF_BODY, B_CLOSE_HDR, B_CLOSE_BODY, B_RST, B_EMPTY, B_STALL_HDR, B_STALL_BODY, B_REQ_CLOSE, B_REQ_RST, B_UNCREATABLE, B_TXDATA_FIRST, B_PINGBODY, B_COUNT };
struct TxMsg { int kind = 0; Bytes payload; Bytes wire; ns delay = 0; ns t_sent = -1, t_resp = -1; int status = -1; uint32_t details = 0; size_t dev_pos = 0; bool sent_full = false, cut = false; };
struct Cli {
  int idx = 0; Kind kind = PING; int bad = -1; ns t_start = 0; G g{0}; double frag = 0; bool is_probe = false; bool framing_lost = false;   // a stalled server gave up a message that had arrived
  proto::Rx rx; proto::Tx tx; RxCfg rc; TxCfg tc; bool tx_req_bad = false; bool expect_fail = false; int expect_det = -1; bool is_tx_req = false, is_rx_req = false, wild = false; Bytes tail;
  Leave leave = L_SHUTDOWN; bool early = false; ns leave_after = 0; std::vector<std::pair<ns, ns>> slow; int chunk = 4096; bool midmsg = false; bool never_reads = false; bool no_tx = false; size_t pad = 0;   // no_tx: asks a server without a transmitter; pad: size of the request with a field of a later protocol version
  std::vector<TxMsg> msgs; int window = 1; bool cut_last = false; bool cwindow = false;
  // history
  End e; int conn = -1; bool connected = false, refused_connect = false; ns t_req0 = -1, t_req = -1, t_resp = -1, t_done = -1, t_left = -1, t_eof = -1; bool req_full = false;
  bool got_resp = false; int status = -1; uint32_t details = 0; bool malformed = false; std::deque<uint8_t> inb; Bytes D; bool eof = false, rst = false; bool settled = false, done = false, left = false; bool in_slow = false, slow_done = true;
  int responses = 0; uint32_t id() const { return details; } bool ok() const { return got_resp && status == 0 && (kind == RX || kind == TX || is_rx_req || is_tx_req); }
  // device (transmit)
  ns dev_open = -1, dev_close = -1; bool dev_failed = false; std::vector<size_t> fail_pos; std::vector<cf> dev; size_t pl_from = 0; int pl_session = -1;
  bool checked_final = false; bool probe_ok = false; int64_t wall_lo = 0, wall_hi = 0;
};
static std::vector<std::unique_ptr<Cli>> clis;
static std::vector<std::unique_ptr<UpConn>> ups;
static std::map<std::string, std::vector<uint8_t>> wr;                       // what the modem successfully handed to fwrite, by path
static std::map<std::string, std::vector<std::pair<ns, size_t>>> wrlog;
static std::set<std::string> wr_failed;
static std::map<std::string, ns> wr_fail_t;                                   // a write to it failed or was incomplete
static std::map<std::string, std::pair<ns, ns>> opened;                      // path -> open, close time
static std::unordered_map<uint64_t, std::pair<int, uint32_t>> vindex;        // sample bits -> (upstream connection, position)
static bool phase_leave, stop_sent, disturbed;                               // disturbed: a fault that may end sessions is armed
static ns t_stop = -1; static std::vector<std::pair<ns, ns>> down;           // upstream listener down
static std::shared_ptr<Listener> up_l;
struct PlutoRx { ns t_open, t_close = -1; std::vector<cf> S; std::vector<int16_t> raw; size_t served = 0; size_t n; double fs = 0; int owner = -1; bool failed = false; };
struct PlutoTx { ns t_open, t_close = -1; size_t from = 0, to = 0; std::vector<size_t> fails; size_t n; };
static std::vector<std::unique_ptr<PlutoRx>> prx; static std::vector<std::unique_ptr<PlutoTx>> ptx;
static std::map<std::string, std::vector<cf>> infile;
static uint64_t base_blocks; static int base_fds, base_threads; static uint64_t sigseed;

static std::string outp(const char *fmt, unsigned id) { char b[100]; snprintf(b, sizeof b, fmt, id); return rec_dir + "/" + b; }
static std::string dump_path(unsigned id) { return outp("rx.sdr2demod.%u.cf32", id); }
static std::string demod_path(unsigned id) { return outp("rx.demod2client.%u.s8", id); }
static std::string txdump_path(unsigned id) { return outp("tx.mod2sdr.%u.cf32", id); }
static size_t ncf(const std::string &p) { auto it = wr.find(p); return it == wr.end() ? 0 : it->second.size() / 8; }
static uint64_t bits(const cf &x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static uint64_t hash64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static std::vector<std::pair<ns, int64_t>> skews;                             // wall clock jumps
static ns slack() { return SEC + stall_total; }

// ------------------------------------------------------------------------------------------------ generation
// Satellites: as in the tests, and made up elements of the same epoch for the other branches of the propagation models
struct Sat { std::string l[3]; };
static std::vector<Sat> sats; static uint32_t dop_sat; static uint64_t dop_center; static double dop_lat, dop_lon; static uint32_t dop_alt; static int64_t dop_step;
static std::string tle_sum(std::string s) { int n = 0; for (char c : s) n += c >= '0' && c <= '9' ? c - '0' : c == '-' ? 1 : 0; return s + (char)('0' + n % 10); }
static void make_sats(int year) {
  sats.clear(); std::string yy = std::to_string(year); sats.push_back({{TLE[0], TLE[1], TLE[2]}});
  if (year != 20) { std::string l = std::string(TLE[1]).substr(0, strlen(TLE[1]) - 1); l.replace(18, 2, yy); sats[0].l[1] = tle_sum(l); }
  struct E { const char *name; double inc, raan, ecc, argp, ma, n; const char *bstar; } es[] = {
    {"ISS-LIKE ORBIT", 51.6433, 123.4567, 0.0005123, 87.6, 272.5, 15.4912345, "12345-4"}, {"LOW", 97.9, 200.1, 0.0012, 12.5, 40.5, 16.2200001, "40000-3"}, {"MEDIUM", 55.1, 10.2, 0.0089, 33.3, 120.7, 2.0056, "00000-0"},
    {"MOLNIYA", 63.4, 310.0, 0.7212, 270.0, 15.0, 2.0064, "00000-0"}, {"SYNCHRONOUS", 1.2, 80.0, 0.0003, 200.0, 100.0, 1.0027, "00000-0"}, {"ECCENTRIC", 28.5, 45.0, 0.3, 60.0, 350.0, 5.5, "10000-3"}, {"RETROGRADE WITH A LONG NAME", 144.6, 359.9, 0.0021, 359.0, 0.5, 13.8, "98765-4"}};
  for (auto &e : es) {
    char a[100], b[100]; snprintf(a, sizeof a, "1 44406U 19038W   %s069.88080907  .00000505  00000-0 %6s 0  999", yy.c_str(), (std::string(" ") + e.bstar).c_str()); snprintf(b, sizeof b, "2 44406 %8.4f %8.4f %07d %8.4f %8.4f %11.8f 3752", e.inc, e.raan, (int)(e.ecc * 1e7), e.argp, e.ma, e.n);
    sats.push_back({{e.name, tle_sum(a), tle_sum(b)}});
  }
}
static DopplerCfg dop_cfg(uint32_t sat, uint64_t center, int64_t start) {
  DopplerCfg dc; dc.on = true; dc.lat = dop_lat; dc.lon = dop_lon; dc.alt = dop_alt / 1e4; for (int i = 0; i < 3; i++) dc.tle[i] = sats[sat].l[i]; dc.start = start; dc.center = center; return dc;
}
static int64_t dop_epoch;   // all Doppler corrected sessions of a run look at about the same part of a pass
static double dop_range() { double m = 0; DopplerRef r(dop_cfg(dop_sat, dop_center, dop_epoch)); for (int t = -60; t <= 60; t += 10) m = std::max(m, fabs(r.shift(t, 1))); return m; }
static uint64_t dop_fs(G &g) { double m = dop_range(); uint64_t f = g.pick<uint64_t>({24000, 48000, 9600, 24097}); while (m > f * 0.88) f *= f < 24000 ? 2.5 : 2; return f; }   // the shift has to be below the sampling rate
static Preset gen_preset(int k, bool pluto) {
  G g{20u + k}; Preset p;
  if (pluto) p.fs = g.pick<uint64_t>({600000, 1200000, 2400000, 1041666, 1041667, 2083333, 2083334, 521000}); else p.fs = F_(F_DOPPLER) ? dop_fs(g) :   /* the shift has to be below the sampling rate */
    g.pick<uint64_t>({48000, 9600, 24000, 16000, 96000, 50023, 22050});
  uint32_t ratio = g.pick<uint32_t>({10, 5, 8, 4, 16, 20});
  p.baud = (uint32_t)(p.fs / ratio);
  std::vector<uint32_t> ds; for (uint32_t d : {2u, 1u, 4u, 5u, 8u}) if (ratio / d >= 2) ds.push_back(d);
  p.decim = ds[g(ds.size())];
  std::vector<double> ms; for (double m : {1.0, 0.5, -0.5, -1.0, 2.0, 4.0}) { double k2 = fabs(m) * p.baud + p.baud / 2.0; if (k2 >= p.fs / 10.0 && k2 <= p.fs * 0.47) ms.push_back(m); }
  if (ms.empty()) ms.push_back(1.0);
  p.dev = (int64_t)(ms[g(ms.size())] * p.baud);
  p.tw = (uint32_t)(p.fs / g.pick<uint32_t>({24, 10, 48}));
  p.dc = !g.p(F_(F_DOPPLER) ? 0.7 : 0.4);   // without it a wrong frequency stays visible in the symbols
  p.center = (F_(F_DOPPLER) ? dop_center : 437000000ull) + (uint64_t)k * 1000000ull;
  return p;
}
static double dop_ferr(uint64_t center) {                                      // where the transmitter is heard, so that the correction brings it to the middle
  if (!F_(F_DOPPLER)) return 0;
  return -DopplerRef(dop_cfg(dop_sat, center, dop_epoch)).shift(0, 1);
}
static proto::Dop gen_dop(G &g, int64_t &start, DopplerCfg &dc, uint64_t center, uint64_t fs, bool allow_now) {
  auto range = [&](uint32_t o) { double m = 0; DopplerRef r(dop_cfg(o, center, dop_epoch)); for (int t = -60; t <= 60; t += 20) m = std::max(m, fabs(r.shift(t, 1))); return m; };
  uint32_t s = dop_sat; if (center != presets[0].center || g.p(0.2)) { uint32_t o = g((uint32_t)sats.size()); if (range(o) < fs * 0.8) s = o; }   // another satellite at the same time
  for (uint32_t k = 0; range(s) > fs * 0.88; k++) { if (k == sats.size()) return proto::Dop(); s = (s + 1) % (uint32_t)sats.size(); }            // this client's sampling rate may be lower
  proto::Dop d; d.on = true; d.tle = {sats[s].l[0], sats[s].l[1], sats[s].l[2]}; d.lat = (int64_t)llround(dop_lat * 1e7); d.lon = (int64_t)llround(dop_lon * 1e7); d.alt = dop_alt;
  start = dop_epoch + (int64_t)g.pick<int>({0, 3, -2, 7, 1});
  if (allow_now && g.p(F_(F_TOGETHER) ? 0.8 : 0.3)) start = 0;
  dc = dop_cfg(s, center, start);
  return d;
}
static void gen_rx_request(Cli &c) {
  G &g = c.g;
  const Preset &p = presets[F_(F_SHARE) && !g.p(0.35) ? 0 : g((uint32_t)presets.size())];
  c.rx.center = p.center; c.rx.fs = p.fs; c.rx.baud = p.baud; c.rx.decim = p.decim; c.rx.dev = p.dev; c.rx.tw = p.tw; c.rx.dc = p.dc;
  if (F_(F_SHARE) && g.p(0.5)) { const Preset &q = presets[1 % presets.size()]; uint32_t r = (uint32_t)(p.fs / q.baud ? q.fs / q.baud : 5); if (r >= 4) { c.rx.baud = (uint32_t)(p.fs / r); c.rx.decim = r / 2 >= 2 ? 2 : 1; double k = fabs((double)c.rx.dev) + c.rx.baud / 2.0; if (k > p.fs * 0.47) c.rx.dev = p.baud / 2; } }
  c.rx.offset = F_(F_SHARE) ? (g.p(0.25) ? 12500 : 0) : g.pick<int64_t>({0, 2500, -1200, 0});
  if (F_(F_SHARE) && g.p(0.2)) { int q = C.rx == RX_PLUTO ? 0 : (int)g(3); if (q == 0) c.rx.center += 25000; else if (q == 1) { c.rx.center += 12500; c.rx.offset -= 12500; } else { c.rx.center -= 12500; c.rx.offset += 12500; } }   // also: the same signal by another split
  if (F_(F_SHARE) && C.rx != RX_PLUTO && g.p(0.2)) { uint64_t o = c.rx.fs; c.rx.fs = g.p(0.5) ? o * 2 : o / 2; c.rx.tw = (uint32_t)(c.rx.fs / 24); uint32_t r = (uint32_t)(o / c.rx.baud); c.rx.baud = (uint32_t)(c.rx.fs / r); double k = fabs((double)p.dev) * c.rx.fs / o; c.rx.dev = (int64_t)(p.dev < 0 ? -k : k); }
  { double lim = c.rx.fs * 0.47 - c.rx.baud / 2.0; if (fabs((double)c.rx.dev) > lim) c.rx.dev = (int64_t)(c.rx.dev < 0 ? -lim : lim); }
  c.rx.dest = g.pick<int>({2, 1, 2, 0});
  if (C.rx == RX_FILE) { if (c.rx.offset && F_(F_DOPPLER)) c.rx.offset = 0; c.rx.has_file = true; c.rx.file = outp("x", 0); c.rx.file = "/sim/in/f" + std::to_string(g(3)) + ".cf32"; }
  if (F_(F_DOPPLER) && g.p(0.75)) { int64_t st; c.rx.dop = gen_dop(g, st, c.rc.dop, c.rx.center, c.rx.fs, true); if (c.rx.dop.on) { c.rx.has_file = true; c.rx.start = (uint64_t)st; } }
  c.rx.dump = g.p(0.6);
  if (g.p(0.1) && P.special == 0) c.pad = g.pick<size_t>({600, 4097, 32768});
}
static void fix_rx(Cli &c) { c.rc.fs = c.rx.fs; c.rc.center = c.rx.center; c.rc.baud = c.rx.baud; c.rc.dev = c.rx.dev; c.rc.decim = c.rx.decim; c.rc.tw = c.rx.tw; c.rc.dc = c.rx.dc; c.rc.offset = c.rx.offset; if (c.rc.dop.on) c.rc.dop.center = c.rx.center; }
static bool same_key(const proto::Rx &a, const proto::Rx &b) { return a.center == b.center && a.fs == b.fs && a.offset == b.offset; }

static void gen_tx_request(Cli &c) {
  G &g = c.g; const Preset &p = presets[0];
  c.tx.center = p.center + (C.tx == TX_PLUTO ? 2000000 : 0); c.tx.fs = p.fs; uint32_t r = g.pick<uint32_t>({5, 4, 8, 10});
  c.tx.baud = (uint32_t)(c.tx.fs / r); c.tx.dev = (int64_t)c.tx.baud / 2 * (g.p(0.3) ? -1 : 1); c.tx.offset = g.pick<int64_t>({0, 3000, -2500, 0});
  c.tx.dump = g.p(0.5); c.tc.dop.on = false;
  if (g.p(0.1) && P.special == 0) c.pad = g.pick<size_t>({600, 4097, 32768});
  if (C.tx == TX_FILE || (C.tx == TX_NONE && g.p(0.5))) { c.tx.has_file = true; c.tx.file = "/sim/out/air" + std::to_string(c.idx) + ".cf32"; }
  if (F_(F_DOPPLER) && g.p(0.75)) { int64_t st; c.tx.dop = gen_dop(g, st, c.tc.dop, c.tx.center, c.tx.fs, true); if (c.tx.dop.on) { c.tx.has_file = true; c.tx.start = (uint64_t)st; } }
  c.tc.fs = c.tx.fs; c.tc.center = c.tx.center; c.tc.baud = c.tx.baud; c.tc.dev = c.tx.dev; c.tc.offset = c.tx.offset; if (c.tc.dop.on) c.tc.dop.center = c.tx.center;
}
static Bytes rnd_bytes(uint64_t seed, size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(hash64(seed * 1000003 + i) >> 17); return b; }
static void gen_tx_msgs(Cli &c) {
  G &g = c.g; int n = 1 + (int)g(F_(F_CONTEND) ? 3 : 6); size_t budget = C.tx == TX_PLUTO ? 400 : 300;
  bool full = g.p(0.03) && C.tx == TX_FILE && C.B >= 64 && !F_(F_DOPPLER) && P.special == 0; int full_at = full ? (int)g((uint32_t)n) : 0;
  int runaway = P.special == 0 && g.p(0.12) ? g.p(0.5) ? 1 : -1 : 0; if (runaway) budget *= 2;
  for (int i = 0; i < n; i++) {
    TxMsg m; size_t len = g.pick<size_t>({7, 1, (size_t)C.B, 40, (size_t)C.B + 1, 0, (size_t)C.B * 2, 90}); if (len > budget) len = budget; budget -= len;
    if (F_(F_DOPPLER)) len = std::min<size_t>(len * 3 + 20, 400);
    if (F_(F_TXBAD) && g.p(0.3)) m.kind = 1 + (int)g(5);
    if (full && i == full_at && m.kind == 0) len = 32764 - g.pick<size_t>({0, 0, 1, 500});   // as long as a message may be
    m.payload = rnd_bytes(sigseed + 77 * c.idx + i, len);
    if (runaway) std::fill(m.payload.begin(), m.payload.end(), runaway > 0 ? 0xff : 0x00);   // the carrier's phase turns one way all the time
    switch (m.kind) {
      case 0: m.wire = proto::frame(0, proto::TX_DATA, proto::enc_data(m.payload)); break;
      case 1: m.wire = proto::frame(0, proto::TX_DATA, rnd_bytes(sigseed + i, 1 + g(30))); m.wire[6] = 0x0f; break;              // not a message: bad wire type
      case 2: { Bytes body(g.pick<size_t>({33000, 32769, 70000}), 0x55); m.wire = proto::frame(0, proto::TX_DATA, body); break; }                                     // too long
      case 3: m.wire = proto::frame(0, (uint8_t)(6 + g(200)), rnd_bytes(sigseed + i, g(40))); break;                                  // unknown type: no answer
      case 4: m.wire = proto::frame((uint8_t)(1 + g(250)), proto::TX_DATA, {}); break;                                                // other version: no answer
      case 5: m.wire = proto::frame(0, g.p(0.5) ? proto::PING : proto::RX_REQUEST, rnd_bytes(sigseed + i, g(20))); break;             // no answer
    }
    if (m.kind) m.payload.clear();
    m.delay = g.pick<ns>({0, 0, 3 * MS, 40 * MS});
    if (F_(F_DOPPLER) && g.p(0.3)) m.delay = g.pick<ns>({1 * SEC, 7 * SEC});
    c.msgs.push_back(m);
  }
  c.window = g.pick<int>({1, 2, 8});
}
static void gen_leave(Cli &c) {
  G &g = c.g;
  c.leave = (Leave)g.pick<int>({0, 2, 1, 3, 0});
  c.early = F_(F_LEAVE_EARLY) && g.p(0.5); c.leave_after = (ns)g(1000) * C.H / 700;
}
static void gen_wild(Cli &c);
static void gen_bad(Cli &c) {
  G &g = c.g;
  static const int order[] = {B_UNKNOWN, B_VERSION, B_GARBAGE, B_PARAM, B_OVERSIZE, B_SHUTDOWN_FIRST, B_HALF_HDR, B_HALF_BODY, B_CLOSE_HDR, B_CLOSE_BODY, B_RST, B_EMPTY, B_STALL_HDR, B_STALL_BODY, B_REQ_CLOSE, B_REQ_RST, B_UNCREATABLE, B_TXDATA_FIRST, B_PINGBODY, B_PARAM, B_UNCREATABLE, B_REQ_CLOSE, B_REQ_RST};
  c.bad = order[g(sizeof order / sizeof order[0])];
  { G w{400u + (uint32_t)c.idx}; if (w.p(0.2)) c.bad = B_REQ_CLOSE; }
  gen_rx_request(c); gen_tx_request(c); fix_rx(c);
  bool tx = C.tx != TX_NONE && g.p(0.4);
  if (c.no_tx) { tx = true; c.bad = B_PARAM; }
  c.is_tx_req = tx; c.is_rx_req = !tx; c.expect_fail = true; c.expect_det = 1;
  if (c.bad == B_REQ_CLOSE) gen_wild(c);
  if (c.bad == B_PARAM) {
    if (c.no_tx) {} else if (tx) switch (g(7)) {
      case 0: c.tx.center = 0; break; case 1: c.tx.fs = 0; break; case 2: c.tx.baud = 0; break; case 3: c.tx.mod = 0; break;
      case 4: c.tx.mod = 7; break; case 5: c.tx.dop.on = true; c.tx.dop.tle = {TLE[0]}; break;
      case 6: if (C.tx == TX_FILE) c.tx.has_file = false; else c.tx.baud = 0; break;
    } else switch (g(11)) {
      case 0: c.rx.center = 0; break; case 1: c.rx.fs = 0; break; case 2: c.rx.baud = 0; break; case 3: c.rx.decim = 0; break; case 4: c.rx.dest = 9; break; case 5: c.rx.has_fsk = false; break;
      case 6: c.rx.tw = 0; break; case 7: c.rx.demod = 0; break; case 8: c.rx.dop.on = true; c.rx.dop.tle = {TLE[0], TLE[1]}; break;
      case 9: if (C.rx == RX_FILE) c.rx.has_file = false; else c.rx.tw = 0; break; case 10: c.rx.demod = 5; break;
    }
  } else if (c.bad == B_UNCREATABLE) {
    c.expect_det = -2;  // invalid or internal
    if (tx) switch (g(4)) {
      case 0: c.tx.baud = (uint32_t)c.tx.fs * 2; break; case 1: if (C.tx == TX_FILE) c.tx.file = "/nowhere/x"; else c.tx.has_fsk = false; break; case 2: c.tx.has_fsk = false; break;
      case 3: c.tx.dop.on = true; c.tx.dop.tle = {"A", "1 bad", "2 bad"}; break;
    } else switch (g(6)) {
      case 0: c.rx.dev = (int64_t)c.rx.fs; break; case 1: c.rx.tw = 1; c.rx.baud = 1; c.rx.dev = c.rx.fs; break; case 2: c.rx.dop.on = true; c.rx.dop.tle = {"A", "1 bad", "2 bad"}; break;
      case 3: c.rx.baud = (uint32_t)c.rx.fs * 3; break; case 4: c.rx.dop.on = true; c.rx.dop.tle = {std::string(200, 'x'), std::string(300, '1'), std::string(90, '2')}; break;
      case 5: if (C.rx == RX_FILE) c.rx.file = "/sim/in/missing"; else c.rx.dev = -(int64_t)c.rx.fs; break;
    }
  }
}

// A request with extreme values: nothing is said about its own session, everybody else has to be served as ever
static std::string wild_tle(G &g, const std::string &l) {
  std::string r = l; if (r.size() < 69) return r;
  static const int f2[][2] = {{8, 15}, {17, 24}, {26, 32}, {34, 41}, {43, 50}, {52, 62}}, f1[][2] = {{18, 31}, {33, 42}, {44, 51}, {53, 60}};
  for (uint32_t k = 1 + g(3); k--;) {
    const int *f = l[0] == '2' ? f2[g(6)] : f1[g(4)];
    if (g.p(0.15)) { static const char *e[] = {"E-99999", "E+99999", "0000000", "9999999", "-------", "nan    "}; const char *x = e[g(6)]; int at = f[1] - (int)g(7); if (at < f[0] + 3) at = f[0] + 3; for (int i = 0; x[i] && at + i <= f[1]; i++) r[at + i] = x[i]; continue; }
    int at = f[0] + (int)g(f[1] - f[0] + 1); if (r[at] != '.') r[at] = "0123456789-+E "[g(14)];
  }
  if (g.p(0.9)) { int sum = 0; for (int i = 0; i < 68; i++) sum += r[i] >= '0' && r[i] <= '9' ? r[i] - '0' : r[i] == '-'; r[68] = (char)('0' + sum % 10); }
  return r;
}
static void gen_wild(Cli &c) {
  G g{300u + (uint32_t)c.idx};
  if (!g.p(0.6)) return;
  c.wild = true;
  auto dop = [&](proto::Dop &d, uint64_t &start, bool &has_file) {
    d.on = true; static const std::string deep[2] = {"1 24876U 97035A   20069.50000000 -.00000042  00000-0  00000+0 0  9990", "2 24876  55.5000 150.0000 0050000  60.0000 300.0000  2.00562000165000"}; bool dp = g.p(0.3); std::string l1 = dp ? deep[0] : TLE[1], l2 = dp ? deep[1] : TLE[2];
    d.tle = {g.p(0.9) ? TLE[0] : std::string(g(100), (char)120), wild_tle(g, l1), wild_tle(g, l2)};
    d.lat = g.pick<int64_t>({537200000, 0, 0xffffffffll, 0x80000000ll, 900000000}); d.lon = g.pick<int64_t>({475700000, 0, 0xffffffffll, 0x7fffffffll, 1800000000}); d.alt = g.pick<uint32_t>({0, 0xffffffffu, 100000});
    if (g.p(0.7)) { has_file = true; start = g.pick<uint64_t>({1583840449, 1, 946684800, 4102444800ull, 253402300800ull, 1ull << 40, 1ull << 62, ~0ull}); }
  };
  for (uint32_t k = 1 + g(3); k--;) {
    if (c.is_tx_req) switch (g(6)) {
      case 0: c.tx.center = g.pick<uint64_t>({1, 0xffffffffull, 1ull << 40, ~0ull}); break;
      case 1: c.tx.fs = g.pick<uint64_t>({1, 255, 0xffffffffull, 1ull << 40, ~0ull}); if (g.p(0.7)) c.tx.baud = (uint32_t)std::max<uint64_t>(1, std::min<uint64_t>(0xffffffffull, c.tx.fs / g.pick<int>({1, 2, 100, 255}))); break;
      case 2: c.tx.baud = g.pick<uint32_t>({1, 0xffffffffu, (uint32_t)c.tx.fs, (uint32_t)(c.tx.fs / 255)}); break;
      case 3: c.tx.offset = g.pick<int64_t>({INT64_MIN, INT64_MAX, 1, -(int64_t)c.tx.fs}); break;
      case 4: c.tx.dev = g.pick<int64_t>({INT64_MIN, INT64_MAX, 0, 1, -1}); break;
      case 5: dop(c.tx.dop, c.tx.start, c.tx.has_file); break;
    } else switch (g(9)) {
      case 0: c.rx.center = g.pick<uint64_t>({1, 0xffffffffull, 1ull << 40, ~0ull}); break;
      case 1: c.rx.fs = g.pick<uint64_t>({1, 5, 100, 0xffffffffull, 1ull << 40, ~0ull}); c.rx.tw = c.rx.fs >= 0xffffffffull ? 0xffffffffu : (uint32_t)g.pick<int>({1, 3, 100}); if (g.p(0.7)) c.rx.baud = (uint32_t)std::max<uint64_t>(1, std::min<uint64_t>(0xffffffffull, c.rx.fs / std::max(1u, c.rx.decim) / g.pick<int>({1, 2, 10}))); break;
      case 2: c.rx.baud = g.pick<uint32_t>({1, 0xffffffffu, (uint32_t)c.rx.fs, (uint32_t)(c.rx.fs / std::max(1u, c.rx.decim))}); if (c.rx.baud < 100) c.rx.dc = false; break;
      case 3: c.rx.decim = g.pick<uint32_t>({255, 256, 0xffffffffu, 1, 257}); break;
      case 4: c.rx.offset = g.pick<int64_t>({INT64_MIN + 54321, INT64_MAX, 1, -(int64_t)c.rx.fs}); break;
      case 5: c.rx.dev = g.pick<int64_t>({INT64_MIN, INT64_MAX, 0, 1, -1}); break;
      case 6: c.rx.tw = g.pick<uint32_t>({0xffffffffu, (uint32_t)c.rx.fs, (uint32_t)c.rx.fs / 2 + 1}); break;
      case 7: c.rx.dest = g.pick<int>({-1, 3, INT32_MAX, 0, 2}); break;
      case 8: dop(c.rx.dop, c.rx.start, c.rx.has_file); break;
    }
  }
  if (c.rx.baud < 100) c.rx.dc = false;
  if (!c.is_tx_req) for (uint32_t k = g(4); k--;) { Bytes f = proto::frame(0, (uint8_t)g.pick<int>({0, 2, 3, 4, 5, 77}), rnd_bytes(sigseed + k, g(40))); c.tail.insert(c.tail.end(), f.begin(), f.end()); }
}
// Configurations that have to be refused
static void break_config(std::vector<std::string> &lines) {
  G q{16}; config_missing = false;
  auto drop = [&](const std::string &name) { for (size_t i = 0; i < lines.size(); i++) if (lines[i].find(name) != std::string::npos) lines.erase(lines.begin() + i--); };
  auto set = [&](const std::string &name, const std::string &v) { std::vector<std::string> keep; drop(name == "port" ? "\nport" : name); if (name == "port") for (size_t i = 0; i < lines.size(); i++) { size_t k = lines[i].find("port"); if (k != std::string::npos && (k == 0 || (lines[i][k - 1] != '_' && lines[i].compare(k, 5, "ports")))) lines.erase(lines.begin() + i--); } lines.push_back(name + "=" + v); bad_config = name + "=" + v; };
  static const char *ints[] = {"buffer_size", "port", "read_timeout_seconds", "queue_size", "rx_sdr_server_port", "tx_plutosdr_timeout_millis"}, *strs[] = {"bind_address", "base_path", "rx_sdr_type", "rx_sdr_server_address", "tx_sdr_type", "rx_file_base_path", "tx_file_base_path"}, *flts[] = {"tx_plutosdr_gain", "rx_plutosdr_gain"};
  switch (q(10)) {
    case 0: config_missing = true; bad_config = "the file cannot be read"; break;
    case 1: lines.push_back(q.pick<const char *>({"=", "port==1", "x={", "\x01\x02", "9lives=3", "a b c", "x=[1,\"a\"]"})); bad_config = "syntax"; break;
    case 2: set("read_timeout_seconds", q.pick<const char *>({"0", "-1", "-2147483648"})); break;
    case 3: set("rx_sdr_type", q.pick<const char *>({"\"sdr_server\"", "\"\"", "\"FILE\"", "\"none\"", "\"pluto\"", "\"sdr-server \""})); break;
    case 4: set("tx_sdr_type", q.pick<const char *>({"\"sdr-server\"", "\"\"", "\"Pluto\"", "\"files\""})); break;
    case 5: set(strs[q(7)], q.pick<const char *>({"5", "1.5", "true", "(1)", "{ a=1; }"})); break;
    case 6: set(ints[q(6)], q.pick<const char *>({"\"7\"", "1.5", "true", "[1]", "{ a=1; }"})); break;
    case 7: set(flts[q(2)], q.pick<const char *>({"\"1.0\"", "true", "[1.0]"})); break;
    case 8: { uint32_t k = q(6); static const char *bad[][3] = {{"0", "-1", "-262144"}, {"-1", "65536", "73627"}, {"0", "-5", "-2147483648"}, {"0", "-1", "65536"}, {"0", "-1", "65536"}, {"-1", "-10000", "-2147483648"}}; set(ints[k], bad[k][q(3)]); break; }
    case 9: if (q.p(0.5)) { set("bind_address", q.pick<const char *>({"\"localhost\"", "\"\"", "\"300.1.1.1\"", "\"127.0.0.1:80\""})); } else { std::string n = ints[q(6)]; set(n, "\"x\""); lines.back() = n + "=1"; lines.push_back(n + "=2"); bad_config = "duplicate " + n; } break;
  }
}
static void gen_world() {
  G g{1};
  std::vector<int> rs, ts;
  for (int i = 0; i < 3; i++) { if (P.rx_mask >> i & 1) rs.push_back(i); if (P.tx_mask >> i & 1) ts.push_back(i); }
  C.rx = rs[g(rs.size())]; C.tx = ts[g(ts.size())];
  C.T = 1 + (int)g(5);
  C.B = g.pick<int>({256, 64, 1024, 100, 16, 333, 2048});
  C.N = g.pick<int>({2000, 1000, 4000, 300, 3001});
  if (F_(F_TINY)) { C.B = g.pick<int>({1, 2, 3, 5, 8, 13}); C.N = g.pick<int>({300, 100, 501}); }
  if (F_(F_DOPPLER)) { C.N = g.pick<int>({6000, 3000, 50000}); C.B = g.pick<int>({256, 1024, 64, 2048}); if (C.N > 10000) C.B = 2048; }
  C.H = (ns)g.pick<int>({100, 20, 400, 1500}) * MS;
  bool cbig = false;
  if (F_(F_CONFIG)) {
    G q{14}; if (q.p(0.5)) C.T = 5;
    if (F_(F_DROPS)) { C.B = q.pick<int>({16, 8}); C.N = 3000; } else if (q.p(0.06)) { C.B = 262144; cbig = true; }
    PORT = q.pick<int>({8091, 8091, 1, 65535, 8090, 30001}); SDR_PORT = q.pick<int>({8090, 8090, 1, 65535, 30001, 5555}); if (SDR_PORT == PORT) SDR_PORT = 4242;
    bind_addr = q.pick<const char *>({"127.0.0.1", "127.0.0.1", "0.0.0.0", "127.0.0.9", "192.168.1.10"}); sdr_addr = q.pick<const char *>({"127.0.0.1", "127.0.0.1", "127.0.0.3", "10.20.30.40"});
    static const char *dirs[] = {"/sim/out", "/sim/rec", "/sim/deep/er", "/sim/tmp", "/tmp"}; uint32_t d = q(5); rec_dir = dirs[d]; for (auto x : dirs) sim_dirs.insert(x);
    TRACE("recordings in %s", rec_dir.c_str()); env_tmpdir = d == 4 ? "" : "/sim/tmp";
  }
  env_align = G{251}.p(0.4) ? "32" : "";
  bool pl = C.rx == RX_PLUTO || C.tx == TX_PLUTO;
  int np = F_(F_SHARE) ? 2 : 1 + (int)g(3);
  if (F_(F_DOPPLER)) {
    G d{7}; int year = G{18}.pick<int>({20, 20, 20, 24, 39, 55}); make_sats(year);   // also after 2038
    dop_epoch = 1583840449 + (int64_t)((year - 20) * 365 + (year - 17) / 4) * 86400 + d.pick<int>({0, -20, -50, 100, 237, 86400 * 3 + 11, -40000}); { G b{250}; slow_libc = b.pick<double>({0, 0.3, 0.6}); if (b.p(0.3)) dop_epoch += 60 - dop_epoch % 60 - b.pick<int>({1, 2, 3, 1, 5, 30}); } wall_base = dop_epoch;   // sometimes just before a minute (hour, day) begins
    struct St { double la, lo; uint32_t al; }; St st = d.pick<St>({{53.72, 47.57, 0}, {53.72, 47.57, 0}, {35.5, 203.21, 3}, {0, 179.9, 0}, {71.25, 156.7875, 12}, {77.85, 359.75, 0}}); dop_lat = st.la; dop_lon = st.lo; dop_alt = st.al * 1000;
    dop_sat = d((uint32_t)sats.size()); dop_center = d.pick<uint64_t>({437525000, 145900000, 437525000, 1267000000});
    TRACE("dop sat %u lat %g lon %g alt %u center %llu epoch %lld", dop_sat, dop_lat, dop_lon, dop_alt, (unsigned long long)dop_center, (long long)dop_epoch);
    for (int i = 0; i < 8; i++) { if (dop_range() < 24000 * 0.9) break; if (i < 4) dop_sat = (dop_sat + 1) % (uint32_t)sats.size(); else dop_center = 145900000; }
  }
  for (int i = 0; i < np; i++) presets.push_back(gen_preset(i, pl));
  int total = C.N / std::max(1, C.B) * 4 + 64;
  C.Q = C.rx == RX_FILE ? g.pick<int>({64, 1, 2, 3, 8}) : F_(F_DROPS) ? g.pick<int>({4, 2, 3, 8, 5}) : std::min(60000, total);
  if (C.rx == RX_PLUTO && !F_(F_DROPS)) C.Q = g.pick<int>({2000, 1000});
  if (F_(F_CONFIG)) { G q{15}; if (cbig || q.p(F_(F_DROPS) ? 0.8 : 0.3)) { if (F_(F_DROPS) || cbig || C.Q <= 64 || C.rx == RX_FILE) C.Q = 64; } }
  if (cbig) { mem_limit_total = (size_t)2 << 30; mem_limit_one = 1u << 30; }
  if (!cbig && (size_t)C.Q * C.B > (1u << 20)) C.Q = std::max(F_(F_DROPS) ? 1 : 256, (1 << 20) / C.B);
  // schedule policy
  G s{2};
  uint32_t k = s(8);
  policy = Policy{};
  policy.step_ns = s.pick<ns>({200, 1000, 50}); policy.max_steps = 3000000; policy.mem_gap = 0; policy.p = 0.1;
  switch (k) { case 0: policy.kind = 2; policy.p = 0; break; case 1: policy.kind = 0; policy.p = 0.02; break; case 2: policy.kind = 0; policy.p = 0.3; break; case 3: policy.kind = 0; policy.p = 0.8; break;
    case 4: policy.kind = 1; policy.depth = 3; break; case 5: policy.kind = 1; policy.depth = 8; break;
    case 6: case 7: policy.kind = 3; policy.p = 0.3; policy.starve = s.pick<const char *>({"T0.", "T1.", "T2.", "T3.", "main"}); break; }
  uint32_t mg = s(4); if (mg == 1) policy.mem_gap = 40; if (mg == 2) policy.mem_gap = 300; if (mg == 3) policy.mem_gap = 2500;
  { G d{19}; uint32_t k = d(8); policy.dsp_gap = k == 1 ? 1000 : k == 2 ? 10000 : k == 3 ? 100000 : k == 4 ? 150 : 0; }
  // swarm of faults
  G fg{3}; memset(fault_rate, 0, sizeof fault_rate); disturbed = false;
  auto on = [&](FaultKind f, double lo, double hi) { bool sel = fg.p(0.6); uint32_t v = fg(4); if (!(P.faults >> f & 1) || !sel) return; fault_rate[f] = lo * pow(hi / lo, v / 3.0); };
  on(FK_RECV_EINTR, 0.002, 0.05); on(FK_RECV_SHORT, 0.02, 0.5); on(FK_SEND_EINTR, 0.002, 0.05); on(FK_SEND_SHORT, 0.02, 0.5); on(FK_SPURIOUS, 0.02, 0.3); on(FK_STALL, 0.00003, 0.0005);
  double before = 0; (void)before;
  on(FK_ALLOC, 0.001, 0.05); { G ag{17}; alloc_mode = ag.pick<int>({0, 1, 1, 2}); alloc_salt = ag(100000); } on(FK_THREAD, 0.02, 0.3); on(FK_ACCEPT_ERR, 0.05, 0.3); on(FK_SOCKOPT, 0.02, 0.2); on(FK_SOCKET, 0.05, 0.3); on(FK_CONNECT, 0.05, 0.3); on(FK_CONN_RESET, 0.0005, 0.005);
  on(FK_FOPEN, 0.02, 0.3); on(FK_FWRITE, 0.005, 0.1); on(FK_FREAD, 0.005, 0.05); on(FK_FCLOSE, 0.02, 0.3); on(FK_IIO_REFILL, 0.005, 0.05); on(FK_IIO_PUSH, 0.01, 0.3); on(FK_IIO_BUF, 0.05, 0.3);
  on(FK_IIO_SHORT, 0.02, 0.5);
  on(FK_IIO_ATTR, 0.005, 0.05); on(FK_IIO_FIND, 0.005, 0.1); on(FK_IIO_CTX, 0.05, 0.3);
  for (int f : {FK_ALLOC, FK_THREAD, FK_SOCKOPT, FK_SOCKET, FK_CONNECT, FK_CONN_RESET, FK_FOPEN, FK_FWRITE, FK_FREAD, FK_FCLOSE, FK_IIO_REFILL, FK_IIO_PUSH, FK_IIO_BUF, FK_IIO_ATTR, FK_IIO_FIND, FK_IIO_CTX}) if (fault_rate[f] > 0) disturbed = true;
  if (F_(F_DISKFULL)) { disk_free = fg.p(0.7) ? (int64_t)(4096 * fg(40)) : -1; if (disk_free >= 0) disturbed = true; }
  sigseed = 1000 + g(1000);
  { G b{9}; stdio_block = b.pick<size_t>({4096, 512, 64}); if (disk_free >= 0 && b.p(0.5)) disk_free = disk_free / 16 / 8 * 8; }
  // input files
  if (C.rx == RX_FILE) for (int i = 0; i < 3; i++) {
    G f{30u + i}; size_t n = i == 0 ? C.N : f.pick<size_t>({(size_t)C.N / 2, std::min<size_t>(C.B, 10000), std::min<size_t>(C.B * 3, 20000), (size_t)C.N + 17, 0, 5});
    RxCfg rc; rc.fs = presets[0].fs; rc.baud = presets[0].baud; rc.dev = presets[0].dev;
    auto sg = make_signal(rc, n, sigseed * 31 + i, 0.8f, (double)rc.fs * 0.003 + dop_ferr(presets[0].center), 0.05f);
    std::string p = "/sim/in/f" + std::to_string(i) + ".cf32"; auto fd = std::make_shared<FileData>(); fd->d.resize(n * 8); if (n) memcpy(fd->d.data(), sg.data(), n * 8);
    int odd = f.p(0.2) ? 3 : 0; for (int q = 0; q < odd; q++) fd->d.push_back(0x11);
    fs[p] = fd; infile[p] = sg;
  }
  // clients
  int nc = P.cmin + (int)g((uint32_t)(P.cmax - P.cmin + 1));
  int wt = P.w_ping + P.w_rx + P.w_tx + P.w_bad;
  for (int i = 0; i < nc; i++) {
    auto c = std::make_unique<Cli>(); c->idx = i; c->g = G{100u + i}; G &q = c->g;
    int r = (int)q((uint32_t)wt);
    // order: the commonest kind of the profile first so that a minimised run is a plain one
    c->kind = r < P.w_rx ? RX : r < P.w_rx + P.w_tx ? TX : r < P.w_rx + P.w_tx + P.w_ping ? PING : BAD;
    if (c->kind == TX && C.tx == TX_NONE) { c->kind = P.w_rx ? RX : PING; if (q.p(0.2)) { c->kind = BAD; c->no_tx = true; } }
    c->t_start = i == 0 && !q.p(0.5) ? 0 : (ns)q(1000) * C.H / 1000;
    if (F_(F_TOGETHER)) c->t_start = c->t_start % (2 * MS);
    c->frag = q.pick<double>({0, 0.5, 0.1, 0.9});
    gen_leave(*c);
    if (c->kind == RX) {
      gen_rx_request(*c); fix_rx(*c);
      if (F_(F_SLOW) && q.p(0.5)) { int n = 1 + (int)q(2); for (int j = 0; j < n; j++) { ns st = (ns)q(1000) * C.H / 1000; c->slow.push_back({st, q.pick<ns>({50 * MS, 500 * MS, (2 * C.T + 3) * SEC})}); } c->cwindow = true; c->chunk = q.pick<int>({4096, 1, 100}); if (C.rx != RX_FILE) c->rx.dump = true; c->leave = L_SHUTDOWN; c->early = false; std::sort(c->slow.begin(), c->slow.end()); }
      c->midmsg = F_(F_BADMID) && q.p(0.3);
    } else if (c->kind == TX) { gen_tx_request(*c); gen_tx_msgs(*c); if (c->early) c->cut_last = q.p(0.5); }
    else if (c->kind == BAD) gen_bad(*c);
    if (F_(F_STOP) && q.p(0.5)) { c->leave = L_STAY; c->early = false; }
    clis.push_back(std::move(c));
  }
  for (auto &a : clis) if (a->kind == RX && C.rx == RX_SDR) {
    if (F_(F_DROPS) || disturbed) a->rx.dump = true;
    for (auto &b : clis) if (a != b && (b->kind == RX || b->kind == BAD) && same_key(a->rx, b->rx)) a->rx.dump = true;
  }
  // what an earlier run of the server left behind under the same names
  { G q{11}; if (q.p(0.3)) {
    std::vector<std::string> names; for (uint32_t id = 1; id <= 6; id++) { names.push_back(dump_path(id)); names.push_back(demod_path(id)); names.push_back(txdump_path(id)); }
    for (auto &c : clis) if (C.tx == TX_FILE && c->tx.has_file) names.push_back(c->tx.file);
    for (auto &n : names) if (n.compare(0, 8, "/nowhere") && !fs.count(n) && q.p(0.7)) { auto fd = std::make_shared<FileData>(); fd->d.assign(q.pick<size_t>({800, 8, 40000, 13}), 0xA5); fs[n] = fd; }
    probe(PR_LEFTOVERS); } }
  char buf[1200];
  static const char *rn[] = {"sdr-server", "file", "plutosdr"}, *tn[] = {"none", "file", "plutosdr"};
  { G q{13}; config_text.clear(); bool bare = q.p(0.3), fancy = F_(F_CONFIG) && q.p(0.5);   // settings at their default may be left out
    std::vector<std::string> lines;
    auto line = [&](const char *name, std::string v, bool dflt, bool num = false) {
      if (dflt && (bare || q.p(0.2))) return;
      if (!fancy) { lines.push_back(std::string(name) + "=" + v); return; }
      if (num && q.p(0.2)) { snprintf(buf, sizeof buf, "0x%X", (unsigned)atoi(v.c_str())); v = buf; }
      std::string l = q.pick<const char *>({"", "", "  ", "# a comment\n", "/* two\n lines */ ", "// port=1\n", "\n\n"}); l += name; l += q.pick<const char *>({"=", " = ", ":", " :\n  "}); l += v; l += q.pick<const char *>({"", ";", "  ", " # behind"}); lines.push_back(l); };
    auto str = [&](const std::string &v, bool dir = false) { return "\"" + v + (dir && q.p(0.4) ? "/" : "") + "\""; };
    line("bind_address", str(bind_addr), bind_addr == "127.0.0.1"); line("port", std::to_string(PORT), PORT == 8091, true); line("buffer_size", std::to_string(C.B), C.B == 262144, true); line("queue_size", std::to_string(C.Q), C.Q == 64, true);
    line("read_timeout_seconds", std::to_string(C.T), C.T == 5, true); line("base_path", str(rec_dir, true), F_(F_CONFIG) && (rec_dir == "/sim/tmp" || rec_dir == "/tmp")); line("rx_sdr_type", str(rn[C.rx]), C.rx == RX_SDR); line("rx_sdr_server_address", str(sdr_addr), sdr_addr == "127.0.0.1");
    line("rx_sdr_server_port", std::to_string(SDR_PORT), SDR_PORT == 8090, true); line("tx_sdr_type", str(tn[C.tx]), C.tx == TX_NONE); line("rx_file_base_path", str("/sim/in", true), false); line("tx_file_base_path", str("/sim/out", true), false);
    G t{12}; tun = Tun(); char b[100];
    auto gain = [&](double v) { if (v == (int)v && t.p(0.4)) snprintf(b, sizeof b, "%d", (int)v); else snprintf(b, sizeof b, "%.2f", v); return std::string(b); };
    if (!t.p(0.2)) { tun.tx_gain = t.pick<double>({-12.5, 0.0, -89.75, -1.0, -30}); line("tx_plutosdr_gain", gain(tun.tx_gain), false); }
    if (!t.p(0.2)) { tun.rx_gain = t.pick<double>({31.0, 0.0, 71.0, -1.0, 3.25}); line("rx_plutosdr_gain", gain(tun.rx_gain), false); }
    if (!t.p(0.2)) { tun.timeout = t.pick<unsigned>({700, 1, 10000, 3000}); line("tx_plutosdr_timeout_millis", std::to_string(tun.timeout), false, true); }
    if (F_(F_CONFIG) && q.p(0.3)) lines.push_back(q.pick<const char *>({"unknown_option=5", "nested: { port=17; buffer_size=\"x\"; }", "list=[1,2,3]", "ports=1"}));
    if (F_(F_BADCONF)) break_config(lines);
    if (F_(F_CONFIG) && q.p(0.5)) for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[q((uint32_t)i)]);
    if (lines.empty()) lines.push_back("port=" + std::to_string(PORT));   // libconfig 1.5 refuses an empty file
    for (auto &l : lines) config_text += l + "\n";
    if (F_(F_CONFIG) && bad_config.empty() && q.p(0.2) && lines.back().find('#') == std::string::npos) config_text.pop_back(); }
  conn_personality = [](Conn &c) {
    uint32_t sub = 5000 + c.id;
    if (F_(F_NONETFAULT)) return;
    uint32_t v = choose(W, sub, 6);
    static const double sp[] = {0, 0.3, 0.05, 0.9, 0, 0.2}; static const double lp[] = {0, 0.1, 0.5, 0.02, 0.01, 0.9}; static const int lm[] = {0, 5, 20, 400, 80, 3};
    for (int i = 0; i < 2; i++) { c.p[i].seg_p = sp[v]; c.p[i].lat_p = lp[v]; c.p[i].lat_max = lm[v]; }
  };
}

// ------------------------------------------------------------------------------------------------ upstream sample server
static std::vector<std::pair<int, int>> dummy;
static void up_send(UpConn *u) {
  G g{2000u + u->idx}; size_t N8 = u->S.size() * 8; u->total = N8;
  const uint8_t *d = (const uint8_t *)u->S.data();
  size_t endpos = N8; if (u->plan.end) { endpos = u->plan.cut >= 1000 ? N8 : N8 * u->plan.cut / 1000; if (u->plan.end == 3) endpos = std::min(N8, endpos / 8 * 8 + 3); else if (u->plan.end != 2) endpos = endpos / 8 * 8; }
  double per_byte = (double)C.H / std::max<size_t>(1, N8);
  { G h{6000u + u->idx}; ns w = h.pick<ns>({5 * MS, 100 * MS, C.T * SEC / 2}); if (h.p(F_(F_TOGETHER) ? 0.9 : 0.1)) sleep_ns(w); }   // the first samples come late
  while (u->sent < endpos && !u->shut) {
    size_t k;
    switch (g(5)) { case 0: k = 2048; break; case 1: k = (size_t)C.B * 8; break; case 2: k = 1 + g(64); break; case 3: k = 1 + g(4096); break; default: k = 8 * (1 + g(300)); }
    k = std::max<size_t>(k, N8 / 300);
    if (F_(F_TINY)) k = 1 + k % 40;
    k = std::min(k, endpos - u->sent);
    ns t0 = now();
    long r = a_write(u->e, d + u->sent, k, 600 * SEC);
    ns bl = now() - t0; if (bl > u->max_block) u->max_block = bl;
    if (r <= 0) break;
    u->sent += r; u->sentlog.push_back({now(), u->sent});
    if ((size_t)r < k) break;
    ns dt = (ns)(k * per_byte);
    if (g.p(0.04)) { dt += 20 * MS; }
    if (u->plan.long_pauses && g.p(0.03)) { dt += C.T * SEC + (ns)(1 + g(4)) * SEC / 2; note_fault(FK_UP_PAUSE); if (u->sent % 8) probe(PR_MID_SAMPLE_PAUSE); }
    sleep_ns(dt);
  }
  u->writer_done = true;
  if (u->plan.end && !u->shut && u->sent >= endpos) {
    sleep_ns(g.pick<ns>({0, 1 * MS, 500 * MS, (C.T + 1) * SEC}));
    if (!u->shut) {
      u->t_end = now(); u->ended = true; u->sending_done = true;
      if (u->plan.end == 2) { note_fault(FK_UP_RESET); a_reset(u->e); } else { note_fault(FK_UP_EOF); a_close(u->e); }
    }
  }
  u->sending_done = true;
}
static void up_conn(UpConn *u) {
  G g{1000u + u->idx};
  uint8_t b[64]; size_t n = 0;
  u->t_conn = now(); probe(PR_UP_CONN);
  while (n < 15) { long r = a_read(u->e, b + n, 15 - n, 120 * SEC); if (r <= 0) { u->sending_done = true; u->ended = true; u->t_end = now(); a_close(u->e); return; } n += r; }
  auto be = [&](int i) { return (uint32_t)b[i] << 24 | (uint32_t)b[i + 1] << 16 | (uint32_t)b[i + 2] << 8 | b[i + 3]; };
  u->got_req = true; u->center = be(2); u->rate = be(6); u->band = be(10); u->dest = b[14];
  if (b[0] != 0 || b[1] != 0 || u->dest != 1) { u->bad_req = true; viol("upstream_params", "the request sent to the upstream server is malformed: version %d type %d destination %d", b[0], b[1], u->dest); }
  bool match = false;
  for (auto &c : clis) if ((c->kind == RX || c->is_rx_req) && (uint32_t)(c->rx.center + c->rx.offset) == u->center && (uint32_t)c->rx.center == u->band && (uint32_t)c->rx.fs == u->rate && c->t_req0 >= 0) match = true;
  if (!match) viol("upstream_params", "upstream connection %d asks for centre %u band %u rate %u, which no client requested", u->idx, u->center, u->band, u->rate);
  UpPlan &p = u->plan;
  if (F_(F_UPFAIL) && g.p(0.35)) p.resp = 1 + (int)g(8);
  if (F_(F_UPFAIL) || F_(F_PAUSE)) { p.long_pauses = g.p(0.5); }
  if (F_(F_UPFAIL) && g.p(0.5)) { p.end = 1 + (int)g(3); p.cut = (int)g.pick<int>({1000, 500, 100, 777, 0, 3}); }
  p.shut_delay = g.pick<ns>({0, 10 * MS, C.T * SEC / 2, C.T * SEC * 3});
  auto send = [&](Bytes v) { long r = a_write(u->e, v.data(), v.size(), 60 * SEC); return r == (long)v.size(); };
  switch (p.resp) {
    case 1: note_fault(FK_UP_REJECT); send({0, 2, g.pick<uint8_t>({1, 2, 255, 128}), 0, 0, 0, (uint8_t)g(5)}); sleep_ns(50 * MS); break;
    case 2: note_fault(FK_UP_GARBAGE); send({9, 2, 0, 0, 0, 0, 0}); sleep_ns(50 * MS); break;
    case 3: note_fault(FK_UP_GARBAGE); send({0, 7, 0, 0, 0, 0, 0}); sleep_ns(50 * MS); break;
    case 4: note_fault(FK_UP_EOF); break;
    case 5: note_fault(FK_UP_RESET); a_reset(u->e); break;
    case 6: note_fault(FK_UP_HANG); { uint8_t x[64]; ns dl = now() + 300 * SEC; while (a_read(u->e, x, 64, dl - now()) > 0) {} } break;
    case 7: note_fault(FK_UP_EOF); send({0, 2, 0}); break;
    case 8: note_fault(FK_UP_PAUSE); send({0, 2}); sleep_ns(C.T * SEC / 2); send({0, 0, 0, 0}); sleep_ns(C.T * SEC / 2); p.resp = 0; send({7}); break;
    default: { if (g.p(0.3)) sleep_ns(g.pick<ns>({2 * MS, C.T * SEC / 2})); Bytes v{0, 2, 0, 0, 0, 0, 7}; if (g.p(0.3)) { send({0, 2, 0, 0}); sleep_ns(MS); send({0, 0, 7}); } else send(v); }
  }
  if (p.resp) { u->sending_done = true; u->ended = true; if (u->t_end < 0) u->t_end = now(); a_close(u->e); return; }
  u->accepted = true; u->acked_resp = 7; u->t_ok = now();
  RxCfg rc; rc.fs = u->rate < 1000 || u->rate > 1000000000 ? presets[0].fs : u->rate; rc.baud = presets[0].baud; rc.dev = presets[0].dev; for (auto &c : clis) if ((uint32_t)c->rx.fs == u->rate && c->kind == RX) { rc.baud = c->rx.baud; rc.dev = c->rx.dev; break; }
  uint64_t sd = sigseed * 77 + u->idx * 1000003ull + u->center;
  u->S = make_signal(rc, C.N, sd, 0.8f, (double)rc.fs * 0.004 + dop_ferr(u->band), 0.06f);
  for (size_t i = 0; i < u->S.size(); i++) { while (!vindex.insert({bits(u->S[i]), {u->idx, (uint32_t)i}}).second) u->S[i].re = nextafterf(u->S[i].re, 2); }   // every sample is unique
  Fiber *w = spawn("upw" + std::to_string(u->idx), false, [u] { up_send(u); });
  // watch for the goodbye
  uint8_t hb[2]; int hn = 0;
  for (;;) {
    uint8_t x; long r = a_read(u->e, &x, 1, -1);
    if (r <= 0) { if (u->t_closed < 0) u->t_closed = now(); break; }
    hb[hn++] = x;
    if (hn == 2) {
      hn = 0;
      if (hb[0] == 0 && hb[1] == 1) {
        if (!u->shut) { u->t_shut = now(); probe(PR_UP_SHUTDOWN_SEEN); TRACE("upstream %d: goodbye received", u->idx); u->shut = true; if (p.shut_delay) sleep_ns(p.shut_delay); if (u->t_end < 0) u->t_end = now(); a_close(u->e); }
      } else if (!u->shut) viol("upstream_garbage", "upstream connection %d received bytes %d %d", u->idx, hb[0], hb[1]);
    }
  }
  u->shut = true;
  (void)w;
  if (u->t_end < 0) u->t_end = now();
  u->ended = true; a_close(u->e);
}
static void up_listen() {
  for (;;) {
    End e = a_accept(up_l, -1);
    if (!e.valid()) { while (!up_l->open) sleep_ns(10 * MS); continue; }
    auto u = std::make_unique<UpConn>(); u->idx = (int)ups.size(); u->e = e; UpConn *up = u.get(); ups.push_back(std::move(u));
    up->t_conn = now();
    spawn("up" + std::to_string(up->idx), false, [up] { up_conn(up); });
  }
}

// ------------------------------------------------------------------------------------------------ clients
static long more(Cli &c, ns timeout, size_t max = 4096) {
  uint8_t b[4096];
  if (c.eof || c.rst) return c.eof ? 0 : -1;
  long r = a_read(c.e, b, std::min(max, sizeof b), timeout);
  if (r > 0) c.inb.insert(c.inb.end(), b, b + r);
  else if (r == 0) { c.eof = true; c.t_eof = now(); TRACE("client %d: end of stream", c.idx); } else if (r == -1) { c.rst = true; c.t_eof = now(); TRACE("client %d: connection reset", c.idx); }
  return r;
}
static bool send_frag(Cli &c, const Bytes &b) { int longs = 0;
  size_t pos = 0;
  while (pos < b.size()) {
    size_t k = b.size() - pos;
    if (c.frag > 0) { uint32_t v = choose_p(W, c.g.sub, (uint32_t)std::min<size_t>(k, 300), k > 2000 ? 0.05 : c.frag); if (v) { k = v; probe(PR_FRAGMENTED); } }
    long r = a_write(c.e, b.data() + pos, k, 120 * SEC);
    if (r < (long)k) return false;
    pos += k;
    if (pos < b.size() && c.frag > 0) { uint32_t d = choose_p(W, c.g.sub, 4, b.size() > 2000 ? 0.02 : 0.15); if (d == 1) sleep_ns(100 * US); if (d == 2) sleep_ns(5 * MS); if (d == 3 && longs++ < 1) sleep_ns((ns)(C.T * 0.4 * SEC)); }   // a message arrives within the read timeout
  }
  return true;
}
static int take_frame(Cli &c, ns deadline, int &status, uint32_t &details) {  // 1 ok, 0 end, -1 reset, -2 timeout, -3 malformed
  auto need = [&](size_t n) -> int { while (c.inb.size() < n) { ns left = deadline - now(); if (left <= 0) return -2; long r = more(c, left); if (r == 0) return 0; if (r < 0) return (int)r; } return 1; };
  int r = need(6); if (r != 1) return r;
  uint32_t len = (uint32_t)c.inb[2] << 24 | (uint32_t)c.inb[3] << 16 | (uint32_t)c.inb[4] << 8 | c.inb[5];
  if (c.inb[0] != 0 || c.inb[1] != proto::RESPONSE || len > 64) return -3;
  r = need(6 + len); if (r != 1) return r;
  Bytes body(c.inb.begin() + 6, c.inb.begin() + 6 + len); c.inb.erase(c.inb.begin(), c.inb.begin() + 6 + len);
  if (!proto::dec_response(body, status, details)) return -3;
  c.responses++;
  return 1;
}
static ns resp_bound() { return 60 * SEC + (ns)(clis.size() + 4) * 8 * C.T * SEC + C.H * 4 + stall_total * 2; }
static void finish(Cli &c) { c.settled = true; c.done = true; c.t_done = now(); }
static void read_response(Cli &c) {
  int r = take_frame(c, now() + resp_bound(), c.status, c.details);
  if (r == 1) { c.got_resp = true; c.t_resp = now(); TRACE("client %d: response status %d details %u", c.idx, c.status, c.details); }
  else if (r == -3) { c.malformed = true; c.t_resp = now(); viol("bad_response", "client %d got bytes that are no response frame", c.idx); }
  else if (r == -2) viol("no_response", "client %d (%s) got no response within %.0f s", c.idx, c.kind == RX ? "rx" : c.kind == TX ? "tx" : c.kind == PING ? "ping" : "bad", resp_bound() / 1e9);
}
static void expect_close(Cli &c, ns bound) {  // after a refusal or ping: no further byte, then closed
  ns dl = now() + bound;
  if (c.kind == BAD && c.got_resp && c.status == 0 && c.bad != B_PINGBODY) { viol("bad_verdict", "client %d (bad %d): a request that cannot be served was accepted", c.idx, c.bad); return; }
  while (!c.eof && !c.rst) { ns left = dl - now(); if (left <= 0) { viol("not_closed", "client %d: the connection is not closed after the final response", c.idx); break; } more(c, left); }
  if (!c.inb.empty() && c.kind != RX) viol("extra_bytes", "client %d got %zu bytes after the final response", c.idx, c.inb.size());
}
static void drain(Cli &c) { c.D.insert(c.D.end(), c.inb.begin(), c.inb.end()); c.inb.clear(); }
static void check_progress(Cli *slow);
static void do_leave(Cli &c) {
  c.left = true; c.t_left = now(); TRACE("client %d leaves (%d)", c.idx, (int)c.leave);
  switch (c.leave) {
    case L_SHUTDOWN: { probe(PR_GRACEFUL_LEAVE); Bytes b = proto::frame(0, proto::SHUTDOWN, {}); a_write(c.e, b.data(), b.size(), 60 * SEC); break; }
    case L_HALF: probe(PR_GRACEFUL_LEAVE); a_shutdown_wr(c.e); break;
    case L_CLOSE: probe(PR_ABRUPT_LEAVE); note_fault(FK_CLI_CLOSE); a_close(c.e); break;
    case L_RESET: probe(PR_ABRUPT_LEAVE); note_fault(FK_CLI_RESET); a_reset(c.e); break;
    default: break;
  }
}
static ns leave_bound() { return 60 * SEC + (ns)(clis.size() + 4) * 6 * C.T * SEC + C.H * 4 + stall_total * 2; }
static void until_eof(Cli &c) {
  ns dl = now() + leave_bound();
  while (!c.eof && !c.rst) { ns left = dl - now(); if (left <= 0) { viol("not_closed", "client %d left politely but its connection was not closed", c.idx); break; } more(c, left); drain(c); }
}
static void rx_session(Cli &c) {
  ns t0 = now(); size_t si = 0; bool mid = c.midmsg;
  c.slow_done = c.slow.empty();
  if (c.slow.empty()) c.settled = true;
  for (;;) {
    drain(c);
    if (c.eof || c.rst) break;
    if (si < c.slow.size()) {
      if (now() >= t0 + c.slow[si].first) {
        c.in_slow = true; note_fault(FK_CLI_STALL); TRACE("client %d stops reading", c.idx); sleep_ns(c.slow[si].second); check_progress(&c); c.in_slow = false; si++; TRACE("client %d reads again", c.idx);
        if (si == c.slow.size()) { c.slow_done = true; c.settled = true; }
        continue;
      }
    }
    if (mid && now() > t0 + C.H / 4) { mid = false; Bytes b; for (int i = 0; i < 3; i++) { Bytes f = proto::frame(c.g.p(0.2) ? 1 : 0, (uint8_t)c.g.pick<int>({proto::PING, 9, proto::RX_REQUEST, 200, proto::TX_DATA, proto::RESPONSE, proto::TX_REQUEST}), rnd_bytes(5 + i, c.g(30))); b.insert(b.end(), f.begin(), f.end()); } note_fault(FK_CLI_GARBAGE); send_frag(c, b); }
    if (c.early && now() >= t0 + c.leave_after) break;
    if (phase_leave && c.leave != L_STAY && c.slow_done) break;
    ns lim = 25 * MS; if (c.early) lim = std::min(lim, t0 + c.leave_after - now() + 1); if (si < c.slow.size()) lim = std::min(lim, std::max<ns>(1, t0 + c.slow[si].first - now()));
    more(c, lim, c.chunk);
    if (c.chunk < 4096) sleep_ns(c.chunk * 2 * US);
  }
  c.settled = true;
  if (c.eof || c.rst) { c.t_eof = now(); a_close(c.e); return; }
  if (c.early) { for (auto &o : clis) if (o.get() != &c && o->kind == RX && o->ok() && !o->left && same_key(o->rx, c.rx)) probe(PR_LEAVE_WHILE_SHARED); }
  do_leave(c);
  if (c.leave == L_SHUTDOWN || c.leave == L_HALF) { until_eof(c); drain(c); a_close(c.e); }
}
static bool timed_out_by_stall(ns a, ns b) { return stall_total > 0 && b - a > C.T * SEC; }
static bool tx_answered(const TxMsg &m) { return m.kind <= 2 && !m.cut; }
static void tx_session(Cli &c) {
  size_t next = 0, ack = 0; ns t0 = now();
  auto read_one = [&]() -> bool {
    while (ack < c.msgs.size() && !tx_answered(c.msgs[ack])) ack++;
    if (ack >= next) return true;
    TxMsg &m = c.msgs[ack]; int r = take_frame(c, now() + resp_bound(), m.status, m.details);
    if (r == -2 && stall_total > C.T * SEC / 2 && c.frag > 0) c.framing_lost = true; else if (r != 1) { if (r == -2) viol("no_response", "client %d: transmit message %zu got no response", c.idx, ack); if (r == -3) viol("bad_response", "client %d: malformed answer to transmit message %zu", c.idx, ack); }
    if (r != 1) return false;
    m.t_resp = now(); TRACE("client %d: message %zu -> status %d details %u", c.idx, ack, m.status, m.details);
    probe(m.status == 0 ? PR_TX_MSG_OK : PR_TX_MSG_FAIL);
    if (m.kind == 0 && m.status == 1 && m.details == 1 && timed_out_by_stall(m.t_sent, m.t_resp)) { c.framing_lost = true; return false; }
    ack++; return true;
  };
  auto outstanding = [&] { int n = 0; for (size_t i = ack; i < next; i++) if (tx_answered(c.msgs[i])) n++; return n; };
  bool alive = true;
  while (alive && next < c.msgs.size()) {
    if (c.early && now() >= t0 + c.leave_after) break;
    if (c.eof || c.rst) break;
    TxMsg &m = c.msgs[next];
    if (m.delay) sleep_ns(m.delay);
    if (c.early && c.cut_last && next + 1 == c.msgs.size() && m.wire.size() > 8) { note_fault(FK_CLI_TRUNC); Bytes h(m.wire.begin(), m.wire.begin() + 6 + (m.wire.size() - 6) / 2); m.t_sent = now(); m.cut = true; next++; send_frag(c, h); if (c.leave == L_SHUTDOWN) c.leave = L_HALF; break; }
    m.t_sent = now(); next++;
    if (!send_frag(c, m.wire)) { alive = false; break; }
    m.sent_full = true;
    while (alive && outstanding() >= c.window) alive = read_one();
  }
  while (alive && outstanding() > 0) alive = read_one();
  c.settled = true;
  if (!alive && !(c.eof || c.rst)) { a_close(c.e); return; }
  while (!c.eof && !c.rst && !(c.early) && !(phase_leave && c.leave != L_STAY)) { long r = more(c, 25 * MS); if (r > 0) break; }
  if (!c.inb.empty()) viol("extra_bytes", "client %d got %zu bytes nobody asked for on its transmit session", c.idx, c.inb.size());
  if (c.eof || c.rst) { a_close(c.e); return; }
  do_leave(c);
  if (c.leave == L_SHUTDOWN || c.leave == L_HALF) { until_eof(c); if (!c.D.empty() && !(next && c.msgs[next - 1].cut)) viol("extra_bytes", "client %d got %zu bytes after its last answer", c.idx, c.D.size()); a_close(c.e); }
}
static Bytes request(const Cli &c, bool tx) {
  Bytes b = tx ? proto::enc_tx(c.tx) : proto::enc_rx(c.rx);
  if (c.pad > b.size() + 5) { size_t n = c.pad - b.size() - 2; if (n > 128) n -= n > 16384 + 2 ? 2 : 1; Bytes x(n, 0x2a); proto::fb(b, 15, x.data(), n); }
  return proto::frame(0, tx ? proto::TX_REQUEST : proto::RX_REQUEST, b);
}
static void run_client(Cli *cp) {
  Cli &c = *cp;
  sleep_ns(c.t_start + 1);
  if (proc.exited) { finish(c); return; }
  c.e = a_connect(PORT, 400 * SEC);
  if (!c.e.valid()) { c.refused_connect = true; if (!stop_sent && !proc.exited && !has_viol()) viol("connect_refused", "client %d cannot connect", c.idx); finish(c); return; }
  c.connected = true; c.conn = c.e.c->id; c.t_req0 = now();
  if (c.cwindow) c.e.in().cap = c.g.pick<size_t>({2048, 512, 8192});
  TRACE("client %d connected (c%d) kind %d bad %d", c.idx, c.conn, (int)c.kind, c.bad);
  if (c.kind == RX) TRACE("client %d wants baud %u decim %u dev %lld tw %u dc %d dest %d dump %d", c.idx, c.rx.baud, c.rx.decim, (long long)c.rx.dev, c.rx.tw, c.rx.dc, c.rx.dest, c.rx.dump);
  Bytes b;
  if (c.kind == PING) b = proto::frame(0, proto::PING, {});
  if (c.kind == RX || c.kind == TX) b = request(c, c.kind == TX);
  if (c.kind == BAD) {
    Bytes req = request(c, c.is_tx_req);
    bool answered = true; note_fault(FK_CLI_GARBAGE);
    switch (c.bad) {
      case B_UNKNOWN: b = proto::frame(0, (uint8_t)(6 + c.g(200)), {}); break;
      case B_SHUTDOWN_FIRST: b = proto::frame(0, c.g.p(0.5) ? proto::SHUTDOWN : proto::RESPONSE, {}); break;
      case B_TXDATA_FIRST: b = proto::frame(0, proto::TX_DATA, proto::enc_data({1, 2, 3})); break;
      case B_VERSION: b = req; if (c.g.p(0.3)) b = proto::frame(0, c.g.p(0.7) ? proto::PING : proto::SHUTDOWN, {}); b[0] = (uint8_t)(1 + c.g(255)); break;
      case B_GARBAGE: { Bytes x = rnd_bytes(c.idx + sigseed, 1 + c.g(60)); x[0] = 0x0f; b = proto::frame(0, c.is_tx_req ? proto::TX_REQUEST : proto::RX_REQUEST, x); break; }
      case B_PARAM: case B_UNCREATABLE: b = req; break;
      case B_OVERSIZE: b = proto::frame(0, c.is_tx_req ? proto::TX_REQUEST : proto::RX_REQUEST, {}, c.g.pick<int64_t>({0xffffffffll, 32769, 0x7fffffff})); break;
      case B_PINGBODY: b = proto::frame(0, proto::PING, rnd_bytes(3, 1 + c.g(50))); break;
      case B_HALF_HDR: case B_CLOSE_HDR: case B_STALL_HDR: b.assign(req.begin(), req.begin() + 1 + c.g(5)); break;
      case B_HALF_BODY: case B_CLOSE_BODY: case B_STALL_BODY: b.assign(req.begin(), req.begin() + 6 + c.g((uint32_t)req.size() - 6)); break;
      case B_EMPTY: case B_RST: answered = false; break;
      case B_REQ_CLOSE: case B_REQ_RST: b = req; answered = false; break;
    }
    c.req_full = send_frag(c, b); c.t_req = now();
    if (c.wild) { probe(PR_WILD); TRACE("client %d is wild", c.idx); if (!c.tail.empty() && c.req_full) send_frag(c, c.tail); }
    switch (c.bad) {
      case B_HALF_HDR: case B_HALF_BODY: note_fault(FK_CLI_TRUNC); a_shutdown_wr(c.e); break;
      case B_CLOSE_HDR: case B_CLOSE_BODY: answered = false; note_fault(FK_CLI_TRUNC); a_close(c.e); break;
      case B_EMPTY: note_fault(FK_CLI_CLOSE); sleep_ns(c.g(2) * MS); a_close(c.e); break;
      case B_RST: note_fault(FK_CLI_RESET); a_reset(c.e); break;
      case B_REQ_CLOSE: note_fault(FK_CLI_CLOSE); sleep_ns(c.g.pick<ns>({0, 100 * US, 500 * US, 2 * MS, 20 * MS, 1 * SEC})); a_close(c.e); break;
      case B_REQ_RST: note_fault(FK_CLI_RESET); sleep_ns(c.g.pick<ns>({0, 100 * US, 500 * US, 2 * MS, 20 * MS})); a_reset(c.e); break;
      case B_STALL_HDR: case B_STALL_BODY: note_fault(FK_CLI_STALL); break;
    }
    if (c.bad == B_REQ_CLOSE || c.bad == B_REQ_RST || c.bad == B_CLOSE_BODY || c.bad == B_CLOSE_HDR) { c.left = true; c.t_left = now(); c.leave = L_CLOSE; }
    if (answered) { read_response(c); if (c.got_resp) expect_close(c, leave_bound()); else if (!c.eof && !c.rst) {} a_close(c.e); }
    finish(c); return;
  }
  c.req_full = send_frag(c, b); c.t_req = now();
  read_response(c);
  if (c.got_resp && c.status == 0 && c.kind == RX) { probe(PR_RX_ACCEPT); rx_session(c); }
  else if (c.got_resp && c.status == 0 && c.kind == TX) { probe(PR_TX_ACCEPT); tx_session(c); }
  else { if (c.got_resp) { if (c.kind == PING && c.status == 0) probe(PR_PING_OK); else probe(PR_REFUSED); expect_close(c, leave_bound()); } a_close(c.e); }
  finish(c);
}
static void start_client(Cli *c) { spawn("cli" + std::to_string(c->idx), false, [c] { run_client(c); }); }

static bool wait_until(std::function<bool()> f, ns bound, ns poll = 20 * MS);
static bool ups_sent();
static Cli *add_probe(Kind k, bool same_as_existing);
static void hooks();
#include "oracle.inc"
#include "special.inc"

// ------------------------------------------------------------------------------------------------ controller
static bool wait_until(std::function<bool()> f, ns bound, ns poll) {
  ns dl = now() + bound;
  while (!f()) { if (now() >= dl) return false; sleep_ns(poll); }
  return true;
}
static bool all_settled() { for (auto &c : clis) if (!c->settled) return false; return true; }
static bool all_done(bool stay_too) { for (auto &c : clis) if (!c->done && (stay_too || c->leave != L_STAY || c->kind == PING || c->kind == BAD)) return false; return true; }
static bool ups_sent() { for (auto &u : ups) if (!u->sending_done) return false; return true; }
static uint32_t addr_of(const std::string &a) { unsigned x[4] = {0}; sscanf(a.c_str(), "%u.%u.%u.%u", x, x + 1, x + 2, x + 3); return x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3]; }
static void hooks() {
  on_listen = [](uint32_t a, int port) { listened++; if (bad_config.empty() && (a != addr_of(bind_addr) || port != PORT)) viol("config_listen", "the server listens on %u.%u.%u.%u:%d instead of %s:%d", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255, port, bind_addr.c_str(), PORT); };
  on_connect = [](uint32_t a, int port) { if (a != addr_of(sdr_addr) || port != SDR_PORT) viol("config_upstream", "the server connects to %u.%u.%u.%u:%d instead of %s:%d", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255, port, sdr_addr.c_str(), SDR_PORT); };
  on_fclose_fail = [](const std::string &p) { wr_failed.insert(p); };
  on_fwrite = [](const std::string &p, const void *d, size_t n) { auto &v = wr[p]; if (n && wr_fail_t.count(p) && p.compare(0, rec_dir.size() + 4, rec_dir + "/rx.") == 0) viol("recording_after_failure", "%zu bytes are written to %s after an earlier write to it failed: the recording has a gap", n, p.c_str()); v.insert(v.end(), (const uint8_t *)d, (const uint8_t *)d + n); wrlog[p].push_back({now(), v.size()}); mix(n * 7 + p.size()); };
  on_fwrite_fail = [](const std::string &p) { wr_failed.insert(p); wr_fail_t.insert({p, now()}); wrlog[p].push_back({now(), (size_t)-1}); for (auto &c : clis) if (c->kind == TX && c->tx.file == p) { c->dev_failed = true; c->fail_pos.push_back(wr[p].size() / 8); } };
  on_fopen = [](const std::string &p, const char *m) {
    if (m[0] != 'r') {
      opened[p] = {now(), -1};
      if (p.compare(0, 12, "/sim/out/air") == 0) {
        for (auto &o : opened) if (o.first != p && o.first.compare(0, 12, "/sim/out/air") == 0 && o.second.second < 0) viol("tx_two_owners", "%s is opened for transmission while %s is still open", p.c_str(), o.first.c_str());
        for (auto &c : clis) if (c->tx.file == p) c->dev_open = now();
      }
    }
  };
  on_fclose = [](const std::string &p) { auto it = opened.find(p); if (it != opened.end() && it->second.second < 0) { it->second.second = now(); for (auto &c : clis) if (c->tx.file == p) c->dev_close = now(); } };
  iio.on_open = [](bool tx, size_t n) {
    if (tx) { auto x = std::make_unique<PlutoTx>(); x->t_open = now(); x->from = iio.tx_samples.size() / 2; x->n = n; ptx.push_back(std::move(x)); }
    else { auto x = std::make_unique<PlutoRx>(); x->t_open = now(); x->n = n; x->fs = (double)presets[0].fs; prx.push_back(std::move(x)); }
    check_pluto_open(tx);
  };
  iio.on_close = [](bool tx) { if (tx) { ptx.back()->t_close = now(); ptx.back()->to = iio.tx_samples.size() / 2; } else prx.back()->t_close = now(); };
  iio.on_push = [](bool ok, size_t n) { (void)n; if (!ok && !ptx.empty()) ptx.back()->fails.push_back(iio.tx_samples.size() / 2 - ptx.back()->from); };
  iio.on_refill_fail = [] { if (!prx.empty()) prx.back()->failed = true; };
  iio.rx_source = [](int16_t *d, size_t n) -> size_t {
    if (prx.empty()) return 0;
    PlutoRx &x = *prx.back();
    if (x.raw.empty()) { RxCfg rc; rc.fs = presets[0].fs; rc.baud = presets[0].baud; rc.dev = presets[0].dev; auto s = make_signal(rc, C.N, sigseed * 7 + prx.size(), 0.7f, rc.fs * 0.003, 0.05f); for (auto &v : s) { x.raw.push_back((int16_t)(v.re * 2047)); x.raw.push_back((int16_t)(v.im * 2047)); } }
    size_t m = x.raw.size() / 2;
    for (size_t i = 0; i < n; i++) { size_t k = (x.served + i) % m; d[2 * i] = x.raw[2 * k]; d[2 * i + 1] = x.raw[2 * k + 1]; x.S.push_back(cf{x.raw[2 * k] / 2048.0f, x.raw[2 * k + 1] / 2048.0f}); }
    x.served += n;
    if (x.served >= (size_t)C.N) iio.rx_block = 2 * SEC; else { long per = (long)((double)C.H * n / C.N); iio.rx_block = std::max<long>(per, 10 * US); }
    return n;
  };
}
static Cli *add_probe(Kind k, bool same_as_existing) {
  auto c = std::make_unique<Cli>(); c->idx = (int)clis.size(); c->g = G{100u + (uint32_t)c->idx}; c->kind = k; c->is_probe = true; c->leave = L_SHUTDOWN;
  const Preset &p = presets[0];
  if (k == RX) {
    c->rx.center = p.center; c->rx.fs = p.fs; c->rx.baud = p.baud; c->rx.decim = p.decim; c->rx.dev = p.dev; c->rx.tw = p.tw; c->rx.dc = p.dc; c->rx.dest = 2; c->rx.dump = true;
    if (C.rx == RX_FILE) { c->rx.has_file = true; c->rx.file = "/sim/in/f0.cf32"; }
    fix_rx(*c);
  }
  if (k == TX) {
    c->tx.center = p.center; c->tx.fs = p.fs; c->tx.baud = (uint32_t)(p.fs / 5); c->tx.dev = c->tx.baud / 2; if (C.tx == TX_FILE) { c->tx.has_file = true; c->tx.file = "/sim/out/air" + std::to_string(c->idx) + ".cf32"; }
    c->tc.fs = c->tx.fs; c->tc.center = c->tx.center; c->tc.baud = c->tx.baud; c->tc.dev = c->tx.dev; c->tc.offset = 0;
    TxMsg m; m.payload = {1, 2, 3, 4, 5}; m.wire = proto::frame(0, proto::TX_DATA, proto::enc_data(m.payload)); c->msgs.push_back(m);
  }
  (void)same_as_existing;
  Cli *r = c.get(); clis.push_back(std::move(c)); return r;
}
static bool quick_ping(ns bound) {
  Cli *c = add_probe(PING, false); start_client(c);
  if (!wait_until([c] { return c->done; }, bound, 2 * MS)) return false;
  return c->got_resp && c->status == 0;
}
static void timeout_probe() {   // nobody else is there: an unfinished request is given up after the configured time
  End e = a_connect(PORT, 60 * SEC); if (!e.valid()) return;
  Bytes b = proto::frame(0, proto::RX_REQUEST, {}); a_write(e, b.data(), 3, SEC);
  ns t0 = now(), dl = t0 + (C.T + 30) * SEC; uint8_t x[64]; ns st0 = stall_total;
  long r = a_read(e, x, sizeof x, dl - now()); ns dt = now() - t0 - (stall_total - st0); (void)r;
  if (stall_total == st0 && (dt < C.T * SEC - 20 * MS || dt > C.T * SEC + 1500 * MS)) viol("config_timeout", "an unfinished request is given up after %.3f s, the configured read timeout is %d s", dt / 1e9, C.T);
  else probe(PR_CONFIG_OK);
  a_close(e);
}
static void choose_stop() {
  G g{4};
  if (!F_(F_STOP)) return;
  uint32_t how = g(4);
  if (F_(F_BOOT_STOP) && how == 3) { sig_step = 1 + g(600); on_sig_step = [] { t_stop = now(); }; stop_sent = true; probe(PR_STOP_EARLY); return; }
  ns t = (ns)g(1000) * C.H * 2 / 1000;
  if (how == 1 && !clis.empty()) t = clis[g(clis.size())]->t_start + (ns)g(1000) * US;        // close to a request
  if (how == 2 && !clis.empty()) { auto &c = clis[g(clis.size())]; t = c->t_start + c->leave_after + (ns)g(2000) * US; }
  bool twice = g.p(0.5); ns d2 = (ns)g(3000) * US; int s1 = g.pick<int>({SIGTERM, SIGINT, SIGHUP});
  probe(PR_STOP_EARLY);
  at(now() + 60 * US + t, [=] { if (proc.exited) return; note_fault(FK_SIGNAL); stop_sent = true; t_stop = now(); proc_signal(s1); });
  if (twice) at(now() + 60 * US + t + d2, [=] { if (proc.exited) return; note_fault(FK_SIGNAL); proc_signal(SIGTERM); });
}
static char a0[] = "sdr-modem", a1[] = "/sim/modem.conf"; static char *args[] = {a0, a1, nullptr};

static void summary() {
  std::string s; char b[300];
  snprintf(b, sizeof b, "profile %s rx=%d tx=%d B=%d Q=%d T=%d N=%d H=%lldms policy=%d p=%.2f mem=%.0f; ", P.name, C.rx, C.tx, C.B, C.Q, C.T, C.N, (long long)(C.H / MS), policy.kind, policy.p, policy.mem_gap); s = b;
  for (auto &c : clis) { snprintf(b, sizeof b, "c%d:%s%s%d t=%lldus -> %s%d/%u D=%zu; ", c->idx, c->kind == RX ? "rx" : c->kind == TX ? "tx" : c->kind == PING ? "ping" : "bad", c->bad >= 0 ? "#" : "", c->bad >= 0 ? c->bad : 0, (long long)(c->t_start / US), c->got_resp ? "" : "none", c->status, c->details, c->D.size()); s += b; if (s.size() > 1300) break; }
  snprintf(sh->summary, sizeof sh->summary, "%s", s.c_str());
}
void run(const Profile &prof) {
  P = prof;
  if (P.special == 1) { run_special(P.special); return; }
  gen_world();
  if (P.special == 2) gen_loop();
  policy_start();
  hooks();
  summary();
  TRACE("config: %s", config_text.c_str());
  choose_stop();
  if (F_(F_BOOT_FAULT)) faults_armed = 1;
  proc_start([] { return modem_main(2, args); });
  up_l = a_listen(SDR_PORT);
  spawn("uplisten", false, [] { up_listen(); });
  if (!bad_config.empty()) {
    wait_until([] { return listened || proc.exited; }, 20 * SEC + stall_total, 10 * US);
    if (listened || (proc.exited && proc.exit_code == 0 && !proc.killed_by)) viol("config_accepted", "the server starts with a configuration that has to be refused: %s", bad_config.c_str());
    else if (!proc.exited || proc.killed_by) viol("config_hang", "the server neither starts nor ends with the configuration: %s", bad_config.c_str());
    else probe(PR_CONFIG_REFUSED);
    summary(); return;
  }
  wait_until([] { return a_port_open(PORT) || proc.exited; }, 20 * SEC + stall_total, 10 * US);
  if (F_(F_CONFIG) && proc.exited && !disturbed && !stop_sent && !proc.killed_by) viol("config_refused", "the server ends with code %d at a valid configuration: %s", proc.exit_code, config_text.c_str());
  if (!a_port_open(PORT) && !proc.exited && !stop_sent) fatal("not_started", "the server does not listen after 20 s; %s", dump_fibers().c_str());
  if (proc.exited) { check_exit(); summary(); return; }
  sleep_ns(2 * MS);
  if (!stop_sent && !F_(F_STOP)) {
    if (!quick_ping(60 * SEC + C.T * 10 * SEC)) { if (!F_(F_BOOT_FAULT)) viol("probe_failed", "the first ping is not answered"); }
    clis.back()->settled = true;
    sleep_ns(5 * MS);
    base_blocks = mem.live_blocks; base_fds = fd_count(); base_threads = threads_unjoined();
  }
  // upstream outages
  if (F_(F_UPFAIL)) { G g{5}; if (g.p(0.4)) { ns a = (ns)g(1000) * C.H / 1000, d = (ns)(1 + g(1000)) * C.H / 1000; at(now() + a, [] { note_fault(FK_UP_REFUSE); a_unlisten(up_l); down.push_back({now(), -1}); }); at(now() + a + d, [] { up_l = a_listen(SDR_PORT); down.back().second = now(); }); } }
  if (F_(F_CLOCKJUMP)) { G g{6}; for (int i = 0; i < 2; i++) if (g.p(0.8)) { ns a = (ns)g(1000) * C.H / 500; int64_t j = g.pick<int64_t>({3600, -3600, 86400, -5, 100000}); at(now() + a, [j] { note_fault(FK_CLOCK_JUMP); wall_skew += j; skews.push_back({now(), wall_skew}); }); } }
  faults_armed = 1;
  size_t n0 = clis.size();
  for (size_t i = 0; i < n0; i++) if (!clis[i]->is_probe) start_client(clis[i].get());
  ns bound = resp_bound() * 3;
  for (auto &c : clis) { for (auto &s : c->slow) bound += s.second; for (auto &m : c->msgs) bound += m.delay; }
  for (int i = 0; i < 4; i++) {
    if (wait_until([] { return proc.exited || (all_settled() && ups_sent()); }, bound)) break;
    if (!disturbed) break;
  }
  if (has_viol()) { summary(); end_run(); }
  if (!proc.exited && !stop_sent && !(all_settled() && ups_sent())) fatal("not_settled", "clients or upstream still waiting after %.0f s: %s", bound / 1e9, dump_fibers().c_str());
  if (proc.exited && !stop_sent) { check_exit(); end_run(); }
  if (P.special == 2 && !proc.exited) {
    start_loop_rx();
    if (!wait_until([] { return proc.exited || all_settled(); }, bound)) fatal("not_settled", "loop clients still waiting: %s", dump_fibers().c_str());
  }
  faults_armed = 0; 
  if (disk_free >= 0) disk_free = -1;
  if (!stop_sent) {
    ns quiet = (C.T + 2) * SEC; if (C.rx == RX_PLUTO) quiet += 2 * SEC;
    sleep_ns(quiet);
    if (!proc.exited && !stop_sent) checkpoint();
    if (!proc.exited && !stop_sent && P.special == 2) judge_loop();
    if (has_viol()) { summary(); end_run(); }
  }
  if (!stop_sent && !F_(F_STOP)) {
    phase_leave = true;
    if (!wait_until([] { return proc.exited || all_done(false); }, leave_bound() * 2)) fatal("not_settled", "sessions do not end: %s", dump_fibers().c_str());
    sleep_ns(4 * C.T * SEC + slack());
    if (!quick_ping(resp_bound())) viol("probe_failed", "a ping after all sessions ended is not answered");
    sleep_ns(50 * MS);
    if (has_viol()) { summary(); end_run(); }
    bool stay = false; for (auto &c : clis) if (c->leave == L_STAY && !c->done) stay = true;
    if (!stay) check_released("after all sessions ended");
    if (C.rx == RX_SDR && !up_l->open) up_l = a_listen(SDR_PORT);
    P.feat &= ~(uint32_t)F_UPFAIL;
    run_probes();
    if (F_(F_CONFIG) && !disturbed && !proc.exited) timeout_probe();
    if (!stay) { quick_ping(resp_bound()); sleep_ns(50 * MS); check_released("after the probe sessions"); }
  }
  if (has_viol()) { summary(); end_run(); }
  if (!stop_sent) { stop_sent = true; t_stop = now(); probe(PR_STOP_LATE); proc_signal(SIGTERM); }
  for (auto &c : clis) if (c->leave == L_STAY) {}
  ns eb = 30 * SEC + (ns)(clis.size() + 6) * 4 * C.T * SEC + stall_total * 2; for (auto &c : clis) for (auto &s : c->slow) eb += s.second; for (auto &c : clis) for (auto &m : c->msgs) eb += m.delay;
  if (!wait_until([] { return proc.exited; }, eb, 5 * MS)) fatal("exit_late", "the process still runs %.0f s after the stop request: %s", eb / 1e9, dump_fibers().c_str());
  phase_leave = true;
  wait_until([] { return all_done(true); }, 30 * SEC);
  check_exit();
  summary();
}
}  // namespace world
