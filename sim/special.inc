// Special scenarios (queue called directly, transmit/receive loop), property table, relevance of violation classes.
// ------------------------------------------------------------------------------------------------ buffer queue
extern "C" {
int create_queue(uint32_t buffer_size, uint16_t queue_size, bool blocking, void **queue);
int queue_put(const void *buffer, size_t len, void *queue);
void take_buffer_for_processing(void **buffer, size_t *len, void *queue);
void complete_buffer_processing(void *queue);
void interrupt_waiting_the_data(void *queue);
void destroy_queue(void *queue);
}
namespace lin {
struct Op { int kind; int id; size_t len; bool valid; int res; uint64_t inv, ret; };   // kind 0 put, 1 take, 2 complete, 3 interrupt
enum { PUT, TAKE, COMPLETE, INTR };
static std::vector<std::vector<Op>> hist; static int Q; static bool blocking;
struct St { std::vector<int> idx; std::vector<int> filled; int det = -1; bool poison = false; bool operator<(const St &o) const { return std::tie(idx, filled, det, poison) < std::tie(o.idx, o.filled, o.det, o.poison); } };
static std::set<St> seen; static size_t best;
static bool search(const St &s) {
  bool all = true; size_t done = 0; for (size_t t = 0; t < hist.size(); t++) { if (s.idx[t] < (int)hist[t].size()) all = false; done += s.idx[t]; }
  best = std::max(best, done);
  if (all) return true;
  if (!seen.insert(s).second) return false;
  if (seen.size() > 2000000) fatal("unsupported", "history too long to judge");
  uint64_t min_ret = UINT64_MAX; for (size_t t = 0; t < hist.size(); t++) if (s.idx[t] < (int)hist[t].size()) min_ret = std::min(min_ret, hist[t][s.idx[t]].ret);
  for (size_t t = 0; t < hist.size(); t++) {
    if (s.idx[t] >= (int)hist[t].size()) continue;
    const Op &o = hist[t][s.idx[t]]; if (o.inv > min_ret) continue;
    int freen = Q - (int)s.filled.size() - (s.det >= 0);
    auto go = [&](std::function<void(St &)> f) { St n = s; n.idx[t]++; f(n); return search(n); };
    switch (o.kind) {
      case PUT:
        if (!o.valid) { if (o.res != 0 && go([](St &) {})) return true; break; }
        if (o.res == 0) {
          if (freen > 0) { if (go([&](St &n) { n.filled.push_back(o.id); })) return true; }
          else if (!blocking && !s.filled.empty()) { if (go([&](St &n) { n.filled.back() = o.id; })) return true; }
        } else {
          if (s.poison || (!blocking && freen == 0 && s.filled.empty())) if (go([](St &) {})) return true;
        }
        break;
      case TAKE:
        if (o.id < 0) { if (s.poison && s.filled.empty() && go([](St &) {})) return true; }
        else if (!s.filled.empty() && s.filled[0] == o.id && s.det < 0) { if (go([&](St &n) { n.filled.erase(n.filled.begin()); n.det = o.id; })) return true; }
        break;
      case COMPLETE: if (s.det >= 0 && go([](St &n) { n.det = -1; })) return true; break;
      case INTR: if (go([](St &n) { n.poison = true; })) return true; break;
    }
  }
  return false;
}
}  // namespace lin
static float qval(int id, size_t i, int part) { return (float)(id * 4096 + (int)i * 2 + part); }
static void run_queue() {
  using namespace lin;
  G g{1}, s{2}, fg{3};
  int B = g.pick<int>({4, 1, 8, 64}); Q = g.pick<int>({2, 1, 3, 5}); blocking = g.p(0.5);
  int np = 1 + (int)g(3), ni = 1 + (int)g(2), ops = 3 + (int)g(8);
  int quit = g.p(0.3) ? (int)g(5) : -1; bool hold = g.p(0.5);   // the reader gives up early, perhaps without giving its buffer back
  policy = Policy{}; policy.step_ns = 200; policy.max_steps = 300000; policy.p = 0.3;
  switch (s(6)) { case 0: policy.kind = 2; policy.p = 0; break; case 1: policy.kind = 0; policy.p = 0.1; break; case 2: policy.kind = 0; policy.p = 0.6; break; case 3: policy.kind = 1; policy.depth = 4; break; case 4: policy.kind = 3; policy.p = 0.3; policy.starve = "consumer"; break; case 5: policy.kind = 3; policy.p = 0.3; policy.starve = "producer"; break; }
  uint32_t mg = s(4); policy.mem_gap = mg == 1 ? 5 : mg == 2 ? 25 : mg == 3 ? 100 : 0;
  memset(fault_rate, 0, sizeof fault_rate);
  if (fg.p(0.5)) fault_rate[FK_SPURIOUS] = 0.3;
  bool allocfail = fg.p(0.15); if (allocfail) fault_rate[FK_ALLOC] = 0.2;
  if (fg.p(0.2)) fault_rate[FK_STALL] = 0.005;
  faults_armed = 1; proc.started = true;
  policy_start();
  snprintf(sh->summary, sizeof sh->summary, "queue: %d buffers of %d samples, %s, %d producers, %d interrupters, %d operations each, policy %d %.2f mem %.0f", Q, B, blocking ? "blocking" : "non-blocking", np, ni, ops, policy.kind, policy.p, policy.mem_gap);
  static uint64_t tick; static void *q; static std::atomic<int> nextid; tick = 0; q = nullptr; nextid = 0;
  uint64_t blocks0 = mem.live_blocks; int rc = 0;
  Fiber *f = spawn("creator", true, [&] { rc = create_queue(B, Q, blocking, &q); }); join(f);
  fault_rate[FK_ALLOC] = 0;
  if (rc != 0) {
    if (!allocfail) viol("queue_create", "create_queue failed with %d although memory is available", rc);
    if (mem.live_blocks != blocks0) viol("mem_leak", "create_queue failed and left %llu blocks", (unsigned long long)(mem.live_blocks - blocks0));
    return;
  }
  hist.assign(np + 1 + ni, {}); seen.clear(); best = 0;
  std::vector<Fiber *> fs, prod; std::vector<uint32_t> sub; std::map<int, size_t> lens;
  for (int p = 0; p < np; p++) {
    prod.push_back(spawn("producer" + std::to_string(p), true, [&, p] {
      G h{200u + p}; std::vector<float> buf((size_t)(B + 4) * 2);
      for (int i = 0; i < ops; i++) {
        Op o{PUT, nextid++, 1 + h(B), true, 0, 0, 0}; uint32_t w = h(16);
        if (w == 14) { o.len = 0; o.valid = false; } if (w == 15) { o.len = B + 1 + h(3); o.valid = false; }
        for (size_t k = 0; k < o.len; k++) { buf[2 * k] = qval(o.id, k, 0); buf[2 * k + 1] = qval(o.id, k, 1); }
        lens[o.id] = o.len;
        if (h.p(0.2)) sleep_ns(h(20) * US);
        o.inv = ++tick; o.res = queue_put(w == 13 ? nullptr : buf.data(), o.len, q); if (w == 13) o.valid = false; o.ret = ++tick; probe(PR_QUEUE_OPS);
        TRACE("put %d len %zu -> %d", o.id, o.len, o.res); mix(o.id * 3 + o.res);
        for (auto &x : buf) x = -1;
        hist[p].push_back(o);
      }
    }));
  }
  Fiber *cons = spawn("consumer", true, [&] {
    G h{300};
    for (int nulls = 0, taken = 0; nulls < 2;) {
      if (quit >= 0 && taken == quit && !(hold && quit)) break;
      if (h.p(0.2)) sleep_ns(h(30) * US);
      Op o{TAKE, -1, 0, true, 0, 0, 0}; void *b = (void *)1; size_t len = 0; o.inv = ++tick; take_buffer_for_processing(&b, &len, q); o.ret = ++tick; probe(PR_QUEUE_OPS);
      if (!b) { TRACE("take -> end"); hist[np].push_back(o); nulls++; continue; }
      float *fl = (float *)b; o.len = len; o.id = (int)(fl[0] / 4096); TRACE("take -> %d len %zu", o.id, len); mix(o.id * 5);
      auto ok = [&](const char *when) { auto it = lens.find(o.id); if (it == lens.end() || len != it->second || len > (size_t)B) { viol("queue_content", "%s: a taken buffer has %zu samples, buffer %d was put with %zu", when, len, o.id, it == lens.end() ? 0 : it->second); return; } for (size_t k = 0; k < len; k++) if (fl[2 * k] != qval(o.id, k, 0) || fl[2 * k + 1] != qval(o.id, k, 1)) { viol("queue_content", "%s: sample %zu of taken buffer %d is not the one that was put", when, k, o.id); return; } };
      ok("when taken");
      uint32_t w = h(4); if (w == 1) yield_point(1); if (w == 2) sleep_ns(h(40) * US); if (w == 3) for (int i = 0; i < 6; i++) yield_point(1);
      ok("before it was given back");
      hist[np].push_back(o);
      if (++taken == quit && hold) break;
      Op c{COMPLETE, 0, 0, true, 0, 0, 0}; c.inv = ++tick; complete_buffer_processing(q); c.ret = ++tick; hist[np].push_back(c);
    }
  });
  for (int k = 0; k < ni; k++) fs.push_back(spawn("interrupter" + std::to_string(k), true, [&, k] {
    G h{400u + k}; if (k == 0 && quit < 0 && !h.p(0.5)) { for (auto p : prod) join(p); } else sleep_ns(h(1000) * US / 4);
    Op o{INTR, 0, 0, true, 0, 0, 0}; o.inv = ++tick; interrupt_waiting_the_data(q); o.ret = ++tick; TRACE("interrupt"); hist[np + 1 + k].push_back(o);
  }));
  for (auto p : prod) join(p);
  for (auto p : fs) join(p);
  join(cons);
  if (has_viol()) return;
  St st; st.idx.assign(hist.size(), 0);
  size_t total = 0; for (auto &h : hist) total += h.size();
  if (!search(st)) {
    std::string d; std::vector<std::pair<uint64_t, std::string>> v; static const char *nm[] = {"put", "take", "complete", "interrupt"};
    for (size_t t = 0; t < hist.size(); t++) for (auto &o : hist[t]) { char b[80]; snprintf(b, sizeof b, "[%llu-%llu t%zu %s %d=%d] ", (unsigned long long)o.inv, (unsigned long long)o.ret, t, nm[o.kind], o.id, o.res); v.push_back({o.inv, b}); }
    std::sort(v.begin(), v.end()); for (auto &x : v) { d += x.second; TRACE("%s", x.second.c_str()); if (d.size() > 380) break; }
    viol("queue_not_linearizable", "no order of the calls explains their results (%zu of %zu explained): %s", best, total, d.c_str());
  }
  f = spawn("destroyer", true, [&] { destroy_queue(q); }); join(f);
  if (mem.live_blocks != blocks0) viol("mem_leak", "%lld blocks left after destroy_queue", (long long)(mem.live_blocks - blocks0));
}

// ------------------------------------------------------------------------------------------------ loop: transmit, then receive
static std::vector<Cli *> loop_tx, loop_rx;
static void gen_loop() {
  G g{9};
  int n = 1 + (int)g(2); (void)n;
  auto c = std::make_unique<Cli>(); c->idx = (int)clis.size(); c->g = G{100u + (uint32_t)c->idx}; c->kind = TX; c->leave = L_SHUTDOWN; c->early = true; c->leave_after = INT64_MAX / 4; c->t_start = 0; c->frag = g.pick<double>({0, 0.5, 0.1});
  const Preset &p = presets[0];
  uint32_t r = F_(F_DOPPLER) ? g.pick<uint32_t>({8, 5, 4}) : g.pick<uint32_t>({10, 8, 5, 4, 20});   // the lag of the correction stays small against the deviation
  c->tx.center = p.center; c->tx.fs = p.fs; c->tx.baud = (uint32_t)(p.fs / r); c->tx.dev = (int64_t)(c->tx.baud * (F_(F_DOPPLER) ? g.pick<double>({1.0, -1.0}) : g.pick<double>({1.0, 0.5, -1.0, -0.5}))); c->tx.offset = 0; c->tx.has_file = true; c->tx.file = "/sim/out/air" + std::to_string(c->idx) + ".cf32"; c->tx.dump = g.p(0.3);
  c->tc.dop.on = false;
  if (F_(F_DOPPLER)) { int64_t st; c->tx.dop = gen_dop(g, st, c->tc.dop, c->tx.center, c->tx.fs, false); c->tx.start = (uint64_t)st; c->tx.offset = 0; }
  else c->tx.offset = g.pick<int64_t>({0, 1500, -1200, 3000}) * (int64_t)c->tx.fs / 48000;
  c->tc.fs = c->tx.fs; c->tc.center = c->tx.center; c->tc.baud = c->tx.baud; c->tc.dev = c->tx.dev; c->tc.offset = c->tx.offset; if (c->tc.dop.on) c->tc.dop.center = c->tx.center;
  int m = 1 + (int)g(6); size_t left = 200 + g(200);
  for (int i = 0; i < m || left; i++) {
    TxMsg x; size_t len = i >= m - 1 ? (F_(F_DOPPLER) ? std::min<size_t>(left, 100) : left) : std::min<size_t>(left, g.pick<size_t>({40, 1, 7, (size_t)C.B, (size_t)C.B + 1, 90})); if (F_(F_DOPPLER)) len = std::min<size_t>(len, 100); left -= len;
    x.payload = rnd_bytes(sigseed + 991 * i, len); x.wire = proto::frame(0, proto::TX_DATA, proto::enc_data(x.payload)); x.delay = g.pick<ns>({0, 3 * MS, 40 * MS}); c->msgs.push_back(x);
  }
  c->window = g.pick<int>({1, 2, 8});
  for (auto &o : clis) if (o->kind == BAD && o->is_tx_req) { o->is_tx_req = false; o->is_rx_req = true; if (o->bad == B_TXDATA_FIRST || o->bad == B_UNCREATABLE || o->bad == B_PARAM) o->bad = B_UNKNOWN; }   // the transmitter stays free
  loop_tx.push_back(c.get()); clis.push_back(std::move(c));
}
static void start_loop_rx() {
  G g{10};
  // samples reach the file at the latest when the session is over
  wait_until([] { for (Cli *t : loop_tx) { auto o = opened.find(t->tx.file); if (o != opened.end() && o->second.second < 0) return false; } return true; }, leave_bound());
  for (Cli *t : loop_tx) {
    bool all = t->ok(); for (auto &m : t->msgs) if (m.status != 0) all = false;
    if (!all) { if (!disturbed) viol("loop_mismatch", "the transmission to %s did not succeed", t->tx.file.c_str()); continue; }
    int n = 1 + (int)g(2);
    for (int i = 0; i < n; i++) {
      auto c = std::make_unique<Cli>(); c->idx = (int)clis.size(); c->g = G{100u + (uint32_t)c->idx}; c->kind = RX; c->leave = L_SHUTDOWN; c->frag = g.pick<double>({0, 0.5});
      uint32_t r = (uint32_t)(t->tx.fs / t->tx.baud);
      c->rx.center = t->tx.center; c->rx.fs = t->tx.fs; c->rx.baud = t->tx.baud; c->rx.dev = t->tx.dev; c->rx.decim = r / 2 >= 4 && g.p(0.5) ? 2 : 1; c->rx.tw = (uint32_t)(c->rx.fs / 24); c->rx.dc = false; c->rx.dest = g.pick<int>({1, 2, 0}); c->rx.dump = g.p(0.4);
      c->rx.offset = -t->tx.offset; c->rx.has_file = true; c->rx.file = t->tx.file; c->rx.dop = t->tx.dop; c->rc.dop = t->tc.dop; c->rx.start = t->tx.start; fix_rx(*c);
      if (g.p(0.3) && !c->rx.dop.on) { c->slow.push_back({g(3) * 5 * MS, 500 * MS}); c->cwindow = true; c->chunk = 64; }
      Cli *x = c.get(); loop_rx.push_back(x); clis.push_back(std::move(c)); start_client(x);
    }
  }
}
static void judge_loop() {
  Bytes all; for (auto &m : loop_tx[0]->msgs) all.insert(all.end(), m.payload.begin(), m.payload.end());
  std::vector<int> bitv; for (auto b : all) for (int k = 7; k >= 0; k--) bitv.push_back(b >> k & 1);
  for (Cli *c : loop_rx) {
    if (!c->ok()) continue;
    Bytes D; if (to_socket(*c)) D = c->D; else { auto it = wr.find(demod_path(c->id())); if (it != wr.end()) D = it->second; }
    const size_t skip = 300; size_t best = SIZE_MAX; int bd = 0;
    for (int d = -20; d <= 40; d++) {
      size_t bad = 0, n = 0; for (size_t k = skip; k < bitv.size(); k++) { long j = (long)k + d; if (j < 0 || j >= (long)D.size()) continue; n++; if (((int8_t)D[j] > 0) != bitv[k]) bad++; }
      if (n + 60 + skip < bitv.size()) bad += 1000000; if (bad < best) { best = bad; bd = d; }
    }
    TRACE("loop client %d: delay %d errors %zu of %zu", c->idx, bd, best, bitv.size());
    if (best && tracing) { for (size_t k = skip; k < bitv.size(); k++) { long j = (long)k + bd; if (j >= 0 && j < (long)D.size() && ((int8_t)D[j] > 0) != bitv[k]) TRACE("wrong bit %zu symbol %d", k, (int)(int8_t)D[j]); } }
    if (best) viol("loop_mismatch", "client %d: at best (delay %d) %zu of the %zu transmitted bits come back wrong or not at all (%zu symbols received)", c->idx, bd, best >= 1000000 ? bitv.size() : best, bitv.size(), D.size());
    else probe(PR_LOOPBACK_OK);
  }
}
static void run_special(int k) { if (k == 1) run_queue(); }

#include "props.inc"
