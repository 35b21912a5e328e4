// Oracles: everything is judged from what peers, the disk and the radio saw, against the reference models.
static const char *kindname(const Cli &c) { return c.kind == RX ? "rx" : c.kind == TX ? "tx" : c.kind == PING ? "ping" : "bad"; }
static bool to_socket(const Cli &c) { return c.rx.dest != 0; }
static bool to_file(const Cli &c) { return c.rx.dest != 1; }
static std::vector<cf> cfs(const std::string &p) { auto it = wr.find(p); std::vector<cf> v; if (it == wr.end()) return v; v.resize(it->second.size() / 8); if (!v.empty()) memcpy(v.data(), it->second.data(), v.size() * 8); return v; }
static bool up_key(const UpConn &u, const proto::Rx &r) { return u.got_req && u.center == (uint32_t)(r.center + r.offset) && u.band == (uint32_t)r.center && u.rate == (uint32_t)r.fs; }
static int64_t wall_at(ns t) { int64_t s = 0; for (auto &k : skews) if (k.first <= t) s = k.second; return wall_base + s + t / SEC; }
static std::vector<int64_t> wall_candidates(ns a, ns b) {
  std::set<int64_t> o; auto range = [&](ns x, ns y, int64_t sk) { for (int64_t s = x / SEC - 0; s <= y / SEC + 0; s++) o.insert(wall_base + sk + s); };
  int64_t sk = 0; ns from = a; for (auto &k : skews) { if (k.first <= a) { sk = k.second; continue; } if (k.first > b) break; range(from, k.first, sk); from = k.first; sk = k.second; } range(from, b, sk);
  return std::vector<int64_t>(o.begin(), o.end());
}
static ns first_write(const std::string &p) { auto it = wrlog.find(p); if (it == wrlog.end()) return -1; for (auto &x : it->second) if (x.second != (size_t)-1) return x.first; return -1; }
static size_t dumped_at(const std::string &p, ns t) { auto it = wrlog.find(p); size_t n = 0; if (it != wrlog.end()) for (auto &x : it->second) { if (x.first > t) break; if (x.second != (size_t)-1) n = x.second / 8; } return n; }

// ------------------------------------------------------------------------------------------------ receive sessions
struct View { bool ok = false, exact = false; int u = -1; size_t start = 0, end = 0; std::vector<cf> P; bool gaps = false; };
static std::vector<cf> mix_ref(const std::vector<cf> &in, int64_t off, uint64_t fs) {
  if (!off) return in;
  std::vector<cf> o(in.size()); float ph = 0, step = (float)(2 * M_PI) * (float)off / (float)fs; const float T2 = (float)(2 * M_PI);
  for (size_t i = 0; i < in.size(); i++) { float a = (float)cos((double)ph), b = (float)sin((double)ph); o[i].re = in[i].re * a - in[i].im * b; o[i].im = in[i].re * b + in[i].im * a; ph += step; if (ph < -T2) ph += T2; if (ph > T2) ph -= T2; }
  return o;
}
static PlutoRx *pluto_of(const Cli &c) {
  PlutoRx *r = nullptr; int n = 0; for (auto &p : prx) if (p->t_open >= c.t_req0 && (c.t_resp < 0 || p->t_open <= c.t_resp)) { r = p.get(); n++; }
  return n > 1 && disturbed ? nullptr : r;   // with failing devices it may be an earlier one
}
static void check_gap(const Cli &c, const UpConn &u, size_t g0, size_t g1, size_t i0) {  // samples [g0,g1) missing after dump index i0
  probe(PR_OVERFLOW_DROP);
  if (!F_(F_DROPS)) { viol("dump_gap", "client %d: samples %zu..%zu of upstream connection %d were received but not processed (queue of %d buffers never full)", c.idx, g0, g1, u.idx, C.Q); return; }
  if (!u.paused() && !u.plan.end && (g0 % C.B || (g1 % C.B && g1 != u.S.size()))) viol("dump_gap", "client %d: samples %zu..%zu are missing, which is not a whole number of buffers of %d", c.idx, g0, g1, C.B);
  if (C.Q >= 2 && !u.paused()) {
    ns t = u.time_received(std::min(u.total, (g0 + 2 * (size_t)C.B) * 8)); size_t n = dumped_at(dump_path(c.id()), t);
    if (t >= 0 && (int64_t)n > (int64_t)i0 - (int64_t)(C.Q - 2) * C.B && g0 + 2 * (size_t)C.B <= u.S.size())
      viol("drop_unjustified", "client %d: buffer at sample %zu was discarded although only %zu samples were waiting (queue of %d buffers of %d)", c.idx, g0, i0 - n, C.Q, C.B);
  }
}
static View view_of(const Cli &c) {
  View v; std::string dp = dump_path(c.id());
  if (C.rx == RX_SDR) {
    if (c.rx.dump) {
      v.P = cfs(dp); v.exact = true; v.ok = true;
      size_t prev = 0;
      for (size_t i = 0; i < v.P.size(); i++) {
        auto it = vindex.find(bits(v.P[i]));
        if (it == vindex.end()) { viol("dump_mismatch", "client %d: sample %zu processed for it was never sent by the upstream server", c.idx, i); v.ok = false; return v; }
        int u = it->second.first; size_t p = it->second.second;
        if (v.u < 0) { v.u = u; v.start = p; if (!up_key(*ups[u], c.rx)) { viol("dump_mismatch", "client %d is served from upstream connection %d, which has other parameters", c.idx, u); v.ok = false; return v; } }
        else if (u != v.u) { viol("dump_mismatch", "client %d: sample %zu comes from upstream connection %d, earlier ones from %d", c.idx, i, u, v.u); v.ok = false; return v; }
        else if (p <= prev) { viol("dump_mismatch", "client %d: sample %zu of the connection is processed after sample %zu", c.idx, p, prev); v.ok = false; return v; }
        else if (p != prev + 1) { v.gaps = true; check_gap(c, *ups[u], prev + 1, p, i); }
        prev = p;
      }
      if (!v.P.empty()) v.end = prev + 1;
      if (wr[dp].size() % 8 && !wr_failed.count(dp)) viol("dump_mismatch", "client %d: the sample recording ends inside a sample", c.idx);
      if (v.u < 0) {  // nothing processed yet: the connection it is attached to
        for (auto &u : ups) if (up_key(*u, c.rx) && u->accepted && (c.t_resp < 0 || u->t_conn <= c.t_resp)) v.u = u->idx;
        if (v.u >= 0) v.start = v.end = 0;
      }
      probe(PR_DUMP_CMP);
    } else {
      for (auto &u : ups) if (up_key(*u, c.rx) && u->accepted && u->t_conn >= c.t_req0 && u->t_conn <= c.t_resp) v.u = u->idx;
      if (v.u < 0) { if (!disturbed) viol("upstream_params", "client %d was accepted without an upstream connection of its own", c.idx); return v; }
      UpConn &u = *ups[v.u]; v.end = std::min(u.S.size(), u.received_at(now()) / 8); v.P.assign(u.S.begin(), u.S.begin() + v.end); v.ok = true;
    }
  } else {
    std::vector<cf> X; float tol = 0;
    if (C.rx == RX_FILE) { auto it = infile.find(c.rx.file); std::vector<cf> raw; if (it != infile.end()) raw = it->second; else raw = cfs(c.rx.file); X = mix_ref(raw, c.rx.offset, c.rx.fs); tol = c.rx.offset ? 2e-3f : 0; }
    else { PlutoRx *p = pluto_of(c); if (!p) return v; X = p->S; tol = 1e-6f; }
    if (c.rx.dump) {
      v.P = cfs(dp); v.exact = true; probe(PR_DUMP_CMP);
      if (v.P.size() > X.size()) { viol("dump_mismatch", "client %d: %zu samples were processed but the source has only %zu", c.idx, v.P.size(), X.size()); return v; }
      for (size_t i = 0; i < v.P.size(); i++) if (!(fabsf(v.P[i].re - X[i].re) <= tol && fabsf(v.P[i].im - X[i].im) <= tol)) { viol("dump_mismatch", "client %d: sample %zu processed for it is (%g,%g), the source has (%g,%g)", c.idx, i, v.P[i].re, v.P[i].im, X[i].re, X[i].im); return v; }
    } else v.P = X;
    v.end = v.P.size(); v.ok = true;
  }
  return v;
}
struct Expect { std::vector<int8_t> out; std::vector<uint64_t> need; size_t limit = 0; int tol = 3; bool dop = false; double mean = 2.5; size_t slip = 2; size_t count(uint64_t n) const { return std::upper_bound(need.begin(), need.end(), n) - need.begin(); } };
static Expect expect_of(const Cli &c, const std::vector<cf> &P, int64_t start) {
  Expect e; RxCfg rc = c.rc;
  if (world::P.special == 2) { e.tol = 24; if (rc.dop.on) { RxOut r = rx_ref(rc, P.data(), P.size()); e.out = r.out; e.need = r.need; return e; } }   // no noise: ties in the choice of the interpolation filter are common; the bits are what counts
  if (!rc.dop.on) { RxOut r = rx_ref(rc, P.data(), P.size()); e.out = r.out; e.need = r.need; e.limit = std::min(r.ill, r.out.size()); return e; }
  rc.dop.start = start; double lag; { DopplerRef d(rc.dop); double drift = 0; for (size_t s = 0; s <= P.size() / rc.fs; s++) drift = std::max(drift, fabs(d.shift((double)s + 1, 1) - d.shift((double)s, 1))); lag = drift * std::min(1.0, (double)C.B / (double)rc.fs) * 1.05; }   // the correction may be a buffer late
  if (tracing) { DopplerRef d(rc.dop); for (int q = 0; q < 8; q++) TRACE("shift %d %.3f", q, d.shift(q, 1)); TRACE("start %lld fs %d B %d %s", (long long)start, (int)rc.fs, C.B, rc.dop.tle[0].c_str()); }
  e.mean = 1.5 + 127.0 / fabs((double)rc.dev) * (lag + 1.5);
  RxOut r = rx_ref(rc, P.data(), P.size()), a = rx_ref(rc, P.data(), P.size(), lag + 3), b = rx_ref(rc, P.data(), P.size(), -lag - 3);
  e.out = r.out; e.need = r.need; e.limit = std::min(std::min(r.ill, r.out.size()), std::min(std::min(a.ill, a.out.size()), std::min(b.ill, b.out.size())));
  for (size_t i = 0; i < e.limit; i++) if (abs(a.out[i] - b.out[i]) > 12) { e.limit = i; break; }
  e.tol = 24; e.dop = true;
  for (auto *x : {&a, &b}) { size_t n = x->out.size(), m = r.out.size(); e.slip = std::max(e.slip, 2 * (n > m ? n - m : m - n) + 2); }
  size_t sat = 0; for (auto x : r.out) sat += abs((int)x) > 120; if (sat * 2 > r.out.size()) e.slip += r.out.size() / 100;   // mostly outside the demodulator's range: little is known about its timing
  return e;
}
// first differing symbol, or -1
static long differs(const Expect &e, const Bytes &D) {
  size_t n = std::min(e.limit, D.size()); auto d = [&](size_t i) { return abs((int)(int8_t)D[i] - (int)e.out[i]); };
  // a tie between two neighbouring interpolation filters changes a few symbols a little
  if (!e.dop) { std::deque<size_t> near; for (size_t i = 0; i < n; i++) { if (d(i) > std::max(e.tol, 12)) return (long)i; if (d(i) > e.tol) { near.push_back(i); if (near.size() > 10) near.pop_front(); if (near.size() == 10 && i - near.front() < 50) return (long)near.front(); } } return -1; }
  // The correction is computed with other arithmetic: the timing loop may be a few 1/128 of a sample off. Many wrong
  // symbols close together, or a wrong average (a wrong frequency), are not explained by that.
  std::deque<size_t> far; double sum = 0, last = 0; int m = 0;
  for (size_t i = 0; i < n; i++) {
    if (d(i) > e.tol) { far.push_back(i); if (far.size() > 140) far.pop_front(); if (far.size() == 140 && i - far.front() < 250) {
      double xx = 0, yy = 0, xy = 0; for (size_t j = far.front(); j <= i; j++) { double x = (int8_t)D[j], y = e.out[j]; xx += x * x; yy += y * y; xy += x * y; }
      TRACE("correlation %g over %zu..%zu", xy / sqrt(xx * yy + 1), far.front(), i);
      if (xy < 0.5 * sqrt(xx * yy) + 1) return (long)far.front(); far.clear(); } }
    int x = (int8_t)D[i], y = e.out[i]; if (abs(x) > 120 || abs(y) > 120) continue;
    sum += x - y; if (++m == 150) { double q = sum / m; if (tracing) TRACE("window %zu %g", i, q); if (fabs(q) > e.mean) { TRACE("mean %g of %g at %zu", q, e.mean, i); if (fabs(q) > 2.5 * e.mean || (last && (q > 0) == (last > 0))) return (long)i; last = q; } else last = 0; sum = 0; m = 0; }   // one window may be off by chance
  }
  return -1;
}
// A difference was found: is the timing loop at a tie there? More variants of the same samples, a fraction of the tolerance apart.
static bool refine(const Cli &c, const std::vector<cf> &P, int64_t start, Expect &e) {
  RxCfg rc = c.rc; rc.dop.start = start; size_t l0 = e.limit; probe(PR_DOPPLER_REFINED);
  std::vector<cf> Q;
  for (double b : {1.0, -1.0, 0.4, -0.4, 2.0, -2.0, 0.1, -0.1, 0.2, -0.2, 0.55, -0.55, 0.7, -0.7, 0.85, -0.85, 0.99, -0.99}) {
    if (!rc.dop.on) { if (fabs(b) < 1 && fabs(b) != 0.4 && fabs(b) != 0.1) continue; Q = P; for (size_t i = 0; i < Q.size(); i++) { float k = 1.0f + (float)(b * 1e-5) * ((float)(((i + 77) * 2654435761u) >> 16 & 0xff) / 127.5f - 1); Q[i].re *= k; Q[i].im *= 2 - k; } }   // as much as another order of additions
    RxOut r = rc.dop.on ? rx_ref(rc, P.data(), P.size(), b) : rx_ref(rc, Q.data(), Q.size()); size_t n = std::min(e.limit, r.out.size()); e.limit = std::min(e.limit, std::max(n, (size_t)1)); e.limit = std::min(e.limit, std::max(r.ill, (size_t)1));
    for (size_t i = 0; i < n; i++) if (abs(r.out[i] - e.out[i]) > 12) { e.limit = i; break; }
  }
  return e.limit != l0;
}
static void compare_bytes(const Cli &c, const char *what, const char *cls, const Expect &e, const Bytes &D, size_t lo, bool exact) {
  probe(PR_STREAM_CMP); probe(PR_STREAM_BYTES, D.size());
  long k = differs(e, D);
  TRACE("limit %zu of %zu %s", e.limit, e.out.size(), cls);
  if (k >= 0 && tracing && getenv("SIM_DIFF")) for (long i = 0; i < k; i++) TRACE("byte %ld: %d, expected %d", i, (int)(int8_t)D[i], (int)e.out[i]);
  if (k >= 0 && tracing) for (long i = std::max(0L, k - 6); i < std::min((long)D.size(), k + 12); i++) TRACE("byte %ld: %d, expected %d, bound %zu", i, (int)(int8_t)D[i], (int)e.out[i], e.limit);
  if (k >= 0) { viol(cls, "client %d: byte %ld of its %s is %d, the demodulation of its samples gives %d (%zu bytes, %zu expected)", c.idx, k, what, (int)(int8_t)D[k], (int)e.out[k], D.size(), e.out.size()); return; }
  if (e.limit < e.out.size()) probe(PR_STREAM_SKIP_ILL);
  size_t tolc = world::P.special == 2 ? 2 + e.out.size() / 100 : e.limit < e.out.size() ? 3 + (e.out.size() - e.limit) / 20 : e.dop ? e.slip : 0;
  if (D.size() > e.out.size() + tolc) viol(cls, "client %d: its %s has %zu bytes, more than the %zu its samples can give", c.idx, what, D.size(), e.out.size());
  if (exact && D.size() + tolc < e.out.size()) viol(strcmp(cls, "stream_mismatch") ? cls : "stream_incomplete", "client %d: its %s has %zu bytes, the samples processed for it give %zu", c.idx, what, D.size(), e.out.size());
  else if (D.size() + tolc < lo) viol(strcmp(cls, "stream_mismatch") ? cls : "stream_incomplete", "client %d: its %s has %zu bytes, the samples received for it give at least %zu", c.idx, what, D.size(), lo);
}
static bool disk_failed(const Cli &c) { return wr_failed.count(dump_path(c.id())) || wr_failed.count(demod_path(c.id())); }
// final: the session is over
static void judge_rx(Cli &c, bool final) {
  if (!c.ok() || c.kind != RX) return;
  View v = view_of(c);
  if (!v.ok) return;
  UpConn *u = C.rx == RX_SDR && v.u >= 0 ? ups[v.u].get() : nullptr;
  bool polite = c.left && (c.leave == L_SHUTDOWN || c.leave == L_HALF) && c.eof && !c.rst, gone = c.eof || c.rst, dfail = disk_failed(c);
  bool up_over = u && u->ended && u->t_shut < 0 && (t_stop < 0 || (u->t_end >= 0 && u->t_end + slack() < t_stop)) && (!c.left || (u->t_end >= 0 && u->t_end + slack() < c.t_left));
  // lower bound of the samples that had to be processed
  size_t lo = 0; const char *why = "";
  if (C.rx == RX_SDR && u) {
    if (!final) { if (!gone && !c.left) { lo = u->received_at(now() - (C.T + 1) * SEC - stall_total) / 8; why = "pause"; } }
    else if (dfail || (disturbed && gone && !c.left)) lo = 0;
    else if (up_over && gone && !c.rst && !c.left) { lo = u->received_at(now()) / 8; why = "upstream end"; probe(PR_EOF_DELIVERED); }
    else if (polite) { lo = u->received_at(t_stop >= 0 ? std::min(t_stop, c.t_left) : c.t_left) / 8; lo = lo > (size_t)C.B ? lo - C.B : 0; why = "polite leave"; }
    else if (!c.left && c.eof && t_stop >= 0 && c.t_eof >= t_stop) { lo = u->received_at(t_stop) / 8; lo = lo > (size_t)C.B ? lo - C.B : 0; why = "server stop"; }
  } else if (C.rx == RX_FILE) {
    if (final ? (polite && !c.early && phase_leave && (t_stop < 0 || c.t_eof < t_stop)) : (!gone && !c.left)) { lo = v.exact ? (infile.count(c.rx.file) ? infile[c.rx.file].size() : v.end) : v.end; why = "whole file"; }
  } else if (C.rx == RX_PLUTO) {
    PlutoRx *p = pluto_of(c); if (p && !final && !gone && !c.left && p->t_close < 0 && !p->failed) { lo = p->S.size() > 2 * p->n ? p->S.size() - 2 * p->n : 0; why = "pause"; }
  }
  if (dfail) lo = 0;
  if (v.exact) {
    if (u && lo > 0 && v.P.empty() && v.start < lo) { size_t late = u->received_at(c.t_resp + slack()) / 8; if (late + C.B < lo) viol("dump_gap", "client %d: no sample was processed for it although %zu were received (%s)", c.idx, lo, why); }
    else if (v.end < lo && !(F_(F_DROPS) && C.Q == 1)) viol(C.rx == RX_FILE ? "file_incomplete" : "dump_gap", "client %d: samples up to %zu were received (%s), only those up to %zu were processed for it", c.idx, lo, why, v.end);
    if (u && !v.P.empty()) {  // where the session may start
      // it is the first one of its connection when no one else could have caused the connection
      bool own = u->t_conn >= c.t_req0 && u->t_conn <= c.t_resp; for (auto &o : clis) if (o.get() != &c && (o->kind == RX || o->is_rx_req) && same_key(o->rx, c.rx) && o->t_req0 >= 0 && o->t_req0 <= u->t_conn && (o->t_resp < 0 || o->t_resp >= u->t_conn)) own = false;
      size_t r0 = u->received_at(c.t_req0) / 8, r1 = u->received_at(c.t_resp + slack()) / 8;
      if (own && v.start != 0) viol("dump_gap", "client %d opened upstream connection %d but its first processed sample is number %zu", c.idx, u->idx, v.start);
      if (v.start + C.B < r0) viol("dump_mismatch", "client %d got samples from %zu on, received before it connected (%zu)", c.idx, v.start, r0);
      if (v.start > r1 + (F_(F_DROPS) ? (size_t)C.B * 4 + u->S.size() : 0)) viol("dump_gap", "client %d joined when %zu samples were received, its first one is %zu", c.idx, r1, v.start);
      if (u->t_conn < c.t_req0) { probe(PR_SHARED_UPSTREAM); if (v.start > 0) probe(PR_JOIN_LATE); }
    }
  }
  bool whole = !v.exact && !final ? false : true; (void)whole;
  std::vector<int64_t> starts{c.rc.dop.start};
  if (c.rc.dop.on && c.rc.dop.start == 0) {
    ns fw = first_write(c.rx.dump ? dump_path(c.id()) : to_file(c) ? demod_path(c.id()) : ""); if (fw < 0) fw = c.t_resp + 5 * SEC + C.H + stall_total;
    if (to_file(c) || c.rx.dump) {} else fw = std::min(now(), c.t_resp + (C.T + 5) * SEC + C.H * 2 + stall_total);
    starts = wall_candidates(c.t_req0, fw);
  }
  Bytes DF; auto wi = wr.find(demod_path(c.id())); if (wi != wr.end()) DF = wi->second;
  Expect e; bool have = false;
  for (auto s : starts) {
    e = expect_of(c, v.P, s); have = true; if (differs(e, c.D) < 0 && differs(e, DF) < 0) break;
    if (refine(c, v.P, s, e)) { if (differs(e, c.D) < 0 && differs(e, DF) < 0) break; }
  }
  if (!have) return;
  if (c.rc.dop.on) probe(PR_DOPPLER_RX);
  const char *cls = c.rc.dop.on ? "doppler_mismatch" : "stream_mismatch";
  size_t lob = v.exact ? 0 : e.count(lo);
  bool complete = (!final && !gone && !c.left) || (final && (polite || (c.eof && !c.left && !c.rst)) && !dfail && !(disturbed && !polite));
  if (complete && !final && C.rx == RX_PLUTO && v.exact) { complete = false; lob = e.count(lo); }   // samples keep coming
  if (to_socket(c)) compare_bytes(c, "stream", cls, e, c.D, lob, complete && v.exact);
  else if (!c.D.empty()) viol("extra_bytes", "client %d asked for a file only but got %zu bytes on its socket", c.idx, c.D.size());
  if (to_file(c)) {
    compare_bytes(c, "demodulated recording", c.rc.dop.on ? "doppler_mismatch" : "demodfile_mismatch", e, DF, lob, v.exact && !dfail && (final || complete));
    if (to_socket(c)) {
      size_t n = std::min(DF.size(), c.D.size()); for (size_t i = 0; i < n; i++) if (DF[i] != c.D[i]) { viol("demodfile_mismatch", "client %d: byte %zu of its recording is %d, its socket got %d", c.idx, i, (int)(int8_t)DF[i], (int)(int8_t)c.D[i]); break; }
      if (c.D.size() > DF.size()) viol("demodfile_mismatch", "client %d: its recording has %zu bytes, its socket got %zu", c.idx, DF.size(), c.D.size());
      else if (complete && (final || C.rx != RX_PLUTO) && c.D.size() != DF.size()) viol("demodfile_mismatch", "client %d: its recording has %zu bytes, its socket got %zu", c.idx, DF.size(), c.D.size());
    }
  } else if (!DF.empty()) viol("foreign_file", "client %d did not ask for a recording but %zu bytes were written to %s", c.idx, DF.size(), demod_path(c.id()).c_str());
  if (C.rx == RX_FILE) probe(PR_FILE_STREAM);
}
static bool ended_by_source(const Cli &c) {
  if (C.rx == RX_SDR) { for (auto &u : ups) if (up_key(*u, c.rx) && u->ended && u->t_shut < 0 && u->t_end + slack() >= c.t_req0) return true; return false; }
  if (C.rx == RX_PLUTO) { PlutoRx *p = pluto_of(c); return !p || p->failed; }
  return false;
}
static void check_progress(Cli *slow) {
  if (C.rx == RX_FILE) return;
  ns past = now() - (C.T + 2) * SEC - stall_total - C.H;
  for (auto &u : ups) if (u->accepted && !u->ended && !u->shut) {
    size_t s = 0; for (auto &x : u->sentlog) if (x.first <= past) s = x.second;
    if (u->received_at(now()) < s) viol("slow_blocks_others", "while client %d does not read, upstream connection %d is not read either (%zu of %zu bytes)", slow->idx, u->idx, u->received_at(now()), s);
  }
  if (C.rx != RX_SDR) return;
  for (auto &p : clis) {
    Cli &c = *p; if (&c == slow || c.kind != RX || !c.ok() || c.left || c.eof || c.rst || c.in_slow || !c.slow.empty() || !c.rx.dump || !to_socket(c) || c.rc.dop.on) continue;
    UpConn *u = nullptr; auto d = cfs(dump_path(c.id())); if (!d.empty()) { auto it = vindex.find(bits(d.back())); if (it != vindex.end()) u = ups[it->second.first].get(); }
    if (!u) continue;
    size_t need = u->received_at(past) / 8, got = vindex[bits(d.back())].second + 1;
    if (got + C.B < need) viol("slow_blocks_others", "while client %d does not read, client %d is served up to sample %zu of %zu", slow->idx, c.idx, got, need);
    size_t want = rx_ref(c.rc, d.data(), d.size()).count(dumped_at(dump_path(c.id()), past)); if (c.D.size() + 3 < want) viol("slow_blocks_others", "while client %d does not read, client %d got %zu bytes of %zu", slow->idx, c.idx, c.D.size(), want);
  }
}
// ------------------------------------------------------------------------------------------------ transmit sessions
static bool near(const cf &a, const cf &b, float tol) { return fabsf(a.re - b.re) <= tol && fabsf(a.im - b.im) <= tol; }
static void judge_tx(Cli &c) {
  if (!c.ok() || c.kind != TX || c.framing_lost) return;
  std::vector<cf> dev; std::vector<size_t> fails; float tol = 0.05f;
  if (C.tx == TX_FILE) { dev = cfs(c.tx.file); fails = c.fail_pos; }
  else {
    PlutoTx *s = nullptr; for (auto &p : ptx) if (p->t_open >= c.t_req0 && p->t_open <= c.t_resp) s = p.get();
    if (!s) { viol("tx_mismatch", "client %d was accepted for transmission but the radio was not opened", c.idx); return; }
    size_t to = s->t_close < 0 ? iio.tx_samples.size() / 2 : s->to; for (size_t i = s->from; i < to; i++) dev.push_back(cf{iio.tx_samples[2 * i] / 32768.0f, iio.tx_samples[2 * i + 1] / 32768.0f}); fails = s->fails;
  }
  bool dop = c.tc.dop.on; TxRef m(c.tc, c.tc.offset != 0 && !dop); size_t pos = 0, fi = 0; std::vector<cf> X; const size_t per = (size_t)8 * m.sps;   // X: expected (without the shift when Doppler is on)
  bool tail = false; bool torn = false; size_t mi = 0; std::vector<std::pair<size_t, size_t>> cuts;
  for (auto &g : c.msgs) {
    size_t k = mi++;
    if (g.t_sent < 0) break;
    if (g.kind) {
      if (tx_answered(g) && g.status >= 0 && !tail) { if (g.status == 0) viol("tx_mismatch", "client %d: message %zu is %s but was answered with success", c.idx, k, g.kind == 2 ? "too long" : "malformed"); else { probe(PR_REJECT_CODE_CHECK); if (g.details != 1 && !disturbed) viol("bad_verdict", "client %d: rejected message %zu got reason %u", c.idx, k, g.details); } }
      if (tx_answered(g) && g.status < 0) tail = true;
      continue;
    }
    if (g.status < 0) tail = true;
    if (!tail && g.status != 0) {
      if (g.details == 1) { if (!disturbed) viol("bad_verdict", "client %d: valid message %zu was rejected as invalid", c.idx, k); continue; }
      if (fi >= fails.size()) { viol("tx_mismatch", "client %d: message %zu was answered with a failure but the device did not fail", c.idx, k); return; }
      size_t f = fails[fi++]; if (f < pos) { viol("tx_mismatch", "client %d: device failure before message %zu", c.idx, k); return; }
      TxRef full = m; std::vector<cf> E; full.feed(g.payload.data(), g.payload.size(), E); size_t n = f - pos;
      if (n > E.size()) { viol("tx_mismatch", "client %d: %zu samples of the failed message %zu were transmitted, it has only %zu", c.idx, n, k, E.size()); return; }
      X.insert(X.end(), E.begin(), E.begin() + n); pos += n; cuts.push_back({pos, n});
      size_t bytes = std::min(g.payload.size(), (n / (per * C.B) + 1) * (size_t)C.B); std::vector<cf> junk; m.feed(g.payload.data(), bytes, junk);
      torn = true;
      continue;
    }
    if (!tail) { if (fi < fails.size()) { std::vector<cf> E; TxRef q = m; q.feed(g.payload.data(), g.payload.size(), E); if (fails[fi] < pos + E.size()) { viol("tx_lost", "client %d: message %zu was answered with success although the device failed at sample %zu", c.idx, k, fails[fi]); return; } } m.feed(g.payload.data(), g.payload.size(), X); pos = X.size(); }
    else {
      if (!g.sent_full) break;
      m.feed(g.payload.data(), g.payload.size(), X);
    }
  }
  size_t certain = pos; if (tail && fi < fails.size()) { if (X.size() > fails[fi]) X.resize(fails[fi]); if (dev.size() > X.size()) dev.resize(X.size()); }
  if (!tail && dev.size() > X.size()) { viol("tx_extra", "client %d: %zu samples were transmitted, its acknowledged messages have %zu", c.idx, dev.size(), X.size()); return; }
  if (dev.size() > X.size()) { viol("tx_extra", "client %d: %zu samples were transmitted, all its complete messages have %zu", c.idx, dev.size(), X.size()); return; }
  if (dev.size() < certain) { viol("tx_lost", "client %d: %zu samples were transmitted, its acknowledged messages have %zu", c.idx, dev.size(), certain); return; }
  probe(PR_TX_CMP); probe(PR_TX_SAMPLES, dev.size());
  if (!dop) { for (size_t i = 0; i < dev.size(); i++) if (!near(dev[i], X[i], tol)) { viol("tx_mismatch", "client %d: transmitted sample %zu is (%g,%g), the modulation of its data gives (%g,%g)", c.idx, i, dev[i].re, dev[i].im, X[i].re, X[i].im); return; } }
  else if (!torn && dev.size() > 300) {
    probe(PR_DOPPLER_TX);
    std::vector<double> ph(dev.size()); double maxmag = 0; for (size_t i = 0; i < dev.size(); i++) { double re = (double)dev[i].re * X[i].re + (double)dev[i].im * X[i].im, im = (double)dev[i].im * X[i].re - (double)dev[i].re * X[i].im; ph[i] = atan2(im, re); maxmag = std::max(maxmag, fabs(hypot(re, im) - 1)); }
    if (maxmag > 0.05) { viol("doppler_mismatch", "client %d: the transmitted amplitude is off by %g", c.idx, maxmag); return; }
    std::vector<double> inc(dev.size(), 0); for (size_t i = 1; i < dev.size(); i++) { double d = ph[i] - ph[i - 1]; while (d > M_PI) d -= 2 * M_PI; while (d < -M_PI) d += 2 * M_PI; inc[i] = d; }
    std::vector<int64_t> starts{c.tc.dop.start};
    if (c.tc.dop.start == 0) { ns fw = -1; if (C.tx == TX_FILE) fw = first_write(c.tx.file); if (fw < 0) { fw = now(); for (auto &g : c.msgs) if (g.t_resp >= 0 && !g.payload.empty()) { fw = g.t_resp; break; } } starts = wall_candidates(c.t_req0, fw); }
    std::string bad; size_t maxb = 0; for (auto &g : c.msgs) maxb = std::max(maxb, std::min(g.payload.size(), (size_t)C.B) * per);
    for (auto s : starts) {
      bad = ""; DopplerCfg dc = c.tc.dop; dc.start = s; DopplerRef d(dc); double fs = (double)c.tc.fs; double f0 = 0, f1 = 0; size_t sec = (size_t)-1;
      const size_t win = 240;
      for (size_t i = 1; i + win <= dev.size() && bad.empty(); i += win) {
        size_t mid = i + win / 2; if (mid / c.tc.fs != sec) { sec = mid / c.tc.fs; f0 = d.shift((double)sec, -1); f1 = d.shift((double)sec + 1, -1); }
        double want = f0 + (f1 - f0) * (double)(mid % c.tc.fs) / fs + (double)c.tc.offset, sum = 0; for (size_t j = i; j < i + win; j++) sum += remainder(inc[j] - 2 * M_PI * want / fs, 2 * M_PI);
        if (fabs(want) > fs * 0.95) break;   // not representable at this sampling rate
        double got = want + sum / win * fs / (2 * M_PI), tolf = fabs(f1 - f0) * ((double)std::max(maxb, win) / fs) * 1.05 + 2.0;
        if (fabs(got - want) > tolf) { char b[200]; snprintf(b, sizeof b, "around sample %zu the transmission is shifted by %.1f Hz, the correction is %.1f Hz", mid, got, want); TRACE("tolf %g f0 %g f1 %g maxb %zu", tolf, f0, f1, maxb); bad = b; }
        for (size_t j = i; j < i + win && bad.empty(); j++) { double e = inc[j] - 2 * M_PI * want / fs; while (e > M_PI) e -= 2 * M_PI; while (e < -M_PI) e += 2 * M_PI; if (fabs(e) > 0.03 + 2 * M_PI * tolf / fs) { char b[200]; snprintf(b, sizeof b, "the phase jumps by %.3f rad at sample %zu", e, j); bad = b; } }
      }
      if (bad.empty()) break;
    }
    if (!bad.empty()) { viol("doppler_mismatch", "client %d: %s", c.idx, bad.c_str()); return; }
  }
  if (c.tx.dump) {
    std::string p = txdump_path(c.id()); auto dd = cfs(p);
    if (fails.empty() && !wr_failed.count(p)) {
      if (dd.size() < dev.size() || (dd.size() > dev.size() && !tail)) viol("tx_dump_mismatch", "client %d: its recording has %zu samples, the device got %zu", c.idx, dd.size(), dev.size());
      for (size_t i = 0; i < std::min(dd.size(), dev.size()); i++) if (!near(dd[i], dev[i], C.tx == TX_FILE ? 0 : 1e-4f)) { viol("tx_dump_mismatch", "client %d: sample %zu of its recording is (%g,%g), the device got (%g,%g)", c.idx, i, dd[i].re, dd[i].im, dev[i].re, dev[i].im); break; }
    }
  } else if (wr.count(txdump_path(c.id())) && !wr[txdump_path(c.id())].empty()) viol("foreign_file", "client %d did not ask for a recording but one was written", c.idx);
}
// ------------------------------------------------------------------------------------------------ ownership and verdicts
static bool wants(const Cli &c, bool tx) { return tx ? (c.kind == TX || (c.kind == BAD && c.is_tx_req)) : (c.kind == RX || (c.kind == BAD && c.is_rx_req)); }
static ns owns_until(const Cli &c) { ns t = INT64_MAX; if (c.left) t = std::min(t, c.t_left); if (c.t_done >= 0) t = std::min(t, c.t_done); if (c.t_eof >= 0) t = std::min(t, c.t_eof - (disturbed ? 100 * MS : 0));   // the end takes a while to arrive
  if (t_stop >= 0) t = std::min(t, t_stop); if (c.e.c && c.e.c->t_killed >= 0) t = std::min(t, c.e.c->t_killed); return t; }
static ns free_margin() { return (C.T + 3) * SEC + stall_total + (C.rx == RX_PLUTO ? 3 * SEC : 0); }
// 1: certainly in use for the whole request, -1: certainly free, 0: unknown
static int in_use(const Cli &x, bool tx) {
  bool maybe = false;
  for (auto &p : clis) {
    Cli &o = *p; if (&o == &x || !wants(o, tx) || o.t_req0 < 0) continue;
    if (o.kind != BAD && o.ok() && o.t_resp + 0 < x.t_req0 && owns_until(o) > x.t_resp) return 1;
    bool before = false;
    if (o.t_req0 > x.t_resp) before = true;                                                        // asked later
    if (o.got_resp && o.status != 0 && o.t_resp + free_margin() < x.t_req0) before = true;          // refused long ago
    if (o.ok() && (o.left || o.t_eof >= 0)) { ns e = std::max(o.left ? o.t_left : 0, o.t_eof); if (e + free_margin() < x.t_req0) before = true; }
    if (!o.got_resp && o.t_done >= 0 && o.t_done + free_margin() + (o.t_resp < 0 ? 60 * SEC : 0) < x.t_req0) before = true;
    if (!before) maybe = true;
  }
  return maybe ? 0 : -1;
}
static bool up_available(const Cli &c, bool &certain) {  // could / must the upstream have accepted this request
  bool good = false, bad = false;
  for (auto &u : ups) if (up_key(*u, c.rx)) {
    if (u->t_conn >= c.t_req0 && u->t_conn <= c.t_resp) { if (u->accepted) good = true; else bad = true; }
    if (u->accepted && u->t_conn < c.t_resp && (u->t_end < 0 || u->t_end + slack() >= c.t_req0)) good = true;
    if (u->accepted && u->t_conn < c.t_resp && (u->t_end >= 0 || u->plan.resp)) bad = true;
  }
  for (auto &d : down) if (d.first <= c.t_resp && (d.second < 0 || d.second >= c.t_req0)) bad = true;
  certain = !bad; return good;
}
static void judge_verdict(Cli &c) {
  if (!c.connected) return;
  bool expects = c.kind != BAD || !(c.bad == B_CLOSE_HDR || c.bad == B_CLOSE_BODY || c.bad == B_EMPTY || c.bad == B_RST || c.bad == B_REQ_CLOSE || c.bad == B_REQ_RST);
  if (!c.got_resp) {
    if (expects && !disturbed && !c.malformed && t_stop < 0 && !stop_sent && c.done && !c.left) viol("no_response", "client %d (%s): its connection was closed without a response", c.idx, kindname(c));
    return;
  }
  probe(PR_REJECT_CODE_CHECK);
  bool late = t_stop >= 0 && c.t_resp >= t_stop; (void)late;
  auto bad = [&](const char *exp) { viol("bad_verdict", "client %d (%s%s): status %d reason %u, expected %s", c.idx, kindname(c), c.kind == BAD ? (" " + std::to_string(c.bad)).c_str() : "", c.status, c.details, exp); };
  if (c.status != 0 && c.status != 1) { bad("a known status"); return; }
  if (c.status == 1 && !(c.details == 1 || c.details == 3 || c.details == 4 || c.details == 5)) { bad("a known reason"); return; }
  if (c.kind == PING || (c.kind == BAD && c.bad == B_PINGBODY)) { if (c.status != 0 || c.details != 0) bad("success"); return; }
  if (c.status == 1 && c.details == 1 && timed_out_by_stall(c.t_req0, c.t_resp)) return;
  bool tx = c.kind == TX || (c.kind == BAD && c.is_tx_req);
  if (c.status == 1 && c.details == (tx ? 5u : 4u)) { bad("the other 'in use' reason"); return; }
  if (c.kind == BAD) {
    if (c.status == 0) { bad("a refusal"); return; }
    if (disturbed) return;
    if (c.expect_det == 1 && c.details != 1) bad("reason 1 (invalid request)");
    if (c.expect_det == -2 && c.details != 1 && c.details != 3 && !(in_use(c, tx) >= 0)) bad("reason 1 or 3");
    return;
  }
  bool exclusive = c.kind == TX || C.rx == RX_PLUTO; unsigned inuse_code = c.kind == TX ? 4 : 5;
  if (c.status == 1 && c.details == 1 && !disturbed) { bad("no complaint about a valid request"); return; }
  if (exclusive) {
    int use = in_use(c, c.kind == TX);
    if (use > 0) { probe(c.kind == TX ? PR_TX_IN_USE : PR_RX_IN_USE); if (c.status == 0) viol(c.kind == TX ? "tx_owner_wrong" : "rx_owner_wrong", "client %d was accepted although another client owns the device", c.idx); else if (c.details != inuse_code && !disturbed) bad("the 'in use' reason"); }
    else if (use < 0) { if (c.status == 1 && c.details == inuse_code) viol(c.kind == TX ? "tx_owner_wrong" : "rx_owner_wrong", "client %d was refused as in use although nobody uses the device", c.idx); else if (c.status == 1 && !disturbed) bad("success"); else if (c.status == 0 && !c.is_probe) probe(PR_REACCEPT); }
    else if (c.status == 1 && c.details != inuse_code && !disturbed) bad("success or the 'in use' reason");
    return;
  }
  if (C.rx == RX_FILE) { if (c.status == 1 && !disturbed) bad("success"); else if (c.status == 1 && c.details != 3 && c.details != 1) bad("reason 3"); return; }
  bool certain; bool good = up_available(c, certain);
  if (c.status == 0 && !good) bad("a refusal: the upstream server did not accept any connection for it");
  if (c.status == 1 && c.details != 3 && !disturbed) bad("reason 3");
  if (c.status == 1 && certain && !disturbed) bad("success");
}
static void check_pluto_open(bool tx) {
  auto at = [](const std::string &k) { auto it = iio.attrs.find(k); return it == iio.attrs.end() ? std::string("(unset)") : it->second; };
  const Cli *c = nullptr; for (auto &p : clis) if (wants(*p, tx) && p->t_req0 >= 0 && !p->got_resp) { if (c) { c = nullptr; break; } c = p.get(); }
  for (size_t i = 0; i + 1 < (tx ? ptx.size() : prx.size()); i++) if ((tx ? ptx[i]->t_close : prx[i]->t_close) < 0) viol(tx ? "tx_two_owners" : "rx_two_owners", "the radio is opened for %s twice", tx ? "transmission" : "reception");
  size_t n = tx ? ptx.back()->n : prx.back()->n; if ((int)n != C.B) viol("pluto_config", "the %s buffer has %zu samples, %d are configured", tx ? "transmit" : "receive", n, C.B);
  if (disturbed || !c) return;   // several requests at once: which one this is cannot be told
  uint64_t fs = tx ? c->tx.fs : c->rx.fs, fc = tx ? c->tx.center : c->rx.center + c->rx.offset; std::string e;
  auto want = [&](const std::string &k, const std::string &v) { if (at(k) != v) e += k + "=" + at(k) + " instead of " + v + "; "; };
  std::string ch = std::string("ad9361-phy/voltage0:") + (tx ? "out" : "in");
  const Tun &t = tun; char gn[64]; snprintf(gn, sizeof gn, "%.6f", tx ? t.tx_gain : t.rx_gain);
  want(ch + "/rf_bandwidth", std::to_string((long long)fs)); want(ch + "/hardwaregain", gn); if (!tx) want(ch + "/gain_control_mode", "manual");
  if (iio.timeout != t.timeout) e += "timeout=" + std::to_string(iio.timeout) + " instead of " + std::to_string(t.timeout) + "; ";
  std::string side = tx ? "cf-ad9361-dds-core-lpc" : "cf-ad9361-lpc"; if (!iio_enabled(side, "voltage0") || !iio_enabled(side, "voltage1")) e += "not both of I and Q are enabled; ";
  if (tx) { for (auto k : {"TX1_I_F1", "TX1_Q_F1", "TX1_I_F2", "TX1_Q_F2"}) want(side + "/" + k + ":out/raw", "0"); want("ad9361-phy/altvoltage1:out/powerdown", "0"); }
  else { bool txuser = false; for (auto &p : clis) if (wants(*p, true) && p->t_req0 >= 0) txuser = true; if (!txuser) want("ad9361-phy/altvoltage1:out/powerdown", "1"); }
  // the decimating filter the rate needs
  if (fs >= 2083334) want("ad9361-phy/in_out_voltage_filter_fir_en", "0");
  else {
    want("ad9361-phy/in_out_voltage_filter_fir_en", "1"); int d = fs < 1041667 ? 4 : 2, got = -1, col = 0; std::vector<int> taps; std::string cfg = at("ad9361-phy/filter_fir_config"); size_t pos = 0; (void)col;
    while (pos < cfg.size()) { size_t q = cfg.find('\n', pos); if (q == std::string::npos) q = cfg.size(); std::string l = cfg.substr(pos, q - pos); pos = q + 1; int a, b; if (sscanf(l.c_str(), tx ? "TX 3 GAIN %d INT %d" : "RX 3 GAIN %d DEC %d", &a, &b) == 2) got = b; else if (sscanf(l.c_str(), "%d,%d", &a, &b) == 2) taps.push_back(tx ? a : b); }
    if (got != d) e += "filter rate change " + std::to_string(got) + " instead of " + std::to_string(d) + "; ";
    // a low pass with the right stop band: DC passes, the alias band does not
    if (taps.size() < 16 || taps.size() > 128) e += "filter with " + std::to_string(taps.size()) + " taps; "; else {
      auto mag = [&](double f) { double re = 0, im = 0; for (size_t i = 0; i < taps.size(); i++) { re += taps[i] * cos(2 * M_PI * f * i); im += taps[i] * sin(2 * M_PI * f * i); } return hypot(re, im); };
      double dc = mag(0), pass = mag(0.3 / d), stop = mag(0.8 / d > 0.5 ? 0.5 : 0.8 / d); TRACE("filter dc %g pass %g stop %g", dc, pass, stop); if (!(pass > dc * 0.8 && pass < dc * 1.25 && stop < dc * 0.05)) e += "the filter is not a low pass for its rate; ";
    }
  }
  want(ch + "/sampling_frequency", std::to_string((long long)fs)); want(std::string("ad9361-phy/altvoltage") + (tx ? "1" : "0") + ":out/frequency", std::to_string((long long)fc));
  if (!e.empty()) viol("pluto_config", "when %s starts: %s", tx ? "transmission" : "reception", e.c_str());
}
// ------------------------------------------------------------------------------------------------ sharing
static const UpConn *conn_of(Cli &c) {
  if (c.rx.dump && ncf(dump_path(c.id()))) { auto d = wr[dump_path(c.id())]; cf x; memcpy(&x, d.data(), 8); auto it = vindex.find(bits(x)); if (it != vindex.end()) return ups[it->second.first].get(); }
  const UpConn *r = nullptr; int n = 0;
  for (auto &u : ups) if (up_key(*u, c.rx) && u->accepted && u->t_conn <= c.t_resp && (u->t_end < 0 || u->t_end + slack() >= c.t_req0)) { r = u.get(); n++; }
  return n == 1 ? r : nullptr;
}
static void judge_sharing() {
  if (C.rx != RX_SDR) return;
  for (auto &pu : ups) {
    UpConn &u = *pu; if (!u.got_req) continue;
    bool asked = false, wild = false; for (auto &p : clis) if ((p->kind == RX || p->is_rx_req) && up_key(u, p->rx) && p->t_req0 >= 0 && p->t_req0 <= u.t_conn && (p->t_resp < 0 || p->t_resp >= u.t_conn)) { asked = true; wild |= p->wild; }
    if (!asked) viol("upstream_share_dup", "upstream connection %d was opened although no client with its parameters was being set up", u.idx);
    for (auto &p : clis) {
      Cli &a = *p; if (a.kind != RX || !a.ok() || !up_key(u, a.rx) || a.t_resp + slack() >= u.t_conn) continue;
      if (owns_until(a) < u.t_conn + slack() || wild) continue;   // (numbers which differ only above 32 bits look the same here)
      const UpConn *ua = conn_of(a); if (!ua || ua == &u || (ua->t_end >= 0 && ua->t_end < u.t_conn + slack()) || !ua->accepted) continue;
      viol("upstream_share_dup", "upstream connection %d was opened while client %d with the same parameters was served from connection %d", u.idx, a.idx, ua->idx);
    }
    if (!u.accepted) continue;
    // the polite end
    ns last = -1; bool anyone = false, unknown = false;
    for (auto &p : clis) {
      Cli &a = *p; if (a.kind != RX || !up_key(u, a.rx)) continue;
      if (!a.ok()) { if (a.t_req0 >= 0 && !a.got_resp) unknown = true; continue; }
      const UpConn *ua = conn_of(a); if (!ua) { if (u.t_conn <= a.t_resp && (u.t_end < 0 || u.t_end + slack() >= a.t_req0)) unknown = true; continue; } if (ua != &u) continue;
      anyone = true; ns e = owns_until(a); last = std::max(last, e == INT64_MAX ? now() : e);
      if (u.t_shut >= 0 && e > u.t_shut && !disturbed && !(u.t_end >= 0 && u.t_end < u.t_shut)) viol("upstream_early_shutdown", "upstream connection %d was shut down at %.6f s while client %d still uses it", u.idx, u.t_shut / 1e9, a.idx);
    }
    for (auto &p : clis) if (p->kind == BAD && p->is_rx_req && up_key(u, p->rx)) unknown = true;
    bool self = u.plan.end && (u.t_shut < 0 || u.ended);
    if (u.t_shut < 0 && !self && !disturbed && !(u.ended && u.t_end >= 0 && !proc.exited)) viol("upstream_no_shutdown", "upstream connection %d was never shut down politely", u.idx);
    if (u.t_shut >= 0 && anyone && !unknown && !disturbed && !u.plan.end && u.t_shut > last + (4 * C.T + 8) * SEC + stall_total * 2 + C.H + (t_stop >= 0 ? (ns)clis.size() * 2 * (C.T + 1) * SEC : 0)) viol("upstream_no_shutdown", "upstream connection %d was shut down only %.1f s after its last client left", u.idx, (u.t_shut - last) / 1e9);
  }
}
// ------------------------------------------------------------------------------------------------ whole run
static void checkpoint() {
  for (auto &p : clis) {
    Cli &c = *p; judge_verdict(c);
    if (c.kind != RX || !c.ok()) continue;
    for (auto &p2 : {dump_path(c.id()), demod_path(c.id())}) { auto f = wr_fail_t.find(p2); if (f != wr_fail_t.end() && !c.eof && !c.rst && !c.left && f->second + (C.T + 1) * SEC + slack() < now()) viol("session_not_ended", "client %d: writing its recording failed %.1f s ago but its session goes on", c.idx, (now() - f->second) / 1e9); }
    bool gone = c.eof || c.rst;
    if (gone && !c.left && !disturbed && !ended_by_source(c) && !(c.midmsg && false)) viol("session_lost", "client %d was disconnected although its source and the server are fine", c.idx);
    if (!gone && !c.left && C.rx == RX_SDR) { const UpConn *u = conn_of(c); if (u && u->ended && u->t_shut < 0 && u->t_end >= 0 && u->t_end + (C.T + 1) * SEC + slack() < now()) viol("eof_missing", "upstream connection %d ended %.1f s ago but client %d was not disconnected", u->idx, (now() - u->t_end) / 1e9, c.idx); }
    judge_rx(c, false);
  }
  for (auto &p : clis) if (p->kind == TX && p->ok() && (p->eof || p->rst) && !p->left && !disturbed) viol("session_lost", "transmit client %d was disconnected although nothing failed", p->idx);
}
static void check_released(const char *when) {
  std::string e; char b[300];
  if (threads_unjoined() != base_threads) { snprintf(b, sizeof b, "%d threads, %d before any session: %s", threads_unjoined(), base_threads, threads_dump().substr(0, 200).c_str()); viol("thread_leak", "%s: %s", when, b); }
  if (fd_count() != base_fds) viol("fd_leak", "%s: %d descriptors, %d before any session: %s", when, fd_count(), base_fds, fd_dump().c_str());
  if (file_handles() != 0) viol("file_leak", "%s: files still open: %s", when, file_dump().c_str());
  if (mem.live_blocks != base_blocks) {
    std::string s; int k = 0; auto m = mem_live(); for (auto it = m.rbegin(); it != m.rend() && k < 3; ++it, k++) s += site_str(it->second.second) + " | ";
    viol("mem_leak", "%s: %llu memory blocks, %llu before any session; newest: %s", when, (unsigned long long)mem.live_blocks, (unsigned long long)base_blocks, s.c_str());
  }
  iio_check_end();
}
static void run_probes() {
  std::vector<Cli *> ps;
  bool rx_busy = false, tx_busy = false; for (auto &c : clis) if (!c->done) { if (c->kind == RX) rx_busy = true; if (c->kind == TX) tx_busy = true; }
  if (!(C.rx == RX_PLUTO && rx_busy)) ps.push_back(add_probe(RX, true));
  if (C.tx != TX_NONE && !tx_busy) ps.push_back(add_probe(TX, true));
  phase_leave = false;
  for (auto c : ps) start_client(c);
  if (!wait_until([&] { for (auto c : ps) if (!c->settled) return false; return ups_sent(); }, resp_bound() * 2)) { viol("probe_failed", "new sessions after everything went back to normal do not get served"); return; }
  for (auto c : ps) if (!c->got_resp || c->status) viol("probe_failed", "a new %s request after everything went back to normal is refused (%d/%u)", kindname(*c), c->status, c->details);
  sleep_ns((C.T + 2) * SEC + (C.rx == RX_PLUTO ? 2 * SEC : 0));
  for (auto c : ps) { if (c->kind == RX && c->ok()) { if (c->eof || c->rst) viol("probe_failed", "a new session is ended by the server"); judge_rx(*c, false); if (to_socket(*c) && c->D.empty()) { View v = view_of(*c); RxOut r = rx_ref(c->rc, v.P.data(), v.P.size()); if (r.out.size()) viol("probe_failed", "a new session gets no data"); } } if (c->kind == TX && c->ok() && (c->msgs[0].status != 0)) viol("probe_failed", "a new transmission is not acknowledged"); }
  phase_leave = true;
  if (!wait_until([&] { for (auto c : ps) if (!c->done) return false; return true; }, leave_bound())) viol("probe_failed", "new sessions do not end");
  sleep_ns(3 * C.T * SEC + slack());
  if (!has_viol()) probe(PR_PROBE_OK);
}
static void check_exit() {
  bool early = proc.killed_by && proc.handler[SIGTERM] == nullptr;
  if (!early) {
    if (proc.killed_by) viol("exit_killed", "the process was ended by signal %d", proc.killed_by);
    else if (!stop_sent && !F_(F_BOOT_FAULT)) viol("exit_unasked", "the process ended with code %d although nobody asked it to", proc.exit_code);
    else if (proc.exit_code != 0 && !F_(F_BOOT_FAULT)) viol("exit_code", "exit code %d after a stop request", proc.exit_code);
    if (proc.exit_code == 0 && !proc.killed_by) {
      if (proc.threads_at_exit) viol("exit_threads", "%d threads still run when the process ends: %s", proc.threads_at_exit, proc.exit_dump.substr(0, 300).c_str());
      if (proc.fds_at_exit) viol("fd_leak", "%d descriptors open when the process ends: %s", proc.fds_at_exit, proc.fd_exit_dump.c_str());
      if (proc.files_at_exit) viol("file_leak", "files open when the process ends: %s", proc.file_exit_dump.c_str());
      if (mem.live_blocks) { std::string s; int k = 0; for (auto &x : mem_live()) { if (k++ >= 3) break; s += site_str(x.second.second) + " | "; } viol("mem_leak", "%llu memory blocks left when the process ends: %s", (unsigned long long)mem.live_blocks, s.c_str()); }
      iio_check_end();
    }
  }
  for (auto &x : wr) {
    auto f = fs.find(x.first); if (f == fs.end()) { viol("file_missing", "%s is gone", x.first.c_str()); continue; }
    auto &have = f->second->d; size_t n = std::min(have.size(), x.second.size());
    if (memcmp(have.data(), x.second.data(), n)) viol("file_corrupt", "%s differs from what was written", x.first.c_str());
    if (have.size() != x.second.size() && !early && !proc.killed_by && !wr_failed.count(x.first)) viol("file_incomplete", "%s has %zu bytes at the end, %zu were written", x.first.c_str(), have.size(), x.second.size());
  }
  std::set<uint32_t> ids; std::set<std::string> mine;
  for (auto &p : clis) {
    Cli &c = *p;
    if (c.ok() && (c.kind == RX || c.kind == TX)) {
      if (!ids.insert(c.id()).second) viol("dup_id", "identifier %u was given to two clients", c.id());
      if (c.kind == RX) { mine.insert(dump_path(c.id())); mine.insert(demod_path(c.id())); } else { mine.insert(txdump_path(c.id())); mine.insert(c.tx.file); }
      if (c.kind == RX && !c.rx.dump && ncf(dump_path(c.id()))) viol("foreign_file", "client %d did not ask for a sample recording but one was written", c.idx);
    }
    if (!c.got_resp && c.req_full && (c.kind == RX || c.kind == TX || c.bad == B_REQ_CLOSE || c.bad == B_REQ_RST)) mine.insert("?"), mine.insert(c.tx.file);
  }
  if (!mine.count("?")) for (auto &x : wr) if (!mine.count(x.first) && !x.second.empty()) viol("foreign_file", "%zu bytes were written to %s, which no session asked for", x.second.size(), x.first.c_str());
  for (auto &p : clis) { judge_verdict(*p); judge_rx(*p, true); judge_tx(*p); }
  judge_sharing();
}
