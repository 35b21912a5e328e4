// Independent encoder/decoder of the modem's wire format (api.proto and the framing header).
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
namespace proto {
typedef std::vector<uint8_t> Bytes;
inline void varint(Bytes &b, uint64_t v) { while (v >= 0x80) { b.push_back((uint8_t)(v | 0x80)); v >>= 7; } b.push_back((uint8_t)v); }
inline void fv(Bytes &b, int f, uint64_t v) { varint(b, (uint64_t)f << 3); varint(b, v); }
inline void fb(Bytes &b, int f, const void *d, size_t n) { varint(b, ((uint64_t)f << 3) | 2); varint(b, n); b.insert(b.end(), (const uint8_t *)d, (const uint8_t *)d + n); }
inline void fm(Bytes &b, int f, const Bytes &m) { fb(b, f, m.data(), m.size()); }
inline void fs(Bytes &b, int f, const std::string &s) { fb(b, f, s.data(), s.size()); }
inline Bytes frame(uint8_t ver, uint8_t type, const Bytes &body, int64_t len = -1) {
  uint32_t n = len < 0 ? (uint32_t)body.size() : (uint32_t)len;
  Bytes r{ver, type, (uint8_t)(n >> 24), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n};
  r.insert(r.end(), body.begin(), body.end()); return r;
}
enum { RX_REQUEST = 0, SHUTDOWN = 1, RESPONSE = 2, PING = 3, TX_DATA = 4, TX_REQUEST = 5 };
struct Dop { bool on = false; std::vector<std::string> tle; int64_t lat = 0, lon = 0; uint32_t alt = 0; };
inline Bytes enc_dop(const Dop &d) {
  Bytes b; for (auto &t : d.tle) fs(b, 1, t);
  fv(b, 2, (uint64_t)(uint32_t)d.lat); fv(b, 3, (uint64_t)(uint32_t)d.lon); fv(b, 4, d.alt); return b;
}
struct Rx {
  uint64_t center = 0, fs = 0; bool dump = false; int64_t offset = 0; int demod = 1; uint32_t baud = 0, decim = 0; int dest = 1; Dop dop;
  bool has_fsk = true; int64_t dev = 0; uint32_t tw = 0; bool dc = false; bool has_file = false; std::string file; uint64_t start = 0;
};
inline Bytes enc_rx(const Rx &r) {
  Bytes b; fv(b, 1, r.center); fv(b, 2, r.fs); fv(b, 3, r.dump); fv(b, 4, (uint64_t)r.offset); fv(b, 5, (uint64_t)r.demod); fv(b, 6, r.baud); fv(b, 7, r.decim); fv(b, 8, (uint64_t)r.dest);
  if (r.dop.on) fm(b, 9, enc_dop(r.dop));
  if (r.has_fsk) { Bytes f; fv(f, 1, (uint64_t)r.dev); fv(f, 2, r.tw); fv(f, 3, r.dc); fm(b, 10, f); }
  if (r.has_file) { Bytes f; fs(f, 1, r.file); fv(f, 2, r.start); fm(b, 11, f); }
  return b;
}
struct Tx { uint64_t center = 0, fs = 0; bool dump = false; int64_t offset = 0; int mod = 1; uint32_t baud = 0; Dop dop; bool has_fsk = true; int64_t dev = 0; bool has_file = false; std::string file; uint64_t start = 0; };
inline Bytes enc_tx(const Tx &r) {
  Bytes b; fv(b, 1, r.center); fv(b, 2, r.fs); fv(b, 3, r.dump); fv(b, 4, (uint64_t)r.offset); fv(b, 5, (uint64_t)r.mod); fv(b, 6, r.baud);
  if (r.dop.on) fm(b, 7, enc_dop(r.dop));
  if (r.has_fsk) { Bytes f; fv(f, 1, (uint64_t)r.dev); fm(b, 8, f); }
  if (r.has_file) { Bytes f; fs(f, 1, r.file); fv(f, 2, r.start); fm(b, 9, f); }
  return b;
}
inline Bytes enc_data(const Bytes &d) { Bytes b; fb(b, 1, d.data(), d.size()); return b; }
// Response{1 status, 2 details}: exactly these two fields, false when malformed
inline bool dec_response(const Bytes &b, int &status, uint32_t &details) {
  size_t i = 0; bool s = false, d = false;
  auto rv = [&](uint64_t &v) { v = 0; int sh = 0; while (i < b.size() && sh < 64) { uint8_t c = b[i++]; v |= (uint64_t)(c & 0x7f) << sh; if (!(c & 0x80)) return true; sh += 7; } return false; };
  while (i < b.size()) {
    uint64_t k, v; if (!rv(k) || !rv(v)) return false;
    if (k == 8) { status = (int)v; s = true; } else if (k == 16) { details = (uint32_t)v; d = true; } else return false;
  }
  return s && d;
}
}  // namespace proto
