// Reference models: one straight-line computation over the whole input, written from the documented algorithm. No
// chunking, no history buffers, no threads, so nothing a schedule or a split could disturb.
#pragma once
#include <vector>
#include <cstdint>
#include <cstddef>
#include <string>
struct cf { float re, im; };
struct DopplerCfg { bool on = false; double lat = 0, lon = 0, alt = 0; std::string tle[3]; int64_t start = 0; uint64_t center = 0; };
// shift in Hz (direction * Doppler) at start + t seconds
struct DopplerRef { DopplerRef(const DopplerCfg &c); ~DopplerRef(); double shift(double t_sec, int direction); void *impl; bool ok; };
struct RxCfg {
  uint64_t fs = 48000, center = 437000000; uint32_t baud = 4800; int64_t dev = 5000; uint32_t decim = 2; uint32_t tw = 2000; bool dc = true; int64_t offset = 0;
  DopplerCfg dop;
};
struct RxOut {
  std::vector<float> soft; std::vector<int8_t> out;
  std::vector<uint64_t> need;   // need[k] = number of input samples after which symbol k is determined
  size_t ill = (size_t)-1;      // first symbol whose decision is numerically ambiguous
  size_t count(uint64_t samples) const;  // symbols determined by that many samples
};
bool rx_creatable(const RxCfg &c);  // a demodulator with these parameters exists at all
RxOut rx_ref(const RxCfg &c, const cf *in, size_t n, double dop_bias_hz = 0);
struct TxCfg { uint64_t fs = 48000, center = 437000000; uint32_t baud = 4800; int64_t dev = 5000; int64_t offset = 0; DopplerCfg dop; };
struct TxRef {  // streaming modulator, sample exact
  TxRef(const TxCfg &c, bool with_offset);
  void feed(const uint8_t *d, size_t n, std::vector<cf> &out);
  int sps; std::vector<std::vector<float>> poly; std::vector<float> hist; float phase = 0, sens, osc = 0, step = 0; bool off;
};
// clean test signal: GFSK from bits, with amplitude, frequency error and noise
std::vector<cf> make_signal(const RxCfg &c, size_t nsamples, uint64_t seed, float amp, double freq_err, float noise);
