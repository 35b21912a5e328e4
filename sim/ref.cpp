#include "ref.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include "frozen/mmse_table.h"
extern "C" {
#include "frozen/rename.h"
float fast_atan2f(float y, float x);
#include "frozen/sgp4sdp4.h"
}
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
static const float TWOPI_F = (float)(2 * M_PI);

static bool lpf(double fs, double cutoff, double tw, std::vector<float> &t) {
  if (fs <= 0 || cutoff < 1 || cutoff > fs / 2 || tw < 1) return false;
  int n = (int)(53.0 * fs / (22.0 * tw));
  if (n % 2 == 0) n++;
  if (n > 400000) return false;
  t.assign(n, 0);
  int M = (n - 1) / 2; double w0 = 2 * M_PI * cutoff / fs;
  for (int k = -M; k <= M; k++) {
    float w = (float)(0.54 - 0.46 * cos((2 * M_PI * (k + M)) / (n - 1)));
    t[k + M] = k == 0 ? (float)(w0 / M_PI * w) : (float)(sin((double)k * w0) / (k * M_PI) * w);
  }
  float s = t[M]; for (int k = 1; k <= M; k++) s += 2 * t[k + M];
  float g = 1.0f; g /= s;
  for (auto &x : t) x *= g;
  return true;
}
struct Mavg {
  std::vector<float> d; size_t len, pos = 0; float in_del = 0, acc = 0;
  Mavg(size_t n) : d(n - 1, 0.0f), len(n) {}
  float step(float x) {
    float del = in_del; in_del = d[pos]; d[pos] = x; pos = (pos + 1) % d.size();
    float y = x - del + acc; acc = y; return y / (float)(int)len;
  }
};
size_t RxOut::count(uint64_t samples) const { return std::upper_bound(need.begin(), need.end(), samples) - need.begin(); }
static double carson(const RxCfg &c) { return (double)std::llabs(c.dev) + (double)c.baud / 2; }
bool rx_creatable(const RxCfg &c) {
  std::vector<float> t;
  double k = carson(c);
  if (!lpf((double)c.fs, (double)(uint64_t)k, (double)(uint32_t)(0.1f * k), t)) return false;
  if (!lpf((double)c.fs, c.baud / 2, c.tw, t)) return false;
  return true;
}
struct DopImpl { sat_t sat; geodetic_t gs; obs_set_t obs; double jul0; double center; };
DopplerRef::DopplerRef(const DopplerCfg &c) {
  DopImpl *d = new DopImpl; memset((void *)d, 0, sizeof *d); impl = d; ok = false;
  char tle[3][80]; memset(tle, 0, sizeof tle);
  for (int i = 0; i < 3; i++) { strncpy(tle[i], c.tle[i].c_str(), 79); }
  d->gs.lat = Radians(c.lat); d->gs.lon = Radians(c.lon); d->gs.alt = c.alt; d->gs.theta = 0; d->center = (double)(int64_t)c.center;
  if (Get_Next_Tle_Set(tle, &d->sat.tle) != 1) return;
  select_ephemeris(&d->sat);
  d->sat.jul_epoch = Julian_Date_of_Epoch(d->sat.tle.epoch);
  time_t s = c.start; struct tm t; gmtime_r(&s, &t); t.tm_year += 1900; t.tm_mon += 1;
  d->jul0 = Julian_Date(&t);
  ok = true;
}
DopplerRef::~DopplerRef() { delete (DopImpl *)impl; }
double DopplerRef::shift(double ts, int dir) {
  DopImpl *d = (DopImpl *)impl;
  d->sat.jul_utc = d->jul0 + ts / 86400.0;
  double tsince = (d->sat.jul_utc - d->sat.jul_epoch) * 1440.0;
  if (d->sat.flags & DEEP_SPACE_EPHEM_FLAG) SDP4(&d->sat, tsince); else SGP4(&d->sat, tsince);
  Convert_Sat_State(&d->sat.pos, &d->sat.vel);
  Calculate_Obs(d->sat.jul_utc, &d->sat.pos, &d->sat.vel, &d->gs, &d->obs);
  // Doppler: f_obs = f (c - v)/c ; the correction is f - f_obs
  return dir * d->center * d->obs.range_rate / 299792.458;
}
RxOut rx_ref(const RxCfg &c, const cf *in0, size_t n, double bias) {
  RxOut o;
  const cf *in = in0; std::vector<cf> mixed;
  if (c.dop.on) {
    DopplerRef d(c.dop); mixed.resize(n); double ph = 0, f0 = 0, f1 = 0; size_t sec = (size_t)-1;
    for (size_t i = 0; i < n; i++) {
      size_t s = i / c.fs;
      if (s != sec) { f0 = d.shift((double)s, 1); f1 = d.shift((double)s + 1, 1); sec = s; }
      double f = f0 + (f1 - f0) * (double)(i % c.fs) / (double)c.fs + bias;
      double cr = cos(ph), ci = sin(ph);
      if (fabs(bias) >= 1) { double e = 1 + (bias > 0 ? 1e-3 : -1e-3) * ((((i + (size_t)(fabs(bias) * 1009)) * 2654435761u) >> 16 & 0xff) / 127.5 - 1); cr *= e; ci /= e; }   // a variant: how sensitive is the result
      mixed[i].re = (float)(in0[i].re * cr - in0[i].im * ci); mixed[i].im = (float)(in0[i].re * ci + in0[i].im * cr);
      ph += 2 * M_PI * f / (double)c.fs; if (ph > 2 * M_PI) ph -= 2 * M_PI; if (ph < -2 * M_PI) ph += 2 * M_PI;
    }
    in = mixed.data();
  }
  std::vector<float> t1, t2; double k = carson(c);
  if (!lpf((double)c.fs, (double)(uint64_t)k, (double)(uint32_t)(0.1f * k), t1) || !lpf((double)c.fs, c.baud / 2, c.tw, t2)) return o;
  std::reverse(t1.begin(), t1.end()); std::reverse(t2.begin(), t2.end());
  float gain = (float)((double)c.fs / (2 * M_PI * (double)c.dev));
  size_t h1 = t1.size() - 1, h2 = t2.size() - 1;
  std::vector<cf> x(h1 + n, cf{0, 0}); std::copy(in, in + n, x.begin() + h1);
  std::vector<float> q(h2 + n, 0.0f);
  cf prev{0, 0};
  for (size_t i = 0; i < n; i++) {
    float re = 0, im = 0; const cf *p = &x[i];
    for (size_t j = 0; j < t1.size(); j++) { re += p[j].re * t1[j]; im += p[j].im * t1[j]; }
    float pr = re * prev.re + im * prev.im, pim = im * prev.re - re * prev.im;
    q[h2 + i] = gain * fast_atan2f(pim, pr);
    if (bias > 0 && pr < 0 && fabsf(pim) < -pr * 0.03f) q[h2 + i] = -q[h2 + i];   // the variant goes around the circle the other way
    prev.re = re; prev.im = im;
  }
  std::vector<float> y;
  for (size_t i = 0; i < n; i += c.decim) {
    float s = 0; const float *p = &q[i];
    for (size_t j = 0; j < t2.size(); j++) s += p[j] * t2[j];
    y.push_back(s);
  }
  float sps = (float)((double)c.fs / c.baud / c.decim);
  if (c.dc) {
    int len = (int)ceilf(sps * 32); if (len < 2) return o;
    Mavg m0(len), m1(len), m2(len), m3(len); std::vector<float> dl(len - 1, 0.0f); size_t pos = 0;
    for (auto &v : y) {
      float a = m3.step(m2.step(m1.step(m0.step(v))));
      float d = dl[pos]; dl[pos] = m0.in_del; pos = (pos + 1) % dl.size();
      v = d - a;
    }
  }
  float omega = sps, mid = sps, lim = sps * 0.01f, go = (sps * (float)M_PI) / 100, gm = 0.5f / 8.0f, mu = 0.5f, last = 0;
  long ii = 0;
  while (ii + 8 <= (long)y.size()) {
    const float *p = &y[ii]; const float *t = mmse_taps[(int)rint(mu * 128)];
    float v = 0;
    for (int j = 0; j < 8; j++) v += p[j] * t[7 - j];
    o.need.push_back((uint64_t)c.decim * (uint64_t)(ii + 7) + 1);
    if (std::isnan(v)) { o.soft.push_back(0); o.out.push_back(0); ii += (long)floorf(omega); continue; }
    // the sign of v is uncertain; it matters when the decision before or after it is not small too
    if (fabsf(v) < 2e-5f && v != 0 && o.ill == (size_t)-1 && fabsf(last) > 0.02f) o.ill = o.soft.size();
    if (fabsf(last) < 2e-5f && last != 0 && o.ill == (size_t)-1 && fabsf(v) > 0.02f) o.ill = o.soft.size();
    o.soft.push_back(v);
    float b = v * 127.0f; if (b > 127) b = 127; if (b < -128) b = -128;
    o.out.push_back((int8_t)rintf(b));
    auto sl = [](float z) { return z < 0 ? -1.0f : 1.0f; };
    float mm = sl(last) * v - sl(v) * last; last = v;
    omega = omega + go * mm;
    float e = omega - mid; omega = mid + 0.5f * (fabsf(e + lim) - fabsf(e - lim));
    mu = mu + omega + gm * mm;
    long st = (long)floorf(mu); if (st < 1) { o.ill = std::min(o.ill, o.soft.size()); st = 1; }
    ii += st;
    mu = mu - floorf(mu);
  }
  return o;
}
TxRef::TxRef(const TxCfg &c, bool with_offset) {
  float s = (float)((double)c.fs / c.baud); sps = (int)s; sens = (float)(2 * M_PI * (double)c.dev / (double)c.fs); off = with_offset;
  size_t gl = (size_t)(4 * s); std::vector<float> g(gl); double scale = 0, dt = 1.0 / s, k = 1.0 / (sqrt(log(2.0)) / (2 * M_PI * 0.5)), t0 = -0.5 * (double)gl;
  for (size_t i = 0; i < gl; i++) { t0++; double ts = k * dt * t0; g[i] = (float)exp(-0.5 * ts * ts); scale += g[i]; }
  for (auto &v : g) v = (float)(v / scale * 1.0);
  std::vector<float> t(gl + sps - 1, 0.0f);
  for (size_t i = 0; i < t.size(); i++) { float sum = 0; for (int j = 0; j < sps && (long)i - j >= 0; j++) if (i - j < gl) sum += g[i - j]; t[i] = sum; }
  while (t.size() % sps) t.push_back(0);
  size_t pl = t.size() / sps; poly.resize(sps);
  for (int i = 0; i < sps; i++) { for (size_t j = 0; j < pl; j++) poly[i].push_back(t[j * sps + i]); std::reverse(poly[i].begin(), poly[i].end()); }
  hist.assign(pl - 1, 0.0f);
  if (off) step = TWOPI_F * (float)c.offset / (float)c.fs;
}
void TxRef::feed(const uint8_t *d, size_t n, std::vector<cf> &out) {
  size_t pl = poly[0].size();
  for (size_t i = 0; i < n; i++) for (int b = 7; b >= 0; b--) {
    hist.push_back((d[i] >> b) & 1 ? 1.0f : -1.0f);
    for (int k = 0; k < sps; k++) {
      float v = 0; for (size_t j = 0; j < pl; j++) v += hist[j] * poly[k][j];
      phase = phase + sens * v;
      if (phase < -TWOPI_F) phase += TWOPI_F;
      if (phase > TWOPI_F) phase -= TWOPI_F;
      cf o{(float)cos((double)phase), (float)sin((double)phase)};
      if (off) {
        float cr = (float)cos((double)osc), ci = (float)sin((double)osc); cf m{o.re * cr - o.im * ci, o.re * ci + o.im * cr}; o = m;
        osc += step; if (osc < -TWOPI_F) osc += TWOPI_F; if (osc > TWOPI_F) osc -= TWOPI_F;
      }
      out.push_back(o);
    }
    hist.erase(hist.begin());
  }
}
static uint64_t sm(uint64_t &z) { z += 0x9E3779B97F4A7C15ull; uint64_t x = z; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
std::vector<cf> make_signal(const RxCfg &c, size_t n, uint64_t seed, float amp, double ferr, float noise) {
  std::vector<cf> o(n); double ph = 0; double spb = (double)c.fs / c.baud; uint64_t s = seed; double lvl = 0, tgt = 1; double nextbit = 0;
  for (size_t i = 0; i < n; i++) {
    if ((double)i >= nextbit) { tgt = sm(s) & 1 ? 1 : -1; nextbit += spb; }
    lvl += (tgt - lvl) * std::min(1.0, 3.0 / spb);
    ph += 2 * M_PI * (lvl * (double)c.dev + ferr) / (double)c.fs; if (ph > 2 * M_PI) ph -= 2 * M_PI;
    double u1 = (double)(sm(s) >> 11) / 9007199254740992.0 - 0.5, u2 = (double)(sm(s) >> 11) / 9007199254740992.0 - 0.5;
    o[i].re = (float)(amp * cos(ph) + noise * u1); o[i].im = (float)(amp * sin(ph) + noise * u2);
  }
  return o;
}
