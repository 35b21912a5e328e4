// Simulated libiio with one PlutoSDR attached, reached through the dlopen()/dlsym() seam the modem already has; also the
// configuration file reader seam.
#include "sim.h"
#include "real.h"
#include <cerrno>
#include <cstdlib>
#include <cstdarg>
#include <libconfig.h>
struct iio_scan_context { bool alive = true; };
struct iio_context_info { int magic = 0x1f0; };
struct iio_context { bool alive = true; int inside = 0; unsigned timeout = 1000; };
struct iio_device { std::string name; iio_context *ctx; struct iio_buffer *buf = nullptr; };
struct iio_channel { iio_device *dev; std::string name; bool output; bool enabled = false; };
struct iio_buffer { iio_device *dev; int16_t *data; size_t len, filled; bool alive = true; int inside = 0; };
namespace sim {
IioState iio;
std::string config_text; bool config_missing = false; std::set<std::string> sim_dirs{"/sim/out", "/sim/in"}; std::function<void(uint32_t, int)> on_listen, on_connect;
static int scans_open, lists_open, libs_open;
static std::map<std::pair<iio_context *, std::string>, iio_device *> devs;
static std::map<std::pair<iio_device *, std::pair<std::string, bool>>, iio_channel *> chans;
static iio_context *active_ctx;
static const char *known_dev[] = {"cf-ad9361-dds-core-lpc", "cf-ad9361-lpc", "ad9361-phy"};
static void use(const iio_context *c, const char *fn) {
  if (!c) fatal("iio_null", "%s on a null context", fn);
  if (!c->alive) fatal("iio_use_after_destroy", "%s by %s on a libiio context that was destroyed", fn, fiber_name());
}
static void use(const iio_device *d, const char *fn) { if (!d) fatal("iio_null", "%s on a null device", fn); use(d->ctx, fn); }
static void use(const iio_channel *c, const char *fn) { if (!c) fatal("iio_null", "%s on a null channel", fn); use(c->dev, fn); }
static void use(const iio_buffer *b, const char *fn) {
  if (!b) fatal("iio_null", "%s on a null buffer", fn);
  if (!b->alive) fatal("iio_use_after_destroy", "%s by %s on a libiio buffer that was destroyed", fn, fiber_name());
  use(b->dev, fn);
}
struct Inside { iio_context *c; iio_buffer *b; Inside(iio_context *c, iio_buffer *b) : c(c), b(b) { if (c) c->inside++; if (b) b->inside++; } ~Inside() { if (c) c->inside--; if (b) b->inside--; } };
static void setattr(const std::string &k, const std::string &v) { iio.attrs[k] = v; iio.log.push_back({k, v}); TRACE("iio %s = %s", k.c_str(), v.substr(0, 60).c_str()); mix(v.size() * 31 + k.size()); }
static std::string key(const iio_channel *c, const char *a) { return c->dev->name + "/" + c->name + (c->output ? ":out/" : ":in/") + a; }
static int attr_io(const char *) { yield_point(80); if (fault(FK_IIO_ATTR)) return -EIO; return 0; }
static long long attr_num(const char *k) { auto it = iio.attrs.find(k); return it == iio.attrs.end() ? 0 : atoll(it->second.c_str()); }
static void wr(const iio_channel *c, const char *a, const std::string &v) {
  setattr(key(c, a), v);
  if (c->dev->name == "ad9361-phy" && std::string(a) == "sampling_frequency") { iio.attrs["rate"] = v; }
  if (c->dev->name == "ad9361-phy" && c->name == "altvoltage1" && std::string(a) == "powerdown") {
    iio.tx_powerdown = v == "1";
    if (iio.tx_powerdown && iio.tx_active) viol("tx_powered_down_while_in_use", "%s powers the transmitter LO down while a transmitter is open", fiber_name());
  }
  if (iio.on_attr) iio.on_attr(key(c, a), v);
}
void iio_check_end() {
  if (iio.ctx_open) viol("iio_ctx_leak", "%d libiio contexts are still open after the last user left", iio.ctx_open);
  if (iio.buffers) viol("iio_buffer_leak", "%d libiio buffers are still allocated after the last user left", iio.buffers);
  if (scans_open) viol("iio_scan_leak", "%d libiio scan contexts leaked", scans_open);
  if (lists_open) viol("iio_scan_leak", "%d libiio scan lists leaked", lists_open);
}
int iio_libs_open() { return libs_open; }
bool iio_enabled(const std::string &dev, const std::string &ch) { for (auto &c : chans) if (c.second->dev->ctx == active_ctx && c.second->dev->name == dev && c.second->name == ch && c.second->enabled) return true; return false; }

static void *f_buffer_first(const iio_buffer *b, const iio_channel *c) { use(b, "iio_buffer_first"); use(c, "iio_buffer_first"); return b->data; }
static void *f_buffer_end(const iio_buffer *b) { use(b, "iio_buffer_end"); return b->data + 2 * (b->filled); }
static ssize_t f_push_partial(iio_buffer *b, size_t n) {
  use(b, "iio_buffer_push_partial");
  yield_point(81);
  use(b, "iio_buffer_push_partial");
  if (n > b->len) return -EINVAL;
  if (iio.tx_powerdown) viol("tx_powered_down_while_in_use", "samples are pushed while the transmitter LO is powered down");
  Inside in(b->dev->ctx, b);
  uint32_t v = fault_n(FK_IIO_PUSH, 3);
  if (v) { if (v == 2) sleep_ns((ns)b->dev->ctx->timeout * MS); if (iio.on_push) iio.on_push(false, 0); return v == 2 ? -ETIMEDOUT : -EIO; }
  iio.tx_samples.insert(iio.tx_samples.end(), b->data, b->data + 2 * n);
  for (size_t i = 0; i < n; i += 16) mix((uint16_t)b->data[2 * i]);
  if (iio.on_push) iio.on_push(true, n);
  TRACE("iio push %zu", n);
  sleep_ns(iio.tx_block > 0 ? iio.tx_block : 50 * US);
  return (ssize_t)(n * 4);
}
static ssize_t f_push(iio_buffer *b) { return f_push_partial(b, b->len); }
static ssize_t f_refill(iio_buffer *b) {
  use(b, "iio_buffer_refill");
  yield_point(82);
  use(b, "iio_buffer_refill");
  Inside in(b->dev->ctx, b);
  long long rate = attr_num("rate");
  ns d = iio.rx_block > 0 ? iio.rx_block : rate > 0 ? (ns)(b->len * (double)SEC / rate) : MS;
  sleep_ns(d);
  uint32_t v = fault_n(FK_IIO_REFILL, 3);
  if (v) { if (v == 2) sleep_ns((ns)b->dev->ctx->timeout * MS); if (iio.on_refill_fail) iio.on_refill_fail(); return v == 2 ? -ETIMEDOUT : -EIO; }
  size_t cnt = b->len; if (cnt > 1) { uint32_t k = fault_n(FK_IIO_SHORT, (uint32_t)std::min<size_t>(cnt, 65536)); if (k) cnt = k; }   // the driver may deliver less
  size_t n = iio.rx_source ? iio.rx_source(b->data, cnt) : 0;
  if (n == 0) { memset(b->data, 0, b->len * 4); n = b->len; }
  b->filled = n;
  TRACE("iio refill %zu", n);
  return (ssize_t)(n * 4);
}
static iio_device *f_find_device(const iio_context *c, const char *name) {
  use(c, "iio_context_find_device");
  yield_point(83);
  if (fault(FK_IIO_FIND)) return nullptr;
  bool ok = false; for (auto k : known_dev) if (!strcmp(k, name)) ok = true;
  if (!ok) return nullptr;
  auto &d = devs[{(iio_context *)c, name}];
  if (!d) { d = new iio_device; d->name = name; d->ctx = (iio_context *)c; }
  return d;
}
static iio_channel *f_find_channel(const iio_device *d, const char *name, bool out) {
  if (!d) fatal("iio_null", "iio_device_find_channel on a null device (channel %s)", name);
  use(d, "iio_device_find_channel");
  yield_point(84);
  if (fault(FK_IIO_FIND)) return nullptr;
  auto &c = chans[{(iio_device *)d, {name, out}}];
  if (!c) { c = new iio_channel; c->dev = (iio_device *)d; c->name = name; c->output = out; }
  return c;
}
static void f_strerror(int e, char *d, size_t n) { snprintf(d, n, "error %d", e); }
static ssize_t f_write(const iio_channel *c, const char *a, const char *s) { use(c, a); if (int e = attr_io(a)) return e; wr(c, a, s); return (ssize_t)strlen(s); }
static int f_write_ll(const iio_channel *c, const char *a, long long v) { use(c, a); if (int e = attr_io(a)) return e; wr(c, a, std::to_string(v)); return 0; }
static int f_write_bool(const iio_channel *c, const char *a, bool v) { use(c, a); if (int e = attr_io(a)) return e; wr(c, a, v ? "1" : "0"); return 0; }
static int f_write_double(const iio_channel *c, const char *a, double v) { use(c, a); if (int e = attr_io(a)) return e; char b[64]; snprintf(b, sizeof b, "%.6f", v); wr(c, a, b); return 0; }
static int f_dev_write_bool(const iio_device *d, const char *a, bool v) { use(d, a); if (int e = attr_io(a)) return e; setattr(d->name + "/" + a, v ? "1" : "0"); return 0; }
static ssize_t f_dev_write_raw(const iio_device *d, const char *a, const void *s, size_t n) {
  use(d, a); if (int e = attr_io(a)) return e;
  if (iio.on_fir && !strcmp(a, "filter_fir_config")) iio.on_fir(std::string((const char *)s, n));
  setattr(d->name + "/" + a, std::string((const char *)s, n)); return (ssize_t)n;
}
static iio_scan_context *f_create_scan(const char *, unsigned) { yield_point(85); if (fault(FK_IIO_CTX)) { errno = ENOMEM; return nullptr; } scans_open++; return new iio_scan_context; }
static ssize_t f_info_list(iio_scan_context *s, iio_context_info ***o) {
  if (!s || !s->alive) fatal("iio_use_after_destroy", "scan context used after destroy");
  uint32_t v = fault_n(FK_IIO_CTX, 3); if (v == 1) return -EIO; if (v == 2) return 0;
  *o = new iio_context_info *[2]{new iio_context_info, nullptr}; lists_open++; return 1;
}
static void f_scan_destroy(iio_scan_context *s) { if (!s || !s->alive) fatal("iio_double_destroy", "scan context destroyed twice"); s->alive = false; scans_open--; }
static const char *f_info_uri(const iio_context_info *i) { return i && i->magic == 0x1f0 ? "usb:1.2.3" : nullptr; }
static void f_info_free(iio_context_info **l) { if (!l || !l[0] || l[0]->magic != 0x1f0) fatal("iio_double_destroy", "scan list freed twice"); l[0]->magic = 0; lists_open--; }
static iio_context *f_ctx_create(const char *uri) {
  yield_point(86);
  if (!uri || fault(FK_IIO_CTX)) { errno = ENODEV; return nullptr; }
  sleep_ns(200 * US);
  if (active_ctx) viol("iio_second_context", "a second libiio context is opened while one is in use");
  iio_context *c = new iio_context; iio.ctx_open++; iio.ctx_total++; active_ctx = c; probe(PR_IIO_CTX_OPEN); TRACE("iio context opened");
  return c;
}
static int f_set_timeout(iio_context *c, unsigned t) { use(c, "iio_context_set_timeout"); if (int e = attr_io("timeout")) return e; c->timeout = t; iio.timeout = t; return 0; }
static void f_chn_enable(iio_channel *c) { use(c, "iio_channel_enable"); c->enabled = true; }
static void f_chn_disable(iio_channel *c) { use(c, "iio_channel_disable"); c->enabled = false; }
static iio_buffer *f_create_buffer(const iio_device *d, size_t n, bool) {
  use(d, "iio_device_create_buffer");
  yield_point(87);
  if (fault(FK_IIO_BUF)) { errno = ENOMEM; return nullptr; }
  if (d->buf) { errno = EBUSY; return nullptr; }
  iio_buffer *b = new iio_buffer; b->dev = (iio_device *)d; b->len = n; b->filled = n; b->data = new int16_t[2 * n + 2]();
  ((iio_device *)d)->buf = b; iio.buffers++;
  bool tx = d->name == known_dev[0];
  if (tx) { iio.tx_active = true; iio.tx_sessions++; if (iio.rx_active) probe(PR_IIO_TX_WHILE_RX); if (iio.tx_powerdown) viol("tx_powered_down_while_in_use", "a transmit buffer is created while the transmitter LO is powered down"); }
  else { iio.rx_active = true; iio.rx_sessions++; if (iio.tx_active) probe(PR_IIO_TX_WHILE_RX); }
  TRACE("iio buffer for %s, %zu samples", d->name.c_str(), n);
  if (iio.on_open) iio.on_open(tx, n);
  return b;
}
static void f_buffer_destroy(iio_buffer *b) {
  if (b && !b->alive) fatal("iio_double_destroy", "libiio buffer destroyed twice");
  use(b, "iio_buffer_destroy");
  yield_point(88);
  if (b->inside) viol("iio_destroy_in_use", "%s destroys a libiio buffer while another thread is inside refill/push", fiber_name());
  b->alive = false; b->dev->buf = nullptr; iio.buffers--;
  bool tx = b->dev->name == known_dev[0];
  (tx ? iio.tx_active : iio.rx_active) = false;
  delete[] b->data; b->data = nullptr;
  TRACE("iio buffer of %s destroyed", b->dev->name.c_str());
  if (iio.on_close) iio.on_close(tx);
}
static void f_ctx_destroy(iio_context *c) {
  if (c && !c->alive) fatal("iio_double_destroy", "libiio context destroyed twice");
  use(c, "iio_context_destroy");
  yield_point(89);
  if (c->inside) viol("iio_destroy_in_use", "%s destroys the libiio context while another thread is inside a call", fiber_name());
  for (auto &d : devs) if (d.second->ctx == c && d.second->buf) viol("iio_ctx_destroyed_with_buffers", "the libiio context is destroyed while %s has an open buffer", d.second->name.c_str());
  for (auto &x : chans) if (x.second->dev->ctx == c && x.second->enabled) viol("iio_channel_leak", "%s of %s is still enabled when the libiio context is destroyed", x.second->name.c_str(), x.second->dev->name.c_str());
  c->alive = false; iio.ctx_open--; active_ctx = nullptr; TRACE("iio context destroyed");
}
struct Sym { const char *n; void *f; };
static Sym syms[] = {
  {"iio_buffer_first", (void *)f_buffer_first}, {"iio_buffer_end", (void *)f_buffer_end}, {"iio_buffer_push_partial", (void *)f_push_partial}, {"iio_buffer_push", (void *)f_push},
  {"iio_buffer_refill", (void *)f_refill}, {"iio_context_find_device", (void *)f_find_device}, {"iio_device_find_channel", (void *)f_find_channel},
  {"iio_strerror", (void *)f_strerror}, {"iio_channel_attr_write", (void *)f_write}, {"iio_channel_attr_write_longlong", (void *)f_write_ll},
  {"iio_channel_attr_write_bool", (void *)f_write_bool}, {"iio_channel_attr_write_double", (void *)f_write_double}, {"iio_device_attr_write_bool", (void *)f_dev_write_bool},
  {"iio_device_attr_write_raw", (void *)f_dev_write_raw}, {"iio_create_scan_context", (void *)f_create_scan}, {"iio_scan_context_get_info_list", (void *)f_info_list},
  {"iio_scan_context_destroy", (void *)f_scan_destroy}, {"iio_context_info_get_uri", (void *)f_info_uri}, {"iio_create_context_from_uri", (void *)f_ctx_create},
  {"iio_context_info_list_free", (void *)f_info_free}, {"iio_context_set_timeout", (void *)f_set_timeout}, {"iio_channel_enable", (void *)f_chn_enable},
  {"iio_channel_disable", (void *)f_chn_disable}, {"iio_device_create_buffer", (void *)f_create_buffer}, {"iio_buffer_destroy", (void *)f_buffer_destroy},
  {"iio_context_destroy", (void *)f_ctx_destroy}};
}  // namespace sim
using namespace sim;
static char lib_handle;
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *); char *__real_dlerror(void);
int __real_config_read_file(config_t *, const char *);
void *__wrap_dlopen(const char *n, int fl) {
  if (!in_server()) return __real_dlopen(n, fl);
  yield_point(90);
  if (!n || !strstr(n, "iio") || fault(FK_IIO_CTX)) return nullptr;
  libs_open++; return &lib_handle;
}
void *__wrap_dlsym(void *h, const char *n) {
  if (!in_server()) return __real_dlsym(h, n);
  if (h != &lib_handle) return nullptr;
  for (auto &s : syms) if (!strcmp(s.n, n)) return s.f;
  return nullptr;
}
int __wrap_dlclose(void *h) { if (!in_server()) return __real_dlclose(h); if (h == &lib_handle) { if (libs_open <= 0) viol("iio_double_destroy", "libiio is unloaded twice"); libs_open--; return 0; } return -1; }
char *__wrap_dlerror(void) { if (!in_server()) return __real_dlerror(); return (char *)"simulated"; }
int __wrap_config_read_file(config_t *c, const char *p) {
  if (!in_server()) return __real_config_read_file(c, p);
  yield_point(91);
  if (strcmp(p, "/sim/modem.conf") || config_missing) return __real_config_read_file(c, "/nonexistent/modem.conf");
  return config_read_string(c, config_text.c_str());
}
}
