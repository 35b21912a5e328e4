// The simulated world around the modem: upstream sample servers, clients, radio, disk; scenario generator and oracles.
#pragma once
#include "sim.h"
#include "ref.h"
#include "proto.h"
#include <unordered_map>
namespace world {
using namespace sim;
using proto::Bytes;

enum RxT { RX_SDR = 0, RX_FILE = 1, RX_PLUTO = 2 };
enum TxT { TX_NONE = 0, TX_FILE = 1, TX_PLUTO = 2 };
enum Feature : uint32_t {
  F_SHARE = 1, F_SLOW = 2, F_DROPS = 4, F_DOPPLER = 8, F_UPFAIL = 16, F_STOP = 32, F_PAUSE = 64, F_BOOT_STOP = 128, F_TXFAIL = 256, F_LEAVE_EARLY = 512, F_RESTART = 1024,
  F_BADMID = 2048, F_TXBAD = 4096, F_DISKFULL = 8192, F_CLOCKJUMP = 16384, F_NONETFAULT = 32768, F_CONTEND = 65536, F_STALLS = 131072, F_TINY = 262144, F_DEADLINE = 1 << 19, F_PROBE2 = 1 << 20, F_BOOT_FAULT = 1 << 21, F_CONFIG = 1 << 22, F_BADCONF = 1 << 23, F_TOGETHER = 1 << 24
};
struct Profile {
  const char *name; int rx_mask, tx_mask;      // bit i: type i allowed
  int cmin, cmax; int w_ping, w_rx, w_tx, w_bad; uint32_t feat; uint64_t faults; int special;
};
struct PropDef { const char *id; std::vector<Profile> profiles; int quick_runs; std::vector<int> core; const char *core_text; };
extern std::vector<PropDef> props;
bool relevant(const std::string &prop, const std::string &cls);
void run(const Profile &p);
}  // namespace world
