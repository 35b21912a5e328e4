// Property table: which scenarios and faults search for violations of which property.
#define FB(k) (1ull << FK_##k)
static const uint64_t BEN = FB(RECV_EINTR) | FB(RECV_SHORT) | FB(SEND_EINTR) | FB(SEND_SHORT) | FB(SPURIOUS) | FB(IIO_SHORT);      // the kernel may do this at any time
static const uint64_t BST = BEN | FB(STALL);
static const uint64_t NETF = FB(ACCEPT_ERR) | FB(SOCKOPT) | FB(SOCKET) | FB(CONNECT) | FB(CONN_RESET), DISKF = FB(FOPEN) | FB(FWRITE) | FB(FREAD) | FB(FCLOSE), MEMF = FB(ALLOC) | FB(THREAD);
static const uint64_t IIOF = FB(IIO_REFILL) | FB(IIO_PUSH) | FB(IIO_BUF) | FB(IIO_ATTR) | FB(IIO_FIND) | FB(IIO_CTX);
enum { RS = 1, RF = 2, RP = 4, TN = 1, TF = 2, TP = 4 };
std::vector<PropDef> props = {
 {"C01", {
  {"shared upstream", RS, TN|TF, 1, 4, 1, 8, 0, 0, F_SHARE|F_LEAVE_EARLY, BST, 0},
  {"tiny buffers", RS, TN, 1, 3, 1, 8, 0, 0, F_TINY|F_PAUSE, BEN, 0},
  {"pauses", RS, TN, 1, 3, 0, 8, 0, 0, F_PAUSE|F_SHARE, BEN, 0},
  {"everything", RS, TN|TF|TP, 2, 6, 1, 5, 2, 2, F_SHARE|F_LEAVE_EARLY|F_PAUSE|F_BADMID, BST, 0},
  {"local radio", RP, TN|TP|TF, 1, 2, 1, 8, 1, 0, 0, BEN, 0},
  {"plain", RS, TN, 1, 1, 0, 8, 0, 0, 0, BEN, 0},
 }, 14000, {PR_STREAM_CMP, PR_DUMP_CMP}, "runs in which at least one client's stream was compared with the reference demodulation"},
 {"C02", {
  {"overflow", RS, TN, 1, 3, 0, 8, 0, 0, F_DROPS|F_SLOW|F_SHARE, BST, 0},
  {"slow, large queue", RS, TN, 2, 4, 0, 8, 0, 0, F_SLOW|F_SHARE, BEN, 0},
  {"overflow, tiny buffers", RS, TN, 1, 3, 0, 8, 0, 0, F_DROPS|F_SLOW|F_SHARE|F_TINY, BEN, 0},
  {"starved processing", RS, TN, 1, 3, 0, 8, 0, 0, F_DROPS|F_SHARE, BST, 0},
  {"slow, leaving", RS, TN, 2, 5, 0, 8, 0, 1, F_SLOW|F_SHARE|F_LEAVE_EARLY|F_DROPS, BEN, 0},
  {"local radio", RP, TN|TF, 1, 2, 0, 8, 0, 0, F_SLOW, BEN, 0},
 }, 12000, {PR_OVERFLOW_DROP, PR_DUMP_CMP}, "runs in which buffers were discarded or the processed samples were compared"},
 {"C03", {
  {"files", RF, TN, 1, 5, 1, 8, 0, 0, 0, BST, 0},
  {"files, slow clients", RF, TN, 1, 4, 0, 8, 0, 0, F_SLOW, BEN, 0},
  {"files, leaving", RF, TN|TF, 2, 6, 0, 8, 1, 1, F_LEAVE_EARLY|F_SLOW, BST, 0},
  {"files, tiny buffers", RF, TN, 1, 4, 0, 8, 0, 0, F_TINY|F_SLOW, BEN, 0},
 }, 14000, {PR_FILE_STREAM}, "runs in which a client's result was compared with the demodulation of its whole file"},
 {"C04", {
  {"upstream", RS, TN|TF|TP, 1, 4, 0, 6, 3, 0, F_SHARE|F_LEAVE_EARLY, BST, 0},
  {"stop", RS|RF|RP, TN|TF|TP, 1, 4, 0, 6, 3, 0, F_STOP|F_SHARE|F_LEAVE_EARLY, BEN, 0},
  {"upstream failures", RS, TN|TF, 1, 4, 0, 8, 1, 0, F_UPFAIL|F_SHARE, BEN, 0},
  {"files", RF, TN|TF, 1, 4, 0, 6, 2, 0, F_LEAVE_EARLY, BEN, 0},
  {"transmit", RS, TF|TP, 1, 3, 0, 1, 8, 0, F_TXBAD|F_LEAVE_EARLY, BEN, 0},
  {"disk errors", RS|RF, TN|TF, 1, 4, 0, 6, 2, 0, F_SHARE|F_DISKFULL, BEN|DISKF, 0},
  {"overflow", RS, TN, 1, 3, 0, 8, 0, 0, F_DROPS|F_SLOW|F_SHARE, BEN, 0},
  {"doppler", RS|RF, TF, 1, 3, 0, 6, 2, 0, F_DOPPLER, BEN, 0},
 }, 14000, {PR_DUMP_CMP, PR_TX_CMP}, "runs in which at least one recording was compared"},
 {"C05", {
  {"to file", RS, TF, 1, 3, 0, 1, 8, 0, F_TXBAD|F_LEAVE_EARLY, BST, 0},
  {"to radio", RS, TP, 1, 3, 0, 1, 8, 0, F_TXBAD|F_LEAVE_EARLY, BST, 0},
  {"to file, disk errors", RS, TF, 1, 3, 0, 1, 8, 0, F_TXBAD, BEN|FB(FWRITE), 0},
  {"to radio, device errors", RS, TP, 1, 3, 0, 1, 8, 0, F_TXBAD, BEN|FB(IIO_PUSH), 0},
  {"plain", RS, TF|TP, 1, 1, 0, 0, 8, 0, 0, BEN, 0},
  {"beside others", RS|RF|RP, TF|TP, 2, 6, 1, 4, 6, 2, F_LEAVE_EARLY|F_TXBAD|F_SHARE, BST, 0},
  {"to file, full disk", RS, TF, 1, 2, 0, 0, 8, 0, F_DISKFULL, BEN, 0},
 }, 14000, {PR_TX_CMP}, "runs in which the samples given to the transmit device were compared with the modulation of the acknowledged data"},
 {"C06", {
  {"contending for file device", RS, TF, 2, 6, 0, 1, 8, 1, F_CONTEND|F_LEAVE_EARLY, BST, 0},
  {"contending for radio", RP, TP, 2, 6, 0, 5, 6, 1, F_CONTEND|F_LEAVE_EARLY, BST, 0},
  {"receivers of one radio", RP, TN|TF, 2, 5, 0, 8, 1, 2, F_CONTEND|F_LEAVE_EARLY, BEN, 0},
  {"failing devices", RP|RS, TF|TP, 2, 5, 0, 4, 6, 1, F_CONTEND|F_LEAVE_EARLY, BEN|IIOF|FB(FOPEN)|FB(FWRITE)|FB(ALLOC)|FB(THREAD), 0},
  {"no transmitter contention", RS|RP, TF|TP, 1, 2, 0, 1, 8, 3, F_LEAVE_EARLY|F_TXBAD, BEN, 0},
 }, 14000, {PR_TX_IN_USE, PR_RX_IN_USE, PR_REACCEPT}, "runs in which a request met an owned device or a device that had been released"},
 {"C07", {
  {"joining and leaving", RS, TN, 3, 6, 0, 8, 0, 0, F_SHARE|F_LEAVE_EARLY, BEN, 0},
  {"stalls", RS, TN, 2, 6, 0, 8, 0, 0, F_SHARE|F_LEAVE_EARLY, BST, 0},
  {"beside others", RS, TF, 3, 7, 1, 8, 1, 2, F_SHARE|F_LEAVE_EARLY|F_BADMID, BST, 0},
  {"upstream ends", RS, TN, 2, 6, 0, 8, 0, 0, F_SHARE|F_LEAVE_EARLY|F_UPFAIL, BEN, 0},
  {"stop", RS, TN, 2, 5, 0, 8, 0, 0, F_SHARE|F_LEAVE_EARLY|F_STOP, BEN, 0},
  {"slow", RS, TN, 2, 5, 0, 8, 0, 0, F_SHARE|F_LEAVE_EARLY|F_SLOW|F_DROPS, BEN, 0},
 }, 14000, {PR_SHARED_UPSTREAM}, "runs in which a client joined an existing upstream connection"},
 {"C08", {
  {"offenders", RS, TN|TF|TP, 2, 6, 2, 3, 1, 8, F_BADMID|F_SHARE|F_LEAVE_EARLY, BST, 0},
  {"offenders, files", RF, TN|TF|TP, 2, 6, 2, 3, 2, 8, F_BADMID|F_TXBAD|F_LEAVE_EARLY, BEN, 0},
  {"offenders, radio", RP, TP|TF, 2, 6, 1, 3, 3, 8, F_BADMID|F_TXBAD|F_LEAVE_EARLY, BEN, 0},
  {"stalling readers", RS, TN, 2, 5, 0, 6, 0, 5, F_SLOW|F_SHARE|F_BADMID, BEN, 0},
  {"transmit offenders", RS, TF|TP, 2, 5, 1, 2, 6, 3, F_TXBAD|F_LEAVE_EARLY, BEN, 0},
 }, 14000, {PR_FRAGMENTED, PR_ABRUPT_LEAVE}, "runs with fragmented or offending clients"},
 {"C09", {
  {"mixed", RS|RF, TN|TF|TP, 2, 6, 3, 4, 4, 6, F_SHARE|F_LEAVE_EARLY|F_TXBAD, BST, 0},
  {"radio", RP, TP, 2, 6, 2, 4, 4, 5, F_CONTEND|F_LEAVE_EARLY, BEN, 0},
  {"upstream failures", RS, TN|TF, 2, 5, 1, 6, 1, 3, F_UPFAIL|F_SHARE, BEN, 0},
  {"mid-session messages", RS|RF, TF, 2, 5, 1, 4, 4, 2, F_BADMID|F_TXBAD, BEN, 0},
 }, 14000, {PR_REJECT_CODE_CHECK}, "runs in which responses were checked"},
 {"C10", {
  {"mixed", RS|RF, TN|TF|TP, 2, 6, 1, 5, 3, 4, F_SHARE|F_LEAVE_EARLY|F_TXBAD, BST, 0},
  {"radio", RP, TP|TF, 1, 5, 0, 5, 5, 3, F_LEAVE_EARLY|F_TXBAD|F_CONTEND, BST, 0},
  {"upstream failures", RS, TN|TF, 2, 5, 0, 8, 1, 2, F_UPFAIL|F_SHARE|F_LEAVE_EARLY, BEN, 0},
  {"doppler", RS|RF, TF|TP, 1, 3, 0, 6, 3, 2, F_DOPPLER|F_LEAVE_EARLY, BEN, 0},
  {"failing", RS|RF|RP, TN|TF|TP, 2, 5, 0, 5, 4, 2, F_SHARE|F_LEAVE_EARLY|F_TXBAD, BEN|MEMF|DISKF|IIOF|NETF, 0},
  {"stop", RS|RF|RP, TN|TF|TP, 1, 5, 0, 6, 4, 2, F_STOP|F_SHARE|F_LEAVE_EARLY, BEN, 0},
 }, 14000, {PR_PROBE_OK}, "runs in which everything was found released and new sessions worked afterwards"},
 {"C11", {
  {"stop any time", RS|RF|RP, TN|TF|TP, 1, 5, 1, 6, 4, 3, F_STOP|F_SHARE|F_LEAVE_EARLY, BST, 0},
  {"stop while starting", RS|RP, TN|TF|TP, 1, 2, 1, 6, 4, 1, F_STOP|F_BOOT_STOP, BEN, 0},
  {"stop, sharing", RS, TN|TF, 2, 6, 0, 8, 1, 0, F_STOP|F_SHARE|F_LEAVE_EARLY, BEN, 0},
  {"stop, upstream failing", RS, TN|TF, 1, 4, 0, 8, 1, 1, F_STOP|F_UPFAIL|F_SHARE, BEN, 0},
  {"stop, failures", RS|RF|RP, TN|TF|TP, 1, 4, 1, 6, 4, 2, F_STOP|F_SHARE|F_LEAVE_EARLY, BEN|MEMF|DISKF|IIOF|NETF, 0},
 }, 20000, {PR_STOP_EARLY}, "runs in which the stop request came before the sessions had ended"},
 {"C12", {
  {"all failures", RS|RF|RP, TN|TF|TP, 1, 5, 1, 6, 4, 2, F_SHARE|F_LEAVE_EARLY|F_TXBAD, BEN|MEMF|DISKF|IIOF|NETF, 0},
  {"memory", RS|RF|RP, TN|TF|TP, 1, 4, 1, 6, 4, 2, F_SHARE|F_LEAVE_EARLY|F_DOPPLER, BEN|MEMF, 0},
  {"memory, files", RF, TF, 1, 3, 0, 6, 4, 0, F_TXBAD|F_LEAVE_EARLY, BEN|MEMF, 0},
  {"disk", RS|RF, TN|TF, 1, 4, 0, 6, 4, 0, F_SHARE|F_DISKFULL, BEN|DISKF, 0},
  {"sockets", RS, TN|TF, 2, 5, 1, 8, 2, 0, F_SHARE, BEN|NETF, 0},
  {"radio", RP, TP, 1, 4, 0, 5, 5, 0, F_TXBAD, BEN|IIOF, 0},
  {"while starting", RS|RP, TN|TP, 1, 2, 1, 4, 2, 0, F_BOOT_FAULT, BEN|MEMF|NETF|FB(BIND), 0},
  {"interruptions only", RS|RF, TN|TF, 1, 5, 1, 6, 4, 0, F_SHARE, BST, 0},
 }, 16000, {PR_PROBE_OK}, "runs in which new sessions were served after the failures stopped"},
 {"C13", {
  {"upstream", RS, TN|TF|TP, 1, 3, 0, 8, 2, 0, F_DOPPLER, BEN, 0},
  {"file", RF, TF, 1, 3, 0, 8, 2, 0, F_DOPPLER, BEN, 0},
  {"transmit", RS, TF, 1, 2, 0, 0, 8, 0, F_DOPPLER, BEN, 0},
  {"transmit by radio", RS, TP, 1, 2, 0, 0, 8, 0, F_DOPPLER, BEN, 0},
  {"clock jumps", RS|RF, TF, 1, 3, 0, 6, 4, 0, F_DOPPLER|F_CLOCKJUMP, BEN, 0},
  {"pauses", RS, TF, 1, 3, 0, 8, 1, 0, F_DOPPLER|F_PAUSE|F_SHARE, BEN, 0},
  {"together", RS, TF, 2, 4, 0, 8, 1, 0, F_DOPPLER|F_SHARE|F_TOGETHER, BEN, 0},
 }, 6000, {PR_DOPPLER_RX, PR_DOPPLER_TX}, "runs in which a Doppler corrected session was compared with the reference"},
 {"C14", {{"queue", RS, TN, 0, 0, 0, 0, 0, 0, 0, BST, 1}}, 45000, {PR_QUEUE_OPS}, "complete call histories checked for linearizability"},
 {"C15", {
  {"failures", RS, TN|TF, 1, 4, 0, 8, 1, 0, F_UPFAIL|F_SHARE, BEN, 0},
  {"failures, leaving", RS, TN, 2, 5, 0, 8, 0, 0, F_UPFAIL|F_SHARE|F_LEAVE_EARLY, BST, 0},
  {"pauses", RS, TN, 1, 4, 0, 8, 0, 0, F_PAUSE|F_SHARE, BEN, 0},
  {"pauses, tiny", RS, TN, 1, 2, 0, 8, 0, 0, F_PAUSE|F_TINY, BEN, 0},
  {"failures, beside others", RS, TF|TP, 2, 6, 1, 8, 2, 2, F_UPFAIL|F_SHARE, BEN, 0},
 }, 14000, {PR_UP_CONN}, "runs with upstream connections"},
 {"C16", {
  {"both directions", RP, TP, 2, 6, 0, 5, 5, 0, F_LEAVE_EARLY|F_CONTEND, BST, 0},
  {"receive and file", RP, TF|TN, 1, 3, 0, 8, 2, 0, F_LEAVE_EARLY, BEN, 0},
  {"transmit beside upstream", RS, TP, 1, 4, 0, 4, 5, 0, F_LEAVE_EARLY|F_TXBAD, BEN, 0},
  {"device failures", RP|RS, TP, 1, 5, 0, 5, 5, 1, F_LEAVE_EARLY|F_TXBAD|F_CONTEND, BEN|IIOF|MEMF, 0},
  {"stop", RP, TP, 1, 4, 0, 5, 5, 0, F_STOP|F_LEAVE_EARLY, BEN, 0},
 }, 14000, {PR_IIO_CTX_OPEN}, "runs in which the radio was opened"},
 {"C17", {
  {"loop", RF, TF, 0, 2, 1, 0, 0, 1, 0, BST, 2},
  {"loop, tiny buffers", RF, TF, 0, 2, 1, 0, 0, 1, F_TINY, BEN, 2},
  {"loop beside others", RF, TF, 1, 5, 1, 5, 0, 2, F_LEAVE_EARLY|F_SLOW, BEN, 2},
  {"loop with doppler", RF, TF, 0, 2, 1, 0, 0, 0, F_DOPPLER, BEN, 2},
 }, 8000, {PR_LOOPBACK_OK}, "runs in which the transmitted bits came back exactly"},
 {"C18", {
  {"settings", RS|RF|RP, TN|TF|TP, 1, 3, 0, 6, 3, 0, F_CONFIG, BEN, 0},
  {"settings, queue", RS, TN, 1, 2, 0, 8, 0, 0, F_CONFIG|F_DROPS|F_SLOW, BEN, 0},
  {"refused", RS|RF|RP, TN|TF|TP, 1, 1, 0, 6, 3, 0, F_CONFIG|F_BADCONF, BEN, 0},
  {"failures while starting", RS|RF|RP, TN|TF|TP, 1, 2, 0, 6, 3, 0, F_CONFIG|F_BOOT_FAULT, BEN|MEMF|FB(SOCKET)|FB(BIND)|FB(IIO_CTX), 0},
 }, 14000, {PR_CONFIG_OK, PR_CONFIG_REFUSED}, "runs in which the server worked with the settings of its configuration file or refused it"},
};
// Which classes of observed misbehaviour count against which property.
static const char *COMMON = "crash: cpu_timeout deadlock livelock spin abort not_started not_settled thread_join_ free_locked free_waited unlock_not condwait_not destroy_locked bad_file ebadf std_fd_used sigpipe exit_killed exit_unasked iio_null iio_use iio_double";
static const char *STREAM = "stream_ demodfile_ dump_ drop_unjustified file_incomplete session_lost extra_bytes eof_missing doppler_mismatch file_corrupt file_overwritten file_truncated foreign_file";
static const char *SERVED = "no_response bad_response bad_verdict not_closed connect_refused probe_failed session_lost extra_bytes dup_id";
static const char *RELEASE = "thread_leak fd_leak file_leak mem_leak exit_threads iio_ file_overwritten";
static const char *TXC = "tx_mismatch tx_extra tx_lost tx_dump_mismatch extra_bytes";
bool relevant(const std::string &prop, const std::string &cls) {
  static const std::map<std::string, std::vector<const char *>> m = {
    {"C01", {STREAM, "slow_blocks"}}, {"C02", {STREAM, "slow_blocks"}}, {"C03", {STREAM, "slow_blocks bad_verdict no_response"}},
    {"C04", {STREAM, TXC, "file_ recording_after"}}, {"C05", {TXC, "bad_verdict no_response bad_response session_lost doppler_mismatch"}},
    {"C06", {"tx_two rx_two tx_owner rx_owner bad_verdict probe_failed no_response iio_second session_lost"}},
    {"C07", {STREAM, "upstream_ probe_failed"}}, {"C08", {STREAM, TXC, SERVED, "slow_blocks upstream_ tx_owner rx_owner"}},
    {"C09", {SERVED, "tx_owner rx_owner"}}, {"C10", {RELEASE, "upstream_no_shutdown upstream_early probe_failed not_closed tx_owner rx_owner tx_powered"}},
    {"C11", {RELEASE, STREAM, TXC, "exit_ upstream_no_shutdown not_closed"}},
    {"C12", {STREAM, TXC, SERVED, RELEASE, "recording_after session_not exit_ upstream_ tx_owner rx_owner"}},
    {"C13", {"doppler_mismatch dump_ stream_ demodfile_ tx_mismatch tx_extra tx_lost"}}, {"C14", {"queue_ mem_leak"}},
    {"C15", {STREAM, SERVED, "upstream_"}}, {"C16", {"iio_ tx_powered pluto_config rx_two tx_two probe_failed", STREAM, TXC}},
    {"C18", {"config_ pluto_config no_response drop_unjustified foreign_file bad_verdict stream_ demodfile_ dump_ tx_dump file_"}}, {"C17", {"loop_", STREAM, TXC, SERVED}},
  };
  auto has = [&](const char *list) { std::string s = list; size_t p = 0; while (p < s.size()) { size_t e = s.find(' ', p); if (e == std::string::npos) e = s.size(); if (cls.compare(0, e - p, s, p, e - p) == 0) return true; p = e + 1; } return false; };
  if (has(COMMON)) return true;
  auto it = m.find(prop); if (it == m.end()) return false;
  for (auto l : it->second) if (has(l)) return true;
  return false;
}
