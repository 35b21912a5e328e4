// Driver: runs seeds in forked children, minimises failures, writes replay files and evidence.
#include "world.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <atomic>
using namespace sim;
using world::props; using world::PropDef;
extern "C" const char *__asan_default_options() {
  return "detect_stack_use_after_return=0:detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=8:malloc_context_size=6:handle_abort=1:handle_sigfpe=1:handle_sigill=1:print_legend=0:allocator_release_to_os_interval_ms=-1";
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static Shared *new_shared() { return (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
typedef std::vector<Dec> Decs;
static std::string tmpdir;
static std::string slurp(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void add_viol(Shared *s, const std::string &cls, const std::string &msg) {
  if (s->nviol >= MAXVIOL) s->nviol = MAXVIOL - 1;
  Viol &v = s->viol[s->nviol++]; snprintf(v.cls, sizeof v.cls, "%s", cls.c_str()); snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
}
// one simulated execution in a child process; dec == nullptr: generate from the seed
static void execute(Shared *s, const PropDef &p, int prof, uint64_t seed, const Decs *dec, bool trace, int errno_slot) {
  memset((void *)s, 0, offsetof(Shared, dec));
  std::string errf = tmpdir + "/err." + std::to_string(errno_slot);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!trace) { int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 2); close(fd); }
    struct itimerval it{}; it.it_value.tv_sec = 40; setitimer(ITIMER_PROF, &it, nullptr);
    sh = s; tracing = trace;
    std::map<uint64_t, uint32_t> m[NSTREAM];
    if (dec) { gen_mode = false; for (auto &d : *dec) m[d.s][d.key] = d.v; for (int i = 0; i < NSTREAM; i++) replay_map[i] = &m[i]; }
    kernel_init(seed);
    world::run(p.profiles[prof]);
    end_run();
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->finished) return;
  std::string e = trace ? "" : slurp(errf), cls = "crash", msg;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { cls = "cpu_timeout"; msg = "the run used 40 s of processor time"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    size_t q = e.find("AddressSanitizer: ");
    if (q != std::string::npos) { size_t z = e.find_first_of(" \n", q + 18); cls = "crash:" + e.substr(q + 18, z - q - 18); }
    else cls = "crash:asan";
    size_t f = e.find("#0 "); std::string fr; int k = 0; size_t pos = f;
    while (pos != std::string::npos && k < 6) { size_t nl = e.find('\n', pos); std::string l = e.substr(pos, nl - pos); size_t in = l.find(" in "); if (in != std::string::npos) { fr += l.substr(in + 4); fr += " < "; k++; } pos = nl == std::string::npos ? nl : e.find("#", nl); if (pos != std::string::npos && e.find("\n\n", nl - 1) < pos) break; }
    msg = fr;
    if (getenv("SIM_KEEP_ERR")) fprintf(stderr, "%s\n", e.c_str());
  } else { char b[200]; snprintf(b, sizeof b, "child status %x finished %d; ", st, s->finished); msg = b + e.substr(0, 400); if (WIFSIGNALED(st)) cls = "crash:signal" + std::to_string(WTERMSIG(st)); }
  add_viol(s, cls, msg);
}
struct Finding { std::string prop, cls, contains, text; };
static std::vector<Finding> findings;
static void load_findings(const std::string &f) {
  std::ifstream in(f); std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 8, "finding:") != 0) continue;
    Finding x; auto get = [&](const char *k) { std::string key = std::string(k) + "=\""; size_t a = l.find(key); if (a == std::string::npos) return std::string(); a += key.size(); return l.substr(a, l.find('"', a) - a); };
    x.prop = get("property"); x.cls = get("class"); x.contains = get("contains"); x.text = get("text"); findings.push_back(x);
  }
}
static const Finding *known(const std::string &prop, const Viol &v) { for (auto &f : findings) if (f.prop == prop && f.cls == v.cls && strstr(v.msg, f.contains.c_str())) return &f; return nullptr; }
static const Viol *relevant_viol(const PropDef &p, Shared *s) { for (uint32_t i = 0; i < s->nviol; i++) if (world::relevant(p.id, s->viol[i].cls) && !known(p.id, s->viol[i])) return &s->viol[i]; return nullptr; }
static Decs decs_of(Shared *s) { return Decs(s->dec, s->dec + s->ndec); }

static bool shows(Shared *s, const PropDef &p, const std::string &cls) { const Viol *v = relevant_viol(p, s); if (!v) return false; for (uint32_t i = 0; i < s->nviol; i++) if (cls == s->viol[i].cls) return true; return false; }
// evaluate candidates in parallel; returns index of the first (lowest) one that still fails, and its effective decisions
static int eval_batch(const PropDef &p, int prof, uint64_t seed, const std::string &cls, std::vector<Decs> &cands, Decs &eff) {
  static Shared *ss[8]; for (auto &x : ss) if (!x) x = new_shared();
  for (size_t base = 0; base < cands.size(); base += 8) {
    size_t k = std::min<size_t>(8, cands.size() - base);
    std::vector<pid_t> pids;
    for (size_t i = 0; i < k; i++) { fflush(stdout); pid_t q = fork(); if (!q) { execute(ss[i], p, prof, seed, &cands[base + i], false, 100 + i); _exit(0); } pids.push_back(q); }
    for (auto q : pids) { int st; waitpid(q, &st, 0); }
    for (size_t i = 0; i < k; i++) if (shows(ss[i], p, cls)) { eff = decs_of(ss[i]); return (int)(base + i); }
  }
  return -1;
}
static Decs minimise(const PropDef &p, int prof, uint64_t seed, const std::string &cls, Decs d, double budget, int &tries) {
  double t0 = wall(); Decs eff; tries = 0;
  auto uniq = [](Decs &x) { std::sort(x.begin(), x.end(), [](const Dec &a, const Dec &b) { return a.s != b.s ? a.s < b.s : a.key < b.key; }); x.erase(std::unique(x.begin(), x.end(), [](const Dec &a, const Dec &b) { return a.s == b.s && a.key == b.key; }), x.end()); };
  uniq(d);
  {  // whole streams first
    for (int round = 0; round < 2; round++) for (int st : {(int)M, (int)N, (int)F, (int)S}) { std::vector<Decs> c(1); for (auto &x : d) if (x.s != st) c[0].push_back(x); if (c[0].size() == d.size()) continue; tries++; if (eval_batch(p, prof, seed, cls, c, eff) == 0) { d = eff; uniq(d); } }
  }
  size_t chunk = std::max<size_t>(1, d.size() / 2);
  while (wall() - t0 < budget && d.size() > 1) {
    bool any = false;
    for (size_t pos = 0; pos < d.size() && wall() - t0 < budget;) {
      std::vector<Decs> c; std::vector<size_t> at;
      for (size_t q = pos; q < d.size() && c.size() < 8; q += chunk) { Decs x(d.begin(), d.begin() + q); x.insert(x.end(), d.begin() + std::min(d.size(), q + chunk), d.end()); c.push_back(x); at.push_back(q); }
      tries += c.size();
      int r = eval_batch(p, prof, seed, cls, c, eff);
      if (r >= 0) { uniq(eff); if (eff.size() < d.size()) { d = eff; any = true; } else { d = c[r]; any = true; } pos = at[r]; if (pos >= d.size()) break; }
      else pos = at.back() + chunk;
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > d.size() / 2) chunk = std::max<size_t>(1, std::min(chunk / 2, d.size() / 2 ? d.size() / 2 : 1));
  }
  return d;
}
static const char *stream_name[] = {"world", "sched", "fault", "net", "mem"};
static void write_replay(const std::string &path, const PropDef &p, int prof, uint64_t seed, const Viol &v, uint64_t hash, const Decs &d, const char *summary) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return;
  fprintf(f, "sdr-modem-simulation-replay 1\nproperty %s\nprofile %d %s\nseed %llu\nclass %s\nhash %016llx\nmessage %s\nscenario %s\ndecisions %zu\n", p.id, prof, p.profiles[prof].name, (unsigned long long)seed, v.cls, (unsigned long long)hash, v.msg, summary, d.size());
  for (auto &x : d) {
    unsigned sub = (unsigned)(x.key >> 40);
    fprintf(f, "%s %u %llu %u", stream_name[x.s], sub, (unsigned long long)(x.key & ((1ull << 40) - 1)), x.v);
    if (x.s == F && sub < FK_COUNT) fprintf(f, " # %s", fault_names[sub]);
    fprintf(f, "\n");
  }
  fclose(f);
}
struct Replay { std::string prop, cls; int prof = 0; uint64_t seed = 0, hash = 0; Decs d; };
static bool read_replay(const std::string &path, Replay &r) {
  std::ifstream in(path); std::string l; size_t n = 0; if (!in) return false;
  while (std::getline(in, l)) {
    std::stringstream s(l); std::string k; s >> k;
    if (k == "property") s >> r.prop; else if (k == "profile") s >> r.prof; else if (k == "seed") s >> r.seed; else if (k == "class") s >> r.cls; else if (k == "hash") s >> std::hex >> r.hash;
    else if (k == "decisions") s >> n; else for (int i = 0; i < NSTREAM; i++) if (k == stream_name[i]) { uint64_t sub, ix; uint32_t v; if (s >> sub >> ix >> v) r.d.push_back(Dec{sub << 40 | ix, v, (uint8_t)i}); }
  }
  return !r.prop.empty() && r.d.size() == n;
}
static const PropDef *find_prop(const std::string &id) { for (auto &p : props) if (id == p.id) return &p; return nullptr; }

struct Stats {  // shared by the workers
  std::atomic<uint64_t> next; std::atomic<int> stop; std::atomic<uint64_t> runs, nviol_other, det_checked, det_bad, skipped, known;
  std::atomic<uint64_t> simtime_us, steps, switches, nontrivial; std::atomic<uint64_t> faults[FK_COUNT], probes[PR_COUNT], faulty_runs, decisions; std::atomic<uint8_t> edges[NEDGE];
  std::atomic<uint32_t> nfail; struct { uint64_t i; char cls[96]; char msg[600]; } fail[64];
  std::atomic<uint32_t> nother; struct { uint64_t i; char cls[96]; char msg[300]; } other[64];
  std::atomic<uint32_t> nh; uint64_t hashes[1 << 20]; uint64_t hh[1 << 20];
  std::atomic<uint32_t> nsamp; char samp[6][1500]; uint64_t det_ex;
};
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
static int check(const std::string &id, bool thorough, const std::string &vdir) {
  const PropDef *p = find_prop(id); if (!p) { fprintf(stderr, "no such property %s\n", id.c_str()); return 3; }
  load_findings(vdir + "/known_findings.txt");
  const char *se = getenv("VERIF_SEED"); uint64_t vs = se ? strtoull(se, nullptr, 10) : 1;
  uint64_t total = thorough ? (uint64_t)p->quick_runs * 12 : p->quick_runs; double budget = thorough ? 700 : 150;
  if (const char *e = getenv("SIM_RUNS")) total = strtoull(e, nullptr, 10);
  if (const char *e = getenv("SIM_BUDGET")) budget = atof(e);
  int nw = 8; if (const char *e = getenv("SIM_WORKERS")) nw = atoi(e);
  Stats *st = (Stats *)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = wall(); uint64_t seed0 = vs * 1000000ull;
  for (int w = 0; w < nw; w++) {
    fflush(stdout); if (fork()) continue;
    Shared *s = new_shared();
    for (;;) {
      uint64_t i = st->next++;
      if (i >= total || st->stop || wall() - t0 > budget) break;
      int prof = (int)(i % p->profiles.size()); uint64_t seed = seed0 + i;
      execute(s, *p, prof, seed, nullptr, false, w);
      st->runs++; st->simtime_us += s->simtime / 1000; st->steps += s->steps; st->switches += s->switches; st->decisions += s->ndec;
      uint64_t fk = 0; for (int k = 0; k < FK_COUNT; k++) { st->faults[k] += s->faults[k]; fk += s->faults[k]; } if (fk) st->faulty_runs++;
      for (int k = 0; k < PR_COUNT; k++) st->probes[k] += s->probes[k];
      for (int k = 0; k < NEDGE; k++) if (s->edges[k]) st->edges[k] = 1;
      uint64_t nt = 0; for (int c : p->core) nt += s->probes[c]; if (s->skipped) st->skipped++;
      uint32_t h = st->nh++; if (h < (1 << 20)) { st->hashes[h] = s->sched_hash; st->hh[h] = nt ? s->hash : 0; }
      if (nt) { st->nontrivial++; uint32_t q = st->nsamp++; if (q < 6) snprintf(st->samp[q], sizeof st->samp[q], "seed %llu: %s", (unsigned long long)seed, s->summary); }
      const Viol *v = relevant_viol(*p, s);
      for (uint32_t k = 0; k < s->nviol; k++) if (known(p->id, s->viol[k])) st->known++;
      if (v) { uint32_t q = st->nfail++; if (q < 64) { st->fail[q].i = i; snprintf(st->fail[q].cls, 96, "%s", v->cls); snprintf(st->fail[q].msg, 600, "%s", v->msg); } if (!getenv("SIM_ALL")) { st->stop = 1; break; } }
      else if (s->nviol) { uint32_t q = st->nother++; if (q < 64) { st->other[q].i = i; snprintf(st->other[q].cls, 96, "%s", s->viol[0].cls); snprintf(st->other[q].msg, 300, "%s", s->viol[0].msg); } }
      if (i % 40 == 7) { uint64_t h1 = s->hash; execute(s, *p, prof, seed, nullptr, false, w); st->det_checked++; if (s->hash != h1) { st->det_bad++; st->det_ex = i; } }
    }
    _exit(0);
  }
  while (wait(nullptr) > 0) {}
  double search_wall = wall() - t0;
  int rc = 0; std::string vline; int tries = 0; size_t nd0 = 0, nd1 = 0;
  if (st->nfail) {
    uint32_t n = std::min<uint32_t>(st->nfail, 64), best = 0; for (uint32_t k = 1; k < n; k++) if (st->fail[k].i < st->fail[best].i) best = k;
    if (getenv("SIM_ALL")) for (uint32_t k = 0; k < n; k++) printf("fail run %llu seed %llu %s: %s\n", (unsigned long long)st->fail[k].i, (unsigned long long)(seed0 + st->fail[k].i), st->fail[k].cls, st->fail[k].msg);
    uint64_t i = st->fail[best].i; int prof = (int)(i % p->profiles.size()); uint64_t seed = seed0 + i;
    Shared *s = new_shared(); execute(s, *p, prof, seed, nullptr, false, 50);
    const Viol *v = relevant_viol(*p, s);
    if (!v) { fprintf(stderr, "run %llu failed with %s (%s) but does not repeat\n", (unsigned long long)i, st->fail[best].cls, st->fail[best].msg); rc = 3; }
    else {
      std::string cls = v->cls; Decs d = decs_of(s); nd0 = d.size();
      Decs full = d; Viol v0 = *v; uint64_t h0 = s->hash; std::string sum0 = s->summary;
      double mb = 45; if (const char *e = getenv("SIM_MIN")) mb = atof(e);
      std::vector<Decs> c{d}; Decs eff;
      if (eval_batch(*p, prof, seed, cls, c, eff) == 0) d = minimise(*p, prof, seed, cls, d, mb, tries);
      mkdir((vdir + "/replays").c_str(), 0755);
      std::string path = vdir + "/replays/" + id + "-" + std::to_string(seed) + ".replay"; bool good = false;
      for (int att = 0; att < 2 && !good; att++) {
        Decs use = att == 0 ? d : full;
        execute(s, *p, prof, seed, &use, false, 50); uint64_t h1 = s->hash; bool ok1 = shows(s, *p, cls); Viol vv = v0; for (uint32_t k = 0; k < s->nviol; k++) if (cls == s->viol[k].cls) vv = s->viol[k];
        write_replay(path, *p, prof, seed, vv, h1, use, s->summary);
        execute(s, *p, prof, seed, &use, false, 50);
        good = ok1 && shows(s, *p, cls) && s->hash == h1; nd1 = use.size(); v0 = vv;
      }
      if (!good) { write_replay(path, *p, prof, seed, v0, h0, full, sum0.c_str()); fprintf(stderr, "note: the replay is not exact\n"); }
      printf("%s: %s (seed %llu, profile %s, %zu decisions, minimised from %zu)\nscenario: %s\n", v0.cls, v0.msg, (unsigned long long)seed, p->profiles[prof].name, nd1, nd0, s->summary);
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str()); rc = 1;
    }
  }
  for (auto &f : findings) if (f.prop == id) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), f.text.c_str());
  uint32_t nh = std::min<uint32_t>(st->nh, 1 << 20); std::set<uint64_t> a(st->hashes, st->hashes + nh), b(st->hh, st->hh + nh); b.erase(0);
  uint32_t ed = 0; for (auto &x : st->edges) if (x) ed++;
  uint64_t runs = st->runs;
  if (runs < total / 20 + 1 && !rc) { fprintf(stderr, "only %llu of %llu runs done\n", (unsigned long long)runs, (unsigned long long)total); rc = 3; }
  mkdir((vdir + "/evidence").c_str(), 0755);
  std::ofstream o(vdir + "/evidence/" + id + ".json");
  o << "{\n\"property\":" << js(id) << ",\"tier\":" << js(thorough ? "thorough" : "quick") << ",\"seed\":" << vs << ",\"level\":\"exploration\",\"wall_s\":" << wall() - t0 << ",\"violations\":" << (rc == 1 ? 1 : 0) << ",\n\"coverage\":{\n";
  o << "\"evaluations\":" << runs << ",\"distinct_nontrivial\":" << b.size() << ",\n\"rule\":" << js(std::string("One evaluation is one simulated execution of the whole server chosen by one seed (scenario, faults, network timing and every scheduling decision). It is non-trivial when the oracle of this property had something to judge (") + p->core_text + "), and distinct when the hash of its complete event history differs from every other run's.") << ",\n\"samples\":[";
  for (uint32_t k = 0; k < std::min<uint32_t>(st->nsamp, 6); k++) o << (k ? ",\n" : "") << js(st->samp[k]);
  o << "],\n\"runs_per_hour\":" << (uint64_t)(runs / std::max(search_wall, 0.001) * 3600) << ",\"seeds_per_hour\":" << (uint64_t)(runs / std::max(search_wall, 0.001) * 3600) << ",\"first_seed\":" << seed0 << ",\"simulated_seconds\":" << st->simtime_us / 1e6 << ",\"scheduling_steps\":" << st->steps << ",\"context_switches\":" << st->switches;
  o << ",\"distinct_interleavings\":" << a.size() << ",\"interleaving_measure\":\"distinct hashes of the complete sequence of context switches (thread, step)\",\"code_edges_reached_in_threaded_code\":" << ed << ",\"runs_with_faults\":" << st->faulty_runs << ",\n\"fault_counts\":{";
  bool first = true; for (int k = 0; k < FK_COUNT; k++) if (st->faults[k]) { o << (first ? "" : ",") << js(fault_names[k]) << ":" << st->faults[k]; first = false; }
  o << "},\n\"conditions_reached\":{"; first = true; for (int k = 0; k < PR_COUNT; k++) if (st->probes[k]) { o << (first ? "" : ",") << js(probe_names[k]) << ":" << st->probes[k]; first = false; }
  o << "},\n\"determinism\":{\"runs_repeated\":" << st->det_checked << ",\"hash_mismatches\":" << st->det_bad << "},\"profiles\":["; first = true; for (auto &q : p->profiles) { o << (first ? "" : ",") << js(q.name); first = false; }
  o << "],\n\"violations_of_other_properties_seen\":" << st->nother << ",\"known_finding_hits\":" << st->known << ",\"minimisation_runs\":" << tries << ",\n\"real_components\":[\"all of /repo/src built from the working tree: main, tcp_server, sdr_worker, dsp_worker, queue, linked_list, api and tcp utilities, file source, sdr-server client, PlutoSDR driver, all DSP and orbit code\",\"libprotobuf-c\"],";
  o << "\"stubbed_components\":[\"pthreads and scheduler\",\"sockets and TCP\",\"file system\",\"clocks\",\"signals\",\"memory allocator failures\",\"libiio and the radio (mock)\",\"volk kernels (portable versions)\",\"configuration file parser\",\"sdr-server and clients (simulated peers)\"]\n},\n";
  o << "\"assumptions\":[\"interleavings are explored at system calls, lock operations and, in part of the runs, at individual memory accesses, under sequential consistency\",\"TCP is modelled as a reliable byte stream with arbitrary segmentation, delay, reset and half close\"]\n}\n";
  o.close();
  printf("%s %s: %llu runs in %.1f s, %zu distinct interleavings, %zu distinct non-trivial histories, %.0f simulated s, %u repeat checks (%u mismatches), %u other violations\n", id.c_str(), thorough ? "thorough" : "quick", (unsigned long long)runs, search_wall, a.size(), b.size(), st->simtime_us / 1e6, (unsigned)st->det_checked, (unsigned)st->det_bad, (unsigned)st->nother);
  if (st->det_bad) fprintf(stderr, "warning: run %llu is not repeatable\n", (unsigned long long)st->det_ex);
  if (getenv("SIM_ALL")) for (uint32_t k = 0; k < std::min<uint32_t>(st->nother, 64); k++) printf("other run %llu %s: %s\n", (unsigned long long)st->other[k].i, st->other[k].cls, st->other[k].msg);
  return rc;
}
int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(0xffffffff) != -1 && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  char td[] = "/tmp/simrun.XXXXXX"; if (!mkdtemp(td)) return 3; tmpdir = td;
  int rc = 3; std::string cmd = argc > 1 ? argv[1] : "";
  const char *vd = getenv("SIM_VERIF"); std::string vdir = vd ? vd : "/verif";
  if (cmd == "check" && argc >= 4) rc = check(argv[2], !strcmp(argv[3], "thorough"), vdir);
  else if (cmd == "replay" && argc >= 3) {
    Replay r; if (!read_replay(argv[2], r)) { fprintf(stderr, "cannot read %s\n", argv[2]); rc = 3; }
    else {
      const PropDef *p = find_prop(r.prop); Shared *s = new_shared(); bool tr = argc > 3 && !strcmp(argv[3], "-t");
      execute(s, *p, r.prof, r.seed, &r.d, tr, 0);
      bool hit = false; for (uint32_t i = 0; i < s->nviol; i++) { printf("%s: %s\n", s->viol[i].cls, s->viol[i].msg); if (r.cls == s->viol[i].cls) hit = true; }
      printf("hash %016llx (%s)\n", (unsigned long long)s->hash, s->hash == r.hash ? "identical to the recorded execution" : "differs from the recorded execution");
      if (hit) printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), argv[2]); else printf("not reproduced\n");
      rc = hit ? 1 : 0;
    }
  } else if (cmd == "one" && argc >= 4) {
    const PropDef *p = find_prop(argv[2]); uint64_t seed = strtoull(argv[3], nullptr, 10); bool tr = argc > 4 && !strcmp(argv[4], "-t"); Shared *s = new_shared();
    int prof = (int)((seed % 1000000) % p->profiles.size()); double t0 = wall();
    execute(s, *p, prof, seed, nullptr, tr, 0);
    printf("%s\nhash %016llx steps %llu switches %llu sim %.3f s wall %.3f s decisions %u\n", s->summary, (unsigned long long)s->hash, (unsigned long long)s->steps, (unsigned long long)s->switches, s->simtime / 1e9, wall() - t0, s->ndec);
    for (uint32_t i = 0; i < s->nviol; i++) printf("%s%s: %s\n", s->viol[i].cls, world::relevant(p->id, s->viol[i].cls) ? " [relevant]" : "", s->viol[i].msg);
    for (int k = 0; k < FK_COUNT; k++) if (s->faults[k]) printf("%s=%llu ", fault_names[k], (unsigned long long)s->faults[k]);
    for (int k = 0; k < PR_COUNT; k++) if (s->probes[k]) printf("%s=%llu ", probe_names[k], (unsigned long long)s->probes[k]);
    printf("\n"); rc = s->nviol ? 1 : 0;
  } else fprintf(stderr, "usage: simrun check PROP quick|thorough | replay FILE [-t] | one PROP SEED [-t]\n");
  { std::string c = tmpdir; for (int i = 0; i < 110; i++) unlink((c + "/err." + std::to_string(i)).c_str()); rmdir(c.c_str()); }
  return rc;
}
