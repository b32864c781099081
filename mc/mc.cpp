#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <atomic>
#include <map>
#include <set>

extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace mc {

bool thorough = false;
bool logging  = false;

static const unsigned MAX_WORKERS = 8;
static const unsigned MAX_DEPTH   = 8192;
static const unsigned CLAIMS      = 1u << 20;
static const unsigned MAX_KNOWN   = 64;

struct Trace {
  volatile uint32_t len;
  uint32_t c[MAX_DEPTH];
};

struct WorkerShm {
  Trace    trace;
  volatile uint64_t executions, transitions, pruned, heartbeat;
  volatile uint32_t maxdepth;
  volatile uint32_t done;          // finished this config
  volatile uint32_t in_exec;
  volatile uint64_t known_hits[MAX_KNOWN];
  char     sig[128];
  char     msg[4096];
  volatile uint32_t failed;
};

struct Shm {
  std::atomic<uint8_t>  claim[CLAIMS];
  std::atomic<uint32_t> stop;
  std::atomic<uint64_t> states;
  WorkerShm w[MAX_WORKERS];
};

static Shm* shm = nullptr;
static std::atomic<uint64_t>* table = nullptr;   // state cache
static uint64_t table_mask = 0;
static WorkerShm* me = nullptr;
static unsigned my_id = 0;
static unsigned n_workers = 8;

/* Exploration state of one worker. */
static uint32_t  path[MAX_DEPTH];
static uint32_t  arity[MAX_DEPTH];
static unsigned  path_len = 0;     // choices fixed for the coming run
static unsigned  pos = 0;
static unsigned  fixed_len = 0;    // choices replayed from earlier executions in the current run
static unsigned  split = 1;
static uint64_t  prefix_index = 0;
static bool      claimed = false;
static bool      replaying = false;
static char oplog_buf[3600];          // fixed: recording must not disturb the allocation count
static size_t oplog_len = 0;
static bool   oplog_on = false;
static uint32_t  cfg_index = 0;

struct Skip {};

struct Known { std::string sig, text; };
static std::vector<Known> known;

static double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t hash(const void* p, size_t n, uint64_t seed) {
  const uint8_t* b = (const uint8_t*) p;
  uint64_t h = 0x9E3779B97F4A7C15ULL ^ seed;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 0x100000001B3ULL;
    h ^= h >> 29;
  }
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 32;
  return h;
}

static void try_claim() {
  bool got;
  if (prefix_index < CLAIMS) got = (0 == shm->claim[prefix_index].exchange(1));
  else                       got = ((prefix_index % n_workers) == my_id);
  prefix_index++;
  if (!got) throw Skip();
  claimed = true;
}

uint32_t choose(uint32_t n) {
  if (0 == n) { fprintf(stderr, "mc: choose(0)\n"); _exit(3); }
  if (pos >= MAX_DEPTH) { fprintf(stderr, "mc: execution too deep\n"); _exit(3); }
  uint32_t v;
  if (pos < path_len) {
    v = path[pos];
    if (v >= n) {
      fprintf(stderr, "mc: nondeterministic harness: choice %u is %u of %u\n", pos, v, n);
      _exit(3);
    }
    arity[pos] = n;
  }
  else {
    v = 0;
    path[pos] = 0;
    arity[pos] = n;
    path_len = pos + 1;
  }
  pos++;
  if (me) { me->trace.c[pos-1] = v; me->trace.len = pos; }
  if (!replaying && !claimed && (pos == split)) try_claim();
  return v;
}

static void vrender(const char* fmt, va_list ap) {
  char buf[2048];
  vsnprintf(buf, sizeof(buf), fmt, ap);
  if (replaying) { printf("  %s\n", buf); fflush(stdout); }
  else if (oplog_on && (oplog_len < 1200)) oplog_len += (size_t) snprintf(oplog_buf + oplog_len, sizeof(oplog_buf) - oplog_len, "%s; ", buf);
}

void op(const char* fmt, ...) {
  if (me) { me->transitions = me->transitions + 1; me->heartbeat = me->heartbeat + 1; }
  if (!logging) return;
  va_list ap; va_start(ap, fmt); vrender(fmt, ap); va_end(ap);
}
void note(const char* fmt, ...) {
  if (!logging) return;
  va_list ap; va_start(ap, fmt); vrender(fmt, ap); va_end(ap);
}
void steps(uint64_t n) { if (me) { me->transitions = me->transitions + n; me->heartbeat = me->heartbeat + 1; } }

static bool cache(uint64_t h, unsigned remaining) {
  if (remaining > 254) remaining = 254;
  const uint64_t tag = (h & ~0xFFULL);
  uint64_t i = (h >> 20) & table_mask;
  for (unsigned probe = 0; probe < 4096; probe++) {
    uint64_t cur = table[i].load(std::memory_order_relaxed);
    if (0 == cur) {
      uint64_t want = tag | (remaining + 1);
      if (table[i].compare_exchange_strong(cur, want)) { shm->states++; return true; }
    }
    if ((cur & ~0xFFULL) == tag) {
      while (true) {
        if ((cur & 0xFF) >= (remaining + 1)) return false;
        if (table[i].compare_exchange_strong(cur, tag | (remaining + 1))) return true;
      }
    }
    i = (i + 1) & table_mask;
  }
  return true;   // the cache is full here: explore without caching
}

bool visit(const std::string& key, unsigned remaining) {
  if (replaying || !claimed) return true;   // not before the claim: prefixes must enumerate alike in every worker
  if (pos < fixed_len) return true;         // already expanded by an earlier execution on this very path
  return cache(hash(key.data(), key.size(), 0x51ED * (cfg_index + 1)), remaining);
}
void count_state(uint64_t h) { if (!replaying) cache(hash(&h, 8, 0xC0 + cfg_index), 0); }
void count_state(const std::string& key) { if (!replaying) cache(hash(key.data(), key.size(), 0xC0 + cfg_index), 0); }

[[noreturn]] void fail(const char* sig, const char* fmt, ...) {
  char buf[3500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  for (unsigned i = 0; i < known.size(); i++) {
    if (known[i].sig == sig) {
      if (me) me->known_hits[i] = me->known_hits[i] + 1;
      if (replaying) printf("  KNOWN [%s] %s\n", sig, buf);
      throw Prune();
    }
  }
  if (replaying) {
    printf("  FAIL [%s] %s\n", sig, buf);
    fflush(stdout);
    _exit(77);
  }
  snprintf(me->sig, sizeof(me->sig), "%s", sig);
  snprintf(me->msg, sizeof(me->msg), "%s", buf);
  me->failed = 1;
  _exit(77);
}

std::string hex(const void* p, size_t n) {
  std::string r; char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, sizeof(b), "%02x", ((const uint8_t*) p)[i]); r += b; }
  return r;
}
std::string hex(const std::string& s) { return hex(s.data(), s.size()); }

/* Allocation accounting, by way of the sanitizer's hooks. */
static int64_t g_bytes = 0, g_blocks = 0;
static void on_malloc(const volatile void* p, size_t) {
  if (p) { g_bytes += (int64_t) __sanitizer_get_allocated_size(p); g_blocks++; }
}
static void on_free(const volatile void* p) {
  if (p) { g_bytes -= (int64_t) __sanitizer_get_allocated_size(p); g_blocks--; }
}
int64_t live_bytes()  { return g_bytes; }
int64_t live_blocks() { return g_blocks; }

static std::vector<std::string> samples;
static int sample_fd = -1;

std::function<void()> prime;
static void run_prime() {
  if (!prime) return;
  pos = 0; fixed_len = 0;
  if (me) me->trace.len = 0;
  try { prime(); }
  catch (Prune&) { }
}
static void run_once(const Config& cfg) {
  pos = 0;
  fixed_len = path_len;
  if (me) me->trace.len = 0;
  try { cfg.run(); }
  catch (Prune&) { if (me) me->pruned = me->pruned + 1; }
}

/* Explores cfg. Exit codes: 0 finished, 77 violation, 88 restart me from the stored path. */
static void worker(const Config& cfg) {
  split = cfg.split;
  prefix_index = 0;
  path_len = 0;
  claimed = (0 == split);
  uint64_t exec_count = 0;
  run_prime();
  while (true) {
    bool want = (0 == my_id) && ((exec_count == 1) || (exec_count == 37) || (exec_count == 1021) || (exec_count == 20011));
    if (want) { oplog_on = true; oplog_len = 0; oplog_buf[0] = 0; logging = true; }
    bool skipped = false;
    try { run_once(cfg); }
    catch (Skip&) { skipped = true; }
    if (want) {
      oplog_on = false; logging = false;
      if (!skipped && (sample_fd >= 0)) {
        std::string line = cfg.name + ": " + oplog_buf + "\n";
        (void) !write(sample_fd, line.data(), line.size());
      }
    }
    if (!skipped) {
      if (!claimed) { /* ended before the split depth: count it once */
        bool got = true;
        if (prefix_index < CLAIMS) got = (0 == shm->claim[prefix_index].exchange(1));
        prefix_index++;
        if (got) me->executions = me->executions + 1;
      }
      else me->executions = me->executions + 1;
      if (pos > me->maxdepth) me->maxdepth = pos;
    }
    exec_count++;
    me->heartbeat = me->heartbeat + 1;
    /* Backtrack. */
    path_len = pos;
    while ((path_len > 0) && (path[path_len-1] + 1 >= arity[path_len-1])) path_len--;
    if (path_len <= split) claimed = (0 == split);
    if (0 == path_len) break;
    path[path_len-1]++;
    if (path_len < split) claimed = false;
    if ((0 == (exec_count & 0x3FF)) && shm->stop.load()) _exit(0);
    if ((g_bytes > (700LL << 20)) && (path_len <= split)) _exit(88);
    if (g_bytes > (1500LL << 20)) _exit(89);
  }
  me->done = 1;
}

static std::string json_str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c < 0x20 || c > 0x7E) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else r += (char) c;
  }
  return r + "\"";
}

static void load_known(const char* property) {
  const char* f = getenv("MC_KNOWN");
  if (!f) return;
  FILE* fp = fopen(f, "r");
  if (!fp) return;
  char line[4096];
  std::string want = std::string("known: property=") + property + " sig=";
  while (fgets(line, sizeof(line), fp)) {
    std::string s(line);
    while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    if (0 == s.compare(0, want.size(), want)) {
      std::string rest = s.substr(want.size());
      size_t sp = rest.find(' ');
      Known k;
      k.sig  = rest.substr(0, sp);
      k.text = (sp == std::string::npos) ? "" : rest.substr(sp + 1);
      if (known.size() < MAX_KNOWN) known.push_back(k);
    }
  }
  fclose(fp);
}

static int do_replay(const char* file, std::vector<Config>& configs) {
  FILE* fp = fopen(file, "r");
  if (!fp) { fprintf(stderr, "cannot open %s\n", file); return 2; }
  char line[65536];
  std::string cfgname;
  std::vector<uint32_t> ch;
  while (fgets(line, sizeof(line), fp)) {
    if (0 == strncmp(line, "config ", 7)) { cfgname = line + 7; while (!cfgname.empty() && cfgname.back() == '\n') cfgname.pop_back(); }
    if (0 == strncmp(line, "choices", 7)) {
      char* p = line + 7;
      while (*p) { char* e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; ch.push_back((uint32_t) v); p = e; }
    }
  }
  fclose(fp);
  for (size_t i = 0; i < configs.size(); i++) {
    Config& c = configs[i];
    if (c.name != cfgname) continue;
    cfg_index = (uint32_t) i;
    replaying = true; logging = true;
    for (size_t k = 0; k < ch.size(); k++) path[k] = ch[k];
    path_len = (unsigned) ch.size();
    printf("replay of %s\n", cfgname.c_str());
    run_prime();
    run_once(c);
    printf("  no violation on this trace\n");
    return 0;
  }
  fprintf(stderr, "no such config: %s\n", cfgname.c_str());
  return 2;
}

int main(int argc, char** argv, const char* property, std::vector<Config> configs,
         const std::vector<std::string>& assumptions) {
  const char* tier = getenv("VERIF_TIER");
  const char* outdir = getenv("MC_OUT");       // where replays go
  const char* evidence = getenv("MC_EVIDENCE");
  const char* seed = getenv("VERIF_SEED");
  const char* only = getenv("MC_ONLY");
  if (getenv("MC_WORKERS")) n_workers = atoi(getenv("MC_WORKERS"));
  if (n_workers < 1 || n_workers > MAX_WORKERS) n_workers = MAX_WORKERS;
  double budget = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET")) : (thorough ? 6 * 3600.0 : 700.0);
  double hang_s = getenv("MC_HANG") ? atof(getenv("MC_HANG")) : 40.0;
  (void) tier;
  load_known(property);
  shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  const uint64_t entries = thorough ? (1ULL << 26) : (1ULL << 24);
  table_mask = entries - 1;
  table = (std::atomic<uint64_t>*) mmap(nullptr, entries * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (shm == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 3; }
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);

  if ((argc > 2) && (0 == strcmp(argv[1], "--replay"))) {
    me = &shm->w[0];
    return do_replay(argv[2], configs);
  }

  char sfile[64];
  snprintf(sfile, sizeof(sfile), "/tmp/mc_samples_%d", (int) getpid());
  sample_fd = open(sfile, O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0600);

  const double t0 = now_s();
  uint64_t executions = 0, transitions = 0, pruned = 0, maxdepth = 0;
  bool complete = true;
  bool violated = false;
  std::string v_sig, v_msg, v_cfg;
  std::vector<uint32_t> v_trace;
  std::vector<uint64_t> known_hits(known.size(), 0);
  std::string cfg_json;
  unsigned ran = 0;

  for (size_t ci = 0; (ci < configs.size()) && !violated; ci++) {
    Config& cfg = configs[ci];
    if (only && (std::string::npos == cfg.name.find(only))) continue;
    ran++;
    cfg_index = (uint32_t) ci;
    memset((void*) shm->claim, 0, sizeof(shm->claim));
    memset((void*) shm->w, 0, sizeof(shm->w));
    shm->stop = 0;
    const uint64_t states_before = shm->states;
    const double ct0 = now_s();
    std::map<pid_t, unsigned> pids;
    uint64_t hb[MAX_WORKERS]; double hbt[MAX_WORKERS];
    auto spawn = [&](unsigned id) {
      fflush(stdout); fflush(stderr);
      char efile[80];
      pid_t p = fork();
      if (0 == p) {
        my_id = id;
        me = &shm->w[id];
        snprintf(efile, sizeof(efile), "/tmp/mc_err_%d_%u", (int) getppid(), id);
        int fd = open(efile, O_RDWR|O_CREAT|O_TRUNC, 0600);
        dup2(fd, 2); dup2(fd, 1); close(fd);
        worker(cfg);
        _exit(0);
      }
      pids[p] = id;
      hb[id] = 0; hbt[id] = now_s();
    };
    for (unsigned i = 0; i < n_workers; i++) spawn(i);
    bool timed_out = false;
    while (!pids.empty()) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0 && pids.count(p)) {
        unsigned id = pids[p];
        pids.erase(p);
        bool bad = false;
        std::string why;
        if (WIFSIGNALED(st)) { bad = true; why = std::string("killed by signal ") + std::to_string(WTERMSIG(st)); }
        else {
          int rc = WEXITSTATUS(st);
          if (rc == 0) {}
          else if (rc == 77) { bad = true; }
          else if (rc == 88) {
            /* too much memory held at a prefix boundary: carry on in a fresh process */
            spawn(id);
          }
          else if (rc == 3) { /* harness error */
            char efile[80]; snprintf(efile, sizeof(efile), "/tmp/mc_err_%d_%u", (int) getpid(), id);
            FILE* f = fopen(efile, "r"); char b[512]; size_t n = f ? fread(b, 1, sizeof(b)-1, f) : 0; b[n] = 0; if (f) fclose(f);
            /* An execution that does not reproduce under the same choices: the code under test kept or
               read state it should not. Report it with its trace. */
            bad = true; why = std::string("the execution is not a function of its choices: ") + b;
          }
          else if (rc == 89) { bad = true; why = "memory grew without bound (more than 1.5 GB held)"; }
          else { bad = true; why = std::string("memory error or abnormal exit, status ") + std::to_string(rc); }
        }
        if (bad && !violated) {
          violated = true;
          WorkerShm* w = &shm->w[id];
          if (w->failed) { v_sig = w->sig; v_msg = w->msg; }
          else {
            v_sig = "crash"; v_msg = why;
            char efile[80]; snprintf(efile, sizeof(efile), "/tmp/mc_err_%d_%u", (int) getpid(), id);
            FILE* f = fopen(efile, "r");
            if (f) { char b[3000]; size_t n = fread(b, 1, sizeof(b)-1, f); b[n] = 0; fclose(f); v_msg += "\n"; v_msg += b; }
          }
          v_cfg = cfg.name;
          v_trace.assign(w->trace.c, w->trace.c + w->trace.len);
          shm->stop = 1;
          for (auto& kv : pids) kill(kv.first, SIGKILL);
        }
        continue;
      }
      /* watchdog */
      double t = now_s();
      for (auto& kv : pids) {
        unsigned id = kv.second;
        uint64_t h = shm->w[id].heartbeat;
        if (h != hb[id]) { hb[id] = h; hbt[id] = t; }
        else if ((t - hbt[id] > hang_s) && !violated) {
          violated = true;
          v_sig = "hang";
          v_msg = "no progress: an operation does not return";
          v_cfg = cfg.name;
          v_trace.assign(shm->w[id].trace.c, shm->w[id].trace.c + shm->w[id].trace.len);
          for (auto& k2 : pids) kill(k2.first, SIGKILL);
        }
      }
      if ((t - t0 > budget) && !timed_out) { timed_out = true; complete = false; shm->stop = 1; }
      if (timed_out && (t - t0 > budget + 30)) for (auto& kv : pids) kill(kv.first, SIGKILL);
      usleep(2000);
    }
    uint64_t ce = 0, ctr = 0;
    for (unsigned i = 0; i < n_workers; i++) {
      WorkerShm* w = &shm->w[i];
      ce += w->executions; ctr += w->transitions; pruned += w->pruned;
      if (w->maxdepth > maxdepth) maxdepth = w->maxdepth;
      for (size_t k = 0; k < known.size(); k++) known_hits[k] += w->known_hits[k];
    }
    executions += ce; transitions += ctr;
    char b[512];
    std::string one = (cfg_json.empty() ? "" : ", ");
    one += "{\"config\": " + json_str(cfg.name) + ", \"bound\": " + json_str(cfg.bound);
    snprintf(b, sizeof(b), ", \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
      (unsigned long long) ce, (unsigned long long) ctr, (unsigned long long) (shm->states - states_before),
      (timed_out || violated) ? "false" : "true", now_s() - ct0);
    cfg_json += one + b;
    if (getenv("MC_VERBOSE")) fprintf(stderr, "%-40s exec=%llu trans=%llu states=%llu %.2fs\n", cfg.name.c_str(),
      (unsigned long long) ce, (unsigned long long) ctr, (unsigned long long) (shm->states - states_before), now_s() - ct0);
    for (unsigned i = 0; i < n_workers; i++) { char e[80]; snprintf(e, sizeof(e), "/tmp/mc_err_%d_%u", (int) getpid(), i); unlink(e); }
    if (timed_out) break;
  }

  std::vector<std::string> smp;
  if (sample_fd >= 0) {
    off_t n = lseek(sample_fd, 0, SEEK_END);
    std::string all((size_t) n, 0);
    (void) !pread(sample_fd, &all[0], (size_t) n, 0);
    size_t s = 0;
    while (s < all.size()) { size_t e = all.find('\n', s); if (e == std::string::npos) break; smp.push_back(all.substr(s, e - s)); s = e + 1; }
    close(sample_fd); unlink(sfile);
  }

  for (size_t k = 0; k < known.size(); k++) {
    if (known_hits[k]) printf("KNOWN-FINDING: property=%s [%s] %s (met %llu times)\n", property, known[k].sig.c_str(), known[k].text.c_str(), (unsigned long long) known_hits[k]);
  }

  if (violated) {
    char rf[512];
    snprintf(rf, sizeof(rf), "%s/%s.replay", outdir ? outdir : ".", property);
    FILE* f = fopen(rf, "w");
    if (f) {
      fprintf(f, "property %s\nconfig %s\nchoices", property, v_cfg.c_str());
      for (uint32_t c : v_trace) fprintf(f, " %u", c);
      fprintf(f, "\nsignature %s\n--- what failed ---\n%s\n", v_sig.c_str(), v_msg.c_str());
      fclose(f);
    }
    printf("config %s: [%s] %s\n", v_cfg.c_str(), v_sig.c_str(), v_msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", property, rf);
  }
  if (evidence) {
    FILE* f = fopen(evidence, "w");
    if (f) {
      fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"model_checking\",\n", property, thorough ? "thorough" : "quick", seed ? atoi(seed) : 1);
      fprintf(f, " \"coverage\": {\n  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",
        (unsigned long long) (uint64_t) shm->states, (unsigned long long) transitions, (unsigned long long) executions);
      fprintf(f, "  \"executions\": %llu,\n  \"executions_cut_at_known_states\": %llu,\n  \"max_choices_in_an_execution\": %llu,\n  \"exhaustive\": %s,\n",
        (unsigned long long) executions, (unsigned long long) pruned, (unsigned long long) maxdepth, (complete && !violated) ? "true" : "false");
      fprintf(f, "  \"note\": \"Every execution runs the real code from /repo/src and is compared step by step with the reference model, so each explored trace is also a conformance check.\",\n");
      fprintf(f, "  \"configs\": [%s],\n  \"samples\": [", cfg_json.c_str());
      size_t lim = smp.size() < 12 ? smp.size() : 12;
      for (size_t i = 0; i < lim; i++) fprintf(f, "%s%s", i ? ", " : "", json_str(smp[i].substr(0, 800)).c_str());
      fprintf(f, "],\n  \"known_findings_met\": [");
      bool first = true;
      for (size_t k = 0; k < known.size(); k++) if (known_hits[k]) { fprintf(f, "%s%s", first ? "" : ", ", json_str(known[k].sig).c_str()); first = false; }
      fprintf(f, "]\n },\n \"violations\": %d,\n \"assumptions\": [", violated ? 1 : 0);
      for (size_t i = 0; i < assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(assumptions[i]).c_str());
      fprintf(f, "],\n \"wall_s\": %.2f\n}\n", now_s() - t0);
      fclose(f);
    }
  }
  if (0 == ran) { fprintf(stderr, "no configuration ran\n"); return 3; }
  printf("%s %s: %s; %llu executions, %llu transitions, %llu states, %s, %.1f s\n", property, thorough ? "thorough" : "quick",
    violated ? "VIOLATED" : "held", (unsigned long long) executions, (unsigned long long) transitions,
    (unsigned long long) (uint64_t) shm->states, complete ? "bounds exhausted" : "TIME CAP REACHED before the bounds were exhausted", now_s() - t0);
  return violated ? 1 : 0;
}

/* Set before the checks build their configuration lists. */
__attribute__((constructor)) static void init_tier() {
  const char* t = getenv("VERIF_TIER");
  thorough = t && (0 == strcmp(t, "thorough"));
}

}  // namespace mc
