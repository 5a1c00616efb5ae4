// mc: bounded-exhaustive enumeration of cases on the real code, in forked worker processes.
//
// A harness's body enumerates its whole bounded space in a fixed order and calls Next() once per case;
// worker w of N executes the cases with index % N == w.  A failing, crashing or hanging case is re-run
// alone in a fresh process (and, failing that, after the cases that preceded it in its worker) before it
// is reported.
#ifndef MC_H_
#define MC_H_
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6) + (a >> 2));
  x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29;
  return x;
}
inline uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h, s.size());
}

struct Shared {
  // Per worker.
  struct W {
    volatile long idx;        // case being executed, -1: none
    volatile long started;    // seconds
    long cases, transitions;
    int failed;
    char msg[8000];
    char desc[8000];
    int done;
  } w[64];
  volatile int stop;
  volatile long states;
  int nsamples;
  volatile int lock;
  char samples[12][700];
  volatile long counters[64];
  char names[64][48];
  int ncounters;
  int nknown;
  char known[64][200];
};

const uint64_t kTable = 1ull << 24;

class Runner {
 public:
  bool thorough = false;
  long seed = 1;

  // One case. Returns true if this process executes it.
  template <class F> bool Next(F desc) {
    long i = next_++;
    if (stop_at_ >= 0 && i > stop_at_) { finished_ = true; return false; }
    if (only_ >= 0) { if (i != only_) return false; }
    else if (i % n_ != w_) return false;
    if (sh_->stop) { finished_ = true; return false; }
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    Shared::W& w = sh_->w[w_];
    w.idx = i;
    w.started = ts.tv_sec;
    ++w.cases;
    desc_ = [desc] { return std::string(desc()); };
    if (verbose_) { printf("CASE %ld: %s\n", i, desc_().c_str()); fflush(stdout); }
    // Samples: cases 0, 1, 2 and then sparser and sparser ones.
    if ((i < 2 || (i & (i - 1)) == 0) && only_ < 0) Sample(desc_());
    return true;
  }
  // True once nothing more is to be executed: a body may stop enumerating.
  bool Done() const { return finished_ || (only_ >= 0 && next_ > only_) || sh_->stop; }

  bool Check(bool ok, const std::string& msg) {
    if (ok) return true;
    Fail(msg);
    return false;
  }
  // A violation with an identity; the ones listed as known findings are only counted.
  bool CheckKey(bool ok, const std::string& key, const std::string& msg) {
    if (ok) return true;
    if (known_.count(key)) {
      Lock();
      bool have = false;
      for (int i = 0; i < sh_->nknown; ++i) if (key == sh_->known[i]) have = true;
      if (!have && sh_->nknown < 64) snprintf(sh_->known[sh_->nknown++], 200, "%s", key.c_str());
      Unlock();
      return false;
    }
    Fail("[" + key + "] " + msg);
    return false;
  }
  [[noreturn]] void Fail(const std::string& msg) {
    Shared::W& w = sh_->w[w_];
    snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
    std::string d = desc_ ? desc_() : "";
    snprintf(w.desc, sizeof w.desc, "%s", d.c_str());
    w.failed = 1;
    if (verbose_) { printf("FAIL %s\n", msg.c_str()); fflush(stdout); }
    fflush(stdout);
    _exit(77);
  }
  // Counts a distinct state (by hash) of this run.
  void State(uint64_t h) {
    uint64_t k = h ? h : 1;
    uint64_t i = Mix(h, 3) & (kTable - 1);
    for (int n = 0; n < 2048; ++n, i = (i + 1) & (kTable - 1)) {
      uint64_t cur = __atomic_load_n(&table_[i], __ATOMIC_RELAXED);
      if (cur == k) return;
      if (cur == 0) {
        if (__atomic_compare_exchange_n(&table_[i], &cur, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
          __sync_fetch_and_add(&sh_->states, 1);
          return;
        }
        if (cur == k) return;
      }
    }
  }
  void State(const std::string& s) { State(Hash(s)); }
  void Step(long n = 1) { sh_->w[w_].transitions += n; }
  void Count(const char* name, long n = 1) {
    for (int i = 0; i < sh_->ncounters; ++i)
      if (!strcmp(sh_->names[i], name)) { __sync_fetch_and_add(&sh_->counters[i], n); return; }
    Lock();
    int i = 0;
    for (; i < sh_->ncounters; ++i) if (!strcmp(sh_->names[i], name)) break;
    if (i == sh_->ncounters && i < 64) { snprintf(sh_->names[i], 48, "%s", name); ++sh_->ncounters; }
    Unlock();
    if (i < 64) __sync_fetch_and_add(&sh_->counters[i], n);
  }
  void Sample(const std::string& s) {
    Lock();
    if (sh_->nsamples < 12) snprintf(sh_->samples[sh_->nsamples++], 700, "%s", s.c_str());
    Unlock();
  }
  std::string TempDir() {  // per process, removed by the driver
    std::string d = scratch_ + "/w" + std::to_string(getpid());
    mkdir_(d);
    return d;
  }

 private:
  friend int Main(int, char**, std::function<void(Runner&)>, int);
  static void mkdir_(const std::string& d) { std::string c = "mkdir -p '" + d + "'"; if (system(c.c_str())) {} }
  void Lock() { while (__sync_lock_test_and_set(&sh_->lock, 1)) usleep(10); }
  void Unlock() { __sync_lock_release(&sh_->lock); }
  Shared* sh_;
  uint64_t* table_;
  int w_ = 0, n_ = 1;
  long next_ = 0, only_ = -1, stop_at_ = -1;
  bool verbose_ = false, finished_ = false;
  std::function<std::string()> desc_;
  std::set<std::string> known_;
  std::string scratch_ = "/tmp";
};

inline std::string Json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

inline double CpuSeconds(pid_t pid) {
  clockid_t clock;
  struct timespec ts;
  if (clock_getcpuclockid(pid, &clock) || clock_gettime(clock, &ts)) return 0;
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// limit: seconds of processor time one case may take.
inline int Main(int argc, char** argv, std::function<void(Runner&)> body, int limit = 30) {
  Runner r;
  int workers = 8;
  long replay = -1, upto = -1;
  int shard = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") r.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--seed") r.seed = atol(argv[++i]);
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--case") replay = atol(argv[++i]);
    else if (a == "--upto") upto = atol(argv[++i]);
    else if (a == "--shard") shard = atoi(argv[++i]);
    else if (a == "--known") r.known_.insert(argv[++i]);
    else if (a == "--scratch") r.scratch_ = argv[++i];
  }
  r.sh_ = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  r.table_ = (uint64_t*)mmap(nullptr, kTable * 8, PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto run_body = [&](Runner& rr) {
    try { body(rr); }
    catch (const std::exception& e) { rr.Fail(std::string("uncaught exception: ") + e.what()); }
  };
  if (replay >= 0 || shard >= 0) {
    if (replay >= 0) { r.only_ = replay; r.verbose_ = true; }
    else { r.w_ = shard; r.n_ = workers; r.stop_at_ = upto; }
    run_body(r);
    printf("PASSED\n");
    return 0;
  }
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  double t0 = ts.tv_sec + ts.tv_nsec * 1e-9;
  fflush(stdout);
  std::vector<pid_t> pids(workers);
  std::vector<int> status(workers, -1);
  for (int w = 0; w < workers; ++w) {
    r.sh_->w[w].idx = -1;
    pid_t pid = fork();
    if (pid == 0) {
      std::string log = r.scratch_ + "/log." + std::to_string(w);
      int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
      r.w_ = w; r.n_ = workers;
      run_body(r);
      r.sh_->w[w].done = 1;
      fflush(stdout);
      _exit(0);
    }
    pids[w] = pid;
  }
  int left = workers, bad = -1;
  bool hang = false;
  std::vector<long> watched(workers, -2);
  std::vector<double> used(workers, 0);
  while (left > 0) {
    for (int w = 0; w < workers; ++w) {
      if (status[w] != -1) continue;
      int st;
      pid_t p = waitpid(pids[w], &st, WNOHANG);
      if (p == pids[w]) {
        status[w] = st; --left;
        if (!r.sh_->w[w].done && !(r.sh_->stop && bad >= 0)) { if (bad < 0) bad = w; r.sh_->stop = 1; }
        continue;
      }
      clock_gettime(CLOCK_MONOTONIC, &ts);
      // A busy machine makes a case slow: it hangs when it used up the processor time it may use, or when it
      // waits far longer than that.
      if (r.sh_->w[w].idx != watched[w]) { watched[w] = r.sh_->w[w].idx; used[w] = CpuSeconds(pids[w]); }
      const double waited = ts.tv_sec - r.sh_->w[w].started;
      if (waited <= limit) continue;
      const bool over = waited > 6 * limit || CpuSeconds(pids[w]) - used[w] > limit;
      if (watched[w] >= 0 && over && !r.sh_->w[w].done && !r.sh_->stop) {
        hang = true; bad = w; r.sh_->stop = 1;
      }
      if (r.sh_->stop && over) kill(pids[w], SIGKILL);
    }
    usleep(3000);
  }
  clock_gettime(CLOCK_MONOTONIC, &ts);
  long cases = 0, tr = 0;
  for (int w = 0; w < workers; ++w) { cases += r.sh_->w[w].cases; tr += r.sh_->w[w].transitions; }
  std::string o = "{\"cases\":" + std::to_string(cases) + ",\"states\":" + std::to_string(r.sh_->states) +
                  ",\"transitions\":" + std::to_string(tr) + ",\"wall\":" +
                  std::to_string(ts.tv_sec + ts.tv_nsec * 1e-9 - t0) + ",\"counters\":{";
  for (int i = 0; i < r.sh_->ncounters; ++i)
    o += (i ? "," : "") + Json(r.sh_->names[i]) + ":" + std::to_string(r.sh_->counters[i]);
  o += "},\"samples\":[";
  for (int i = 0; i < r.sh_->nsamples; ++i) o += (i ? "," : "") + Json(r.sh_->samples[i]);
  o += "],\"known\":[";
  for (int i = 0; i < r.sh_->nknown; ++i) o += (i ? "," : "") + Json(r.sh_->known[i]);
  o += "],\"violation\":" + std::to_string(bad >= 0);
  if (bad >= 0) {
    Shared::W& w = r.sh_->w[bad];
    std::string m = w.failed ? w.msg : hang ? "hang: no end within the time limit" : "";
    if (m.empty()) {
      m = "crash: status " + std::to_string(status[bad]);
      std::ifstream in(r.scratch_ + "/log." + std::to_string(bad));
      std::string line, tail;
      while (std::getline(in, line))
        if (line.find("ERROR") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("#0") != std::string::npos || line.find("#1") != std::string::npos ||
            line.find("#2") != std::string::npos || line.find("Assert") != std::string::npos ||
            line.find("Check failed") != std::string::npos || line.find("what()") != std::string::npos)
          if (tail.size() < 3000) tail += "\n" + line;
      m += tail;
    }
    o += ",\"case\":" + std::to_string(w.idx) + ",\"shard\":" + std::to_string(bad) + ",\"workers\":" +
         std::to_string(workers) + ",\"hang\":" + std::to_string(hang) + ",\"msg\":" + Json(m) + ",\"desc\":" +
         Json(w.desc);
  }
  o += "}";
  printf("%s\n", o.c_str());
  return bad >= 0 ? 1 : 0;
}

}  // namespace mc
#endif
