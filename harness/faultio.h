// File operations of this process on files below one directory are recorded, and chosen ones fail.
//
// The functions below are found by the program and by libstdc++ instead of the C library's.
#ifndef FAULTIO_H_
#define FAULTIO_H_
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <vector>

namespace faultio {

enum Op { OPEN, STAT, READ, WRITE, SEEK, CLOSE, MKDIR, OPS };
const char* const kOp[] = {"open", "stat", "read", "write", "seek", "close", "mkdir"};
// once: only this call fails; stay: it and every later one of the same kind on the file; none_left: the call transfers
// half of what it was given and every later one fails; intr: EINTR once; one: a single byte is transferred; half.
enum Kind { ONCE, STAY, PART, INTR, ONE, HALF, KINDS };
const char* const kKind[] = {"fails once", "and all later ones fail", "is half done and all later ones fail", "is interrupted", "transfers one byte", "transfers half"};

struct Fault { std::string path; Op op; int idx; Kind kind; };
struct Event { std::string path; Op op; int idx; };

struct Ctx {
  bool on = false;
  std::string root;
  std::vector<Fault> faults;
  std::mutex mu;
  std::map<int, std::string> fds;
  std::map<std::pair<std::string, int>, int> count;
  std::vector<Event> events;
  int hit = 0;
};
inline Ctx& C() { static Ctx* c = new Ctx; return *c; }

inline bool Tracked(const char* path, std::string* rel) {
  Ctx& c = C();
  if (!c.on || !path || strncmp(path, c.root.c_str(), c.root.size())) return false;
  std::string s = path + c.root.size();
  rel->clear();
  for (char ch : s) if (ch != '/' || (!rel->empty() && rel->back() != '/')) *rel += ch;
  return true;
}
inline std::string PathOf(int fd) {
  Ctx& c = C();
  if (!c.on) return "";
  std::lock_guard<std::mutex> l(c.mu);
  auto it = c.fds.find(fd);
  return it == c.fds.end() ? "" : it->second;
}
inline void SetPath(int fd, const std::string& p) {
  std::lock_guard<std::mutex> l(C().mu);
  if (p.empty()) C().fds.erase(fd); else C().fds[fd] = p;
}
// -1: goes ahead, otherwise the kind of the fault.
inline int Hit(const std::string& path, Op op) {
  Ctx& c = C();
  std::lock_guard<std::mutex> l(c.mu);
  int idx = c.count[{path, op}]++;
  c.events.push_back({path, op, idx});
  for (auto& f : c.faults)
    if (f.path == path && f.op == op) {
      if (idx == f.idx) { ++c.hit; return f.kind; }
      if (idx > f.idx && (f.kind == STAY || f.kind == PART)) return STAY;
    }
  return -1;
}
template <class F> F Real(const char* name, F) { return (F)dlsym(RTLD_NEXT, name); }
#define FAULTIO_REAL(f) static auto real = faultio::Real(#f, &f)

// ---- Running something in a child process.
struct Result {
  bool ended, hang;   // ended: normally, with exit code 0
  int status;
  std::string out;    // what the function returned
  std::vector<Event> events;
  int hit;
};
const size_t kShared = 8 << 20;

inline Result Run(const std::string& root, const std::vector<Fault>& faults, std::function<std::string()> f, int limit = 60) {
  static char* sh = (char*)mmap(nullptr, kShared, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(sh, 0, 16);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(limit);
    int fd = ::open(getenv("FAULTIO_LOG") ? getenv("FAULTIO_LOG") : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0600);
    dup2(fd, 2);
    Ctx& c = C();
    c.root = root;
    c.faults = faults;
    c.on = true;
    std::string out;
    static auto save = [](const std::string& o) {
      Ctx& c = C();
      c.on = false;
      std::lock_guard<std::mutex> l(c.mu);
      std::string s = std::to_string(c.hit) + "\n" + std::to_string(c.events.size()) + "\n";
      for (auto& e : c.events) s += std::to_string(e.op) + " " + std::to_string(e.idx) + " " + e.path + "\n";
      s += o;
      if (s.size() > kShared - 16) _exit(99);
      *(uint64_t*)sh = s.size();
      memcpy(sh + 8, s.data(), s.size());
    };
    save("");  // for runs that end early
    C().on = true;
    // A run that exits or aborts leaves its events, too.
    signal(SIGABRT, [](int) { save(""); _exit(134); });
    out = f();
    save(out);
    _exit(0);
  }
  Result r;
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
  r.hang = WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM;
  r.ended = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0;
  std::string s(sh + 8, *(uint64_t*)sh);
  size_t at = 0;
  auto line = [&] { size_t e = s.find('\n', at); if (e == std::string::npos) e = s.size(); std::string l = s.substr(at, e - at); at = std::min(s.size(), e + 1); return l; };
  r.hit = atoi(line().c_str());
  int n = atoi(line().c_str());
  for (int i = 0; i < n; ++i) {
    std::string l = line();
    int op, idx, used;
    sscanf(l.c_str(), "%d %d %n", &op, &idx, &used);
    r.events.push_back({l.substr(used), (Op)op, idx});
  }
  r.out = s.substr(at);
  return r;
}

}  // namespace faultio

// ---- The interposed functions.
extern "C" {
static FILE* FaultFopen(FILE* (*real)(const char*, const char*), const char* path, const char* mode) {
  std::string p;
  if (!faultio::Tracked(path, &p)) return real(path, mode);
  if (faultio::Hit(p, faultio::OPEN) >= 0) { errno = EMFILE; return nullptr; }
  FILE* f = real(path, mode);
  if (f) faultio::SetPath(fileno(f), p);
  return f;
}
FILE* fopen(const char* path, const char* mode) { FAULTIO_REAL(fopen); return FaultFopen(real, path, mode); }
FILE* fopen64(const char* path, const char* mode) { FAULTIO_REAL(fopen64); return FaultFopen(real, path, mode); }

static int FaultOpen(int (*real)(const char*, int, ...), const char* path, int flags, mode_t mode) {
  std::string p;
  if (!faultio::Tracked(path, &p)) return real(path, flags, mode);
  if (faultio::Hit(p, faultio::OPEN) >= 0) { errno = EMFILE; return -1; }
  int fd = real(path, flags, mode);
  if (fd >= 0) faultio::SetPath(fd, p);
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
  FAULTIO_REAL(open);
  return FaultOpen(real, path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
  FAULTIO_REAL(open64);
  return FaultOpen(real, path, flags, m);
}
#define FAULTIO_STAT(name, type)                                                          \
  int name(const char* path, type* s) {                                                   \
    FAULTIO_REAL(name);                                                                   \
    std::string p;                                                                        \
    if (faultio::Tracked(path, &p) && faultio::Hit(p, faultio::STAT) >= 0) { errno = EIO; return -1; } \
    return real(path, s);                                                                 \
  }
FAULTIO_STAT(stat, struct stat)
FAULTIO_STAT(stat64, struct stat64)
int access(const char* path, int mode) {
  FAULTIO_REAL(access);
  std::string p;
  if (faultio::Tracked(path, &p) && faultio::Hit(p, faultio::STAT) >= 0) { errno = EIO; return -1; }
  return real(path, mode);
}
int mkdir(const char* path, mode_t mode) {
  FAULTIO_REAL(mkdir);
  std::string p;
  if (faultio::Tracked(path, &p) && faultio::Hit(p, faultio::MKDIR) >= 0) { errno = EACCES; return -1; }
  return real(path, mode);
}
// How many bytes are transferred: n, less, or -1 with errno.
static ssize_t FaultLen(int fd, faultio::Op op, size_t n) {
  std::string p = faultio::PathOf(fd);
  if (p.empty()) return n;
  int err = op == faultio::READ ? EIO : ENOSPC;
  switch (faultio::Hit(p, op)) {
    case faultio::ONCE: case faultio::STAY: errno = err; return -1;
    case faultio::INTR: errno = EINTR; return -1;
    case faultio::PART: if (n > 1) return n / 2; errno = err; return -1;
    case faultio::HALF: return n > 1 ? n / 2 : n;
    case faultio::ONE: return n > 1 ? 1 : n;
  }
  return n;
}
ssize_t read(int fd, void* b, size_t n) {
  FAULTIO_REAL(read);
  ssize_t k = FaultLen(fd, faultio::READ, n);
  return k < 0 ? k : real(fd, b, k);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  FAULTIO_REAL(pread);
  ssize_t k = FaultLen(fd, faultio::READ, n);
  return k < 0 ? k : real(fd, b, k, o);
}
ssize_t write(int fd, const void* b, size_t n) {
  FAULTIO_REAL(write);
  ssize_t k = FaultLen(fd, faultio::WRITE, n);
  return k < 0 ? k : real(fd, b, k);
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  FAULTIO_REAL(writev);
  size_t n = 0;
  for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
  ssize_t k = FaultLen(fd, faultio::WRITE, n);
  if (k < 0) return k;
  if ((size_t)k == n) return real(fd, v, cnt);
  std::string all;
  for (int i = 0; i < cnt; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  static auto w = faultio::Real("write", &write);
  return w(fd, all.data(), k);
}
static bool FaultSeek(int fd) {
  std::string p = faultio::PathOf(fd);
  if (p.empty() || faultio::Hit(p, faultio::SEEK) < 0) return false;
  errno = EIO;
  return true;
}
off_t lseek(int fd, off_t o, int w) throw() { FAULTIO_REAL(lseek); return FaultSeek(fd) ? -1 : real(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) throw() { FAULTIO_REAL(lseek64); return FaultSeek(fd) ? -1 : real(fd, o, w); }
static bool FaultClose(int fd, bool* tracked) {
  std::string p = faultio::PathOf(fd);
  *tracked = !p.empty();
  if (p.empty()) return false;
  bool bad = faultio::Hit(p, faultio::CLOSE) >= 0;
  faultio::SetPath(fd, "");
  return bad;
}
int close(int fd) {
  FAULTIO_REAL(close);
  bool t, bad = FaultClose(fd, &t);
  int r = real(fd);
  if (bad) { errno = EIO; return -1; }
  return r;
}
int fclose(FILE* f) {
  FAULTIO_REAL(fclose);
  bool t, bad = FaultClose(fileno(f), &t);
  int r = real(f);
  if (bad) { errno = EIO; return EOF; }
  return r;
}
// C streams, in case they are used: a whole call succeeds or fails.
static bool FaultStream(FILE* f, faultio::Op op) {
  std::string p = faultio::PathOf(fileno(f));
  if (p.empty()) return false;
  int k = faultio::Hit(p, op);
  if (k != faultio::ONCE && k != faultio::STAY && k != faultio::PART) return false;
  errno = op == faultio::READ ? EIO : ENOSPC;
  return true;
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
  FAULTIO_REAL(fread);
  if (FaultStream(f, faultio::READ)) { f->_flags |= 0x20; return 0; }
  return real(b, s, n, f);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  FAULTIO_REAL(fwrite);
  if (FaultStream(f, faultio::WRITE)) { f->_flags |= 0x20; return 0; }
  return real(b, s, n, f);
}
}
#endif
