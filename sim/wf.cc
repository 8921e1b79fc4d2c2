// xmlwf under simulation: the program's real code, linked as a shared object whose references to files, standard streams, memory and
// process exit are renamed to simx_*, runs in a forked child on a simulated file system with injected I/O and memory faults.
// Oracle: a model of the documented behaviour driven by the reference parser on the complete files.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
extern uint64_t gDigest; extern bool gNontrivial;
extern std::string gWfPath;
std::string gWfPath;
static std::string fmt(const char *f, ...) { char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static Verdict bad(const std::string &c, const std::string &d) { return Verdict{true, c, d}; }

// ---------------------------------------------------------------- what a run is given and what comes out of it
enum { F_R = 1, F_S = 2, F_NS = 4, F_P = 8, F_X = 16, F_W = 32, F_N = 64, F_D = 128, F_STDIN = 256, F_C = 512, F_M = 1024, F_T = 2048, F_COMB = 4096, F_DDASH = 8192, F_BADNAME = 1 << 14, F_GLUED = 1 << 15 };
enum { OP_OPEN = 1, OP_FSTAT, OP_READ, OP_FOPEN, OP_WRITE, OP_FCLOSE, OP_REMOVE, OP_KIND, OP_N };
static const char *opName[] = {"", "open", "fstat", "read", "fopen", "write", "fclose", "remove", "kind"};
// read kinds: errno values, or
enum { RK_SHORT = 200, RK_EOF = 201 };
enum { SK_HUGE = 200, SK_BIGGER = 201 };
enum { FK_REG = 0, FK_MISSING, FK_DIR, FK_FIFO, FK_PERM };
struct Fault { int op, n, kind; uint32_t arg; };
static int64_t packFault(const Fault &f) { return (int64_t)((uint64_t)f.op | (uint64_t)f.n << 8 | (uint64_t)f.kind << 24 | (uint64_t)f.arg << 33); }
static Fault unpackFault(int64_t v) { uint64_t u = (uint64_t)v; return Fault{(int)(u & 255), (int)(u >> 8 & 0xffff), (int)(u >> 24 & 511), (uint32_t)(u >> 33)}; }
struct VFile { std::string bytes; int kind = FK_REG; };
struct WfIn {
  std::vector<std::string> argv, files;
  std::map<std::string, VFile> fs;
  bool haveStdin = false; std::string stdinName;
  std::vector<Fault> faults; int64_t readMode = 0; Env env;
};
struct WfOut {
  bool finished = false; int code = 0, sig = 0;      // sig: ended by a signal without reaching the seam's exit
  std::string out, err;
  std::map<std::string, std::string> files;          // files that exist in the end and were written
  std::vector<std::string> opened, denied;           // opened for writing; other calls that change the file system
  uint64_t fired[OP_N] = {0}, reads = 0, opens = 0, writes = 0, shorts = 0, allocFailed = 0, allocs = 0;
  bool shortMapped = false, truncated = false;   // truncated: a stream seemed to end early
  std::vector<std::string> incomplete;               // files that were opened but never delivered completely
  std::vector<std::string> held;                     // descriptors, streams and blocks not given back, and misuse of them
  std::string heap;                                  // the first error the allocator saw
};

// ---------------------------------------------------------------- the seam (used only in the forked child)
namespace {
struct OFile { std::string path, bytes; bool removed = false; int open = 0; };
struct FdInfo { std::string path; std::string bytes; size_t off = 0; int kind = 0; int nreads = 0; bool eofForced = false; bool used = false; bool statted = false; };
WfIn *IN; WfOut OUT; FdInfo fds[256]; int opCount[OP_N]; char *shm; const size_t SHM = 256u << 20;
struct Got { size_t best = 0, size = 0; bool excused = false; }; std::map<std::string, Got> got;
std::vector<OFile *> outFiles; std::string capOut, capErr, badClose; uint64_t firstIo = UINT64_MAX;   // what the start-up took before the first system call stays with the process
void ioSeen() { if (firstIo == UINT64_MAX) firstIo = simAllocStats().allocs; }
 Rng *rdRng;
const Fault *hit(int op) { int n = opCount[op]++; for (auto &f : IN->faults) if (f.op == op && f.n == n) { OUT.fired[op]++; return &f; } return nullptr; }
std::string norm(const std::string &p) {
  std::vector<std::string> v; size_t i = 0; bool abs = !p.empty() && p[0] == '/';
  while (i <= p.size()) { size_t k = p.find('/', i); if (k == std::string::npos) k = p.size(); std::string c = p.substr(i, k - i); i = k + 1; if (c.empty() || c == ".") continue; if (c == ".." && !v.empty() && v.back() != "..") v.pop_back(); else v.push_back(c); }
  std::string o = abs ? "/" : ""; for (size_t k = 0; k < v.size(); k++) o += (k ? "/" : "") + v[k]; return o;
}
void put(std::string &o, const std::string &s) { uint64_t n = s.size(); o.append((char *)&n, 8); o += s; }
void finish(int code) {
  fflush(nullptr);
  OUT.allocFailed = simFailedCount(); OUT.allocs = simAllocCount();
  std::string leak; OUT.heap = simAllocEnd(&leak, firstIo);
  if (!leak.empty()) OUT.held.push_back("M" + leak);
  for (int i = 3; i < 256; i++) if (fds[i].used && fcntl(i, F_GETFD) != -1) OUT.held.push_back("D" + fds[i].path);
  for (auto f : outFiles) if (f->open > 0) OUT.held.push_back("F" + f->path);
  if (!badClose.empty()) OUT.held.push_back("C" + badClose);
  std::string o; uint64_t hdr[24] = {1, (uint64_t)code, OUT.reads, OUT.opens, OUT.writes, OUT.shorts, OUT.shortMapped, OUT.allocFailed, OUT.allocs, OUT.truncated};
  for (int i = 0; i < OP_N; i++) hdr[10 + i] = OUT.fired[i];
  o.append((char *)hdr, sizeof hdr); put(o, capOut); put(o, capErr);
  std::string t; uint64_t n = 0; for (auto f : outFiles) if (!f->removed) { n++; put(t, f->path); put(t, f->bytes); }
  o.append((char *)&n, 8); o += t;
  n = OUT.opened.size(); o.append((char *)&n, 8); for (auto &s : OUT.opened) put(o, s);
  n = OUT.denied.size(); o.append((char *)&n, 8); for (auto &s : OUT.denied) put(o, s);
  for (auto &g : got) if (g.second.best < g.second.size && !g.second.excused) OUT.incomplete.push_back(g.first + fmt(" (%zu of %zu bytes)", g.second.best, g.second.size));
  n = OUT.incomplete.size(); o.append((char *)&n, 8); for (auto &s : OUT.incomplete) put(o, s);
  n = OUT.held.size(); o.append((char *)&n, 8); for (auto &s : OUT.held) put(o, s);
  put(o, OUT.heap);
  if (o.size() + 8 < SHM) { memcpy(shm + 8, o.data(), o.size()); *(uint64_t *)shm = o.size(); }
  _exit(0);
}
int makeFd(const std::string &path, const VFile &f) {
  int fd;
  if (f.kind == FK_DIR) fd = open("/", O_RDONLY);
  else if (f.kind == FK_FIFO) { int p[2]; if (pipe(p)) return -1; fcntl(p[1], F_SETPIPE_SZ, 1 << 20); if (write(p[1], f.bytes.data(), f.bytes.size()) < 0) {} close(p[1]); fd = p[0]; }
  else { fd = memfd_create("f", 0); if (fd < 0) return -1; size_t k = 0; while (k < f.bytes.size()) { ssize_t n = write(fd, f.bytes.data() + k, f.bytes.size() - k); if (n <= 0) return -1; k += (size_t)n; } lseek(fd, 0, SEEK_SET); }
  if (fd < 0 || fd >= 256) return -1;
  fds[fd] = FdInfo(); fds[fd].path = path; fds[fd].bytes = f.bytes; fds[fd].kind = f.kind; fds[fd].used = true;
  if (!path.empty() && f.kind != FK_DIR) got[path].size = f.bytes.size();
  return fd;
}
OFile *openOut(const std::string &p) { OUT.opened.push_back(p); for (auto f : outFiles) if (f->path == p) { f->bytes.clear(); f->removed = false; f->open++; return f; } auto f = new OFile; f->path = p; f->open = 1; outFiles.push_back(f); return f; }
int doOpen(const char *name, int flags) {
  std::string p = norm(name ? name : ""); OUT.opens++; ioSeen();
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) { OUT.denied.push_back("open for writing: " + p); errno = EACCES; return -1; }
  if (const Fault *f = hit(OP_OPEN)) { errno = f->kind; return -1; }
  auto it = IN->fs.find(p);
  if (it == IN->fs.end() || it->second.kind == FK_MISSING) { errno = ENOENT; return -1; }
  if (it->second.kind == FK_PERM) { errno = EACCES; return -1; }
  int fd = makeFd(p, it->second); if (fd < 0) errno = EMFILE; return fd;
}
ssize_t doRead(int fd, size_t n, std::function<ssize_t(size_t)> rd) {
  if (fd < 0 || fd >= 256 || !fds[fd].used) return rd(n);
  FdInfo &d = fds[fd]; OUT.reads++; ioSeen();
  const Fault *f = hit(OP_READ); bool first = d.nreads++ == 0; size_t want = n;
  if (f && f->kind == RK_EOF) d.eofForced = true;
  else if (f && f->kind == RK_SHORT) want = std::min<size_t>(n, 1 + f->arg);
  else if (f) { errno = f->kind; return -1; }
  if (d.eofForced) { if (!d.statted) { got[d.path].excused = true; OUT.truncated = true; } return 0; }   // a stream that ends early cannot be told from a short file
  if (IN->readMode > 0) want = std::min<size_t>(want, (size_t)IN->readMode);
  else if (IN->readMode < 0) want = std::min<size_t>(want, rdRng->chance(40) ? (size_t)rdRng->range(1, 12) : (size_t)rdRng->range(1, 3000));
  if (d.bytes.size() > 6000) want = std::max(want, std::min<size_t>(n, d.bytes.size() / 400));   // rescanning an unfinished token is quadratic
  if (first && d.bytes.size() > 1 && d.bytes[1] == 0 && want < 2) want = std::min<size_t>(n, 2);   // see DESIGN.md: the encoding guess
  ssize_t k = rd(want); 
  if (k > 0) d.off += (size_t)k;
  if (!d.path.empty()) got[d.path].best = std::max(got[d.path].best, d.off);
  if (k >= 0 && (size_t)k < n && d.off < d.bytes.size()) { OUT.shorts++; if (d.statted) OUT.shortMapped = true; }
  return k;
}
struct Cookie { OFile *f; };
ssize_t ckWrite(void *c, const char *b, size_t n) {
  OUT.writes++;
  const Fault *f = hit(OP_WRITE);
  size_t k = f ? std::min<size_t>(f->arg, n ? n - 1 : 0) : n;
  ((Cookie *)c)->f->bytes.append(b, k);
  if (f) { for (auto &g : IN->faults) if (&g == f) const_cast<Fault &>(g).n++; errno = f->kind; return (ssize_t)k; }   // a full disk stays full
  return (ssize_t)n;
}
int ckClose(void *c) { ((Cookie *)c)->f->open--; if (const Fault *f = hit(OP_FCLOSE)) { errno = f->kind; return -1; } return 0; }
ssize_t capWrite(void *c, const char *b, size_t n) { ((std::string *)c)->append(b, n); return (ssize_t)n; }
FILE *capFile(std::string *s) { cookie_io_functions_t io{}; io.write = capWrite; FILE *f = fopencookie(s, "w", io); setvbuf(f, nullptr, _IONBF, 0); return f; }
FILE *doFopen(const char *name, const char *mode) {
  std::string p = norm(name ? name : "");
  if (mode[0] == 'r' && !strchr(mode, '+')) { int fd = doOpen(name, O_RDONLY); return fd < 0 ? nullptr : fdopen(fd, mode); }
  ioSeen();
  if (const Fault *f = hit(OP_FOPEN)) { errno = f->kind; OUT.opened.push_back(p); return nullptr; }
  auto c = new Cookie{openOut(p)};
  cookie_io_functions_t io{}; io.write = ckWrite; io.close = ckClose;
  return fopencookie(c, "w", io);
}
int doRemove(const char *name) {
  std::string p = norm(name ? name : "");
  if (const Fault *f = hit(OP_REMOVE)) { errno = f->kind; return -1; }
  for (auto f : outFiles) if (f->path == p && !f->removed) { f->removed = true; return 0; }
  if (IN->fs.count(p)) OUT.denied.push_back("remove " + p);
  errno = ENOENT; return -1;
}
int deny(const char *what, const char *p) { OUT.denied.push_back(std::string(what) + " " + (p ? p : "")); errno = EPERM; return -1; }
int statPath(const char *name, struct stat *st) { auto it = IN->fs.find(norm(name ? name : "")); if (it == IN->fs.end() || it->second.kind == FK_MISSING) { errno = ENOENT; return -1; } VFile v = it->second; int fd = makeFd("", v); int r = fstat(fd, st); close(fd); fds[fd].used = false; return r; }
}
#define SEAM __attribute__((visibility("default")))
extern "C" {
SEAM FILE *simx_stdout, *simx_stderr, *simx_stdin;
SEAM int simx_open(const char *n, int fl, ...) { return doOpen(n, fl); }
SEAM int simx_openat(int, const char *n, int fl, ...) { return doOpen(n, fl); }
SEAM int simx_close(int fd) { if (fd > 2 && fd < 256 && !fds[fd].used) badClose = fmt("close(%d) of a descriptor that is not open", fd); if (fd >= 0 && fd < 256) fds[fd].used = false; if (fd <= 2) return 0; return close(fd); }
SEAM ssize_t simx_read(int fd, void *b, size_t n) { return doRead(fd, n, [=](size_t k) { return read(fd, b, k); }); }
SEAM ssize_t simx_pread(int fd, void *b, size_t n, off_t o) { return doRead(fd, n, [=](size_t k) { return pread(fd, b, k, o); }); }
SEAM ssize_t simx_readv(int fd, const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return doRead(fd, n, [=](size_t k) { ssize_t t = 0; for (int i = 0; i < c && k; i++) { size_t w = std::min(k, v[i].iov_len); ssize_t r = read(fd, v[i].iov_base, w); if (r < 0) return t ? t : r; t += r; k -= (size_t)r; if ((size_t)r < w) break; } return t; }); }
SEAM void *simx_mmap(void *a, size_t l, int p, int fl, int fd, off_t o) { if (fd >= 0 && fd < 256 && fds[fd].used) got[fds[fd].path].excused = true; return mmap(a, l, p, fl, fd, o); }
SEAM ssize_t simx_write(int fd, const void *b, size_t n) { if (fd == 1) { capOut.append((const char *)b, n); return (ssize_t)n; } if (fd == 2) { capErr.append((const char *)b, n); return (ssize_t)n; } return deny("write", ""); }
SEAM ssize_t simx_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = simx_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return r; t += r; } return t; }
SEAM int simx_fstat(int fd, struct stat *st) {
  int r = fstat(fd, st);
  if (fd >= 0 && fd < 256 && fds[fd].used) { fds[fd].statted = true; if (const Fault *f = hit(OP_FSTAT)) { if (f->kind == SK_HUGE) st->st_size = (1ll << 30) + 1 + f->arg; else if (f->kind == SK_BIGGER) { st->st_size += 1 + f->arg; OUT.shortMapped = true; } else { errno = f->kind; return -1; } } }
  return r;
}
SEAM int simx___fxstat(int, int fd, struct stat *st) { return simx_fstat(fd, st); }
SEAM int simx_stat(const char *n, struct stat *st) { return statPath(n, st); }
SEAM int simx_access(const char *n, int) { struct stat st; return statPath(n, &st); }
SEAM FILE *simx_fopen(const char *n, const char *m) { return doFopen(n, m); }
SEAM int simx_remove(const char *n) { return doRemove(n); }
SEAM int simx_unlink(const char *n) { return doRemove(n); }
SEAM int simx_rename(const char *a, const char *b) { deny("rename", a); return deny("rename to", b); }
SEAM int simx_mkdir(const char *a, mode_t) { return deny("mkdir", a); }
SEAM int simx_rmdir(const char *a) { return deny("rmdir", a); }
SEAM int simx_symlink(const char *, const char *b) { return deny("symlink", b); }
SEAM int simx_link(const char *, const char *b) { return deny("link", b); }
SEAM int simx_chmod(const char *a, mode_t) { return deny("chmod", a); }
SEAM int simx_chdir(const char *a) { return deny("chdir", a); }
SEAM int simx_truncate(const char *a, off_t) { return deny("truncate", a); }
SEAM int simx_ftruncate(int, off_t) { return deny("ftruncate", ""); }
SEAM ssize_t simx_pwrite(int, const void *, size_t, off_t) { return deny("pwrite", ""); }
SEAM pid_t simx_fork() { return deny("fork", ""); }
SEAM int simx_execvp(const char *f, char *const *) { return deny("exec", f); }
SEAM void simx_exit(int c) { finish(c); }
SEAM void simx__exit(int c) { finish(c); }
SEAM void simx_abort() { finish(1000 + SIGABRT); }
SEAM void simx_perror(const char *s) { int e = errno; if (s && *s) { capErr += s; capErr += ": "; } capErr += strerror(e); capErr += "\n"; }
SEAM int simx_puts(const char *s) { fputs(s, simx_stdout); return fputc('\n', simx_stdout); }
SEAM int simx_putchar(int c) { return fputc(c, simx_stdout); }
SEAM int simx_printf(const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(simx_stdout, f, a); va_end(a); return r; }
#define ALIAS(r, n, of, a) SEAM r simx_##n a __attribute__((alias("simx_" #of)));
ALIAS(int, open64, open, (const char *, int, ...))
ALIAS(int, openat64, openat, (int, const char *, int, ...))
ALIAS(ssize_t, pread64, pread, (int, void *, size_t, off_t))
ALIAS(ssize_t, pwrite64, pwrite, (int, const void *, size_t, off_t))
ALIAS(int, fstat64, fstat, (int, struct stat *))
ALIAS(int, __fxstat64, __fxstat, (int, int, struct stat *))
ALIAS(int, stat64, stat, (const char *, struct stat *))
ALIAS(int, lstat, stat, (const char *, struct stat *))
ALIAS(int, lstat64, stat, (const char *, struct stat *))
ALIAS(FILE *, fopen64, fopen, (const char *, const char *))
ALIAS(int, truncate64, truncate, (const char *, off_t))
ALIAS(int, ftruncate64, ftruncate, (int, off_t))
ALIAS(void *, mmap64, mmap, (void *, size_t, int, int, int, off_t))
}
static void *wfLib() {
  static void *h = nullptr; if (h) return h;
  h = dlopen(gWfPath.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "sim: dlopen %s: %s\n", gWfPath.c_str(), dlerror()); _exit(2); }
  return h;
}
static WfOut runWf(WfIn &in) {
  void *h = wfLib(); auto mainFn = (void (*)())dlsym(h, "simx_wf_main"); if (!mainFn) { fprintf(stderr, "sim: no simx_wf_main\n"); _exit(2); }
  static char *area = nullptr; if (!area) { area = (char *)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (area == MAP_FAILED) _exit(2); }
  *(uint64_t *)area = 0; shm = area;
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGTRAP, SIGPROF}) signal(s, SIG_DFL);
    itimerval t{}; t.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &t, nullptr);
    IN = &in; Rng rr((uint64_t)-in.readMode); rdRng = &rr;
    simx_stdout = capFile(&capOut); simx_stderr = capFile(&capErr);
    if (in.haveStdin) { int fd = makeFd("STDIN", in.fs[in.stdinName]); fds[0] = fds[fd]; dup2(fd, 0); close(fd); fds[fd].used = false; opCount[OP_OPEN] = 0; }
    std::vector<char *> av; for (auto &a : in.argv) av.push_back((char *)a.c_str()); av.push_back(nullptr);
    char *env[] = {nullptr};
    // std::env::args() on this platform takes its arguments from the start-up array of the object: run it with ours
    struct link_map *lm = nullptr; dlinfo(h, RTLD_DI_LINKMAP, &lm);
    ElfW(Addr) arr = 0; size_t sz = 0;
    for (ElfW(Dyn) *d = lm->l_ld; d->d_tag != DT_NULL; d++) { if (d->d_tag == DT_INIT_ARRAY) arr = d->d_un.d_ptr; if (d->d_tag == DT_INIT_ARRAYSZ) sz = d->d_un.d_val; }
    if (arr < lm->l_addr) arr += lm->l_addr;
    for (size_t i = 0; i < sz / sizeof(void *); i++) { auto f = ((void (**)(int, char **, char **))arr)[i]; if (f && f != (void (*)(int, char **, char **))-1) f((int)in.argv.size(), av.data(), env); }
    simSetRandomSeed(in.env.hashSeed);
    simAllocBegin(in.env.amode, in.env.move, in.env.layoutSeed);
    simAllocArm(in.env.fmode, in.env.failAt, in.env.failArg);
    mainFn();
    finish(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  WfOut o;
  uint64_t n = *(uint64_t *)area;
  if (!n) { o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 999; return o; }
  const char *p = area + 8; uint64_t hdr[24]; memcpy(hdr, p, sizeof hdr); p += sizeof hdr;
  auto u = [&]() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }; auto str = [&]() { uint64_t k = u(); std::string s(p, k); p += k; return s; };
  o.finished = true; o.code = (int)hdr[1]; if (o.code >= 1000) { o.sig = o.code - 1000; o.code = 0; }
  o.reads = hdr[2]; o.truncated = hdr[9]; o.opens = hdr[3]; o.writes = hdr[4]; o.shorts = hdr[5]; o.shortMapped = hdr[6]; o.allocFailed = hdr[7]; o.allocs = hdr[8];
  for (int i = 0; i < OP_N; i++) o.fired[i] = hdr[10 + i];
  o.out = str(); o.err = str();
  for (uint64_t k = u(); k--;) { std::string a = str(); o.files[a] = str(); }
  for (uint64_t k = u(); k--;) o.opened.push_back(str());
  for (uint64_t k = u(); k--;) o.denied.push_back(str());
  for (uint64_t k = u(); k--;) o.incomplete.push_back(str());
  for (uint64_t k = u(); k--;) o.held.push_back(str());
  o.heap = str();
  return o;
}

// ---------------------------------------------------------------- the model
namespace {
struct Note { std::string name, sys, pub; bool hasSys, hasPub; };
struct Model {
  const WfIn *in; int flags; std::string out; std::string msg; bool amp = false; bool needed = false;
  std::vector<Note> notes; std::string dtName; std::map<XParser, std::string> base; std::vector<XParser> stack;
  std::string reservedNs; int depth = 0; struct Piece { long at = -1, to = -1; size_t out = 0; std::string text; }; std::map<XParser, Piece> piece;
};
Model *M;
std::string canonChars(const char *s, size_t n) {
  std::string o;
  for (size_t i = 0; i < n; i++) switch (s[i]) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case 9: case 10: case 13: o += "&#" + std::to_string((int)s[i]) + ";"; break; default: o += s[i]; }
  return o;
}
std::string cc(const char *s) { return canonChars(s, strlen(s)); }
XParser cur() { return M->stack.back(); }
std::string loc() {
  XParser p = cur(); std::string o; const char *b = (const char *)gRef->GetBase(p);
  if (b) o += std::string(" uri=\"") + b + "\"";
  return o + fmt(" byte=\"%ld\" nbytes=\"%d\" line=\"%lu\" col=\"%lu\"", gRef->GetCurrentByteIndex(p), gRef->GetCurrentByteCount(p), gRef->GetCurrentLineNumber(p), gRef->GetCurrentColumnNumber(p));
}
typedef std::pair<std::string, std::string> Att;
const char XMLNS_[] = "http://www.w3.org/XML/1998/namespace";
void mSE(void *, const char *n, const char **a) {
  int fl = M->flags;
  if (fl & F_M) {
    int spec = gRef->GetSpecifiedAttributeCount(cur()), id = gRef->GetIdAttributeIndex(cur());
    M->out += std::string("<starttag name=\"") + n + "\"" + loc();
    if (!a[0]) { M->out += "/>\n"; return; }
    M->out += ">\n";
    for (int i = 0; a[i]; i += 2) M->out += std::string("<attribute name=\"") + a[i] + "\" value=\"" + cc(a[i + 1]) + (i >= spec ? "\" defaulted=\"yes\"/>\n" : i == id ? "\" id=\"yes\"/>\n" : "\"/>\n");
    M->out += "</starttag>\n"; return;
  }
  std::vector<Att> v; for (int i = 0; a[i]; i += 2) v.push_back({a[i], a[i + 1]});
  std::stable_sort(v.begin(), v.end(), [](const Att &x, const Att &y) { return x.first < y.first; });
  int ns = 1; std::string o = "<";
  auto sep = [&](const std::string &s) { return (fl & F_NS) ? s.rfind('\x01') : std::string::npos; };
  std::string name = n; size_t k = sep(name);
  if (k != std::string::npos) {
    std::string uri = name.substr(0, k);
    if (uri == XMLNS_) { o += "xml:" + name.substr(k + 1); }
    else { o += "n1:" + name.substr(k + 1) + " xmlns:n1=\"" + cc(uri.c_str()) + "\""; ns = 2; }
  } else o += name;
  for (auto &x : v) {
    k = sep(x.first); o += " ";
    if (k == std::string::npos) { o += x.first + "=\"" + cc(x.second.c_str()) + "\""; continue; }
    std::string uri = x.first.substr(0, k), l = x.first.substr(k + 1);
    if (uri == XMLNS_) { o += "xml:" + l + "=\"" + cc(x.second.c_str()) + "\""; continue; }
    o += fmt("n%d:", ns) + l + "=\"" + cc(x.second.c_str()) + "\"" + fmt(" xmlns:n%d=\"", ns) + cc(uri.c_str()) + "\""; ns++;
  }
  M->out += o + ">";
}
void mEE(void *, const char *n) {
  if (M->flags & F_M) { M->out += std::string("<endtag name=\"") + n + "\"" + loc() + "/>\n"; return; }
  std::string name = n; size_t k = (M->flags & F_NS) ? name.rfind('\x01') : std::string::npos;
  M->out += "</" + (k == std::string::npos ? name : (name.compare(0, k, XMLNS_) == 0 && k == sizeof XMLNS_ - 1 ? "xml:" : "n1:") + name.substr(k + 1)) + ">";
}
void mCD(void *, const char *s, int n) {
  if (M->flags & F_M) M->out += "<chars str=\"" + canonChars(s, (size_t)n) + "\"" + loc() + "/>\n";
  else M->out += canonChars(s, (size_t)n);
}
void mPI(void *, const char *t, const char *d) {
  if (M->flags & F_M) M->out += std::string("<pi target=\"") + t + "\" data=\"" + cc(d) + "\"" + loc() + "/>\n";
  else M->out += std::string("<?") + t + " " + d + "?>";
}
void mCM(void *, const char *d) { M->out += "<comment data=\"" + cc(d) + "\"" + loc() + "/>\n"; }
void mSCD(void *) { M->out += "<startcdata" + loc() + "/>\n"; }
void mECD(void *) { M->out += "<endcdata" + loc() + "/>\n"; }
void mSDT(void *, const char *n, const char *, const char *, int) { if (M->flags & F_M) M->out += std::string("<startdoctype name=\"") + n + "\"" + loc() + "/>\n"; else M->dtName = n; }
std::string quote1(const std::string &s) { char q = s.find('\'') != std::string::npos ? '"' : '\''; return q + s + q; }
void mEDT(void *) {
  if (M->flags & F_M) { M->out += "<enddoctype" + loc() + "/>\n"; return; }
  if (M->notes.empty()) return;
  std::stable_sort(M->notes.begin(), M->notes.end(), [](const Note &a, const Note &b) { return a.name < b.name; });
  M->out += "<!DOCTYPE " + M->dtName + " [\n";
  for (auto &n : M->notes) { M->out += "<!NOTATION " + n.name; if (n.hasPub) { M->out += " PUBLIC " + quote1(n.pub); if (n.hasSys) M->out += " " + quote1(n.sys); } else if (n.hasSys) M->out += " SYSTEM " + quote1(n.sys); M->out += ">\n"; }
  M->out += "]>\n"; M->notes.clear();
}
void mNOT(void *, const char *n, const char *, const char *s, const char *p) {
  if (M->flags & F_M) { M->out += std::string("<notation name=\"") + n + "\"" + (p ? std::string(" public=\"") + p + "\"" : "") + (s ? " system=\"" + cc(s) + "\"" : "") + loc() + "/>\n"; return; }
  M->notes.insert(M->notes.begin(), Note{n, s ? s : "", p ? p : "", s != nullptr, p != nullptr});
}
void mEND(void *, const char *n, int, const char *v, int vl, const char *, const char *s, const char *p, const char *no) {
  std::string o = std::string("<entity name=\"") + n + "\"";
  if (v) o += loc() + ">" + canonChars(v, (size_t)vl) + "</entity/>\n";
  else o += (p ? std::string(" public=\"") + p + "\"" : "") + " system=\"" + cc(s) + "\"" + (no ? std::string(" notation=\"") + no + "\"" : "") + loc() + "/>\n";
  M->out += o;
}
void mSNS(void *, const char *p, const char *u) { M->out += std::string("<startns") + (p ? std::string(" prefix=\"") + p + "\"" : "") + (u ? " ns=\"" + cc(u) + "\"" : "") + "/>\n"; }
void mENS(void *, const char *p) { M->out += p ? std::string("<endns prefix=\"") + p + "\"/>\n" : "<endns/>\n"; }
void mDEF(void *, const char *s, int n) { M->out.append(s, (size_t)n); }
void mdSE(void *, const char *, const char **) { gRef->DefaultCurrent(cur()); }
void mdEE(void *, const char *) { gRef->DefaultCurrent(cur()); }
// The reference hands over the rest of a long text of a CDATA section with every piece of it: a piece's own text is what is meant.
void mdCD(void *, const char *s, int n) {
  XParser p = cur(); long at = gRef->GetCurrentByteIndex(p), to = at + gRef->GetCurrentByteCount(p); Model::Piece &q = M->piece[p];
  if (at > q.at && at < q.to && q.out <= M->out.size()) { M->out.resize(q.out); M->out += q.text; }
  q = {at, to, M->out.size(), std::string(s, (size_t)n)};
  gRef->DefaultCurrent(p);
}
void mdPI(void *, const char *, const char *) { gRef->DefaultCurrent(cur()); }
int mNSA(void *) { return 0; }
std::string resolve(const char *base, const char *sys) { if (!base || *sys == '/') return sys; std::string b = base; size_t k = b.rfind('/'); return (k == std::string::npos ? "" : b.substr(0, k + 1)) + sys; }
void report(XParser p, const std::string &file) { unsigned e = gRef->GetErrorCode(p); if (e == 43) M->amp = true; const char *s = (const char *)gRef->ErrorString(e); M->msg += file + fmt(":%lu:%lu: %s\n", gRef->GetCurrentLineNumber(p), gRef->GetCurrentColumnNumber(p), s ? s : "?"); }
int parseFile(XParser p, const std::string &name) {
  auto it = M->in->fs.find(norm(name));
  if (it == M->in->fs.end() || it->second.kind == FK_MISSING || it->second.kind == FK_PERM || it->second.kind == FK_DIR) { M->msg += name + ": cannot be read\n"; return 0; }
  if (it->second.kind == FK_FIFO && !(M->flags & F_R)) { M->msg += name + ": not a regular file\n"; return 0; }
  M->stack.push_back(p); M->piece.erase(p);
  const std::string &b = it->second.bytes;
  int r = gRef->Parse(p, b.data(), (int)b.size(), 1); M->stack.pop_back();
  if (r == 0) { report(p, name); return 0; }
  return 1;
}
int mEER(XParser p, const char *ctx, const char *base, const char *sys, const char *) {
  if (++M->depth > 40) { M->amp = true; M->depth--; return 0; }
  XParser c = gRef->ExternalEntityParserCreate(p, ctx, nullptr); std::string f = resolve(base, sys ? sys : "");
  if (!sys) { M->amp = true; gRef->ParserFree(c); M->depth--; return 0; }
  gRef->SetBase(c, f.c_str()); int r = parseFile(c, f); gRef->ParserFree(c); M->depth--; return r;
}
}
struct WfExpect { bool skip = false; std::vector<int> ok; std::vector<std::string> out, msg; bool reserved = false; };
static WfExpect model(const WfIn &in, int fl, const std::string &enc) {
  WfExpect x;
  for (auto &f : in.files) {
    Model m; m.in = &in; m.flags = fl; if (fl & F_STDIN) m.flags |= F_R; M = &m;
    const char *e = enc.empty() ? nullptr : enc.c_str();
    XParser p = (fl & F_NS) && !(fl & F_C) ? gRef->ParserCreateNS(e, 1) : gRef->ParserCreate(e);
    if (gRef->SetReparseDeferralEnabled) gRef->SetReparseDeferralEnabled(p, 0);
    if (fl & F_C) m.flags &= ~F_NS;
    if (fl & F_S) gRef->SetNotStandaloneHandler(p, (void *)mNSA);
    gRef->SetParamEntityParsing(p, fl & F_P ? 2 : 0);
    if (!(fl & F_T) && (fl & F_D)) {
      if (fl & F_M) {
        gRef->SetElementHandler(p, (void *)mSE, (void *)mEE); gRef->SetProcessingInstructionHandler(p, (void *)mPI); gRef->SetCommentHandler(p, (void *)mCM); gRef->SetCdataSectionHandler(p, (void *)mSCD, (void *)mECD);
        gRef->SetCharacterDataHandler(p, (void *)mCD); gRef->SetDoctypeDeclHandler(p, (void *)mSDT, (void *)mEDT); gRef->SetEntityDeclHandler(p, (void *)mEND); gRef->SetNotationDeclHandler(p, (void *)mNOT); gRef->SetNamespaceDeclHandler(p, (void *)mSNS, (void *)mENS);
        m.out += "<document>\n";
      } else if (fl & F_C) {
        gRef->SetDefaultHandler(p, (void *)mDEF); gRef->SetElementHandler(p, (void *)mdSE, (void *)mdEE); gRef->SetCharacterDataHandler(p, (void *)mdCD); gRef->SetProcessingInstructionHandler(p, (void *)mdPI);
      } else {
        gRef->SetElementHandler(p, (void *)mSE, (void *)mEE); gRef->SetCharacterDataHandler(p, (void *)mCD); gRef->SetProcessingInstructionHandler(p, (void *)mPI);
        if (fl & F_N) { gRef->SetDoctypeDeclHandler(p, (void *)mSDT, (void *)mEDT); gRef->SetNotationDeclHandler(p, (void *)mNOT); }
      }
    } else { gRef->SetElementHandler(p, nullptr, nullptr); }
    if (fl & (F_P | F_X)) gRef->SetExternalEntityRefHandler(p, (void *)mEER);
    if (!(fl & F_STDIN)) gRef->SetBase(p, f.c_str());
    int r = parseFile(p, f);
    if (fl & F_M) m.out += "</document>\n";
    gRef->ParserFree(p);
    if (m.amp) { x.skip = true; return x; }
    x.ok.push_back(r); x.out.push_back(m.out); x.msg.push_back(m.msg);
  }
  return x;
}
// pieces of one text may be cut differently
static std::string normMeta(const std::string &s) {
  std::string o; size_t i = 0; std::string pend; std::string pStr, pUri; long pb = 0, pn = 0; unsigned long pl = 0, pc = 0; bool have = false;
  auto flush = [&]() { if (have) o += "<chars str=\"" + pStr + "\"" + pUri + fmt(" byte=\"%ld\" line=\"%lu\" col=\"%lu\"/>\n", pb, pl, pc); have = false; };
  while (i < s.size()) {
    size_t k = s.find('\n', i); if (k == std::string::npos) k = s.size() - 1;
    std::string l = s.substr(i, k - i + 1); i = k + 1;
    if (l.compare(0, 12, "<chars str=\"") == 0) {
      size_t q = l.find('"', 12), b = l.rfind(" byte=\""); std::string uri = b == std::string::npos || q == std::string::npos || b < q + 1 ? "" : l.substr(q + 1, b - q - 1);
      long by = 0; int nb = 0; unsigned long li = 0, co = 0; if (b != std::string::npos) sscanf(l.c_str() + b, " byte=\"%ld\" nbytes=\"%d\" line=\"%lu\" col=\"%lu\"", &by, &nb, &li, &co);
      if (have && uri == pUri) { pStr += l.substr(12, q - 12); pn += nb; }
      else { flush(); have = true; pStr = l.substr(12, q - 12); pUri = uri; pb = by; pn = nb; pl = li; pc = co; }
      continue;
    }
    flush(); o += l;
  }
  flush(); return o;
}

// ---------------------------------------------------------------- scenario <-> run
static std::string dirOf(size_t k) { return "in" + std::to_string(k); }
static WfIn build(const Scenario &s, int fl, const std::string &enc) {
  WfIn in; in.env = s.env;
  const auto &ph = s.clients.at(0).phases;
  size_t idx = 0; std::vector<std::string> all;
  for (size_t k = 0; k < ph.size(); k++) {
    std::string name = dirOf(k) + "/doc" + std::to_string(k) + ".xml"; if (fl & F_BADNAME) name = dirOf(k) + "/d\xff\xe9" + std::to_string(k) + ".xml";
    if (fl & F_STDIN) name = "STDIN";
    in.files.push_back(name); in.fs[name].bytes = ph[k].doc; all.push_back(name); idx++;
    std::string dir = fl & F_STDIN ? "" : dirOf(k) + "/";
    for (auto &e : ph[k].ents) { if (e.sysid.find('\x1e') != std::string::npos) continue; std::string n = norm(e.sysid[0] == '/' ? e.sysid : dir + e.sysid); if (in.fs.count(n)) continue; in.fs[n].bytes = e.bytes; if (e.how == HOW_MISSING) in.fs[n].kind = FK_MISSING; all.push_back(n); }
    if (fl & F_STDIN) break;
  }
  in.haveStdin = fl & F_STDIN; in.stdinName = "STDIN";
  for (size_t i = 2; i < s.aux.size(); i++) { Fault f = unpackFault(s.aux[i]); if (f.op == OP_KIND) { if ((size_t)f.n < all.size() && !((fl & F_STDIN) && f.n == 0)) in.fs[all[(size_t)f.n]].kind = f.kind; } else in.faults.push_back(f); }
  in.readMode = s.aux.size() > 1 ? s.aux[1] : 0;
  std::vector<std::string> a; std::string one; 
  auto opt = [&](int bit, char c) { if (fl & bit) { if (fl & F_COMB) one += c; else a.push_back(std::string("-") + c); } };
  opt(F_R, 'r'); opt(F_S, 's'); opt(F_NS, 'n'); opt(F_P, 'p'); opt(F_X, 'x'); opt(F_W, 'w'); opt(F_N, 'N'); opt(F_C, 'c'); opt(F_M, 'm'); opt(F_T, 't');
  if (fl & F_D) { if (fl & F_COMB) { if (fl & F_GLUED) { a.push_back("-" + one + "dout"); one = ""; } else { a.push_back("-" + one + "d"); a.push_back("out"); one = ""; } } else { a.push_back("-d"); a.push_back("out"); } }
  if (!one.empty()) a.push_back("-" + one);
  if (!enc.empty()) { if (fl & F_GLUED) a.push_back("-e" + enc); else { a.push_back("-e"); a.push_back(enc); } }
  if (fl & F_DDASH) a.push_back("--");
  in.argv = a; in.argv.insert(in.argv.begin(), "xmlwf");
  if (!(fl & F_STDIN)) for (auto &f : in.files) in.argv.push_back(f);
  return in;
}
static std::string argText(const WfIn &in) { std::string o; for (auto &a : in.argv) o += (o.empty() ? "" : " ") + esc(a); return o; }
static std::string outName(const std::string &f) { size_t k = f.rfind('/'); return "out/" + (k == std::string::npos ? f : f.substr(k + 1)); }
static bool halfTail(const std::string &d) { if (d.size() < 5 || d.size() % 2 == 0) return false; std::string t = d.substr(d.size() - 3, 2), n = std::string(1, 0); return t == "\r" + n || t == n + "\r" || t == "]" + n || t == n + "]"; }
static void tallyWf(Counters &c, const WfIn &in, const WfOut &o) {
  c["xmlwf_runs"]++; c["reads"] += o.reads; c["short_reads"] += o.shorts; c["opens"] += o.opens; c["writes"] += o.writes; c["allocations"] += o.allocs; c["fault_alloc"] += o.allocFailed;
  for (int i = 1; i < OP_N; i++) if (o.fired[i]) c[std::string("fault_") + opName[i]] += o.fired[i];
  if (o.sig) c["ended_by_signal"]++; else c["exit_" + std::to_string(o.code)]++;
  for (auto &f : in.fs) if (f.second.kind) c[std::string("file_") + (f.second.kind == FK_MISSING ? "missing" : f.second.kind == FK_DIR ? "directory" : f.second.kind == FK_FIFO ? "fifo" : "unreadable")]++;
}
static uint64_t digestWf(const WfOut &o) { Hash64 h; h.u64((uint64_t)o.code); h.u64((uint64_t)o.sig); h.str(o.out); h.str(o.err); for (auto &f : o.files) { h.str(f.first); h.str(f.second); } h.u64(o.reads); h.u64(o.shorts); return h.h; }

static Verdict judge(const Scenario &s, Counters &c, bool output) {
  int fl = (int)s.aux.at(0); const std::string enc = s.clients[0].phases[0].c.enc; 
  WfIn in = build(s, fl, enc);
  WfExpect x = model(in, fl, enc);
  if (x.skip) { c["skipped_amplification"]++; gDigest = 2; return Verdict(); }
  WfOut o = runWf(in);
  tallyWf(c, in, o); gDigest = digestWf(o); gNontrivial = o.reads > 0;
  std::string cmd = argText(in);
  bool faulted = o.allocFailed; for (int i = 1; i < OP_N; i++) if (o.fired[i] && i != OP_REMOVE) faulted = true;
  // these are no faults: they must be coped with
  if (faulted && !o.allocFailed) { bool only = true; for (auto &f : in.faults) if (!(f.op == OP_READ && f.kind == RK_SHORT) && !(f.op == OP_FSTAT && f.kind == SK_HUGE) && f.op != OP_REMOVE) only = false; if (only) faulted = false; }
  bool mayFail = faulted || o.shortMapped;
  bool writeFault = o.fired[OP_WRITE] || o.fired[OP_FCLOSE] || o.fired[OP_FOPEN];
  if (o.sig) {
    size_t k = o.err.find("panicked at ");
    bool oom = o.allocFailed && o.err.find("memory allocation of") != std::string::npos;
    if (o.sig == SIGABRT && oom) { c["oom_abort"]++; return Verdict(); }
    if (o.sig == SIGPROF) return bad("hang", "no end within the CPU limit: " + cmd);
    return bad(k != std::string::npos ? "crash:panic" : "crash:signal-" + std::to_string(o.sig), cmd + ": ended by signal " + std::to_string(o.sig) + (k != std::string::npos ? ": " + o.err.substr(k, 200) : ""));
  }
  if (o.truncated) { c["truncated_streams"]++; return Verdict(); }   // what it got was a different file
  size_t nok = 0; while (nok < x.ok.size() && x.ok[nok]) nok++;
  int want = nok == x.ok.size() ? 0 : 2;
  if (!output) {
    if (o.code == 0 && want) return bad("false-success", cmd + ": exit 0 although " + esc(in.files[nok]) + " is not well-formed: " + esc(x.msg[nok]));
    if (o.code == 0 && !o.incomplete.empty()) return bad("incomplete-read", cmd + ": exit 0 although not all was read of " + esc(o.incomplete[0]));
    if (o.code != 0 && !want && !mayFail) {
      bool quirk = false; for (auto &f : in.fs) if (halfTail(f.second.bytes)) quirk = true;
      if (!quirk) return bad("false-failure", cmd + fmt(": exit %d on well-formed files", o.code) + "; stdout " + esc(o.out) + " stderr " + esc(o.err));
      return Verdict();
    }
    if (o.code != 0 && o.out.empty() && o.err.empty()) return bad("silent-failure", cmd + fmt(": exit %d without a message", o.code));
    if (o.code == 0 && o.allocFailed == 0 && !faulted && !o.err.empty() && o.err.find("too large for memory-mapping") == std::string::npos) return bad("noise", cmd + ": exit 0 but stderr says " + esc(o.err));
    if (o.code != 0 && !mayFail && want) {
      // the message names the file and the place
      const std::string &m = x.msg[nok];
      if (o.code != 2) return bad("exit-code", cmd + fmt(": exit %d, expected 2", o.code));
      if (m.find("cannot be read") == std::string::npos && m.find("not a regular") == std::string::npos && o.out != m) {
        auto file = [](const std::string &t) { return t.substr(0, t.find(':')); };
        // which character of junk behind the document element is complained about depends on how much of it is there
        bool lenient = m.find("junk after document element") != std::string::npos || o.out.find("junk after document element") != std::string::npos;
        if (!lenient || file(o.out) != file(m)) return bad("message", cmd + ": says " + esc(o.out) + ", expected " + esc(m));
      }
    }
    return Verdict();
  }
  // output
  for (auto &d : o.denied) return bad("stray-write", cmd + ": " + d);
  bool outs = (fl & F_D) && !(fl & F_T);
  std::set<std::string> legal; if (outs) for (auto &f : in.files) legal.insert(outName(f));
  for (auto &p : o.opened) if (!legal.count(p)) return bad("stray-write", cmd + ": wrote to " + esc(p));
  auto norm2 = [&](const std::string &t) { return fl & F_M ? normMeta(t) : t; };
  for (size_t i = 0; outs && i < in.files.size(); i++) {
    auto it = o.files.find(outName(in.files[i])); bool have = it != o.files.end();
    if (have && !x.ok[i]) { if (!o.fired[OP_REMOVE] && !o.allocFailed) return bad("leftover", cmd + ": " + esc(it->first) + " is left behind for a document that is not well-formed (" + fmt("%zu bytes)", it->second.size())); continue; }
    if (o.code == 0 && !have) return bad("missing-output", cmd + ": exit 0 but no " + esc(outName(in.files[i])));
    if (!have) { if (!mayFail && !writeFault && i < nok) return bad("missing-output", cmd + ": no " + esc(outName(in.files[i]))); continue; }
    if (norm2(it->second) != norm2(x.out[i])) {
      if (o.code != 0 && (writeFault || mayFail)) continue;    // reported as a failure
      std::string a = norm2(it->second), b = norm2(x.out[i]); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; size_t f = k > 40 ? k - 40 : 0;
      return bad(fl & F_M ? "meta-output" : fl & F_C ? "copy-output" : "canonical-output", cmd + fmt(": differs at byte %zu: got ...", k) + esc(a.substr(f, 120)) + " expected ..." + esc(b.substr(f, 120)));
    }
    if (!have || (fl & (F_M | F_C)) || !x.ok[i]) continue;
    // fixed point: the canonical form is its own canonical form
    Scenario q; q.prop = s.prop; q.clients.resize(1); q.clients[0].phases.resize(1); q.clients[0].phases[0].doc = it->second;
    int fl2 = (fl & (F_NS | F_N)) | F_D; q.aux = {fl2, 0};
    WfIn in2 = build(q, fl2, ""); WfOut o2 = runWf(in2); c["fixed_points"]++;
    auto jt = o2.files.find(outName(in2.files[0]));
    if (o2.sig || o2.code || jt == o2.files.end()) return bad("not-reparsable", cmd + ": canonical output is rejected: " + esc(o2.out + o2.err) + ": " + esc(it->second, 400));
    if (jt->second != it->second) return bad("no-fixed-point", cmd + ": " + esc(it->second, 400) + " becomes " + esc(jt->second, 400));
  }
  return Verdict();
}

// ---------------------------------------------------------------- generation
static void genWf(Rng &r, Scenario &s, bool output) {
  s.clients.resize(1); auto &ph = s.clients[0].phases;
  int nf = r.chance(70) ? 1 : r.range(2, 4); int fl = 0;
  if (r.chance(50)) fl |= F_R;
  if (r.chance(15)) fl |= F_S;
  if (r.chance(35)) fl |= F_NS;
  if (r.chance(55)) fl |= F_P; else if (r.chance(50)) fl |= F_X;
  if (r.chance(10)) fl |= F_W;
  if (r.chance(output ? 100 : 35)) fl |= F_D;
  if (r.chance(output ? 55 : 50)) fl |= r.chance(45) ? F_M : r.chance(40) ? F_C : output ? (r.chance(10) ? F_T : 0) : F_T;
  if (r.chance(35)) fl |= F_N;
  if (r.chance(30)) fl |= F_COMB;
  if (r.chance(20)) fl |= F_GLUED;
  if (r.chance(15)) fl |= F_DDASH;
  if (r.chance(6)) fl |= F_BADNAME;
  if (r.chance(12)) { fl |= F_STDIN; nf = 1; }
  int total = 0;
  for (int i = 0; i < nf; i++) {
    ph.emplace_back(); Phase &p = ph.back();
    GenOpts o; o.size = r.chance(10) ? r.range(100, 500) : r.range(2, 50); o.ns = (fl & F_NS) || r.chance(30); o.dtd = r.chance(85); o.ext = r.chance(75); o.malformed = r.chance(i + 1 < nf ? 8 : output ? 15 : 35); o.unknownEnc = r.chance(15); o.bigTokens = r.chance(40); o.dtdHeavy = r.chance(30);
    genPhase(r, o, p);
    std::string keep = p.c.enc; p.c = Config(); if (i == 0 && nf == 1) p.c.enc = keep; else if (!keep.empty()) { }
    if (r.chance(12)) {   // larger than the read buffer
      size_t at = p.doc.find('>'); while (at != std::string::npos && r.chance(60)) { size_t k = p.doc.find('>', at + 1); if (k == std::string::npos) break; at = k; }
      bool wide = p.doc.size() > 1 && (p.doc[0] == 0 || p.doc[1] == 0 || (unsigned char)p.doc[0] >= 0xFE);
      if (at != std::string::npos && !wide) { std::string t; int n = r.range(7000, 30000), k = (int)r.below(4); if (k == 0) t = "<!--" + std::string((size_t)n, 'c') + "-->"; else if (k == 1) t = "<?p " + std::string((size_t)n, 'd') + "?>"; else if (k == 2) { for (int j = 0; j < n / 9; j++) t += "<b>text</b>\n"; } else t = std::string((size_t)n, 't'); p.doc.insert(at + 1, t); }
    }
    for (auto &e : p.ents) { total++; if (e.how != HOW_MISSING) e.how = HOW_INLINE; if (r.chance(2)) e.how = HOW_MISSING; if (r.chance(7)) { e.bytes += std::string((size_t)r.range(5000, 20000), ' '); } }
    total++;
  }
  int64_t rm = 0; int k = (int)r.below(100);
  if (k < 25) rm = r.range(1, 20); else if (k < 50) rm = -(int64_t)r.range(1, 1 << 30); else if (k < 60) rm = r.range(20, 9000);
  s.aux = {fl, rm};
  int nfault = r.chance(45) ? 0 : r.chance(75) ? 1 : 2;
  static const int es[] = {EIO, EINTR, EAGAIN, ENOMEM, EBADF};
  while (nfault--) {
    Fault f{0, 0, 0, 0}; int q = (int)r.below(100);
    if (output && r.chance(60)) { q = 60 + (int)r.below(40); }
    if (q < 10) { f.op = OP_OPEN; f.n = (int)r.below((uint32_t)total + 1); static const int eo[] = {ENOENT, EACCES, EMFILE, EINTR, EIO}; f.kind = eo[r.below(5)]; }
    else if (q < 22) { f.op = OP_FSTAT; f.n = (int)r.below((uint32_t)total + 1); f.kind = r.chance(40) ? SK_HUGE : r.chance(40) ? SK_BIGGER : EIO; f.arg = r.below(1000); }
    else if (q < 48) { f.op = OP_READ; f.n = (int)(r.chance(60) ? r.below(4) : r.below(60)); f.kind = r.chance(35) ? RK_SHORT : r.chance(35) ? RK_EOF : es[r.below(5)]; f.arg = r.chance(50) ? r.below(10) : r.below(5000); }
    else if (q < 60) { f.op = OP_KIND; f.n = (int)r.below((uint32_t)total); f.kind = r.range(FK_MISSING, FK_PERM); }
    else if (q < 68) { f.op = OP_FOPEN; f.n = (int)r.below((uint32_t)nf); f.kind = r.chance(50) ? EACCES : ENOSPC; }
    else if (q < 86) { f.op = OP_WRITE; f.n = (int)r.below(r.chance(70) ? 1 : 4); f.kind = r.chance(70) ? ENOSPC : EIO; f.arg = r.chance(40) ? 0 : r.below(2000); }
    else if (q < 92) { f.op = OP_FCLOSE; f.n = (int)r.below((uint32_t)nf); f.kind = r.chance(50) ? ENOSPC : EIO; }
    else { f.op = OP_REMOVE; f.n = 0; f.kind = EACCES; }
    s.aux.push_back(packFault(f));
  }
  genEnv(r, s.env, 0);
  if (r.chance(14)) { s.env.fmode = r.chance(70) ? FM_ONCE : FM_FROM; s.env.failAt = r.chance(50) ? r.below(60) : r.below(400); }
}
// C21: what the process takes it gives back, and it touches no memory it does not own
Verdict chkC21(const Scenario &s, Counters &c) {
  int fl = (int)s.aux.at(0); WfIn in = build(s, fl, s.clients[0].phases[0].c.enc);
  WfOut o = runWf(in);
  tallyWf(c, in, o); gDigest = digestWf(o); gNontrivial = o.opens > 0;
  std::string cmd = argText(in);
  if (o.sig == SIGABRT && o.allocFailed && o.err.find("memory allocation of") != std::string::npos) { c["oom_abort"]++; return Verdict(); }
  if (o.sig == SIGPROF) { c["slow"]++; return Verdict(); }
  if (o.sig) return bad("crash:signal-" + std::to_string(o.sig), cmd + ": ended by signal " + std::to_string(o.sig) + ": " + o.err.substr(0, 300));
  if (!o.heap.empty()) return bad("memory:" + o.heap, cmd + fmt(": exit %d", o.code));
  for (auto &h : o.held) if (h[0] == 'C') return bad("bad-close", cmd + ": " + h.substr(1));
  // a process that breaks off (no memory, wrong use) leaves the rest to the system; one that says "not well-formed" has gone on to its end
  for (auto &h : o.held) if ((h[0] == 'D' || h[0] == 'F') && (o.code == 0 || o.code == 2)) return bad(h[0] == 'D' ? "descriptor-kept" : "stream-kept", cmd + fmt(": exit %d with ", o.code) + esc(h.substr(1)) + " still open");
  if (o.code == 0) { c["clean_exits"]++; for (auto &h : o.held) return bad("memory-kept", cmd + ": exit 0 with memory not given back: " + h.substr(1)); }
  return Verdict();
}
void genC16(Rng &r, Scenario &s, uint64_t) { genWf(r, s, false); }
void genC17(Rng &r, Scenario &s, uint64_t) { genWf(r, s, true); }
void genC21(Rng &r, Scenario &s, uint64_t) {
  genWf(r, s, r.chance(50));
  if (s.clients[0].phases.size() == 1 && !(s.aux[0] & F_STDIN) && r.chance(50)) { s.clients[0].phases.push_back(s.clients[0].phases[0]); }   // what stays behind shows from the second file on
}
Verdict chkC16(const Scenario &s, Counters &c) { return judge(s, c, false); }
Verdict chkC17(const Scenario &s, Counters &c) { return judge(s, c, true); }
void showWf(const Scenario &s) {
  int fl = (int)s.aux.at(0); const std::string enc = s.clients[0].phases[0].c.enc; WfIn in = build(s, fl, enc); WfExpect x = model(in, fl, enc);
  printf("command: %s\n", argText(in).c_str());
  for (auto &f : in.fs) printf("file %s kind %d: %s\n", f.first.c_str(), f.second.kind, esc(f.second.bytes, 3000).c_str());
  for (auto &f : in.faults) printf("fault: %s #%d kind %d (%s) arg %u\n", opName[f.op], f.n, f.kind, f.kind < 200 ? strerror(f.kind) : "", f.arg);
  printf("read mode %ld, alloc fault %d at %lu\n", (long)in.readMode, in.env.fmode, (unsigned long)in.env.failAt);
  for (size_t i = 0; i < x.ok.size(); i++) printf("model %s: %s %s\n%s\n", in.files[i].c_str(), x.ok[i] ? "well-formed" : "fails", esc(x.msg[i]).c_str(), x.out[i].c_str());
  WfOut o = runWf(in); printf("xmlwf: exit %d signal %d\nstdout: %s\nstderr: %s\n", o.code, o.sig, o.out.c_str(), o.err.c_str());
  for (auto &f : o.files) printf("output %s:\n%s\n", f.first.c_str(), f.second.c_str());
  for (auto &f : o.opened) printf("opened for writing: %s\n", f.c_str());
  for (auto &f : o.denied) printf("denied: %s\n", f.c_str());
}
