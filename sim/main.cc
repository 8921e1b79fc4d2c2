// Driver: seeded search over runs in forked workers, crash capture, minimisation, replay, evidence.
#include "sim.h"
#include <csignal>
#include <ctime>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

extern uint64_t gDigest; extern bool gNontrivial;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spew(const std::string &f, const std::string &c) { std::ofstream o(f, std::ios::binary); o << c; }

// ---------------------------------------------------------------- crash capture
struct CrashInfo { volatile int sig; volatile uint64_t addr; char what[64]; };
static CrashInfo *gCrash;
static void onCrash(int sig, siginfo_t *si, void *uc) {
  gCrash->sig = sig; gCrash->addr = (uint64_t)si->si_addr;
  const char *w = "";
  std::string d;
  if (sig == SIGPROF) w = "hang";
  else if (sig == SIGSEGV || sig == SIGBUS) {
    uint64_t sp = (uint64_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP], a = (uint64_t)si->si_addr;
    if (a + (1 << 20) > sp && a < sp + (1 << 16) && a >> 40 != 0x20 && a >> 40 != 0x21) w = "stack-overflow";
    else { d = simDescribeAddr(a); w = d.c_str(); }
  }
  strncpy(gCrash->what, w, sizeof gCrash->what - 1);
  _exit(77);
}
static void installHandlers() {
  struct sigaction sa{}; sa.sa_sigaction = onCrash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigfillset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGTRAP, SIGPROF}) sigaction(s, &sa, nullptr);
}
static void cpuLimit(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }
static std::string normDigits(const std::string &s) { std::string o; bool d = false; for (char c : s) { if (isdigit((unsigned char)c)) { if (!d) o += 'N'; d = true; } else { o += c; d = false; } } return o; }
static Verdict crashVerdict(const std::string &err) {
  Verdict v; v.bad = true;
  std::string what = gCrash->what; size_t k;
  if (what == "hang") { v.cls = "hang"; v.detail = "no progress within the CPU limit"; return v; }
  if ((k = err.find("panicked at ")) != std::string::npos) {
    std::string m = err.substr(k + 12); m = m.substr(0, m.find('\n')); v.detail = "panic: " + m;
    size_t q = m.rfind("', "); std::string msg = q == std::string::npos ? m : m.substr(0, q + 1), loc = q == std::string::npos ? "" : m.substr(q + 3);
    loc = loc.substr(0, loc.find(':'));
    v.cls = "crash:panic:" + normDigits(msg).substr(0, 100) + "@" + (loc.find("src/lib") != std::string::npos || loc.find("src/") == 0 ? loc : "std");
    return v;
  }
  if (err.find("memory allocation of") != std::string::npos) { v.cls = "crash:alloc-abort"; v.detail = "process aborted: " + err.substr(err.find("memory allocation of"), 60); return v; }
  char t[120]; snprintf(t, sizeof t, "signal %d %s", gCrash->sig, what.c_str());
  v.cls = std::string("crash:") + (what.empty() ? "signal" + std::to_string(gCrash->sig) : what); v.detail = t + std::string(err.empty() ? "" : ": " + err.substr(0, 200));
  return v;
}

// ---------------------------------------------------------------- running one scenario
static CheckDef *findCheck(const std::string &id) { for (auto &c : gChecks) if (id == c.id) return &c; return nullptr; }
static uint64_t runSeed(uint64_t seed, const std::string &prop, uint64_t idx) { Hash64 h; h.u64(seed); h.str(prop); h.u64(idx); return mix64(h.h, idx + 1); }
static Scenario makeRun(CheckDef *cd, uint64_t seed, uint64_t idx) {
  Scenario s; s.prop = cd->id; s.seed = runSeed(seed, cd->id, idx);
  Rng r(s.seed); cd->gen(r, s, idx);
  return s;
}
static void warmUp() {   // first-use initialisation inside the libraries must not fall into a measured run
  Phase p; p.doc = "<!DOCTYPE a [<!ENTITY e 'x'>]><a b='c'>&e;<z/></a>"; Env e;
  for (Lib *l : {gRex, gRexU, gRef}) if (l) { runPhase(p, l, e); Phase q = p; q.c.ns = ' '; runPhase(q, l, e); }
}
struct Prelude { uint64_t seed = 0; std::vector<uint64_t> idx; };
static std::string preludeText(const Prelude &p) { std::string o; if (p.idx.empty()) return o; o = "prelude " + std::to_string(p.seed); for (auto i : p.idx) o += " " + std::to_string(i); return o + "\n"; }
static int gErrFd = -1;
static void childSetup(int sec) {
  gCrash->sig = 0; gCrash->what[0] = 0;
  if (ftruncate(gErrFd, 0)) {} 
  lseek(gErrFd, 0, SEEK_SET);
  dup2(gErrFd, 2);
  installHandlers(); cpuLimit(sec);
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static std::string errText(int fd) { char b[4096]; ssize_t n = pread(fd, b, sizeof b - 1, 0); if (n < 0) n = 0; return std::string(b, (size_t)n); }
static Verdict evalChild(const Scenario &s, int sec, const Prelude *pre = nullptr, uint64_t *digest = nullptr) {
  CheckDef *cd = findCheck(s.prop);
  int pf[2]; if (pipe(pf)) _exit(2);
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    close(pf[0]); childSetup(sec); warmUp();
    Counters c;
    if (pre) for (auto i : pre->idx) { Scenario q = makeRun(cd, pre->seed, i); evalCheck(cd, q, c); cpuLimit(sec); }
    Verdict v = evalCheck(cd, s, c);
    std::string o = (v.bad ? "B" : "G") + std::to_string(gDigest) + "\n" + v.cls + "\n" + v.detail;
    size_t k = 0; while (k < o.size()) { ssize_t n = write(pf[1], o.data() + k, o.size() - k); if (n <= 0) break; k += (size_t)n; }
    _exit(0);
  }
  close(pf[1]);
  std::string o; char b[4096]; ssize_t n;
  while ((n = read(pf[0], b, sizeof b)) > 0) o.append(b, (size_t)n);
  close(pf[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return crashVerdict(errText(gErrFd));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 2) { Verdict v; v.bad = true; v.cls = "harness"; v.detail = errText(gErrFd); return v; }
  Verdict v;
  if (o.empty()) { v.bad = true; v.cls = "crash:killed"; v.detail = "child ended with status " + std::to_string(st); return v; }
  size_t a = o.find('\n'), c2 = o.find('\n', a + 1);
  v.bad = o[0] == 'B'; v.cls = o.substr(a + 1, c2 - a - 1); v.detail = o.substr(c2 + 1);
  if (digest) *digest = strtoull(o.c_str() + 1, nullptr, 10);
  return v;
}

// ---------------------------------------------------------------- minimisation
static std::string clsKey(const std::string &c) { if (c.compare(0, 5, "crash") == 0 || c.compare(0, 4, "heap") == 0) return c; return c.substr(0, c.find(':')); }
struct Minimiser {
  Scenario best; std::string key; double deadline; int tries = 0; const Prelude *pre; int sec;
  bool ok(const Scenario &s) { if (now() > deadline) return false; tries++; Verdict v = evalChild(s, sec, pre); return v.bad && clsKey(v.cls) == key; }
  bool take(const Scenario &s) { if (ok(s)) { best = s; return true; } return false; }
  bool timeUp() { return now() > deadline; }
  template <class F> bool edit(F f) { Scenario c = best; if (!f(c)) return false; return take(c); }
  // ddmin over a sequence reached by a getter
  template <class V> bool seq(std::function<V *(Scenario &)> g) {
    bool any = false; size_t n = g(best)->size();
    for (size_t w = std::max<size_t>(1, n); w >= 1; w /= 2) {
      size_t i = 0;
      while (i < g(best)->size() && !timeUp()) {
        size_t L = g(best)->size(); size_t k = std::min(w, L - i);
        bool t = edit([&](Scenario &c) { V *v = g(c); v->erase(v->begin() + (long)i, v->begin() + (long)(i + k)); return true; });
        if (t) any = true; else i += k;
      }
      if (timeUp()) break;
    }
    return any;
  }
  void run() {
    bool again = true; int round = 0;
    while (again && !timeUp() && round++ < 6) {
      again = false;
      again |= seq<std::vector<uint8_t>>([](Scenario &s) { return &s.baton; });
      if (best.prop == "C16" || best.prop == "C17" || best.prop == "C21") {   // aux: flags, read mode, faults
        for (size_t i = best.aux.size(); i-- > 2;) again |= edit([i](Scenario &s) { s.aux.erase(s.aux.begin() + (long)i); return true; });
        again |= edit([](Scenario &s) { if (!s.aux[1]) return false; s.aux[1] = 0; return true; });
        for (int b = 0; b < 16; b++) again |= edit([b](Scenario &s) { if (!(s.aux[0] >> b & 1)) return false; s.aux[0] &= ~(1ll << b); return true; });
        again |= edit([](Scenario &s) { if (s.env.fmode == FM_NONE) return false; s.env.fmode = FM_NONE; return true; });
      }
      if (best.clients.size() > 1) again |= seq<std::vector<Client>>([](Scenario &s) { return &s.clients; });
      for (size_t ci = 0; ci < best.clients.size(); ci++) {
        if (best.clients[ci].phases.size() > 1) again |= seq<std::vector<Phase>>([ci](Scenario &s) { return &s.clients[ci].phases; });
        for (size_t pi = 0; pi < best.clients[ci].phases.size(); pi++) {
          auto P = [ci, pi](Scenario &s) { return &s.clients[ci].phases[pi]; };
          again |= seq<std::vector<Entity>>([P](Scenario &s) { return &P(s)->ents; });
          again |= seq<std::vector<Action>>([P](Scenario &s) { return &P(s)->acts; });
          again |= seq<std::vector<Chunk>>([P](Scenario &s) { return &P(s)->d.chunks; });
          // document: drop whole ranges, keeping the chunk that contains them in step
          again |= seq<std::string>([P](Scenario &s) { return &P(s)->doc; });
          for (size_t ei = 0; ei < P(best)->ents.size(); ei++) {
            again |= seq<std::vector<Chunk>>([P, ei](Scenario &s) { return &P(s)->ents[ei].d.chunks; });
            again |= seq<std::string>([P, ei](Scenario &s) { return &P(s)->ents[ei].bytes; });
          }
          auto cfg = [&](std::function<bool(Phase &)> f) { again |= edit([&](Scenario &s) { return f(*P(s)); }); };
#define SET(field, val) cfg([](Phase &p) { if (p.field == (val)) return false; p.field = (val); return true; })
          SET(c.parserArg, 0); SET(c.eerArg, 0); SET(c.useBase, 0); SET(c.query, 0); SET(c.queryBetween, 0); SET(c.illegalBetween, 0); SET(c.freeModels, 0); SET(c.triplets, 0); SET(c.foreignDTD, 0); SET(c.paramEnt, 0); SET(c.encMode, 0); SET(c.ns, -1); SET(c.enc, std::string()); SET(c.encVia, 0); SET(c.nsaRet, 1); SET(d.sepFinal, 0); SET(d.rest, 0); SET(stopAfter, -1); SET(c.defExpand, 0); SET(c.style, 0);
          for (int b = 0; b < 22; b++) cfg([b](Phase &p) { if (!(p.c.handlers >> b & 1)) return false; p.c.handlers &= ~(1u << b); return true; });
          // move cuts earlier/simplify modes
          for (size_t k = 0; k < P(best)->d.chunks.size() && !timeUp(); k++) { cfg([k](Phase &p) { if (!p.d.chunks[k].mode) return false; p.d.chunks[k].mode = 0; p.d.chunks[k].extra = 0; return true; }); cfg([k](Phase &p) { if (!p.d.chunks[k].extra) return false; p.d.chunks[k].extra = 0; return true; }); }
          for (size_t k = 0; k < P(best)->acts.size() && !timeUp(); k++) while (!timeUp()) { size_t cb = P(best)->acts[k].cb; if (!cb) break; bool t = edit([&](Scenario &s) { P(s)->acts[k].cb = (uint32_t)(cb - 1); return true; }); if (!t) break; again = true; }
          for (size_t k = 0; k < P(best)->ents.size() && !timeUp(); k++) { cfg([k](Phase &p) { auto &e = p.ents[k]; if (!e.d.chunks.size() && !e.d.rest && !e.d.sepFinal) return false; e.d = plainDeliv(); return true; }); cfg([k](Phase &p) { if (!p.ents[k].how) return false; p.ents[k].how = 0; return true; }); }
        }
      }
      again |= edit([](Scenario &s) { if (s.env.amode == AM_FAST) return false; s.env.amode = AM_FAST; return true; });
      again |= edit([](Scenario &s) { if (s.env.layoutSeed == 1 && s.env.hashSeed == 1) return false; s.env.layoutSeed = s.env.hashSeed = 1; return true; });
    }
  }
};

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, text; };
static std::vector<Known> loadKnown(const std::string &file) {
  // known: property=<id> class=<violation class> :: <what fails>     (lines starting "fixed:" suppress nothing)
  std::vector<Known> v; std::istringstream i(slurp(file)); std::string l;
  while (std::getline(i, l)) {
    if (l.compare(0, 6, "known:")) continue;
    size_t a = l.find("property="), b = l.find(" class="), c = l.find(" :: ");
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    v.push_back({l.substr(a + 9, b - a - 9), l.substr(b + 7, c - b - 7), l.substr(c + 4)});
  }
  return v;
}

// ---------------------------------------------------------------- search
static const int MAXW = 64, MAXC = 256;
struct Slot { volatile uint64_t cur, done, viol; CrashInfo crash; struct { char name[32]; uint64_t v; } ctr[MAXC]; uint64_t base[MAXC]; int nctr; };
static std::string jsonStr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; } else if (c < 127) o += (char)c; else { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; } } return o + "\""; }
static void publish(Slot *sl, Counters &c) {   // adds to the slot, clears the local map
  for (auto &kv : c) {
    int i = 0; for (; i < sl->nctr; i++) if (kv.first == sl->ctr[i].name) break;
    if (i == sl->nctr) { if (i == MAXC) continue; strncpy(sl->ctr[i].name, kv.first.c_str(), 31); sl->ctr[i].v = 0; sl->nctr = i + 1; }
    sl->ctr[i].v += kv.second;
  }
  c.clear();
}
static int workerMain(CheckDef *cd, uint64_t seed, uint64_t from, uint64_t to, uint64_t stride, Slot *sl, volatile uint64_t *dig, const std::string &violFile, double deadline, volatile int *stop, bool keep) {
  gCrash = &sl->crash; childSetup(60); warmUp();
  Counters c; uint64_t n = 0;
  for (uint64_t i = from; i < to; i += stride) {
    if (*stop || now() > deadline) break;
    sl->cur = i;
    Scenario s = makeRun(cd, seed, i);
    if (n % 16 == 0) cpuLimit(20);
    gDigest = 0; gNontrivial = false;
    Verdict v = evalCheck(cd, s, c);
    dig[i] = gNontrivial ? (gDigest | 1) : 2;
    sl->done = sl->done + 1;
    if (v.bad) {
      std::string t = std::to_string(i) + "\n" + v.cls + "\n" + esc(v.detail, 3000) + "\n";
      int fd = open(violFile.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (write(fd, t.data(), t.size()) < 0) {} close(fd);
      sl->viol = sl->viol + 1;
      if (!keep) { publish(sl, c); _exit(10); }
    }
    if (++n % 64 == 0) publish(sl, c);
  }
  publish(sl, c);
  _exit(0);
}
struct Opt { std::string prop, tier = "quick", evidence, replays, known, workdir; uint64_t seed = 1, runs = 0; double secs = 0; int workers = 0; bool keep = false; double minSecs = 60; };
struct Found { uint64_t idx; Verdict v; };
static int doRun(Opt &o) {
  CheckDef *cd = findCheck(o.prop); if (!cd) { fprintf(stderr, "no check %s\n", o.prop.c_str()); return 2; }
  double t0 = now();
  uint64_t N = o.runs ? o.runs : o.tier == "thorough" ? cd->thoroughRuns : cd->quickRuns;
  int W = o.workers ? o.workers : (int)sysconf(_SC_NPROCESSORS_ONLN); if (W > MAXW) W = MAXW; if (W < 1) W = 1;
  double deadline = t0 + (o.secs > 0 ? o.secs : 3600);
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (size_t)W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile uint64_t *dig = (volatile uint64_t *)mmap(nullptr, (N + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto known = loadKnown(o.known); std::vector<Known> mine; for (auto &k : known) if (k.prop == o.prop) mine.push_back(k);
  bool keep = o.keep || !mine.empty();
  char tmpl[] = "/tmp/rexsimXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  std::string wd = tmpl;
  std::vector<pid_t> pids((size_t)W, 0); std::vector<int> efd((size_t)W); std::vector<std::string> vf((size_t)W);
  std::vector<Found> found; std::map<std::string, std::pair<uint64_t, Found>> classes;  // class -> count, first
  std::set<std::string> knownHit;
  auto isKnown = [&](const Verdict &v) { for (auto &k : mine) if (v.cls == k.cls) { knownHit.insert(k.cls + " " + k.text); return true; } return false; };
  auto start = [&](int w, uint64_t from) { fflush(stdout); pid_t p = fork(); if (!p) { gErrFd = efd[(size_t)w]; workerMain(cd, o.seed, from, N, (uint64_t)W, &slots[w], dig, vf[(size_t)w], deadline, stop, keep); } pids[(size_t)w] = p; };
  for (int w = 0; w < W; w++) { efd[(size_t)w] = memfd_create("err", 0); vf[(size_t)w] = wd + "/v" + std::to_string(w); if ((uint64_t)w < N) start(w, (uint64_t)w); }
  bool harness = false; std::string hmsg; uint64_t crashes = 0; bool unlisted = false;
  auto note = [&](const Found &f) { auto &c = classes[f.v.cls]; if (!c.first || f.idx < c.second.idx) c.second = f; c.first++; if (!isKnown(f.v)) { unlisted = true; found.push_back(f); if (!o.keep) *stop = 1; } };
  auto readViol = [&](int w) { std::istringstream i(slurp(vf[(size_t)w])); std::string a, b, c; while (std::getline(i, a) && std::getline(i, b) && std::getline(i, c)) { Found f; f.idx = strtoull(a.c_str(), nullptr, 10); f.v.bad = true; f.v.cls = b; f.v.detail = c; note(f); } unlink(vf[(size_t)w].c_str()); };
  int live = 0; for (auto p : pids) if (p) live++;
  std::vector<uint64_t> lastCur((size_t)W, ~0ull); std::vector<double> lastT((size_t)W, now());
  while (live) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(5000);
      for (int w = 0; w < W; w++) if (pids[(size_t)w]) { uint64_t k = slots[w].cur + slots[w].done; if (k != lastCur[(size_t)w]) { lastCur[(size_t)w] = k; lastT[(size_t)w] = now(); } else if (now() - lastT[(size_t)w] > 240) { kill(pids[(size_t)w], SIGKILL); harness = true; hmsg = "worker made no progress for 240 s at run " + std::to_string(slots[w].cur); *stop = 1; } }
      // violations by still-running workers in keep mode
      continue;
    }
    int w = -1; for (int k = 0; k < W; k++) if (pids[(size_t)k] == p) w = k;
    if (w < 0) continue;
    pids[(size_t)w] = 0; live--;
    readViol(w);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
      crashes++; slots[w].done = slots[w].done + 1;
      gCrash = &slots[w].crash; Found f; f.idx = slots[w].cur; f.v = crashVerdict(errText(efd[(size_t)w]));
      dig[f.idx] = mix64(77, f.idx) | 1;
      note(f);
      if (!*stop && f.idx + (uint64_t)W < N) { start(w, f.idx + (uint64_t)W); live++; }
    } else if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10)) {
    } else { if (!harness) { harness = true; hmsg = "worker " + std::to_string(w) + " ended with status " + std::to_string(st) + " at run " + std::to_string(slots[w].cur) + ": " + errText(efd[(size_t)w]); } *stop = 1; }
  }
  double tSearch = now() - t0;
  // collect
  gCrash = (CrashInfo *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); gErrFd = memfd_create("err", 0);
  uint64_t evals = 0; Counters ctr; for (int w = 0; w < W; w++) { evals += slots[w].done; for (int i = 0; i < slots[w].nctr; i++) ctr[slots[w].ctr[i].name] += slots[w].ctr[i].v; }
  std::vector<uint64_t> ds; for (uint64_t i = 0; i < N; i++) if (dig[i] > 2) ds.push_back((uint64_t)dig[i]);
  std::sort(ds.begin(), ds.end()); uint64_t distinct = (uint64_t)(std::unique(ds.begin(), ds.end()) - ds.begin());
  // determinism: some runs again, in a fresh process each
  uint64_t redo = 0, mismatch = 0; std::string mm;
  if (!unlisted && !harness && !o.keep) {
    Rng rr(o.seed ^ 0xD37); int k = o.tier == "thorough" ? 400 : 60;
    for (int j = 0; j < k && now() - t0 < tSearch + 30; j++) {
      uint64_t i = rr.next() % N; if (!dig[i] || dig[i] == 2) continue;
      uint64_t d = 0; Scenario s = makeRun(cd, o.seed, i); std::string txt = serialize(s); Scenario s2; std::string er;
      if (!deserialize(txt, s2, er)) { harness = true; hmsg = "replay file does not read back: " + er; break; }
      Verdict v = evalChild(s2, 30, nullptr, &d); redo++;
      if (v.bad) continue;
      if ((d | 1) != dig[i]) { mismatch++; mm = "run " + std::to_string(i) + " did not repeat"; }
    }
    if (mismatch) { harness = true; hmsg = mm + " (" + std::to_string(mismatch) + " of " + std::to_string(redo) + ")"; }
  }
  std::string vline; int rc = 0;
  if (o.keep) {
    printf("%lu runs in %.1f s, %lu classes\n", (unsigned long)evals, tSearch, (unsigned long)classes.size());
    std::vector<std::pair<uint64_t, std::string>> cs; for (auto &c : classes) cs.push_back({c.second.first, c.first});
    std::sort(cs.rbegin(), cs.rend());
    for (auto &c : cs) printf("%6lu  %s   [first run %lu] %s\n", (unsigned long)c.first, c.second.c_str(), (unsigned long)classes[c.second].second.idx, classes[c.second].second.v.detail.substr(0, 300).c_str());
  } else if (unlisted) {
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.idx < b.idx; });
    Found f = found[0];
    Scenario s = makeRun(cd, o.seed, f.idx); int lim = f.v.cls == "hang" ? 25 : 30;
    Prelude pre; pre.seed = o.seed;
    Verdict v = evalChild(s, lim);
    if (!v.bad) for (int k = 1; k <= 256 && !v.bad; k *= 4) { pre.idx.clear(); for (int j = k; j >= 1; j--) if (f.idx >= (uint64_t)j * (uint64_t)W) pre.idx.push_back(f.idx - (uint64_t)j * (uint64_t)W); v = evalChild(s, lim, &pre); }
    std::string dir = o.replays; mkdir(dir.c_str(), 0755);
    char rf[400]; snprintf(rf, sizeof rf, "%s/%s-%lu-%lu.scn", dir.c_str(), o.prop.c_str(), (unsigned long)o.seed, (unsigned long)f.idx);
    if (!v.bad) { harness = true; hmsg = "violation at run " + std::to_string(f.idx) + " (" + f.v.cls + ": " + f.v.detail.substr(0, 300) + ") does not repeat"; }
    else {
      Minimiser m; m.best = s; m.key = clsKey(v.cls); m.deadline = now() + o.minSecs; m.pre = pre.idx.empty() ? nullptr : &pre; m.sec = v.cls == "hang" ? 4 : 30;
      if (v.cls != "hang" || m.ok(s)) m.run();
      Verdict mv = evalChild(m.best, lim, m.pre);
      std::string what = "# violation class: " + esc(mv.cls) + "\n# " + esc(mv.detail, 2000) + "\n# property " + o.prop + " VERIF_SEED " + std::to_string(o.seed) + " run " + std::to_string(f.idx) + ", minimised with " + std::to_string(m.tries) + " trials\n# replay: /verif/bin/replay <this file>\n";
      spew(rf, preludeText(pre) + serialize(m.best) + what);
      spew(std::string(rf) + ".full", preludeText(pre) + serialize(s));
      printf("run %lu of VERIF_SEED %lu: %s: %s\n", (unsigned long)f.idx, (unsigned long)o.seed, mv.cls.c_str(), esc(mv.detail, 1500).c_str());
      printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), rf);
      rc = 1;
    }
  }
  for (auto &k : knownHit) printf("KNOWN-FINDING: property=%s %s\n", o.prop.c_str(), k.c_str());
  if (!o.keep) for (auto &k : mine) if (!knownHit.count(k.cls + " " + k.text)) printf("KNOWN-FINDING: property=%s %s %s (not met in this run)\n", o.prop.c_str(), k.cls.c_str(), k.text.c_str());
  if (!o.evidence.empty()) {
    std::string samples;
    for (int j = 0; j < 3; j++) { uint64_t i = (uint64_t)j * (N / 3); Scenario s = makeRun(cd, o.seed, i); std::string t = "run " + std::to_string(i) + " seed " + std::to_string(s.seed) + ": "; for (auto &c : s.clients) for (auto &p : c.phases) { t += "[doc " + std::to_string(p.doc.size()) + " bytes " + esc(p.doc, 300) + "; cuts " + std::to_string(p.d.chunks.size()) + (p.d.rest ? " then bytewise" : "") + "; entities " + std::to_string(p.ents.size()) + "; actions"; for (size_t k = 0; k < p.acts.size() && k < 8; k++) t += " " + std::to_string(p.acts[k].kind) + "@" + std::to_string(p.acts[k].cb); t += "] "; } if (s.env.fmode) t += "allocation fault mode " + std::to_string(s.env.fmode) + " at " + std::to_string(s.env.failAt); samples += (j ? "," : "") + jsonStr(t); }
    std::ostringstream e; double hrs = tSearch / 3600;
    e << "{\n \"property\": " << jsonStr(o.prop) << ",\n \"tier\": " << jsonStr(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct
      << ",\n  \"rule\": " << jsonStr(std::string(cd->rule) + "; distinct: by a hash of the complete trace (callbacks, their data and positions, call results, scheduler order)")
      << ",\n  \"samples\": [" << samples << "],\n  \"planned_runs\": " << N << ",\n  \"runs_per_hour\": " << (uint64_t)((double)evals / hrs) << ",\n  \"workers\": " << W
      << ",\n  \"simulated_time\": \"none: the code reads no clock; progress is measured in API calls and callbacks\""
      << ",\n  \"determinism_reruns\": " << redo << ",\n  \"determinism_mismatches\": " << mismatch << ",\n  \"crashes_captured\": " << crashes
      << (o.prop == "C16" || o.prop == "C17" || o.prop == "C21" ? ",\n  \"components\": {\"real\": \"xmlwf's whole program (src/xmlwf) linked with librexpat, both built from /repo's tree\", \"simulated\": \"files and their kinds, open/fstat/read/fopen/fwrite/fclose/remove, standard streams, process exit, memory, process randomness\", \"reference\": \"an independent model of xmlwf driven by libexpat 2.6.1\"}" : ",\n  \"components\": {\"real\": \"librexpat built from /repo's tree (8-bit and, for C15, 16-bit), every XML_* entry point\", \"simulated\": \"application (handlers, delivery, threads), allocator, process randomness, external-entity and encoding callbacks\", \"reference\": \"libexpat 2.6.1 shared object, where the property compares with it\"}")
      << ",\n  \"counters\": {";
    bool first = true; for (auto &k : ctr) { e << (first ? "" : ", ") << jsonStr(k.first) << ": " << k.second; first = false; }
    e << "}\n },\n \"assumptions\": [\"sampling: a clean batch is evidence for the explored schedules, faults and inputs only\"],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    spew(o.evidence, e.str());
  }
  rmdir(wd.c_str());
  if (harness) { fprintf(stderr, "HARNESS ERROR: %s\n", hmsg.c_str()); if (rc == 0) rc = 2; }
  if (rc == 0) printf("%s: %lu runs, %lu distinct non-trivial, %.1f s, %s\n", o.prop.c_str(), (unsigned long)evals, (unsigned long)distinct, now() - t0, o.keep ? "triage" : "held");
  return rc;
}
static void dumpRun(const Scenario &s) {
  auto show = [](const char *n, const RunResult &rr) {
    for (size_t i = 0; i < rr.cl.size(); i++) for (size_t k = 0; k < rr.cl[i].ph.size(); k++) {
      const PhaseResult &p = rr.cl[i].ph[k];
      printf("== %s client %zu phase %zu: status %d err %u at %ld %lu:%lu callbacks %u suspensions %u\n", n, i, k, p.status, p.err, p.errIdx, p.errLine, p.errCol, p.ncb, p.nsusp);
      for (auto &e : p.ev) printf("   %s\n", showEv(e).c_str());
      for (auto &c : p.calls) printf("   call p%d %s -> %d err %u state %u\n", c.label, c.what.c_str(), c.ret, c.err, c.state);
      for (auto &t : p.trails) { printf("   stopped in"); for (char ch : t) if (ch != ':') printf(" %s", evName[ch - 'A']); printf("\n"); }
      for (auto &v : p.inv) printf("   INV %s: %s\n", v.first.c_str(), v.second.c_str());
    }
    if (!rr.heap.empty()) printf("   heap: %s\n", rr.heap.c_str());
    if (rr.leaked) printf("   leaked %zu: %s\n", rr.leaked, rr.leak.c_str());
    fflush(stdout);
  };
  for (auto &c : s.clients) for (auto &p : c.phases) { printf("doc: %s\n", esc(p.doc, 4000).c_str()); for (auto &e : p.ents) printf("ent %s how %d enc '%s': %s\n", e.sysid.c_str(), e.how, e.enc.c_str(), esc(e.bytes, 2000).c_str()); }
  fflush(stdout);
  struct { const char *n; Lib *l; bool plain; } v[] = {{"reference, whole", gRef, true}, {"rexpat, whole", gRex, true}, {"rexpat, as scheduled", gRex, false}, {"reference, as scheduled", gRef, false}, {"rexpat 16-bit, as scheduled", gRexU, false}};
  for (auto &x : v) {
    pid_t p = fork();
    if (!p) { int keepErr = dup(2); childSetup(20); warmUp(); dup2(keepErr, 2); Scenario q = s; if (x.plain) { for (auto &c : q.clients) for (auto &ph : c.phases) plainSchedule(ph); q.env.fmode = FM_NONE; } show(x.n, runScenario(q, x.l)); _exit(0); }
    int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) printf("== %s: died (signal %d %s)\n", x.n, gCrash->sig, gCrash->what);
    fflush(stdout);
  }
}
int main(int argc, char **argv) {
  std::string dir = argv[0]; dir = dir.substr(0, dir.rfind('/') == std::string::npos ? 0 : dir.rfind('/')); if (dir.empty()) dir = ".";
  std::string vroot = dir + "/..";
  if (argc < 3) { fprintf(stderr, "usage: sim run PROP [--tier T --seed N --runs N --secs S --workers W --keep --evidence F --replays D --known F] | replay FILE | show FILE | gen PROP IDX [SEED] | digest PROP FROM TO\n"); return 2; }
  gRex = loadLib("rexpat", dir + "/librex.so", 1, false);
  gRexU = loadLib("rexpat-unicode", dir + "/librexu.so", 2, false);
  gRef = loadLib("libexpat", getenv("SIM_REF") ? getenv("SIM_REF") : vroot + "/ref/libexpat.so", 1, true);
  { extern std::string gWfPath; gWfPath = dir + "/librexwf.so"; }
  simAllocInit();
  gCrash = (CrashInfo *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); gErrFd = memfd_create("err", 0);
  std::string mode = argv[1];
  if (mode == "run") {
    Opt o; o.prop = argv[2]; o.replays = vroot + "/replays"; o.known = vroot + "/known-findings.txt";
    for (int i = 3; i < argc; i++) {
      std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--tier") o.tier = nx(); else if (a == "--seed") o.seed = strtoull(nx().c_str(), nullptr, 10); else if (a == "--runs") o.runs = strtoull(nx().c_str(), nullptr, 10); else if (a == "--secs") o.secs = atof(nx().c_str()); else if (a == "--workers") o.workers = atoi(nx().c_str()); else if (a == "--keep") o.keep = true; else if (a == "--evidence") o.evidence = nx(); else if (a == "--replays") o.replays = nx(); else if (a == "--known") o.known = nx(); else if (a == "--min") o.minSecs = atof(nx().c_str());
      else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    return doRun(o);
  }
  if (mode == "gen") { CheckDef *cd = findCheck(argv[2]); if (!cd) return 2; fputs(serialize(makeRun(cd, argc > 4 ? strtoull(argv[4], nullptr, 10) : 1, strtoull(argv[3], nullptr, 10))).c_str(), stdout); return 0; }
  if (mode == "digest") {
    CheckDef *cd = findCheck(argv[2]); if (!cd || argc < 5) return 2; uint64_t seed = argc > 5 ? strtoull(argv[5], nullptr, 10) : 1;
    installHandlers(); warmUp(); Counters c;
    for (uint64_t i = strtoull(argv[3], nullptr, 10); i < strtoull(argv[4], nullptr, 10); i++) { Scenario s = makeRun(cd, seed, i); gDigest = 0; Verdict v = evalCheck(cd, s, c); printf("%lu %016lx %s\n", (unsigned long)i, (unsigned long)gDigest, v.cls.c_str()); }
    return 0;
  }
  if (mode == "replay" || mode == "show" || mode == "direct") {
    std::string txt = slurp(argv[2]); Prelude pre; Scenario s; std::string er;
    if (txt.compare(0, 8, "prelude ") == 0) { std::istringstream l(txt.substr(8, txt.find('\n') - 8)); l >> pre.seed; uint64_t k; while (l >> k) pre.idx.push_back(k); txt = txt.substr(txt.find('\n') + 1); }
    if (!deserialize(txt, s, er)) { fprintf(stderr, "cannot read %s: %s\n", argv[2], er.c_str()); return 2; }
    if (mode == "show" && (s.prop == "C16" || s.prop == "C17" || s.prop == "C21")) { extern void showWf(const Scenario &); showWf(s); }
    else if (mode == "show") dumpRun(s);
    if (mode == "direct") { CheckDef *cd = findCheck(s.prop); Counters c; Verdict v = evalCheck(cd, s, c); printf("%s: %s\n", v.bad ? v.cls.c_str() : "held", v.detail.c_str()); return v.bad; } // no fork, no handlers: for gdb
    Verdict v = evalChild(s, 30, pre.idx.empty() ? nullptr : &pre);
    if (v.bad) { printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.cls.c_str(), esc(v.detail, 3000).c_str(), s.prop.c_str(), argv[2]); return 1; }
    printf("held\n"); return 0;
  }
  return 2;
}
