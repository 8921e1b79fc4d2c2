// Allocator and randomness seam. The library under test has its references to malloc & co. renamed to simx_*
// (objcopy --redefine-sym), so every allocation it makes is decided here.
#include "sim.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdarg>
#include <cerrno>

namespace {
const uintptr_t FAST_BASE = 0x200000000000ull, FAST_SIZE = 1ull << 31;
const uintptr_t EF_BASE = 0x210000000000ull, EF_SIZE = 1ull << 36;
struct Blk { uintptr_t p; size_t size; uint32_t align; uint8_t state; uint8_t ef; uint64_t seq; };  // state 1 live 2 freed
bool inited = false, active = false, efence = false, moving = true;
uintptr_t fastCur, efCur;
Rng lay(1);
uint8_t fillByte = 0xA5;
uint64_t seqNo = 0;
std::vector<Blk> *blks;
// open hash: pointer -> index into blks
std::vector<uint32_t> *tab;
size_t tabUsed;
AllocStats st;
int fmode = FM_NONE; uint64_t failAt = 0, failArg = 0, armCount = 0;
std::string *heapErr;
size_t liveCount = 0, liveBytes = 0;
uint64_t rseed = 1; 
size_t ph(uintptr_t p) { return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ull >> 20); }
uint32_t *lookup(uintptr_t p) {
  if (!tab || tab->empty()) return nullptr;
  size_t m = tab->size() - 1, i = ph(p) & m;
  while ((*tab)[i]) { if ((*blks)[(*tab)[i] - 1].p == p) return &(*tab)[i]; i = (i + 1) & m; }
  return nullptr;
}
void insertIdx(uint32_t idx) {
  if ((tabUsed + 1) * 2 > tab->size()) {
    size_t ns = tab->size() ? tab->size() * 2 : 4096;
    tab->assign(ns, 0);
    for (uint32_t k = 0; k < idx; k++) { size_t m = ns - 1, i = ph((*blks)[k].p) & m; while ((*tab)[i]) i = (i + 1) & m; (*tab)[i] = k + 1; }
  }
  size_t m = tab->size() - 1, i = ph((*blks)[idx].p) & m;
  while ((*tab)[i]) i = (i + 1) & m;
  (*tab)[i] = idx + 1; tabUsed++;
}
void herr(const std::string &s) { if (heapErr->empty()) *heapErr = s; }
bool shouldFail(size_t n) {
  uint64_t k = armCount++;
  switch (fmode) {
  case FM_ONCE: return k == failAt;
  case FM_FROM: return k >= failAt;
  case FM_EVERY: return k >= failAt && failArg && (k - failAt) % failArg == 0;
  case FM_BIG: return k >= failAt && n > failArg;
  }
  return false;
}
const size_t RZ = 32;
void *doAlloc(size_t n, size_t align, bool zero) {
  if (n == 0) n = 1;
  if (align < 16) align = 16;
  uintptr_t p;
  if (n > (size_t)1 << 29) { st.failed++; errno = ENOMEM; return nullptr; }
  if (efence) {
    size_t body = (n + align - 1) & ~(align - 1);
    size_t pages = (body + 4095) / 4096;
    if (efCur + (pages + 1) * 4096 > EF_BASE + EF_SIZE || blks->size() > 14000) { efence = false; return doAlloc(n, align, zero); }
    uintptr_t b = efCur; efCur += (pages + 1) * 4096;
    if (mprotect((void *)b, pages * 4096, PROT_READ | PROT_WRITE)) { efence = false; return doAlloc(n, align, zero); }
    p = b + pages * 4096 - body;
    memset((void *)p, zero ? 0 : fillByte, n);
    memset((void *)(p + n), 0xEE, body - n);
    blks->push_back({p, n, (uint32_t)align, 1, 1, seqNo++});
  } else {
    uintptr_t q = fastCur + RZ + 16 * (lay.next() & 3);
    q = (q + align - 1) & ~(uintptr_t)(align - 1);
    if (q + n + RZ + 64 > FAST_BASE + FAST_SIZE) { st.failed++; errno = ENOMEM; return nullptr; }
    p = q;
    memset((void *)(p - RZ), 0xEE, RZ);
    memset((void *)p, zero ? 0 : fillByte, n);
    memset((void *)(p + n), 0xEE, RZ);
    fastCur = (p + n + RZ + 15) & ~(uintptr_t)15;
    blks->push_back({p, n, (uint32_t)align, 1, 0, seqNo++});
  }
  insertIdx((uint32_t)blks->size() - 1);
  st.allocs++; st.bytes += n; liveCount++; liveBytes += n;
  return (void *)p;
}
void checkZones(const Blk &b) {
  if (b.ef) {
    size_t body = (b.size + b.align - 1) & ~(size_t)(b.align - 1);
    for (size_t i = b.size; i < body; i++) if (((uint8_t *)b.p)[i] != 0xEE) { herr("heap-overflow-write"); break; }
  } else {
    for (size_t i = 0; i < RZ; i++) if (((uint8_t *)b.p)[b.size + i] != 0xEE) { herr("heap-overflow-write"); break; }
    for (size_t i = 1; i <= RZ; i++) if (((uint8_t *)b.p)[-(long)i] != 0xEE) { herr("heap-underflow-write"); break; }
  }
}
void doFree(void *v) {
  uintptr_t p = (uintptr_t)v;
  uint32_t *e = lookup(p);
  if (!e) { herr("invalid-free"); return; }
  Blk &b = (*blks)[*e - 1];
  if (b.state != 1) { herr("double-free"); return; }
  checkZones(b);
  b.state = 2; liveCount--; liveBytes -= b.size; st.frees++;
  if (b.ef) {
    size_t body = (b.size + b.align - 1) & ~(size_t)(b.align - 1);
    uintptr_t end = b.p + body; uintptr_t beg = b.p & ~4095ull;
    mprotect((void *)beg, end - beg, PROT_NONE);
  } else memset(v, 0xDD, b.size);
}
bool mine(void *p) { uintptr_t a = (uintptr_t)p; return (a >= FAST_BASE && a < FAST_BASE + FAST_SIZE) || (a >= EF_BASE && a < EF_BASE + EF_SIZE); }
}  // namespace

uint64_t gRandomCalls = 0;

void simAllocInit() {
  if (inited) return;
  inited = true;
  void *a = mmap((void *)FAST_BASE, FAST_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *b = mmap((void *)EF_BASE, EF_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((uintptr_t)a != FAST_BASE || (uintptr_t)b != EF_BASE) { fprintf(stderr, "sim: cannot reserve arenas\n"); _exit(2); }
  blks = new std::vector<Blk>; tab = new std::vector<uint32_t>; heapErr = new std::string;
}
void simAllocBegin(int mode, bool move, uint64_t layoutSeed) {
  simAllocInit();
  blks->clear(); tab->assign(4096, 0); tabUsed = 0; heapErr->clear();
  efence = mode == AM_EFENCE; moving = move; lay = Rng(layoutSeed ^ 0xA110C);
  fillByte = (uint8_t)lay.next();
  if (fillByte == 0) fillByte = 0x5A;
  fastCur = FAST_BASE + 4096 + 64 * (lay.next() & 1023); efCur = EF_BASE + 4096;
  seqNo = 0; liveCount = 0; liveBytes = 0; memset(&st, 0, sizeof st);
  fmode = FM_NONE; armCount = 0; active = true;
}
void simAllocArm(int m, uint64_t at, uint64_t arg) { fmode = m; failAt = at; failArg = arg; armCount = 0; }
uint64_t simAllocCount() { return armCount; }
uint64_t simFailedCount() { return st.failed; }
const AllocStats &simAllocStats() { st.live = liveCount; return st; }
size_t simLive() { return liveCount; }
size_t simLiveBytes() { return liveBytes; }
std::string simAllocEnd(std::string *leak, uint64_t since) {
  active = false; fmode = FM_NONE;
  size_t poisoned = 0;
  for (auto &b : *blks) {
    if (b.state == 1) {
      checkZones(b);
      if (leak && b.seq >= since && leak->size() < 200) { char t[80]; snprintf(t, sizeof t, "[alloc#%lu %zu bytes] ", (unsigned long)b.seq, b.size); *leak += t; }
    } else if (!b.ef && poisoned < (4u << 20)) {
      poisoned += b.size;
      for (size_t i = 0; i < b.size; i++) if (((uint8_t *)b.p)[i] != 0xDD) { herr("write-after-free"); break; }
    }
  }
  if (efCur > EF_BASE + 4096) {
    size_t len = efCur - EF_BASE;
    mmap((void *)EF_BASE, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  }
  // nothing of this run may show in the next one
  if (fastCur - FAST_BASE > (8u << 20)) madvise((void *)FAST_BASE, fastCur - FAST_BASE + 4096, MADV_DONTNEED);
  else memset((void *)FAST_BASE, 0, fastCur - FAST_BASE + 256);
  return *heapErr;
}
std::string simDescribeAddr(uintptr_t a) {
  char buf[160];
  if (a >= EF_BASE && a < EF_BASE + EF_SIZE) {
    const Blk *best = nullptr;
    for (auto &b : *blks) if (b.ef && b.p <= a && (!best || b.p > best->p)) best = &b;
    const Blk *nxt = nullptr;
    for (auto &b : *blks) if (b.ef && b.p > a && (!nxt || b.p < nxt->p)) nxt = &b;
    if (best) {
      size_t body = (best->size + best->align - 1) & ~(size_t)(best->align - 1);
      if (a < best->p + body) return best->state == 2 ? "use-after-free" : "heap-access";
      if (nxt && (nxt->p & ~4095ull) <= a) return "heap-underflow";
      if (best->state == 2) return "use-after-free";
      return "heap-overflow";
    }
    snprintf(buf, sizeof buf, "heap-overflow");
    return buf;
  }
  if (a >= 0xDDDDDDDDDDDD0000ull >> 16 && (a >> 40) == 0xDDDDDD) return "poisoned-pointer";
  if (a < 65536) return "null-pointer";
  return "wild-pointer";
}
void simSetRandomSeed(uint64_t s) { rseed = s; gRandomCalls = 0; }

extern "C" {
__attribute__((visibility("default"))) void *simx_malloc(size_t n) {
  if (!active) return malloc(n);
  if (shouldFail(n)) { st.failed++; errno = ENOMEM; return nullptr; }
  return doAlloc(n, 16, false);
}
__attribute__((visibility("default"))) void *simx_calloc(size_t a, size_t b) {
  if (!active) return calloc(a, b);
  if (b && a > SIZE_MAX / b) return nullptr;
  if (shouldFail(a * b)) { st.failed++; errno = ENOMEM; return nullptr; }
  return doAlloc(a * b, 16, true);
}
__attribute__((visibility("default"))) void simx_free(void *p) {
  if (!p) return;
  if (!mine(p)) { free(p); return; }
  doFree(p);
}
__attribute__((visibility("default"))) void *simx_realloc(void *p, size_t n) {
  if (!active) {
    if (p && mine(p)) abort();
    return realloc(p, n);
  }
  if (!p) return simx_malloc(n);
  st.reallocs++;
  if (shouldFail(n)) { st.failed++; errno = ENOMEM; return nullptr; }
  if (!mine(p)) return realloc(p, n);
  uint32_t *e = lookup((uintptr_t)p);
  if (!e || (*blks)[*e - 1].state != 1) { herr("invalid-realloc"); return nullptr; }
  Blk b = (*blks)[*e - 1];
  if (!moving && n <= b.size && !b.ef) {
    liveBytes += (n ? n : 1) - b.size;
    (*blks)[*e - 1].size = n ? n : 1;
    memset((uint8_t *)p + (n ? n : 1), 0xEE, RZ);
    return p;
  }
  void *q = doAlloc(n, b.align, false);
  if (!q) return nullptr;
  memcpy(q, p, n < b.size ? n : b.size);
  doFree(p);
  return q;
}
__attribute__((visibility("default"))) int simx_posix_memalign(void **out, size_t al, size_t n) {
  if (!active) return posix_memalign(out, al, n);
  if (shouldFail(n)) { st.failed++; return ENOMEM; }
  void *q = doAlloc(n, al, false);
  if (!q) return ENOMEM;
  *out = q;
  return 0;
}
__attribute__((visibility("default"))) void *simx_aligned_alloc(size_t al, size_t n) {
  void *q = nullptr;
  return simx_posix_memalign(&q, al, n) ? nullptr : q;
}
__attribute__((visibility("default"))) ssize_t simx_getrandom(void *buf, size_t n, unsigned) {
  gRandomCalls++;
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) rseed = mix64(rseed, i + 77); ((uint8_t *)buf)[i] = (uint8_t)(rseed >> (8 * (i % 8))); }
  return (ssize_t)n;
}
__attribute__((visibility("default"))) long simx_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (nr == SYS_getrandom) return simx_getrandom((void *)a, (size_t)b, (unsigned)c);
  return syscall(nr, a, b, c, d, e, f);
}
}
