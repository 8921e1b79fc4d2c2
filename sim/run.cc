#include <deque>
// Executes a scenario: parsers, child parsers, delivery schedules, callback-time actions, baton scheduling of clients.
#include "sim.h"
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <semaphore.h>
#include <unistd.h>

Lib *gRex, *gRexU, *gRef;
const char *evName[] = {"StartElement", "EndElement", "CharData", "PI", "Comment", "StartCdata", "EndCdata", "Default", "StartDoctype", "EndDoctype", "UnparsedEntity", "Notation", "StartNs", "EndNs", "NotStandalone", "ExternalEntityRef", "SkippedEntity", "UnknownEncoding", "ElementDecl", "AttlistDecl", "EntityDecl", "XmlDecl"};

// A run is the life of one process: the library's writable data is put back to what it was after loading before each run.
static int findImage(struct dl_phdr_info *i, size_t, void *arg) {
  Lib *l = (Lib *)arg; struct link_map *m = nullptr; dlinfo(l->h, RTLD_DI_LINKMAP, &m);
  if (!m || i->dlpi_addr != m->l_addr || std::string(i->dlpi_name) != m->l_name) return 0;
  uintptr_t ro = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) ro = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~(uintptr_t)4095;
  for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue; uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz; if (ro > a && ro <= e) a = ro; if (a < e) l->image.push_back({(char *)a, std::string((char *)a, e - a)}); }
  return 1;
}
static void freshProcess(Lib *l) { for (auto &x : l->image) memcpy(x.first, x.second.data(), x.second.size()); }
Lib *loadLib(const std::string &name, const std::string &path, int cs, bool ref) {
  Lib *l = new Lib;
  l->name = name; l->path = path; l->cs = cs; l->ref = ref;
  l->h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!l->h) { fprintf(stderr, "sim: dlopen %s: %s\n", path.c_str(), dlerror()); exit(2); }
#define X(r, n, a) l->n = (r(*) a)dlsym(l->h, "XML_" #n); if (!l->n) { fprintf(stderr, "sim: %s lacks XML_" #n "\n", path.c_str()); exit(2); }
  API_LIST(X)
#undef X
  if (!ref) dl_iterate_phdr(findImage, l);
  l->SetReparseDeferralEnabled = (void (*)(XParser, unsigned char))dlsym(l->h, "XML_SetReparseDeferralEnabled");
  return l;
}

// ---------------------------------------------------------------- strings
static void put8(std::string &o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
std::string utf8(uint32_t c) { std::string s; put8(s, c); return s; }
static void app16(std::string &o, const uint16_t *u, size_t n) {
  for (size_t i = 0; i < n; i++) {
    uint32_t c = u[i];
    if (c >= 0xD800 && c < 0xDC00 && i + 1 < n) { c = 0x10000 + ((c - 0xD800) << 10) + (u[i + 1] & 0x3ff); i++; }
    put8(o, c);
  }
}
struct XStr {  // argument string in the library's character type
  std::vector<uint16_t> w; std::string s; int cs;
  XStr(Lib *l, const std::string &v) : s(v), cs(l->cs) {
    if (cs == 2) { for (uint32_t c : decodeUtf8(v)) { if (c >= 0x10000) { c -= 0x10000; w.push_back((uint16_t)(0xD800 + (c >> 10))); w.push_back((uint16_t)(0xDC00 + (c & 1023))); } else w.push_back((uint16_t)c); } w.push_back(0); }
  }
  const void *p() const { return cs == 2 ? (const void *)w.data() : (const void *)s.c_str(); }
};

// ---------------------------------------------------------------- contexts
struct RawTrace : Hash64 {   // SIM_RAW=1 prints what goes into the hash
  static bool on() { static bool v = getenv("SIM_RAW") != nullptr; return v; }
  void u64(uint64_t v) { if (on()) printf("   raw %ld\n", (long)v); Hash64::u64(v); }
  void str(const std::string &v) { if (on()) printf("   raw '%s'\n", esc(v).c_str()); Hash64::str(v); }
};
#define SEP "\x1f"
struct Cx;
struct Cell { uint64_t magic; Cx *cx; int id; };
struct PCtx {
  XParser p; const std::string *stream; size_t delivered = 0; int label; bool child; bool pe;
  bool stopped = false, aborted = false; int trailIdx = -1;
  XParser parentp = nullptr;
  const Deliv *d = nullptr; size_t ci = 0; bool done = false; bool emptyDone = false, fin = false;
};
struct Cx { void *cell = nullptr; std::deque<Cell> moreCells; bool argShown = false; int argId = 0; bool mute = false; uint64_t happened = 0;
  Lib *lib; const Scenario *sc; const Phase *ph; PhaseResult *r; RawTrace raw;
  std::vector<PCtx *> st;
  std::multimap<uint32_t, Action> acts;
  uint32_t cb = 0; uint32_t callNo = 0;
  int nextLabel = 1; int clientIdx = 0;
  std::vector<std::pair<XParser, XContent *>> models;
  std::vector<PCtx *> pendingChildren;                // suspended along with their parents
  struct Deferred { std::string ctx; bool isNull; const Entity *e; int label; };
  std::vector<Deferred> deferred;
  std::vector<std::pair<XParser, PCtx *>> toFree;
  int depth = 0;
  uint32_t handlers = 0;
  bool dead = false;       // phase is over: no more recording wanted
  void inv(const std::string &c, const std::string &d) { if (r->inv.size() < 8) r->inv.push_back({c, d}); }
};
static void yieldPoint(Cx *cx);
static void runClientNested(Cx *cx, uint32_t which);

// ---------------------------------------------------------------- recording
static std::string S(Lib *l, const void *p) {
  if (!p) return "\x1e";
  if (l->cs == 1) return std::string((const char *)p);
  const uint16_t *u = (const uint16_t *)p; size_t n = 0; while (u[n]) n++;
  std::string o; app16(o, u, n); return o;
}
static std::string SN(Lib *l, const void *p, int n) {
  if (!p) return n ? "\x1e" : "";
  if (l->cs == 1) return std::string((const char *)p, (size_t)n);
  std::string o; app16(o, (const uint16_t *)p, (size_t)n); return o;
}
static void checkCtx(Cx *cx, PCtx *pc) {
  Lib *l = cx->lib;
  int off = -7, size = -7;
  const char *b = l->GetInputContext(pc->p, &off, &size);
  if (!b) return;
  long bi = l->GetCurrentByteIndex(pc->p);
  char t[160];
  if (off < 0 || size < 0 || off > size) { snprintf(t, sizeof t, "offset %d size %d", off, size); cx->inv("C04:context-range", t); return; }
  long start = bi - off;
  if (bi < 0 || start < 0 || (size_t)(start + size) > pc->delivered) { snprintf(t, sizeof t, "context [%ld,%ld) of %zu delivered, index %ld", start, start + size, pc->delivered, bi); cx->inv("C04:context-range", t); return; }
  if (memcmp(b, pc->stream->data() + start, (size_t)size)) { snprintf(t, sizeof t, "context bytes differ from stream at %ld+%d", start, size); cx->inv("C04:context-bytes", t); }
}
static void queryPos(Cx *cx, PCtx *pc, Ev *e) {
  unsigned long ln = cx->lib->GetCurrentLineNumber(pc->p), co = cx->lib->GetCurrentColumnNumber(pc->p);
  if (e) { e->line = ln; e->col = co; e->haspos = true; }
}
static void doActions(Cx *cx, int type, uint32_t ord);
static void setHandlers(Cx *cx, XParser p, uint32_t m);

static void rec0(Cx *cx, int type, std::string s) {
  PhaseResult *r = cx->r;
  PCtx *pc = cx->st.back();
  uint32_t ord = cx->cb++;
  if (cx->mute) return;
  if (cx->argShown && type != E_CD && type != E_DEF) s += std::string(SEP "arg ") + std::to_string(cx->argId & 255) + (cx->argId & 256 ? "p" : "");
  r->ncb = cx->cb;
  yieldPoint(cx);
  long bi = cx->lib->GetCurrentByteIndex(pc->p);
  int bc = cx->lib->GetCurrentByteCount(pc->p);
  cx->raw.u64((uint64_t)type << 8 | (unsigned)pc->label); cx->raw.str(s); cx->raw.u64((uint64_t)bi); cx->raw.u64((uint64_t)bc);
  if (bi < -1 || (bi >= 0 && ((size_t)bi > pc->delivered || bc < 0 || (size_t)bi + (size_t)bc > pc->delivered))) {
    char t[120]; snprintf(t, sizeof t, "%s: index %ld count %d, %zu delivered", evName[type], bi, bc, pc->delivered); cx->inv("C04:index-range", t);
  }
  XParsingStatus ps{99, 9};
  cx->lib->GetParsingStatus(pc->p, &ps);
  unsigned want = pc->aborted ? 2 : pc->stopped ? 3 : 1;
  if (ps.parsing != want) { char t[120]; snprintf(t, sizeof t, "%s: parsing status %u, expected %u", evName[type], ps.parsing, want); cx->inv("C03:callback-status", t); }
  if (pc->trailIdx >= 0) r->trails[(size_t)pc->trailIdx] += (char)('A' + type);
  if (type == E_CD || type == E_DEF) {
    if (!r->ev.empty() && r->ev.back().type == type && r->ev.back().label == pc->label) {
      r->ev.back().s += s; r->ev.back().pieces++;
      if (cx->ph->c.query) { Ev tmp{}; queryPos(cx, pc, &tmp); cx->raw.u64(tmp.line); cx->raw.u64(tmp.col); }
      if (cx->ph->c.query >= 2) checkCtx(cx, pc);
      doActions(cx, type, ord);
      return;
    }
  }
  Ev e{}; e.type = (uint8_t)type; e.label = (uint8_t)(pc->label > 250 ? 250 : pc->label); e.s = std::move(s); e.bi = bi; e.bc = bc; e.cb = ord; e.pieces = 1; e.callNo = cx->callNo;
  if (cx->ph->c.query) { queryPos(cx, pc, &e); cx->raw.u64(e.line); cx->raw.u64(e.col); }
  if (cx->ph->c.query >= 2) checkCtx(cx, pc);
  r->ev.push_back(std::move(e));
  if (cx->cb > 200000 && !r->runaway) { r->runaway = true; }
  if (r->runaway) cx->lib->StopParser(pc->p, 0), pc->aborted = true, pc->stopped = true;
  doActions(cx, type, ord);
}
// What a handler is given must stay as it is until it returns, whatever the application does meanwhile that it may do.
template <class F> static void rec(Cx *cx, int type, F f) {
  uint64_t before = cx->happened;
  std::string s = f();
  rec0(cx, type, s);
  if (cx->happened == before || cx->mute) return;
  std::string now = f();
  if (now != s) cx->inv("C06:callback-data", std::string(evName[type]) + ": data changed during the callback from \"" + s.substr(0, 200) + "\" to \"" + now.substr(0, 200) + "\"");
}
// userData is a cell {magic, Cx*}; with UseParserAsHandlerArg the handler argument is the parser, whose first word is the user data.

static const uint64_t MAGIC = 0x51D0CE11CAFEF00Dull;
static Cx *G(void *arg) {
  Cell *c = (Cell *)arg;
  if (c->magic == MAGIC) { c->cx->argId = c->id; return c->cx; }
  c = *(Cell **)arg;     // a parser: XML_GetUserData
  if (c->magic != MAGIC) { fprintf(stderr, "sim: bad handler argument\n"); abort(); }
  c->cx->argId = c->id | 256;
  return c->cx;
}
static void sampleLive(Cx *cx, PCtx *pc) { if (pc->label == 0 && cx->r->live.size() < 20000) cx->r->live.push_back({(long)cx->lib->GetCurrentByteIndex(pc->p), simLiveBytes()}); }
extern "C" {
static void hSE(void *u, const void *name, const void **atts) {
  Cx *cx = G(u); Lib *l = cx->lib; PCtx *pc = cx->st.back();
  sampleLive(cx, pc);
  rec(cx, E_SE, [&] {
    std::string s = S(l, name);
    int n = 0;
    for (const void **a = atts; *a; a += 2) { s += SEP + S(l, a[0]) + "=" + S(l, a[1]); n++; }
    char t[48]; snprintf(t, sizeof t, SEP "#%d/%d/%d", n, l->GetSpecifiedAttributeCount(pc->p), l->GetIdAttributeIndex(pc->p));
    return s + t;
  });
}
static void hEE(void *u, const void *name) { Cx *cx = G(u); rec(cx, E_EE, [&] { return S(cx->lib, name); }); }
static void hCD(void *u, const void *s, int n) { Cx *cx = G(u); rec(cx, E_CD, [&] { return SN(cx->lib, s, n); }); }
static void hPI(void *u, const void *t, const void *d) { Cx *cx = G(u); sampleLive(cx, cx->st.back()); rec(cx, E_PI, [&] { return S(cx->lib, t) + SEP + S(cx->lib, d); }); }
static void hCM(void *u, const void *d) { Cx *cx = G(u); rec(cx, E_CM, [&] { return S(cx->lib, d); }); }
static void hSCD(void *u) { rec0(G(u), E_SCD, ""); }
static void hECD(void *u) { rec0(G(u), E_ECD, ""); }
static void hDEF(void *u, const void *s, int n) { Cx *cx = G(u); rec(cx, E_DEF, [&] { return SN(cx->lib, s, n); }); }
static void hSDT(void *u, const void *n, const void *sys, const void *pub, int has) { Cx *cx = G(u); rec(cx, E_SDT, [&] { return S(cx->lib, n) + SEP + S(cx->lib, sys) + SEP + S(cx->lib, pub) + SEP + (has ? "1" : "0"); }); }
static void hEDT(void *u) { rec0(G(u), E_EDT, ""); }
static void hUED(void *u, const void *n, const void *b, const void *sys, const void *pub, const void *nn) { Cx *cx = G(u); Lib *l = cx->lib; rec(cx, E_UED, [&] { return S(l, n) + SEP + S(l, b) + SEP + S(l, sys) + SEP + S(l, pub) + SEP + S(l, nn); }); }
static void hNOT(void *u, const void *n, const void *b, const void *sys, const void *pub) { Cx *cx = G(u); Lib *l = cx->lib; rec(cx, E_NOT, [&] { return S(l, n) + SEP + S(l, b) + SEP + S(l, sys) + SEP + S(l, pub); }); }
static void hSNS(void *u, const void *p, const void *uri) { Cx *cx = G(u); rec(cx, E_SNS, [&] { return S(cx->lib, p) + SEP + S(cx->lib, uri); }); }
static void hENS(void *u, const void *p) { Cx *cx = G(u); rec(cx, E_ENS, [&] { return S(cx->lib, p); }); }
static int hNSA(void *u) { Cx *cx = G(u); rec0(cx, E_NSA, ""); return cx->ph->c.nsaRet; }
static void hSKIP(void *u, const void *n, int pe) { Cx *cx = G(u); rec(cx, E_SKIP, [&] { return S(cx->lib, n) + SEP + (pe ? "1" : "0"); }); }
static void hATD(void *u, const void *el, const void *at, const void *ty, const void *df, int rq) { Cx *cx = G(u); Lib *l = cx->lib; rec(cx, E_ATD, [&] { return S(l, el) + SEP + S(l, at) + SEP + S(l, ty) + SEP + S(l, df) + SEP + (rq ? "1" : "0"); }); }
static void hEND(void *u, const void *n, int pe, const void *v, int vl, const void *b, const void *sys, const void *pub, const void *nn) {
  Cx *cx = G(u); Lib *l = cx->lib;
  rec(cx, E_END, [&] { return S(l, n) + SEP + (pe ? "1" : "0") + SEP + SN(l, v, vl) + SEP + S(l, b) + SEP + S(l, sys) + SEP + S(l, pub) + SEP + S(l, nn); });
}
static void hXML(void *u, const void *v, const void *e, int sa) { Cx *cx = G(u); Lib *l = cx->lib; char t[16]; snprintf(t, sizeof t, SEP "%d", sa); rec(cx, E_XML, [&] { return S(l, v) + SEP + S(l, e) + t; }); }
static void modelStr(Lib *l, XContent *c, std::string &o, int depth) {
  static const char q[] = {' ', '?', '*', '+'};
  if (depth > 3000) { o += "..."; return; }
  char t[32];
  if (c->type == 4) { o += S(l, c->name); o += q[c->quant & 3]; if (c->numchildren || c->children) o += "!kids"; return; }
  snprintf(t, sizeof t, "%u", c->type); o += t;
  if (c->name) o += "!name";
  if (c->type >= 3 && (c->numchildren || c->type != 3)) { o += "("; for (unsigned i = 0; i < c->numchildren; i++) { if (i) o += ","; modelStr(l, &c->children[i], o, depth + 1); } o += ")"; }
  o += q[c->quant & 3];
}
static void hELD(void *u, const void *n, XContent *m) {
  Cx *cx = G(u); Lib *l = cx->lib; PCtx *pc = cx->st.back();
  std::string s = S(l, n) + SEP;
  modelStr(l, m, s, 0);
  if (cx->ph->c.freeModels == 0) l->FreeContentModel(pc->p, m); else cx->models.push_back({pc->p, m});
  rec0(cx, E_ELD, s);
}
struct EncCell { PhaseResult *r; uint32_t magic; };
static std::vector<std::unique_ptr<EncCell>> *encCells;
static int encConvert(void *d, const char *s) { EncCell *c = (EncCell *)d; if (c->magic != 0xE4C0DE) { fprintf(stderr, "sim: convert called after release\n"); abort(); } return simmbConvert(s); }
static void encRelease(void *d) { EncCell *c = (EncCell *)d; c->r->encReleased++; if (c->magic != 0xE4C0DE) c->r->inv.push_back({"C10:double-release", "release called twice"}); c->magic = 0xDEAD; }
// a handler that keeps no data of its own
static thread_local std::vector<PhaseResult *> encBare;
static int encConvert0(void *d, const char *s) { if (d) { fprintf(stderr, "sim: convert called with other data\n"); abort(); } return simmbConvert(s); }
static void encRelease0(void *d) {
  if (encBare.empty()) { fprintf(stderr, "sim: release called once too often\n"); abort(); }
  PhaseResult *r = encBare.front(); encBare.erase(encBare.begin()); r->encReleased++; if (d) r->inv.push_back({"C10:release-data", "release called with other data"});
}
static int hUENC(void *data, const void *name, XEncoding *info) {
  Cx *cx = G(data);
  std::string n = S(cx->lib, name);
  rec0(cx, E_UENC, n);
  int mode = cx->ph->c.encMode;
  if (mode == 1) return 0;
  auto *cell = new EncCell{cx->r, 0xE4C0DE};
  encCells->emplace_back(cell);
  bool ok;
  bool bare = mode == 20 || mode == 22;
  simFillEncoding(n, mode, info, bare ? nullptr : cell, bare ? encConvert0 : encConvert, mode == 3 ? nullptr : bare ? encRelease0 : encRelease, ok);
  if (ok && bare) encBare.push_back(cx->r);
  if (!ok) return 0;
  if (info->release) cx->r->encSupplied++;
  return 1;
}
static int hEER(void *arg, const void *context, const void *base, const void *sys, const void *pub);
}

static void setHandlers(Cx *cx, XParser p, uint32_t m) {
  Lib *l = cx->lib;
  cx->handlers = m;
#define HH(bit, fn) ((m & bit) ? (void *)fn : nullptr)
  bool single = cx->ph->c.style & 1;
  if (single) { l->SetStartElementHandler(p, HH(H_SE, hSE)); l->SetEndElementHandler(p, HH(H_EE, hEE)); }
  else l->SetElementHandler(p, HH(H_SE, hSE), HH(H_EE, hEE));
  l->SetCharacterDataHandler(p, HH(H_CD, hCD));
  l->SetProcessingInstructionHandler(p, HH(H_PI, hPI));
  l->SetCommentHandler(p, HH(H_CM, hCM));
  if (single) { l->SetStartCdataSectionHandler(p, HH(H_SCD, hSCD)); l->SetEndCdataSectionHandler(p, HH(H_ECD, hECD)); }
  else l->SetCdataSectionHandler(p, HH(H_SCD, hSCD), HH(H_ECD, hECD));
  if (m & H_DEF) { if (cx->ph->c.defExpand) l->SetDefaultHandlerExpand(p, (void *)hDEF); else l->SetDefaultHandler(p, (void *)hDEF); }
  else l->SetDefaultHandlerExpand(p, nullptr);
  if (single) { l->SetStartDoctypeDeclHandler(p, HH(H_SDT, hSDT)); l->SetEndDoctypeDeclHandler(p, HH(H_EDT, hEDT)); }
  else l->SetDoctypeDeclHandler(p, HH(H_SDT, hSDT), HH(H_EDT, hEDT));
  l->SetUnparsedEntityDeclHandler(p, HH(H_UED, hUED));
  l->SetNotationDeclHandler(p, HH(H_NOT, hNOT));
  if (single) { l->SetStartNamespaceDeclHandler(p, HH(H_SNS, hSNS)); l->SetEndNamespaceDeclHandler(p, HH(H_ENS, hENS)); }
  else l->SetNamespaceDeclHandler(p, HH(H_SNS, hSNS), HH(H_ENS, hENS));
  l->SetNotStandaloneHandler(p, HH(H_NSA, hNSA));
  l->SetExternalEntityRefHandler(p, HH(H_EER, hEER));
  l->SetSkippedEntityHandler(p, HH(H_SKIP, hSKIP));
  l->SetElementDeclHandler(p, HH(H_ELD, hELD));
  l->SetAttlistDeclHandler(p, HH(H_ATD, hATD));
  l->SetEntityDeclHandler(p, HH(H_END, hEND));
  l->SetXmlDeclHandler(p, HH(H_XML, hXML));
}

static void ill(Cx *cx, const char *what, long got, long want) {
  cx->r->nillegal++;
  cx->raw.u64((uint64_t)got);
  if (got != want) { char t[120]; snprintf(t, sizeof t, "%s: got %ld, documented %ld", what, got, want); cx->inv("C03:misuse-result", t); }
}
// misuse from inside a callback: documented to be refused
static void illegalInCallback(Cx *cx, PCtx *pc, uint32_t w) {
  Lib *l = cx->lib; XParser p = pc->p;
  XParsingStatus ps; l->GetParsingStatus(p, &ps);
  switch (w % 12) {
  case 0: if (ps.parsing == 1) { ill(cx, "XML_ResumeParser while parsing", l->ResumeParser(p), 0); ill(cx, "error after it", l->GetErrorCode(p), 34); } break;
  case 1: { XStr e(l, "US-ASCII"); if (ps.parsing == 1 || ps.parsing == 3) ill(cx, "XML_SetEncoding while parsing", l->SetEncoding(p, e.p()), 0); break; }
  case 2: if (ps.parsing == 1 || ps.parsing == 3) ill(cx, "XML_SetParamEntityParsing while parsing", l->SetParamEntityParsing(p, 0), 0); break;
  case 3: if (ps.parsing == 1 || ps.parsing == 3) ill(cx, "XML_UseForeignDTD while parsing", l->UseForeignDTD(p, 1), 26); break;
  case 4: if (pc->child) { XStr e(l, "UTF-8"); ill(cx, "XML_ParserReset of a child", l->ParserReset(p, e.p()), 0); } break;
  // calls permitted at any moment, which change nothing
  case 5: case 6: {
    if (cx->sc->env.fmode) break;
    const void *b = l->GetBase(p); std::string was = S(l, b), now;
    ill(cx, "XML_SetBase with the base at hand", l->SetBase(p, b), 1); now = S(l, l->GetBase(p));
    if (now != was) cx->inv("C03:misuse-result", "XML_SetBase made \"" + was + "\" \"" + now + "\"");
    break; }
  case 7: case 8: {
    XStr ctx(l, ""), e(l, "UTF-8"); XParser q = l->ExternalEntityParserCreate(p, ctx.p(), w & 16 ? e.p() : nullptr);
    if (q) { XParsingStatus qs; l->GetParsingStatus(q, &qs); ill(cx, "state of a new child", qs.parsing, 0); ill(cx, "error of a new child", l->GetErrorCode(q), 0); ill(cx, "XML_ResumeParser of a new child", l->ResumeParser(q), 0); l->ParserFree(q); }
    else if (!cx->sc->env.fmode) cx->inv("C03:misuse-result", "no child parser for an empty context");
    break; }
  case 9: if (ps.parsing == 1 || ps.parsing == 3) l->SetReturnNSTriplet(p, cx->ph->c.triplets ? 0 : 1); break;
  case 10: { void *m = l->MemMalloc(p, 10 + w % 50); if (m) { void *m2 = l->MemRealloc(p, m, 100); l->MemFree(p, m2 ? m2 : m); } l->GetBase(p); l->GetIdAttributeIndex(p); l->GetSpecifiedAttributeCount(p); break; }
  case 11: { int c0 = l->GetSpecifiedAttributeCount(p); checkCtx(cx, pc); ill(cx, "XML_GetSpecifiedAttributeCount again", l->GetSpecifiedAttributeCount(p), c0); break; }
  }
}
static void doActions(Cx *cx, int type, uint32_t ord) {
  if (cx->acts.empty()) return;
  if (type <= E_ECD && type != E_DEF && cx->acts.count(EVERY_CB)) { cx->r->ndefcur++; cx->lib->DefaultCurrent(cx->st.back()->p); }   // every event is handed on
  auto rg = cx->acts.equal_range(ord);
  if (rg.first == rg.second) return;
  Lib *l = cx->lib;
  for (auto it = rg.first; it != rg.second; ++it) {
    PCtx *pc = cx->st.back();
    const Action &a = it->second;
    cx->r->nacts++;
    if (a.kind != A_DEFCUR) cx->happened++;
    switch (a.kind) {
    case A_SUSPEND: case A_ABORT: case A_STOPTWICE: case A_SUSPABORT: {
      bool resumable = a.kind != A_ABORT;
      XParsingStatus ps; l->GetParsingStatus(pc->p, &ps);
      if (ps.parsing != 1) break;
      if (type == E_UENC) break;
      int rc = l->StopParser(pc->p, resumable);
      if (resumable && pc->pe) {
        ill(cx, "suspend in a parameter entity", rc, 0); ill(cx, "error after it", l->GetErrorCode(pc->p), 37);
        break;
      }
      if (rc != 1) { cx->inv("C03:stop-refused", "XML_StopParser from a handler refused"); break; }
      pc->stopped = true; if (!resumable) pc->aborted = true;
      if ((!resumable || a.kind == A_SUSPABORT) && cx->r->abortCb == ~0u) cx->r->abortCb = ord;
      if (resumable) cx->r->nsusp++;
      cx->r->trails.push_back(std::string(1, (char)('A' + type)) + ":");
      pc->trailIdx = (int)cx->r->trails.size() - 1;
      if (a.kind == A_STOPTWICE) { ill(cx, "suspend when suspended", l->StopParser(pc->p, 1), 0); ill(cx, "error after it", l->GetErrorCode(pc->p), 33); }
      if (a.kind == A_SUSPABORT) { ill(cx, "abort when suspended", l->StopParser(pc->p, 0), 1); pc->aborted = true; }
      if (a.kind == A_ABORT && (a.arg & 1)) { ill(cx, "stop when finished", l->StopParser(pc->p, (a.arg >> 1) & 1), 0); ill(cx, "error after it", l->GetErrorCode(pc->p), 36); }
      break;
    }
    case A_DEFCUR:
      if (type == E_END && l->GetCurrentByteCount(pc->p) <= 0) break;   // the reference gives a negative length for a half-way value and crashes
      if (type == E_SE || type == E_EE || type == E_CD || type == E_PI || type == E_CM || type == E_SCD || type == E_ECD || type == E_XML || type == E_SDT || type == E_EDT || type == E_NOT || type == E_ATD || type == E_END || type == E_ELD) { cx->r->ndefcur++; l->DefaultCurrent(pc->p); }
      break;
    case A_QUERY: { Ev e{}; queryPos(cx, pc, &e); if (!cx->r->ev.empty() && cx->r->ev.back().cb == ord) { cx->r->ev.back().line = e.line; cx->r->ev.back().col = e.col; cx->r->ev.back().haspos = true; } break; }
    case A_CTX: checkCtx(cx, pc); break;
    case A_HANDLERS: {
      uint32_t m = a.arg & H_ALL & ~(uint32_t)H_UENC, k = a.arg >> 28;
      if (k) {   // another handler argument, from the next callback on
        cx->argShown = true;
        if (k < 4) { cx->moreCells.push_back(Cell{MAGIC, cx, (int)cx->moreCells.size() + 1}); l->SetUserData(pc->p, &cx->moreCells.back()); } else l->UseParserAsHandlerArg(pc->p);
      }
      setHandlers(cx, pc->p, m | (cx->handlers & (H_EER | H_UENC)));
      break; }
    case A_ILLEGAL: illegalInCallback(cx, pc, a.arg); break;
    case A_NEST: runClientNested(cx, a.arg); break;
    }
  }
}

// ---------------------------------------------------------------- delivery
static const char *callNames[] = {"Parse", "ParseBuffer", "Resume", "GetBuffer"};
static void checkAfter(Cx *cx, PCtx *pc, int rc) {
  Lib *l = cx->lib;
  XParsingStatus ps{99, 9}; l->GetParsingStatus(pc->p, &ps);
  const char *bad = nullptr;
  if (rc == 2 && ps.parsing != 3) bad = "suspended status but parsing state not SUSPENDED";
  if (rc == 2 && !pc->stopped) bad = "suspended without a stop request";
  if (rc == 1 && pc->fin != (ps.parsing == 2)) bad = pc->fin ? "all taken but parsing state not FINISHED" : "FINISHED before the last data";
  if (rc != 0 && pc->fin != (ps.finalBuffer != 0)) bad = "the final flag is not the one given";
  if (rc == 1 && ps.parsing == 3) bad = "parsing state SUSPENDED but status not";
  if (rc == 1 && pc->stopped) bad = "stop request ignored";
    if (rc == 0 && l->GetErrorCode(pc->p) == 0) bad = "ERROR without an error code";
  if (rc == 0 && pc->aborted && l->GetErrorCode(pc->p) != 35) cx->r->abortVetoed = true;
  if (bad) { char t[200]; snprintf(t, sizeof t, "%s (ret %d state %u err %u)", bad, rc, ps.parsing, l->GetErrorCode(pc->p)); cx->inv("C03:status", t); }
}
static void illegalBetween(Cx *cx, PCtx *pc, int rc) {
  uint32_t w = cx->ph->c.illegalBetween;
  if (!w) return;
  Lib *l = cx->lib; XParser p = pc->p;
  XParsingStatus ps; l->GetParsingStatus(p, &ps);
  if (ps.parsing == 3) {
    if (w & 1) { ill(cx, "XML_Parse while suspended", l->Parse(p, "x", 1, 0), 0); ill(cx, "error after it", l->GetErrorCode(p), 33); }
    if (w & 2) { ill(cx, "XML_GetBuffer while suspended", l->GetBuffer(p, 10) != nullptr, 0); ill(cx, "error after it", l->GetErrorCode(p), 33); }
    if (w & 4) { ill(cx, "XML_ParseBuffer while suspended", l->ParseBuffer(p, 0, 0), 0); ill(cx, "error after it", l->GetErrorCode(p), 33); }
    if (w & 8) { ill(cx, "XML_StopParser(resumable) while suspended", l->StopParser(p, 1), 0); ill(cx, "error after it", l->GetErrorCode(p), 33); }
    if (w & 16) { XStr e(l, "UTF-16"); ill(cx, "XML_SetEncoding while suspended", l->SetEncoding(p, e.p()), 0); }
    if (w & 32) ill(cx, "XML_SetParamEntityParsing while suspended", l->SetParamEntityParsing(p, 2), 0);
    if (w & 64) ill(cx, "XML_UseForeignDTD while suspended", l->UseForeignDTD(p, 1), 26);
  } else if (ps.parsing == 1 && rc == 1) {
    if (w & 1) { ill(cx, "XML_ResumeParser when not suspended", l->ResumeParser(p), 0); ill(cx, "error after it", l->GetErrorCode(p), 34); }
    if (w & 2) { ill(cx, "XML_Parse(NULL, 3)", l->Parse(p, nullptr, 3, 0), 0); ill(cx, "error after it", l->GetErrorCode(p), 41); }
    if (w & 4) { ill(cx, "XML_Parse(len -1)", l->Parse(p, "x", -1, 0), 0); ill(cx, "error after it", l->GetErrorCode(p), 41); }
    if (w & 8) { ill(cx, "XML_GetBuffer(-1)", l->GetBuffer(p, -1) != nullptr, 0); ill(cx, "error after it", l->GetErrorCode(p), 1); }
    if (w & 16) { XStr e(l, "ISO-8859-1"); ill(cx, "XML_SetEncoding after start", l->SetEncoding(p, e.p()), 0); }
    if (w & 32) ill(cx, "XML_SetParamEntityParsing after start", l->SetParamEntityParsing(p, 2), 0);
    if (w & 64) ill(cx, "XML_UseForeignDTD after start", l->UseForeignDTD(p, 1), 26);
    if (w & 128) ill(cx, "XML_GetBuffer(INT_MAX)", l->GetBuffer(p, 0x7fffffff) != nullptr, 0);
  } else if (ps.parsing == 2) {
    if (w & 1) { ill(cx, "XML_Parse when finished", l->Parse(p, "x", 1, 0), 0); ill(cx, "error after it", l->GetErrorCode(p), 36); }
    if (w & 2) { ill(cx, "XML_GetBuffer when finished", l->GetBuffer(p, 10) != nullptr, 0); ill(cx, "error after it", l->GetErrorCode(p), 36); }
    if (w & 4) { ill(cx, "XML_ParseBuffer when finished", l->ParseBuffer(p, 0, 1), 0); ill(cx, "error after it", l->GetErrorCode(p), 36); }
    if (w & 8) { ill(cx, "XML_ResumeParser when finished", l->ResumeParser(p), 0); ill(cx, "error after it", l->GetErrorCode(p), 34); }
    if (w & 16) { ill(cx, "XML_StopParser when finished", l->StopParser(p, 0), 0); ill(cx, "error after it", l->GetErrorCode(p), 36); }
  }
}
static void addCall(Cx *cx, PCtx *pc, int kind, int rc) {
  Lib *l = cx->lib;
  XParsingStatus ps{99, 9}; l->GetParsingStatus(pc->p, &ps);
  unsigned err = rc == 0 ? l->GetErrorCode(pc->p) : 0;
  cx->raw.u64((uint64_t)rc); cx->raw.u64(err); cx->raw.u64(ps.parsing);
  if (cx->r->calls.size() < 4000) cx->r->calls.push_back({callNames[kind], rc, err, ps.parsing, (uint8_t)pc->label});
}
static int afterCall(Cx *cx, PCtx *pc, int kind, int rc) {
  checkAfter(cx, pc, rc);
  addCall(cx, pc, kind, rc);
  if (cx->ph->c.queryBetween) {
    Ev e{}; queryPos(cx, pc, &e); cx->raw.u64(e.line); cx->raw.u64(e.col);
    long bi = cx->lib->GetCurrentByteIndex(pc->p); cx->raw.u64((uint64_t)bi);
    if (bi < -1 || (bi >= 0 && (size_t)bi > pc->delivered)) { char t[120]; snprintf(t, sizeof t, "between calls: index %ld, %zu delivered", bi, pc->delivered); cx->inv("C04:index-range", t); }
    if (cx->ph->c.queryBetween > 1) checkCtx(cx, pc);
  }
  if (rc == 2 || rc == 1) { pc->trailIdx = -1; }
  if (rc != 0 && (cx->depth == 0 || pc->child)) illegalBetween(cx, pc, rc);
  return rc;
}

// Input handed to XML_Parse: an exact copy ending at an inaccessible page, scribbled over once the call has returned.
namespace {
const size_t IN_SIZE = 1u << 20; std::vector<char *> inFree;
char *inAcquire() {
  if (!inFree.empty()) { char *p = inFree.back(); inFree.pop_back(); return p; }
  char *p = (char *)mmap(nullptr, IN_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + IN_SIZE, 4096, PROT_NONE);
  return p;
}
}
static int step(Cx *cx, PCtx *pc, size_t n, bool fin, int mode, uint32_t extra) {
  Lib *l = cx->lib;
  yieldPoint(cx);
  if (pc->label == 0) cx->callNo++, cx->r->ncalls++;
  const char *s = pc->stream->data() + pc->delivered;
  if (mode == CM_EMPTY) {
    pc->fin = false; int rc = l->Parse(pc->p, "", 0, 0);
    rc = afterCall(cx, pc, 0, rc);
    if (rc != 1) return rc;
    mode = CM_PARSE;
  }
  pc->fin = fin;
  if (mode == CM_PARSE) {
    if (n > IN_SIZE) { pc->delivered += n; return afterCall(cx, pc, 0, l->Parse(pc->p, s, (int)n, fin)); }
    char *a = inAcquire(); char *b = a + IN_SIZE - n;
    memcpy(b, s, n);
    pc->delivered += n;
    int rc = l->Parse(pc->p, b, (int)n, fin);
    memset(b, 0xDD, n);
    inFree.push_back(a);
    return afterCall(cx, pc, 0, rc);
  }
  cx->r->nbuf++;
  void *b = l->GetBuffer(pc->p, (int)(n + extra));
  if (cx->ph->c.queryBetween) { Ev e{}; queryPos(cx, pc, &e); cx->raw.u64(e.line); cx->raw.u64(e.col); (void)l->GetCurrentByteIndex(pc->p); /* -1 or the last event, as the buffer had to grow or not */ checkCtx(cx, pc); }
  if (b && mode == CM_BUFFER2) { memset(b, 0x3C, n + extra); b = l->GetBuffer(pc->p, (int)n); }
  if (!b) { if (n + extra == 0) { /* a null zero-length buffer is no failure */ } addCall(cx, pc, 3, 0); return 0; }
  memcpy(b, s, n);
  if (extra) memset((char *)b + n, 0x3E, mode == CM_BUFFER ? extra : 0);
  pc->delivered += n;
  return afterCall(cx, pc, 1, l->ParseBuffer(pc->p, (int)n, fin));
}
// Delivers until done, error, suspension or (top level) the call limit. Restartable after a suspension.
static int deliver(Cx *cx, PCtx *pc) {
  size_t size = pc->stream->size();
  const Deliv &d = *pc->d;
  while (!pc->done) {
    if (pc->label == 0 && cx->ph->stopAfter >= 0 && (int)cx->callNo >= cx->ph->stopAfter) return 3;
    size_t left = size - pc->delivered, n; int mode = CM_PARSE; uint32_t extra = 0;
    if (pc->ci < d.chunks.size()) { const Chunk &c = d.chunks[pc->ci++]; n = c.n; mode = c.mode; extra = c.extra; }
    else n = d.rest ? 1 : left;
    if (n > left) n = left;
    bool last = n == left;
    bool fin = last && (!d.sepFinal || (n == 0 && pc->emptyDone));
    if (last && !fin && n == 0) { fin = true; mode = mode == CM_EMPTY ? CM_PARSE : mode; }
    if (last && !fin) pc->emptyDone = true;
    if (fin) pc->done = true;
    int rc = step(cx, pc, n, fin, mode, extra);
    if (rc != 1) return rc;
    if (pc->aborted) return 0;
  }
  return 1;
}
static void retire(Cx *cx, PCtx *c) { delete c; }
// run children that were suspended together with their parents; deepest first
static bool finishPending(Cx *cx) {
  while (!cx->pendingChildren.empty()) {
    PCtx *c = cx->pendingChildren.front(); cx->pendingChildren.erase(cx->pendingChildren.begin());
    size_t before = cx->pendingChildren.size();
    cx->st.push_back(c);
    int rc = 2;
    for (;;) {
      while (rc == 2) {
        // grand-children suspended during this call come first
        if (cx->pendingChildren.size() > before) { if (!finishPending(cx)) { } before = cx->pendingChildren.size(); }
        c->stopped = false; c->trailIdx = -1;
        yieldPoint(cx);
        rc = afterCall(cx, c, 2, cx->lib->ResumeParser(c->p));
        if (c->aborted) break;
      }
      if (rc == 1 && !c->done) { rc = deliver(cx, c); if (rc == 2) continue; }
      break;
    }
    cx->st.pop_back();
    cx->r->calls.push_back({"ChildDone", rc, rc == 0 ? cx->lib->GetErrorCode(c->p) : 0u, 0, (uint8_t)c->label});
    cx->lib->ParserFree(c->p);
    retire(cx, c);
  }
  return true;
}
static int drive(Cx *cx, PCtx *pc) {
  int rc = deliver(cx, pc);
  while (rc == 2) {
    if (pc->aborted) { // aborted while suspended from within the callback is an ERROR return; nothing to do here
      return 0;
    }
    if (pc->label == 0 || pc->child) finishPending(cx);
    if (pc->label == 0 && cx->ph->stopAfter >= 0 && (int)cx->callNo >= cx->ph->stopAfter) return 3;
    pc->stopped = false; pc->trailIdx = -1;
    if (pc->label == 0) cx->callNo++, cx->r->ncalls++;
    yieldPoint(cx);
    rc = afterCall(cx, pc, 2, cx->lib->ResumeParser(pc->p));
    if (rc == 1 && !pc->done) rc = deliver(cx, pc);
  }
  return rc;
}

static const Entity *findEnt(Cx *cx, const std::string &sys) {
  for (auto &e : cx->ph->ents) if (e.sysid == sys) return &e;
  return nullptr;
}
static PCtx *mkChild(Cx *cx, XParser parent, const void *ctx, const Entity *e) {
  Lib *l = cx->lib;
  XStr enc(l, e->enc);
  XParser c = l->ExternalEntityParserCreate(parent, ctx, e->enc.empty() ? nullptr : enc.p());
  if (!c) return nullptr;
  if (l->ref && (cx->handlers & H_UENC)) l->SetUnknownEncodingHandler(c, (void *)hUENC, cx->cell); // the reference does not inherit the data (CVE-2026-24515)
  cx->r->nchild++;
  if (cx->ph->c.style & 2) { XStr b(l, "http://base/" + e->sysid + "/"); if (l->SetBase(c, b.p()) != 1) { l->ParserFree(c); return nullptr; } }
  PCtx *pc = new PCtx; pc->p = c; pc->stream = &e->bytes; pc->child = true; pc->pe = ctx == nullptr; pc->d = &e->d; pc->parentp = parent;
  return pc;
}
// The context string is opaque: bindings and open entities in hash order. Compared as a set.
static std::string sortedContext(const std::string &c) {
  std::vector<std::string> v; std::string o;
  for (size_t i = 0, j; i <= c.size(); i = j + 1) { j = c.find('\f', i); if (j == std::string::npos) j = c.size(); v.push_back(c.substr(i, j - i)); }
  std::sort(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); i++) o += (i ? "\f" : "") + v[i];
  return o;
}
static int hEER(void *arg, const void *context, const void *base, const void *sys, const void *pub) {
  Cx *cx = G(arg); Lib *l = cx->lib;
  PCtx *parent = cx->st.back();
  std::string s = S(l, sys);
  bool isPE = context == nullptr;
  auto args = [&] { return sortedContext(S(l, context)) + SEP + S(l, base) + SEP + S(l, sys) + SEP + S(l, pub); };
  rec(cx, E_EER, args);
  struct Still { Cx *cx; decltype(args) &f; std::string s; ~Still() { if (cx->mute) return; std::string n = f(); if (n != s) cx->inv("C06:callback-data", "ExternalEntityRef: data changed during the callback from \"" + s.substr(0, 200) + "\" to \"" + n.substr(0, 200) + "\""); } } still{cx, args, args()};
  if (parent->aborted) return 1;
  static const Entity foreign{"", "", "", plainDeliv(), HOW_IGNORE, 0};
  const Entity *e = sys ? findEnt(cx, s) : findEnt(cx, "\x1e");
  if (!e) e = sys ? nullptr : &foreign;
  if (!e || e->how == HOW_MISSING) return 0;
  if (e->how == HOW_IGNORE) return 1;
  if (cx->depth >= 12) return 0;
  if (e->how == HOW_DEFER && !isPE) { cx->deferred.push_back({S(l, context), false, e, cx->nextLabel++}); return 1; }
  PCtx *c = mkChild(cx, parent->p, context, e);
  if (!c) return 0;
  c->label = cx->nextLabel++;
  cx->st.push_back(c); cx->depth++;
  int rc;
  if (e->how == HOW_ABANDON) {
    size_t n = e->arg % (e->bytes.size() + 1);
    rc = n ? step(cx, c, n, false, CM_PARSE, 0) : 1;
    cx->st.pop_back(); cx->depth--;
    cx->lib->ParserFree(c->p); delete c;
    return 1;
  }
  if (e->how == HOW_SUSPEND && !isPE) {
    rc = deliver(cx, c);
    if (rc == 2 && !c->aborted) {
      cx->st.pop_back(); cx->depth--;
      XParsingStatus ps; l->GetParsingStatus(parent->p, &ps);
      if (ps.parsing == 1) {
        int ok = l->StopParser(parent->p, 1);
        if (ok == 1) { parent->stopped = true; cx->pendingChildren.push_back(c); cx->r->nsusp++; return 1; }
      }
      // cannot suspend the parent (it is a parameter-entity parser): run the child to its end here
      cx->st.push_back(c); cx->depth++;
    }
    while (rc == 2 && !c->aborted) { finishPending(cx); c->stopped = false; c->trailIdx = -1; rc = afterCall(cx, c, 2, l->ResumeParser(c->p)); if (rc == 1 && !c->done) rc = deliver(cx, c); }
  } else rc = drive(cx, c);
  cx->st.pop_back(); cx->depth--;
  cx->r->calls.push_back({"ChildDone", rc, rc == 0 ? l->GetErrorCode(c->p) : 0u, 0, (uint8_t)c->label});
  cx->raw.u64((uint64_t)rc);
  bool ab = c->aborted;
  l->ParserFree(c->p);
  delete c;
  if (ab) {  // documented: the handler decides whether to stop the parent as well
    XParsingStatus ps; l->GetParsingStatus(parent->p, &ps);
    if (ps.parsing == 1 && l->StopParser(parent->p, 0) == 1) { parent->stopped = parent->aborted = true; }
    return 1;
  }
  return rc == 1;
}

// ---------------------------------------------------------------- phases and clients
struct Kept { Cell uenc{0, nullptr, 0}; bool triplets = false, reset = false; };   // what a reset keeps
static bool configure(Cx *cx, XParser p, Kept *kept = nullptr) {
  Lib *l = cx->lib; const Config &c = cx->ph->c;
  static Cell cells[64]; static int nc = 0;
  Cell *cell = &cells[nc++ & 63]; cell->magic = MAGIC; cell->cx = cx; cell->id = 0; cx->cell = cell;
  l->SetUserData(p, cell);
  if (c.parserArg) l->UseParserAsHandlerArg(p);
  setHandlers(cx, p, c.handlers);
  if (!kept) { if (c.handlers & H_UENC) l->SetUnknownEncodingHandler(p, (void *)hUENC, cell); }
  else {   // a reset keeps this one handler (and no other): not always set again, and not set only when it was not
    bool had = kept->uenc.cx != nullptr, want = (c.handlers & H_UENC) != 0;
    if (want ? !had || cx->ph->doc.size() % 3 == 0 : had) l->SetUnknownEncodingHandler(p, want ? (void *)hUENC : nullptr, want ? &kept->uenc : nullptr);
    kept->uenc.magic = MAGIC; kept->uenc.cx = want ? cx : nullptr;
  }
  if (c.eerArg) l->SetExternalEntityRefHandlerArg(p, cell);
  if (l->ref) l->SetHashSalt(p, 12345);
  if (l->SetReparseDeferralEnabled) l->SetReparseDeferralEnabled(p, 0);
  bool same = kept && kept->reset && !c.paramEnt && cx->ph->doc.size() % 2;   // a reset parser reads none, without being told
  if (!same && l->SetParamEntityParsing(p, c.paramEnt) != 1) cx->inv("C03:setup-refused", "XML_SetParamEntityParsing refused on a fresh parser");
  if (c.foreignDTD && l->UseForeignDTD(p, 1) != 0) cx->inv("C03:setup-refused", "XML_UseForeignDTD refused on a fresh parser");
  if (c.triplets && !(kept && kept->triplets && cx->ph->doc.size() % 3)) l->SetReturnNSTriplet(p, 1);   // kept by a reset
  if (kept) { kept->triplets |= c.triplets != 0; kept->reset = true; }
  if (c.useBase) { XStr b(l, "http://base/"); if (l->SetBase(p, b.p()) != 1) return false; std::string got = S(l, l->GetBase(p)); if (got != "http://base/") cx->inv("C12:base", "XML_GetBase returns " + got); }
  if (!c.enc.empty() && c.encVia == 1) { XStr e(l, c.enc); if (l->SetEncoding(p, e.p()) != 1) return false; }
  return true;
}
struct Sched;
struct ClientRun {
  int idx; const Scenario *sc; Lib *lib; ClientResult *res; Cx *cur = nullptr;
  Sched *sched = nullptr; bool started = false, finished = false; sem_t sem; pthread_t th; bool threaded = false;
};
struct Sched { std::vector<ClientRun *> cl; const std::vector<uint8_t> *baton; size_t bi = 0; uint64_t switches = 0; int running = -1; Hash64 order; const Scenario *sc; sem_t allDone; };
static Sched *gS = nullptr;

static void runClient(ClientRun *cr) {
  cr->started = true;
  const Client &c = cr->sc->clients[(size_t)cr->idx];
  Lib *l = cr->lib;
  XParser p = nullptr;
  std::unique_ptr<Cx> cx; Kept kept;
  for (size_t i = 0; i < c.phases.size(); i++) {
    const Phase &ph = c.phases[i];
    cr->res->ph.emplace_back();
    PhaseResult *r = &cr->res->ph.back();
    cx.reset(new Cx);
    cx->lib = l; cx->sc = cr->sc; cx->ph = &ph; cx->r = r; cx->clientIdx = cr->idx;
    for (auto &a : ph.acts) cx->acts.insert({a.cb, a});
    cr->cur = cx.get();
    XStr enc(l, ph.c.enc); const void *ep = ph.c.enc.empty() || ph.c.encVia == 1 ? nullptr : enc.p();
    uint64_t f0 = simFailedCount();
    bool ok = true;
    if (!p) {
      p = ph.c.ns >= 0 ? l->ParserCreateNS(ep, ph.c.ns) : l->ParserCreate(ep);
      if (!p) { r->created = false; r->status = 0; r->err = 1; ok = false; r->faultFiredHere = simFailedCount() > f0; continue; }
      ok = configure(cx.get(), p, &kept);
    } else {
      if (!l->ParserReset(p, ep)) { r->created = false; r->status = 0; cx->inv("C07:reset-refused", "XML_ParserReset refused on a parent parser"); continue; }
      XParsingStatus ps; l->GetParsingStatus(p, &ps);
      if (ps.parsing != 0) cx->inv("C07:reset-state", "parsing state after reset is not INITIALIZED");
      int o_, s_; char t[200]; unsigned e_ = l->GetErrorCode(p); long bi_ = l->GetCurrentByteIndex(p), li_ = (long)l->GetCurrentLineNumber(p), co_ = (long)l->GetCurrentColumnNumber(p); int bc_ = l->GetCurrentByteCount(p); bool ba_ = l->GetBase(p) != nullptr, ic_ = l->GetInputContext(p, &o_, &s_) != nullptr;
      if (e_ != 0 || bi_ != -1 || li_ != 1 || co_ != 0 || bc_ != 0 || ba_ || ic_) { snprintf(t, sizeof t, "after reset: error %u, position %ld+%d %ld:%ld, base %d, context %d", e_, bi_, bc_, li_, co_, ba_, ic_); cx->inv("C07:reset-state", t); }
      ok = configure(cx.get(), p, &kept);
    }
    PCtx *pc = new PCtx; pc->p = p; pc->stream = &ph.doc; pc->d = &ph.d; pc->label = 0; pc->child = false; pc->pe = false;
    cx->st.push_back(pc);
    if (!ok) { r->status = 0; r->err = 1; }
    else {
      int rc = drive(cx.get(), pc);
      r->status = rc;
      r->err = rc == 0 ? l->GetErrorCode(p) : 0;
      r->stopped = pc->aborted;
      if (rc != 3) {
        r->errIdx = l->GetCurrentByteIndex(p);
        r->rsqb = r->errIdx >= 0 && ph.doc.find(']', (size_t)r->errIdx) <= (size_t)r->errIdx + 1;
        r->errLine = l->GetCurrentLineNumber(p); r->errCol = l->GetCurrentColumnNumber(p);
        cx->raw.u64((uint64_t)r->errIdx); cx->raw.u64(r->errLine); cx->raw.u64(r->errCol);
        if (rc == 0 && (r->errIdx > (long)pc->delivered || r->errIdx < -1)) { char t[100]; snprintf(t, sizeof t, "error index %ld, %zu delivered", r->errIdx, pc->delivered); cx->inv("C04:index-range", t); }
        if (ph.c.query >= 2) checkCtx(cx.get(), pc);
      }
      if (rc == 1) illegalBetween(cx.get(), pc, 1);
      if (rc == 0 && !pc->aborted) {  // a failed parser keeps failing and delivers nothing more
        uint32_t n = cx->cb; unsigned e = l->GetErrorCode(p);
        XParsingStatus before; l->GetParsingStatus(p, &before);   // failed with a stop pending: still SUSPENDED
        cx->mute = true;
        int rc2 = l->Parse(p, " ", 1, 1);
        cx->mute = false;
        XParsingStatus ps; l->GetParsingStatus(p, &ps);
        if (e == 1) { /* no memory even to take the data in: the parser may go on */ }
        else if (rc2 != 0 || cx->cb != n) cx->inv("C03:after-error", "parse after a fatal error succeeded or delivered events");
        else if (l->GetErrorCode(p) != (before.parsing == 3 ? 33u : e) && e != 1) cx->inv("C03:after-error", "parse after a fatal error reports another error");
        (void)ps;
      }
      // documents whose general entities the application chose to parse afterwards
      if (rc == 1) {
        for (size_t k = 0; k < cx->deferred.size() && k < 16; k++) {
          auto df = cx->deferred[k];
          XStr ctx(l, df.ctx);
          PCtx *c2 = mkChild(cx.get(), p, ctx.p(), df.e);
          if (!c2) { r->calls.push_back({"ChildCreate", 0, 0, 0, (uint8_t)df.label}); continue; }
          c2->label = df.label;
          cx->st.push_back(c2); cx->depth++;
          int rc3 = drive(cx.get(), c2);
          cx->st.pop_back(); cx->depth--;
          r->calls.push_back({"ChildDone", rc3, rc3 == 0 ? l->GetErrorCode(c2->p) : 0u, 0, (uint8_t)c2->label});
          cx->raw.u64((uint64_t)rc3);
          l->ParserFree(c2->p); delete c2;
        }
      }
    }
    // children still suspended when the application gives up
    for (auto *k : cx->pendingChildren) { l->ParserFree(k->p); delete k; }
    cx->pendingChildren.clear();
    for (auto &m : cx->models) l->FreeContentModel(p, m.second);
    cx->st.clear(); delete pc;
    r->rawHash = cx->raw.h;
    r->faultFiredHere = simFailedCount() > f0;
    if (i + 1 == c.phases.size()) { l->ParserFree(p); p = nullptr; }
  }
  if (p) l->ParserFree(p);
  cr->cur = nullptr;
  cr->finished = true;
}
static void handoff(Sched *s, int from) {
  // choose who runs next
  std::vector<int> can;
  for (auto *c : s->cl) if (c->threaded && !c->finished) can.push_back(c->idx);
  if (can.empty()) { sem_post(&s->allDone); return; }
  int next;
  if (s->bi < s->baton->size()) next = can[(*s->baton)[s->bi++] % can.size()];
  else { next = can[0]; if (from >= 0) for (int k : can) if (k == from) next = k; }
  s->order.u64((uint64_t)next);
  if (next == from) return;
  s->switches++; s->running = next;
  sem_post(&s->cl[(size_t)next]->sem);
  if (from >= 0 && !s->cl[(size_t)from]->finished) while (sem_wait(&s->cl[(size_t)from]->sem)) {}
}
static thread_local int tlClient = -1;
static void yieldPoint(Cx *cx) {
  if (!gS || tlClient < 0) return;
  cx->happened++;
  handoff(gS, tlClient);
}
void simThreadStack();
static void *threadMain(void *v) {
  ClientRun *cr = (ClientRun *)v;
  while (sem_wait(&cr->sem)) {}
  tlClient = cr->idx;
  simThreadStack();
  runClient(cr);
  tlClient = -1;
  handoff(gS, -1);
  return nullptr;
}
static void runClientNested(Cx *cx, uint32_t which) {
  if (!gS) return;
  for (auto *c : gS->cl) if (c->idx == (int)which && !c->started && !c->threaded) {
    int sv = tlClient; tlClient = -1;     // runs to its end inside this callback
    runClient(c);
    tlClient = sv;
  }
}
void simThreadStack() {
  static char *alts[64]; int i = tlClient < 0 ? 0 : tlClient & 63;
  if (!alts[i]) alts[i] = (char *)malloc(65536);
  stack_t ss{}; ss.ss_sp = alts[i]; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
}
struct RunArg { const Scenario *s; Lib *lib; RunResult *rr; char *alt; };
static void *runMain(void *v) {
  RunArg *ra = (RunArg *)v; const Scenario &s = *ra->s; RunResult &rr = *ra->rr;
  static char *alt = (char *)malloc(65536);
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
  Sched sched; sched.baton = &s.baton; sched.sc = &s;
  std::vector<std::unique_ptr<ClientRun>> crs;
  rr.cl.resize(s.clients.size());
  std::set<uint32_t> nested;
  for (auto &c : s.clients) for (auto &p : c.phases) for (auto &a : p.acts) if (a.kind == A_NEST) nested.insert(a.arg);
  for (size_t i = 0; i < s.clients.size(); i++) {
    crs.emplace_back(new ClientRun);
    ClientRun *c = crs.back().get(); c->idx = (int)i; c->sc = &s; c->lib = ra->lib; c->res = &rr.cl[i]; c->res->ph.reserve(s.clients[i].phases.size() + 1);
    c->threaded = s.clients.size() > 1 && !nested.count((uint32_t)i);
    sched.cl.push_back(c);
  }
  gS = s.clients.size() > 1 ? &sched : nullptr;
  if (s.clients.size() == 1) runClient(crs[0].get());
  else {
    sem_init(&sched.allDone, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
    for (auto &c : crs) if (c->threaded) { sem_init(&c->sem, 0, 0); pthread_create(&c->th, &at, threadMain, c.get()); }
    handoff(&sched, -1);
    while (sem_wait(&sched.allDone)) {}
    for (auto &c : crs) if (c->threaded) pthread_join(c->th, nullptr);
    for (auto &c : crs) if (!c->started) runClient(c.get());
    gS = nullptr;
    rr.switches = sched.switches;
  }
  Hash64 h;
  for (auto &c : rr.cl) for (auto &p : c.ph) h.u64(p.rawHash);
  h.u64(sched.order.h);
  rr.digest = h.h;
  return nullptr;
}
RunResult runScenario(const Scenario &s, Lib *lib) {
  RunResult rr;
  if (!encCells) encCells = new std::vector<std::unique_ptr<EncCell>>;
  freshProcess(lib);
  simAllocBegin(s.env.amode, s.env.move, s.env.layoutSeed);
  simSetRandomSeed(s.env.hashSeed);
  if (s.env.fmode != FM_NONE && !lib->ref) simAllocArm(s.env.fmode, s.env.failAt, s.env.failArg);
  RunArg ra{&s, lib, &rr, nullptr};
  pthread_t t;
  static pthread_attr_t at; static bool ai = false;
  if (!ai) { pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20); ai = true; }
  if (pthread_create(&t, &at, runMain, &ra)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(2); }
  pthread_join(t, nullptr);
  rr.allocCount = simAllocCount();
  rr.as = simAllocStats();
  rr.leaked = simLive();
  rr.faultFired = rr.as.failed > 0;
  rr.heap = simAllocEnd(&rr.leak);
  // unknown-encoding bookkeeping: everything supplied is released by the time the parsers are gone
  for (auto &c : rr.cl) for (auto &p : c.ph) if (p.encSupplied != p.encReleased) {
    char tt[80]; snprintf(tt, sizeof tt, "supplied %u released %u", p.encSupplied, p.encReleased); p.inv.push_back({"C10:encoding-release", tt});
  }
  encCells->clear();
  return rr;
}
PhaseResult runPhase(const Phase &p, Lib *lib, const Env &env, RunResult *out) {
  Scenario s; s.clients.resize(1); s.clients[0].phases.push_back(p); s.env = env;
  RunResult rr = runScenario(s, lib);
  PhaseResult r = rr.cl.at(0).ph.at(0);
  if (out) *out = rr;
  return r;
}
