// Deterministic simulator for rexpat: shared declarations.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cctype>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  bool one_in(uint32_t n) { return below(n) == 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};
inline uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
struct Hash64 {
  uint64_t h = 0xcbf29ce484222325ull;
  void bytes(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; } }
  void u64(uint64_t v) { bytes(&v, 8); }
  void str(const std::string &s) { u64(s.size()); bytes(s.data(), s.size()); }
};

// ---------------------------------------------------------------- libraries under test
typedef void *XParser;
struct XFeature; struct XContent { unsigned type, quant; void *name; unsigned numchildren; XContent *children; };
struct XEncoding { int map[256]; void *data; int (*convert)(void *, const char *); void (*release)(void *); };
struct XParsingStatus { unsigned parsing; unsigned char finalBuffer; };
struct XMemSuite { void *(*m)(size_t); void *(*r)(void *, size_t); void (*f)(void *); };
#define API_LIST(X)                                                                           \
  X(XParser, ParserCreate, (const void *))                                                    \
  X(XParser, ParserCreateNS, (const void *, int))                                             \
  X(XParser, ParserCreate_MM, (const void *, const XMemSuite *, const void *))                \
  X(unsigned char, ParserReset, (XParser, const void *))                                      \
  X(void, ParserFree, (XParser))                                                              \
  X(int, SetEncoding, (XParser, const void *))                                                \
  X(XParser, ExternalEntityParserCreate, (XParser, const void *, const void *))               \
  X(void, UseParserAsHandlerArg, (XParser))                                                   \
  X(unsigned, UseForeignDTD, (XParser, unsigned char))                                        \
  X(void, SetReturnNSTriplet, (XParser, int))                                                 \
  X(void, SetUserData, (XParser, void *))                                                     \
  X(int, SetBase, (XParser, const void *))                                                    \
  X(const void *, GetBase, (XParser))                                                         \
  X(int, GetSpecifiedAttributeCount, (XParser))                                               \
  X(int, GetIdAttributeIndex, (XParser))                                                      \
  X(void, SetElementHandler, (XParser, void *, void *))                                       \
  X(void, SetStartElementHandler, (XParser, void *))                                          \
  X(void, SetEndElementHandler, (XParser, void *))                                            \
  X(void, SetCharacterDataHandler, (XParser, void *))                                         \
  X(void, SetProcessingInstructionHandler, (XParser, void *))                                 \
  X(void, SetCommentHandler, (XParser, void *))                                               \
  X(void, SetCdataSectionHandler, (XParser, void *, void *))                                  \
  X(void, SetStartCdataSectionHandler, (XParser, void *))                                     \
  X(void, SetEndCdataSectionHandler, (XParser, void *))                                       \
  X(void, SetDefaultHandler, (XParser, void *))                                               \
  X(void, SetDefaultHandlerExpand, (XParser, void *))                                         \
  X(void, SetDoctypeDeclHandler, (XParser, void *, void *))                                   \
  X(void, SetStartDoctypeDeclHandler, (XParser, void *))                                      \
  X(void, SetEndDoctypeDeclHandler, (XParser, void *))                                        \
  X(void, SetUnparsedEntityDeclHandler, (XParser, void *))                                    \
  X(void, SetNotationDeclHandler, (XParser, void *))                                          \
  X(void, SetNamespaceDeclHandler, (XParser, void *, void *))                                 \
  X(void, SetStartNamespaceDeclHandler, (XParser, void *))                                    \
  X(void, SetEndNamespaceDeclHandler, (XParser, void *))                                      \
  X(void, SetNotStandaloneHandler, (XParser, void *))                                         \
  X(void, SetExternalEntityRefHandler, (XParser, void *))                                     \
  X(void, SetExternalEntityRefHandlerArg, (XParser, void *))                                  \
  X(void, SetSkippedEntityHandler, (XParser, void *))                                         \
  X(void, SetUnknownEncodingHandler, (XParser, void *, void *))                               \
  X(void, SetElementDeclHandler, (XParser, void *))                                           \
  X(void, SetAttlistDeclHandler, (XParser, void *))                                           \
  X(void, SetEntityDeclHandler, (XParser, void *))                                            \
  X(void, SetXmlDeclHandler, (XParser, void *))                                               \
  X(int, SetParamEntityParsing, (XParser, int))                                               \
  X(int, SetHashSalt, (XParser, unsigned long))                                               \
  X(int, Parse, (XParser, const char *, int, int))                                            \
  X(int, ParseBuffer, (XParser, int, int))                                                    \
  X(void *, GetBuffer, (XParser, int))                                                        \
  X(int, StopParser, (XParser, unsigned char))                                                \
  X(int, ResumeParser, (XParser))                                                             \
  X(void, GetParsingStatus, (XParser, XParsingStatus *))                                      \
  X(unsigned, GetErrorCode, (XParser))                                                        \
  X(long, GetCurrentByteIndex, (XParser))                                                     \
  X(int, GetCurrentByteCount, (XParser))                                                      \
  X(const char *, GetInputContext, (XParser, int *, int *))                                   \
  X(unsigned long, GetCurrentLineNumber, (XParser))                                           \
  X(unsigned long, GetCurrentColumnNumber, (XParser))                                         \
  X(void, FreeContentModel, (XParser, XContent *))                                            \
  X(void *, MemMalloc, (XParser, size_t))                                                     \
  X(void *, MemRealloc, (XParser, void *, size_t))                                            \
  X(void, MemFree, (XParser, void *))                                                         \
  X(void, DefaultCurrent, (XParser))                                                          \
  X(const void *, ErrorString, (unsigned))
struct Lib {
  std::string name, path;
  int cs = 1;          // sizeof(XML_Char)
  bool ref = false;    // the C reference
  void *h = nullptr;
  std::vector<std::pair<char *, std::string>> image;
#define X(r, n, a) r(*n) a = nullptr;
  API_LIST(X)
#undef X
  void (*SetReparseDeferralEnabled)(XParser, unsigned char) = nullptr;
};
extern Lib *gRex, *gRexU, *gRef;  // default build, unicode build, reference
Lib *loadLib(const std::string &name, const std::string &path, int cs, bool ref);

// ---------------------------------------------------------------- allocator seam
struct AllocStats { uint64_t allocs, frees, reallocs, bytes, failed, live; };
enum { AM_FAST = 0, AM_EFENCE = 1 };
enum { FM_NONE = 0, FM_ONCE = 1, FM_FROM = 2, FM_EVERY = 3, FM_BIG = 4 };  // BIG: fail those > failArg bytes
void simAllocInit();
void simAllocBegin(int mode, bool move, uint64_t layoutSeed);
void simAllocArm(int fmode, uint64_t at, uint64_t arg);   // counting starts at zero here
uint64_t simAllocCount();                                   // allocations since Arm
const AllocStats &simAllocStats();
std::string simAllocEnd(std::string *leak, uint64_t since = 0);   // since: blocks taken before are none of the leak's           // "" or a violation class: heap corruption
size_t simLive();
size_t simLiveBytes();
void simSetRandomSeed(uint64_t s);
extern uint64_t gRandomCalls;
std::string simDescribeAddr(uintptr_t a);                   // async-signal-safe enough for the crash path
uint64_t simFailedCount();

// ---------------------------------------------------------------- scenario
struct Chunk { uint32_t n; uint8_t mode; uint32_t extra; };
enum { CM_PARSE = 0, CM_BUFFER = 1, CM_BUFFER2 = 2 /*GetBuffer twice*/, CM_EMPTY = 3 /*zero-length call first*/ };
struct Deliv { std::vector<Chunk> chunks; uint8_t sepFinal = 0; uint8_t rest = 0; /*0 whole, 1 bytewise*/ };
enum { HOW_INLINE = 0, HOW_MISSING = 1, HOW_IGNORE = 2, HOW_SUSPEND = 3, HOW_DEFER = 4, HOW_ABANDON = 5 };
struct Entity {
  std::string sysid, bytes, enc;
  Deliv d;
  uint8_t how = HOW_INLINE;
  uint32_t arg = 0;
};
enum { A_SUSPEND = 1, A_ABORT, A_DEFCUR, A_QUERY, A_CTX, A_HANDLERS, A_ILLEGAL, A_NEST, A_STOPTWICE, A_SUSPABORT };
struct Action { uint32_t cb; uint8_t kind; uint32_t arg; };
const uint32_t EVERY_CB = 0xFFFFFFFF;   // with A_DEFCUR: at every event of the document's content
// handler bits
enum {
  H_SE = 1u << 0, H_EE = 1u << 1, H_CD = 1u << 2, H_PI = 1u << 3, H_CM = 1u << 4, H_SCD = 1u << 5, H_ECD = 1u << 6, H_DEF = 1u << 7,
  H_SDT = 1u << 8, H_EDT = 1u << 9, H_UED = 1u << 10, H_NOT = 1u << 11, H_SNS = 1u << 12, H_ENS = 1u << 13, H_NSA = 1u << 14,
  H_EER = 1u << 15, H_SKIP = 1u << 16, H_UENC = 1u << 17, H_ELD = 1u << 18, H_ATD = 1u << 19, H_END = 1u << 20, H_XML = 1u << 21,
  H_ALL = (1u << 22) - 1, H_NODEF = H_ALL & ~H_DEF,
};
struct Config {
  int ns = -1;                 // -1: no namespace processing; else separator character
  std::string enc;             // protocol encoding ("" none)
  uint8_t encVia = 0;          // 0 create argument, 1 XML_SetEncoding
  uint8_t triplets = 0, paramEnt = 0, foreignDTD = 0, defExpand = 0, parserArg = 0, eerArg = 0;
  uint8_t useBase = 0, nsaRet = 1;
  uint8_t query = 0;           // 0: positions only by action; 1: line/col at every callback; 2: also input context
  uint8_t encMode = 0;         // how unknown-encoding handler behaves: 0 supply, 1 refuse, 2 bad map, 3 supply without release
  uint8_t freeModels = 0;      // 0 immediately, 1 at end of phase
  uint8_t queryBetween = 0;    // query positions after every call
  uint8_t illegalBetween = 0;  // which illegal call to make between calls (bit set)
  uint32_t handlers = H_NODEF;
  uint8_t style = 0;           // 1: the single-handler setters; 2: external entities get base URIs of their own; bits
};
struct Phase {
  Config c;
  std::string doc;
  Deliv d;
  std::vector<Entity> ents;
  std::vector<Action> acts;
  int32_t stopAfter = -1;      // give up after this many top-level calls (then reset or free)
  std::string label;           // description, for humans
};
struct Client { std::vector<Phase> phases; };
struct Env {
  uint64_t hashSeed = 1, layoutSeed = 1;
  uint8_t amode = AM_FAST, move = 1, fmode = FM_NONE;
  uint64_t failAt = 0, failArg = 0;
};
struct Scenario {
  std::string prop;
  uint64_t seed = 0;
  std::vector<Client> clients;
  std::vector<uint8_t> baton;  // schedule of clients (C08)
  Env env;
  std::vector<int64_t> aux;    // check-specific numbers
  std::vector<std::string> auxs;
};
std::string serialize(const Scenario &s);
bool deserialize(const std::string &txt, Scenario &s, std::string &err);

// ---------------------------------------------------------------- histories
enum EvType : uint8_t { E_SE, E_EE, E_CD, E_PI, E_CM, E_SCD, E_ECD, E_DEF, E_SDT, E_EDT, E_UED, E_NOT, E_SNS, E_ENS, E_NSA, E_EER, E_SKIP, E_UENC, E_ELD, E_ATD, E_END, E_XML, E_NTYPES };
extern const char *evName[];
struct Ev {
  uint8_t type; uint8_t label;
  std::string s;
  long bi; int bc;
  unsigned long line, col; bool haspos;
  uint32_t cb;        // ordinal of the (first) callback
  uint32_t pieces;    // callbacks merged
  uint32_t callNo;    // top-level call in progress
};
struct CallRec { std::string what; int ret; unsigned err; unsigned state; uint8_t label; };
struct PhaseResult {
  std::vector<Ev> ev;
  std::vector<CallRec> calls;
  int status = -1;             // final: 1 OK, 0 ERROR, 2 still suspended/abandoned
  unsigned err = 0; long errIdx = -2; unsigned long errLine = 0, errCol = 0;
  bool created = true, runaway = false, stopped = false;
  bool abortVetoed = false;    // an aborted parser reported an error of its own
  uint32_t abortCb = ~0u;      // callback during which the first final stop took effect
  uint32_t ncb = 0, nsusp = 0, ncalls = 0, nacts = 0, ndefcur = 0, nillegal = 0, nchild = 0, nbuf = 0;
  uint32_t encSupplied = 0, encReleased = 0;
  std::vector<std::pair<std::string, std::string>> inv;  // (property tag:class, detail)
  uint64_t rawHash = 0;        // unmerged trace incl. call results
  bool faultFiredHere = false, rsqb = false;  // rsqb: the error is at a "]"
  std::vector<std::pair<long, size_t>> live;  // at start tags: byte index, bytes the library holds
  std::vector<std::string> trails;  // per successful stop: "T:" + event types delivered after it
};
struct ClientResult { std::vector<PhaseResult> ph; bool createFailed = false; };
struct RunResult {
  std::vector<ClientResult> cl;
  std::string heap, leak; size_t leaked = 0;
  AllocStats as{};
  uint64_t allocCount = 0; bool faultFired = false;
  uint64_t switches = 0, digest = 0;
};
struct RunOpts { Lib *lib = nullptr; bool canonicalEnv = false; };
RunResult runScenario(const Scenario &s, Lib *lib);
// single phase on a fresh parser, environment given
PhaseResult runPhase(const Phase &p, Lib *lib, const Env &env, RunResult *rr = nullptr);

// ---------------------------------------------------------------- generation
struct DocGen;
std::string utf8(uint32_t cp);
std::vector<uint32_t> decodeUtf8(const std::string &s, bool *ok = nullptr);
// encodings known to the simulator
enum EncId { EN_UTF8, EN_UTF8BOM, EN_UTF16LE, EN_UTF16BE, EN_LATIN1, EN_ASCII, EN_SIMSB, EN_SIMMB, EN_UTF16LE_NOBOM, EN_UTF16BE_NOBOM, EN_N };
extern const char *encName[];
bool encodeDoc(const std::vector<uint32_t> &cps, int enc, std::string &out);  // false if not expressible
int simsbMap(int b);
int simmbConvert(const char *s);
void simFillEncoding(const std::string &name, int mode, XEncoding *info, void *data, int (*conv)(void *, const char *), void (*rel)(void *), bool &ok);

struct GenOpts {
  int size = 40;          // rough number of constructs
  bool ns = false, dtd = true, ext = true, malformed = false;
  uint32_t maxcp = 0x10FFFF;
  int enc = -1;           // -1 pick
  bool bigTokens = true, unknownEnc = true, nsHeavy = false, dtdHeavy = false, textHeavy = false, attHeavy = false;
  bool xmlDecl = true;
};
void genSteady(Rng &r, Phase &p, int units, long &preLen, long &unitLen);  // a document of equal units
void dtdReach(Rng &r, Phase &p);
void genPhase(Rng &r, const GenOpts &o, Phase &p);      // doc, ents, config skeleton (no schedule/actions)
extern int gGenEnc;
void genDeliv(Rng &r, size_t n, Deliv &d, int style = -1);
void genDelivAll(Rng &r, Phase &p);
void mutateBytes(Rng &r, std::string &s, int n);
Deliv plainDeliv();
void plainSchedule(Phase &p);                            // single-shot everywhere, no actions
uint32_t genHandlers(Rng &r, bool def);
void genEnv(Rng &r, Env &e, int efencePct);

// ---------------------------------------------------------------- checks
struct Verdict { bool bad = false; std::string cls, detail; };
struct Probe;
typedef std::map<std::string, uint64_t> Counters;
struct CheckDef {
  const char *id;
  void (*gen)(Rng &, Scenario &, uint64_t idx);
  Verdict (*check)(const Scenario &, Counters &);
  const char *rule;
  uint64_t quickRuns, thoroughRuns;
};
extern std::vector<CheckDef> gChecks;
Verdict evalCheck(const CheckDef *cd, const Scenario &s, Counters &c);
void count(Counters &c, const char *k, uint64_t n = 1);
std::string showEv(const Ev &e);
std::string esc(const std::string &s, size_t max = 200);
std::string hex(const std::string &s);
