// One generator + oracle per property.
#include "sim.h"
#include <cstdarg>
uint64_t gDigest; bool gNontrivial;
void genC16(Rng &, Scenario &, uint64_t); void genC17(Rng &, Scenario &, uint64_t); Verdict chkC16(const Scenario &, Counters &); Verdict chkC17(const Scenario &, Counters &); void genC21(Rng &, Scenario &, uint64_t); Verdict chkC21(const Scenario &, Counters &);
static std::string fmt(const char *f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static Verdict bad(const std::string &c, const std::string &d) { return Verdict{true, c, d}; }
static const Verdict OKV{};

// ---------------------------------------------------------------- comparison
enum { C_POS = 1, C_LABEL = 2, C_NOENC = 4, C_LINES = 8, C_BC = 16, C_TAIL = 32 };
static std::string evText(const Ev &e, int fl) {
  if ((fl & C_NOENC) && e.type == E_XML) { size_t a = e.s.find('\x1f'), b = e.s.rfind('\x1f'); return e.s.substr(0, a) + e.s.substr(b); }
  return e.s;
}
static bool sameEv(const Ev &a, const Ev &b, int fl) {
  if (a.type != b.type || evText(a, fl) != evText(b, fl)) return false;
  if (a.label != b.label && !(fl & C_LABEL)) return false;
  if ((fl & C_POS) && a.bi != b.bi) return false;
  if ((fl & C_BC) && a.type != E_CD && a.type != E_DEF && a.bc != b.bc) return false;
  if ((fl & C_LINES) && a.haspos && b.haspos && (a.line != b.line || a.col != b.col)) return false;
  return true;
}
static std::string diffAt(const std::vector<Ev> &a, const std::vector<Ev> &b, size_t i, const char *na, const char *nb) {
  std::string d = fmt("event %zu of %zu/%zu: ", i, a.size(), b.size());
  d += std::string(na) + "=" + (i < a.size() ? showEv(a[i]) : "<none>") + " ; " + nb + "=" + (i < b.size() ? showEv(b[i]) : "<none>");
  return d;
}
// Text that directly precedes an error may or may not have been reported when the error is found: the scanner reads ahead to the end of the buffer.
static bool tailText(const PhaseResult &a, const PhaseResult &b, size_t i) {
  if (a.status != 0 || b.status != 0) return false;
  auto txt = [](const Ev &e) { return e.type == E_CD || e.type == E_DEF; };
  const auto &x = a.ev, &y = b.ev;
  if (i + 1 == x.size() && i >= y.size()) return txt(x[i]);
  if (i + 1 == y.size() && i >= x.size()) return txt(y[i]);
  if (i + 1 == x.size() && i + 1 == y.size() && x[i].type == y[i].type && txt(x[i]) && x[i].label == y[i].label) { size_t n = std::min(x[i].s.size(), y[i].s.size()); return x[i].s.compare(0, n, y[i].s, 0, n) == 0; }
  return false;
}
static Verdict cmpEvents0(const PhaseResult &a, const PhaseResult &b, int fl, const char *na, const char *nb) {
  size_t n = std::min(a.ev.size(), b.ev.size());
  for (size_t i = 0; i < n; i++) if (!sameEv(a.ev[i], b.ev[i], fl)) {
    if ((fl & C_TAIL) && tailText(a, b, i)) return OKV;
    const char *k = a.ev[i].type != b.ev[i].type ? "event-kind" : evText(a.ev[i], fl) != evText(b.ev[i], fl) ? "event-content" : a.ev[i].label != b.ev[i].label ? "event-parser" : "event-position";
    return bad(fmt("%s:%s", k, evName[std::min(a.ev[i].type, b.ev[i].type)]), diffAt(a.ev, b.ev, i, na, nb));
  }
  if (a.ev.size() != b.ev.size() && !((fl & C_TAIL) && tailText(a, b, n))) return bad(fmt("event-count:%s", evName[(a.ev.size() > n ? a.ev[n] : b.ev[n]).type]), diffAt(a.ev, b.ev, n, na, nb) + fmt(" [%s status %d err %u, %s status %d err %u]", na, a.status, a.err, nb, b.status, b.err));
  return OKV;
}
// The same for a child parser that fails while its parent goes on (run later, or its failure not passed on).
static bool dropChildTails(PhaseResult &x) {
  bool any = false;
  for (auto &c : x.calls) if (c.what == "ChildDone" && c.ret == 0)
    for (size_t i = x.ev.size(); i--;) if (x.ev[i].label == c.label) { if (x.ev[i].type == E_CD || x.ev[i].type == E_DEF) { x.ev.erase(x.ev.begin() + (long)i); any = true; } break; }
  return any;
}
static Verdict cmpEvents(const PhaseResult &a, const PhaseResult &b, int fl, const char *na, const char *nb) {
  Verdict v = cmpEvents0(a, b, fl, na, nb);
  if (!v.bad || !(fl & C_TAIL)) return v;
  PhaseResult x = a, y = b; bool any = dropChildTails(x); any |= dropChildTails(y);
  return any ? cmpEvents0(x, y, fl, na, nb) : v;
}
static Verdict cmpFinal(const PhaseResult &a, const PhaseResult &b, bool pos, const char *na, const char *nb) {
  if (a.created != b.created) return bad("creation", fmt("%s created=%d %s created=%d", na, a.created, nb, b.created));
  // Junk after the document element: which of its characters is complained about first depends on how much of it is there.
  auto junk = [](const PhaseResult &x, const PhaseResult &y) { return x.err == 9 && (y.err == 4 || y.err == 9); };
  if (a.status == 0 && b.status == 0 && (junk(a, b) || junk(b, a))) return OKV;
  // a "]" after the document element is complained about as such or as an unfinished token
  if (a.status == 0 && b.status == 0 && a.errIdx == b.errIdx && ((a.err == 9 && b.err == 5) || (a.err == 5 && b.err == 9)) && (a.rsqb || b.rsqb)) return OKV;
  if (a.status != b.status || a.err != b.err) return bad(fmt("verdict:%d/%d", a.status, b.status), fmt("%s: status %d error %u at %ld; %s: status %d error %u at %ld", na, a.status, a.err, a.errIdx, nb, b.status, b.err, b.errIdx));
  if (pos && a.status == 0 && a.errIdx != b.errIdx) return bad("error-index", fmt("%s: error %u at %ld; %s at %ld", na, a.err, a.errIdx, nb, b.errIdx));
  if (pos && a.status == 0 && (a.errLine != b.errLine || a.errCol != b.errCol)) return bad("error-position", fmt("%s: error %u at %lu:%lu; %s at %lu:%lu", na, a.err, a.errLine, a.errCol, nb, b.errLine, b.errCol));
  // children
  std::vector<CallRec> ca, cb;
  for (auto &c : a.calls) if (c.what == "ChildDone" || c.what == "ChildCreate") ca.push_back(c);
  for (auto &c : b.calls) if (c.what == "ChildDone" || c.what == "ChildCreate") cb.push_back(c);
  auto key = [](const CallRec &c) { return std::make_tuple(c.label, c.what, c.ret, c.err); };
  auto lt = [&](const CallRec &x, const CallRec &y) { return key(x) < key(y); };
  std::sort(ca.begin(), ca.end(), lt); std::sort(cb.begin(), cb.end(), lt);
  for (size_t i = 0; i < std::min(ca.size(), cb.size()); i++) if (key(ca[i]) != key(cb[i])) return bad("child-verdict", fmt("child p%d: %s status %d err %u; p%d: %s status %d err %u", ca[i].label, na, ca[i].ret, ca[i].err, cb[i].label, nb, cb[i].ret, cb[i].err));
  if (ca.size() != cb.size()) return bad("child-count", fmt("%s ran %zu child parsers, %s %zu", na, ca.size(), nb, cb.size()));
  return OKV;
}
static Verdict cmpAll(const PhaseResult &a, const PhaseResult &b, int fl, bool pos, const char *na, const char *nb) {
  Verdict v = cmpEvents(a, b, fl, na, nb);
  if (v.bad) return v;
  return cmpFinal(a, b, pos, na, nb);
}
static Verdict cmpPrefix(const PhaseResult &a, const PhaseResult &b, int fl, const char *na, const char *nb) {
  for (size_t i = 0; i < a.ev.size(); i++) {
    bool last = i + 1 == a.ev.size(), text = a.ev[i].type == E_CD || a.ev[i].type == E_DEF;
    if ((fl & C_TAIL) && last && text && b.status == 0 && i + 1 >= b.ev.size() && (i == b.ev.size() || (b.ev[i].type == a.ev[i].type && b.ev[i].label == a.ev[i].label && a.ev[i].s.compare(0, b.ev[i].s.size(), b.ev[i].s) == 0))) continue;   // text right before an error
    if (i >= b.ev.size()) return bad(fmt("extra-event:%s", evName[a.ev[i].type]), diffAt(a.ev, b.ev, i, na, nb));
    if (sameEv(a.ev[i], b.ev[i], fl)) continue;
    if (last && (a.ev[i].type == E_CD || a.ev[i].type == E_DEF) && a.ev[i].type == b.ev[i].type && a.ev[i].label == b.ev[i].label && b.ev[i].s.compare(0, a.ev[i].s.size(), a.ev[i].s) == 0) continue;
    return bad(fmt("not-a-prefix:%s", evName[a.ev[i].type]), diffAt(a.ev, b.ev, i, na, nb));
  }
  return OKV;
}
static Verdict invOf(const PhaseResult &r, std::initializer_list<const char *> tags) {
  for (auto &i : r.inv) for (auto t : tags) if (i.first.compare(0, strlen(t), t) == 0) return bad(i.first, i.second);
  return OKV;
}
#define TRY(x) do { Verdict v_ = (x); if (v_.bad) return v_; } while (0)
static Env calm(const Env &e) { Env c = e; c.fmode = FM_NONE; return c; }
static void tally(Counters &c, const PhaseResult &r) {
  c["callbacks"] += r.ncb; c["api_calls"] += r.ncalls; c["suspensions"] += r.nsusp; c["child_parsers"] += r.nchild; c["buffer_calls"] += r.nbuf; c["default_current"] += r.ndefcur; c["illegal_calls"] += r.nillegal;
  c[r.status == 1 ? "verdict_ok" : r.status == 0 ? "verdict_error" : "verdict_abandoned"]++;
  if (r.stopped) c["aborts"]++;
  if (r.status == 0) { char t[24]; snprintf(t, sizeof t, "err_%u", r.err); c[t]++; }
  c["unknown_encodings"] += r.encSupplied;
}
static void note(const RunResult &rr, bool nt) { gDigest = rr.digest; gNontrivial = nt; }
static int countCb(const Phase &p) { Phase q = p; plainSchedule(q); Env e; PhaseResult r = runPhase(q, gRef, e); return (int)r.ncb; }
static int size_(Rng &r) { int k = (int)r.below(100); return k < 40 ? r.range(2, 10) : k < 85 ? r.range(10, 40) : r.range(40, 150); }
static GenOpts opts(Rng &r) { GenOpts o; o.size = size_(r); o.ns = r.chance(45); o.dtd = r.chance(80); o.ext = r.chance(70); o.malformed = r.chance(25); o.bigTokens = r.chance(50); o.textHeavy = r.chance(30); o.attHeavy = r.chance(20); o.nsHeavy = r.chance(30); o.dtdHeavy = r.chance(25); return o; }
static Phase &one(Scenario &s) { s.clients.resize(1); s.clients[0].phases.resize(1); return s.clients[0].phases[0]; }
static const Phase &one(const Scenario &s) { return s.clients.at(0).phases.at(0); }
static PhaseResult runOne(const Scenario &s, Counters &c, RunResult *out = nullptr, Lib *l = nullptr) { RunResult rr = runScenario(s, l ? l : gRex); PhaseResult r = rr.cl.at(0).ph.at(0); tally(c, r); c["allocations"] += rr.as.allocs; if (out) *out = rr; return r; }
static PhaseResult plainRun(const Phase &p, const Env &e, Lib *l = nullptr, RunResult *out = nullptr) { Phase q = p; plainSchedule(q); Env c = calm(e); c.amode = AM_FAST; return runPhase(q, l ? l : gRex, c, out); }
static Verdict runawayCheck(const PhaseResult &r) { return r.runaway ? bad("runaway", "more than 200000 callbacks") : OKV; }
static void addSuspends(Rng &r, Phase &p, int ncb) {
  if (ncb <= 0) ncb = 1;
  int k = (int)r.below(100), n;
  if (k < 35) n = 1; else if (k < 70) n = r.range(2, 5); else if (k < 85) n = std::min(ncb * 2, 60); else n = std::min(ncb * 2 + 20, 2000);
  if (n >= ncb * 2) for (int i = 0; i < n; i++) p.acts.push_back({(uint32_t)i, A_SUSPEND, 0});
  else for (int i = 0; i < n; i++) p.acts.push_back({r.below((uint32_t)ncb + 2), (uint8_t)(r.chance(85) ? A_SUSPEND : A_STOPTWICE), 0});
  if (r.chance(30)) { uint32_t b = r.below((uint32_t)ncb); for (int i = 0; i < 4; i++) p.acts.push_back({b + (uint32_t)i, A_SUSPEND, 0}); }
}
// After a resumable or final stop only the callbacks that would otherwise get lost may trail.
// What else may trail is what trails in the reference under the same schedule (which finishes the token or the construct at hand).
static Verdict trailCheck(const PhaseResult &r, const Scenario &s) {
  std::map<std::string, int> ref; bool have = false;
  for (auto &t : r.trails) {
    int at = t[0] - 'A';
    for (size_t i = 2; i < t.size(); i++) {
      int k = t[i] - 'A'; bool ok = false;
      switch (at) {
      case E_SNS: ok = k == E_SNS || k == E_SE || k == E_EE || k == E_ENS || k == E_DEF; break;
      case E_SE: ok = k == E_EE || k == E_ENS; break;
      case E_EE: ok = k == E_ENS; break;
      case E_ENS: ok = k == E_ENS; break;
      case E_CD: ok = k == E_CD; break;
      case E_DEF: ok = k == E_DEF || k == E_CD || k == E_ECD || k == E_ENS; break;   // pieces of one token; the end of the scope of an end tag without a handler
      case E_SCD: ok = k == E_CD || k == E_ECD || k == E_DEF; break;
      case E_ECD: ok = false; break;
      default: ok = k == E_EER || k == E_NSA || k == E_EDT || k == E_UENC || k == E_SDT || k == E_DEF || k == E_SKIP || k == E_ATD || k == E_END || k == E_UED; break;
      }
      if (!ok && t.size() <= 4000) {
        if (!have) { RunResult rr = runScenario(s, gRef); for (auto &x : rr.cl.at(0).ph.at(0).trails) for (size_t k2 = 2; k2 <= x.size(); k2++) ref[x.substr(0, k2)]++; have = true; }
        if (ref.count(t)) break;
      }
      if (!ok || t.size() > 4000) return bad(fmt("event-after-stop:%s/%s", evName[at], evName[k]), "stop in " + std::string(evName[at]) + " handler followed by " + evName[k]);
    }
  }
  return OKV;
}

// An entity parser that fails after its parent was suspended in the reference handler cannot fail the reference any more.
static bool lateChild(const PhaseResult &a, const PhaseResult &b, const Phase &p) {
  if (b.status != 0 || b.err != 21 || !a.nsusp) return false;
  bool late = false; for (auto &x : a.calls) if (x.what == "ChildDone" && x.ret == 0) late = true;
  if (late) for (auto &e : p.ents) if (e.how == HOW_SUSPEND) return true;
  return false;
}
// ================================================================ C01
static void genC01(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); genPhase(r, o, p);
  if (r.chance(25)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  genDelivAll(r, p); genEnv(r, s.env, 15);
  if (r.chance(20)) p.c.queryBetween = 1;
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(4)) e.how = HOW_DEFER;
}
static Verdict chkC01(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr), b = plainRun(one(s), s.env);
  note(rr, !one(s).d.chunks.empty() || one(s).d.rest);
  TRY(runawayCheck(a));
  TRY(cmpAll(a, b, C_TAIL, true, "scheduled", "whole"));
  return OKV;
}
// ================================================================ C02
static void genC02(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); if (o.size > 60) o.size = 60; genPhase(r, o, p);
  if (r.chance(25)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  if (r.chance(40)) genDelivAll(r, p); else if (r.chance(50)) { genDeliv(r, p.doc.size(), p.d, 4); }
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(30)) e.how = HOW_SUSPEND;
  addSuspends(r, p, countCb(p));
  if (r.chance(30)) p.c.illegalBetween = (uint8_t)r.next();
  if (r.chance(25)) p.c.queryBetween = (uint8_t)r.below(3);
  if (r.chance(15)) p.c.query = 1;
  genEnv(r, s.env, 20);
}
static Verdict chkC02(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr), b = plainRun(one(s), s.env);
  note(rr, a.nsusp > 0);
  TRY(runawayCheck(a));
  TRY(invOf(a, {"C03:status", "C03:stop-refused", "C03:callback-status", "C03:misuse"}));
  TRY(trailCheck(a, s));
  if (lateChild(a, b, one(s))) { c["late_child_failures"]++; return cmpPrefix(b, a, 0, "straight", "suspended"); }
  TRY(cmpAll(a, b, C_TAIL, true, "suspended", "straight"));
  return OKV;
}
// ================================================================ C03
static void genC03(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); if (o.size > 60) o.size = 60; genPhase(r, o, p);
  if (r.chance(25)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  if (r.chance(60)) genDelivAll(r, p);
  int n = countCb(p) + 1;
  if (r.chance(60)) p.acts.push_back({r.below((uint32_t)n), (uint8_t)(r.chance(70) ? A_ABORT : A_SUSPABORT), r.below(4)});
  if (r.chance(40)) for (int i = r.range(1, 4); i--;) p.acts.push_back({r.below((uint32_t)n), A_SUSPEND, 0});
  for (int i = r.range(0, 8); i--;) p.acts.push_back({r.below((uint32_t)n), A_ILLEGAL, r.below(48)});
  p.c.illegalBetween = r.chance(75) ? (uint8_t)r.next() : 0;
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(20)) e.how = HOW_SUSPEND;
  genEnv(r, s.env, 10);
}
// 1 + index of the tag at which the foreign DTD was asked for
static long foreignAt(const PhaseResult &a) { for (auto &e : a.ev) if (e.type == E_EER && e.bc == 0 && e.label == 0) return e.bi + 1; return 0; }
static Verdict chkC03(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr), b = plainRun(one(s), s.env);
  note(rr, a.nacts > 0 || a.nillegal > 0);
  TRY(runawayCheck(a));
  TRY(invOf(a, {"C03"}));
  TRY(trailCheck(a, s));
  bool multi = false; for (auto &e : a.ev) multi |= e.type == E_EER;
  if (a.stopped || a.abortCb != ~0u) {
    bool own = a.abortVetoed && a.status == 0 && b.status == 0 && a.err == b.err && a.errIdx == b.errIdx;   // the token at hand was itself in error
    own |= a.abortVetoed && multi && a.err == 22 && !one(s).c.nsaRet;
    own |= a.abortVetoed && multi && one(s).c.foreignDTD && (a.err == 4 || a.err == 5 || (a.err >= 2 && a.err != 35 && a.errIdx >= 0 && foreignAt(a) && a.errIdx == foreignAt(a) - 1));   // stopped while asked for the foreign DTD: the start tag at hand is scanned first
    if (a.stopped && !own && (a.status != 0 || a.err != 35)) return bad("abort-status", fmt("aborted: status %d error %u", a.status, a.err));
    // Once a parser is stopped, what the others deliver depends on the application; of a single parser everything must still be a prefix.
    PhaseResult pre = a;
    if (multi) while (!pre.ev.empty() && pre.ev.back().cb > a.abortCb) pre.ev.pop_back();
    if (lateChild(a, b, one(s)) && pre.ev.size() > b.ev.size()) TRY(cmpPrefix(b, pre, C_TAIL, "straight", "aborted"));
    else TRY(cmpPrefix(pre, b, C_TAIL, "aborted", "straight"));
    for (auto &ac : one(s).acts) if ((ac.kind == A_ABORT || ac.kind == A_SUSPABORT) && ac.cb < a.ncb && a.stopped && a.trails.empty()) return bad("abort-lost", "stop requested but not effective");
  } else if (lateChild(a, b, one(s))) { c["late_child_failures"]++; return cmpPrefix(b, a, C_TAIL, "straight", "with refused calls"); }
  else TRY(cmpAll(a, b, C_TAIL, true, "with refused calls", "straight"));
  return OKV;
}
// ================================================================ C04
// line/column by counting characters up to a byte offset
struct Counter2 { unsigned long line, col; };
static bool posAt(const std::string &s, long off, int enc, Counter2 &o) {
  o = {1, 0}; size_t i = 0, n = (size_t)off; bool cr = false;
  auto unit = [&](uint32_t c) { if (c == '\n') { if (!cr) { o.line++; } o.col = 0; cr = false; } else if (c == '\r') { o.line++; o.col = 0; cr = true; } else { o.col++; cr = false; } };
  while (i < n) {
    unsigned char c = (unsigned char)s[i];
    switch (enc) {
    case EN_UTF8: { int k = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; if (i + (size_t)k > n) return false; unit(c < 0x80 ? c : 'x'); i += (size_t)k; break; }
    case EN_UTF16LE: case EN_UTF16BE: {
      if (s.compare(0, 2, enc == EN_UTF16LE ? "\xff\xfe" : "\xfe\xff")) return false;   // corrupted: not in this encoding
      if (i + 2 > n) return false;
      uint32_t u = enc == EN_UTF16LE ? c | (unsigned char)s[i + 1] << 8 : c << 8 | (unsigned char)s[i + 1];
      i += 2; if (u >= 0xD800 && u < 0xDC00) { if (i + 2 > n) return false; i += 2; u = 'x'; }
      unit(u); break; }
    default: unit(c); i++;
    }
  }
  return true;
}
static void genC04(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.textHeavy = r.chance(50);
  static const int encs[] = {EN_UTF8, EN_UTF8, EN_UTF8, EN_UTF8, EN_UTF16LE, EN_UTF16BE, EN_LATIN1, EN_ASCII, EN_SIMSB, EN_SIMMB};
  o.enc = encs[r.below(10)];
  genPhase(r, o, p); int enc0 = gGenEnc;
  genDelivAll(r, p);
  p.c.query = (uint8_t)(r.chance(60) ? r.range(1, 2) : 0);
  p.c.queryBetween = (uint8_t)r.below(3);
  int n = countCb(p) + 1;
  if (p.c.query == 0 || r.chance(20)) for (int i = r.range(1, 12); i--;) p.acts.push_back({r.below((uint32_t)n), (uint8_t)(r.chance(60) ? A_QUERY : A_CTX), 0});
  if (r.chance(40)) addSuspends(r, p, n);
  for (auto &e : p.ents) { if (e.how == HOW_INLINE && r.chance(15)) e.how = HOW_SUSPEND; }
  p.c.handlers |= H_SE | H_EE | H_CD;
  if (r.chance(20)) { p.c.handlers |= H_DEF; p.c.defExpand = 1; }
  if (p.c.encMode > 3) p.c.encMode = 0;
  if (o.malformed && ((enc0 >= EN_LATIN1 && enc0 <= EN_SIMMB) || p.doc.substr(0, 200).find("encoding") != std::string::npos)) enc0 = -1;  // the declaration may be gone, or another
  s.aux = {enc0}; genEnv(r, s.env, 15);
}
static Verdict chkC04(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr);
  Phase q = one(s); q.c.query = 1; PhaseResult b = plainRun(q, s.env);
  Phase q0 = q; q0.c.query = 0; PhaseResult b0 = plainRun(q0, s.env);
  note(rr, a.ev.size() > 0);
  TRY(invOf(a, {"C04"})); TRY(invOf(b, {"C04"}));
  const Phase &p = one(s);
  uint64_t np = 0;
  // each known line/column must match counting characters up to the reported offset
  for (const PhaseResult *R : {&a, &b}) for (auto &e : R->ev) if (e.haspos && e.label == 0 && e.bi >= 0 && s.aux.size() && s.aux[0] >= 0) {
    int en = (int)s.aux[0]; if (en == EN_SIMMB) continue;
    Counter2 want; long off = e.bi;
    if (off <= 1 || !posAt(p.doc, off, en, want)) continue;
    np++;
    if (e.line != want.line || e.col != want.col) return bad(fmt("line-column:%s", evName[e.type]), fmt("reported %lu:%lu, counting gives %lu:%lu: ", e.line, e.col, want.line, want.col) + showEv(e));
  }
  c["positions_checked"] += np;
  // character data merges: the first piece's offset; all events: same extent as when delivered whole and never queried
  for (size_t i = 0; i < std::min(a.ev.size(), b0.ev.size()); i++) {
    const Ev &x = a.ev[i], &y = b0.ev[i];
    if (x.type != y.type || x.label != y.label) return bad("event-order", diffAt(a.ev, b0.ev, i, "scheduled", "whole"));
    if (x.bi != y.bi) return bad(fmt("event-index:%s", evName[x.type]), diffAt(a.ev, b0.ev, i, "scheduled", "whole"));
    if (x.type != E_CD && x.type != E_DEF && x.bc != y.bc) return bad(fmt("event-length:%s", evName[x.type]), diffAt(a.ev, b0.ev, i, "scheduled", "whole"));
  }
  for (size_t i = 0; i < std::min(a.ev.size(), b.ev.size()); i++) if (!sameEv(a.ev[i], b.ev[i], C_POS | C_LINES)) if (!tailText(a, b, i) || a.ev[i].bi != b.ev[i].bi) return bad(fmt("event-line-column:%s", evName[a.ev[i].type]), diffAt(a.ev, b.ev, i, "scheduled", "whole"));
  if (lateChild(a, b, one(s))) return OKV;
  TRY(cmpFinal(a, b, true, "scheduled", "whole"));
  if (a.status != 3 && a.err == b.err && a.err != 9 && (a.errLine != b.errLine || a.errCol != b.errCol || a.errIdx != b.errIdx) && (a.status == 0)) return bad("final-position", fmt("%ld %lu:%lu vs %ld %lu:%lu", a.errIdx, a.errLine, a.errCol, b.errIdx, b.errLine, b.errCol));
  // byte extents contain the markup they are said to be
  if (s.aux.size() && (s.aux[0] == EN_UTF8 || s.aux[0] == EN_LATIN1 || s.aux[0] == EN_ASCII || s.aux[0] == EN_SIMSB)) {
    int inEnt = 0;
    for (auto &e : b0.ev) if (e.label == 0 && e.bi >= 0 && e.bc > 0 && (size_t)(e.bi + e.bc) <= p.doc.size()) {
      std::string t = p.doc.substr((size_t)e.bi, (size_t)e.bc); (void)inEnt;
      if (t[0] == '&' || t[0] == '%') continue;
      const char *w = nullptr;
      switch (e.type) {
      case E_SE: case E_EE: case E_SNS: if (t[0] != '<' || t.back() != '>') w = "tag"; break;
      case E_CM: if (t.compare(0, 4, "<!--") || t.size() < 7 || t.compare(t.size() - 3, 3, "-->")) w = "comment"; break;
      case E_PI: if (t.compare(0, 2, "<?") || t.compare(t.size() - 2, 2, "?>")) w = "processing instruction"; break;
      case E_SCD: if (t != "<![CDATA[") w = "CDATA start"; break;
      case E_ECD: if (t != "]]>") w = "CDATA end"; break;
      default: break;
      }
      if (w) return bad(fmt("event-extent:%s", evName[e.type]), std::string("extent is not a ") + w + ": " + showEv(e) + " bytes: " + esc(t, 80));
    }
  }
  // the reference agrees on offsets
  Phase q1 = q; q1.c.query = 1; PhaseResult f = plainRun(q1, s.env, gRef);
  if (f.ev.size() == b.ev.size() && f.status == b.status && f.err == b.err) {
    c["ref_positions_compared"] += f.ev.size();
    auto at = [&](size_t i) { Ev y = f.ev[i]; y.s = b.ev[i].s; return y; };   // what they say is for C09 to compare
    for (size_t i = 0; i < f.ev.size(); i++) if (b.ev[i].type == f.ev[i].type && f.ev[i].bc >= 0 && !sameEv(b.ev[i], at(i), C_POS | C_BC | C_LINES | C_NOENC)) return bad(fmt("position-vs-reference:%s", evName[b.ev[i].type]), diffAt(b.ev, f.ev, i, "rexpat", "reference"));
    if (f.status == 0 && (f.errIdx != b.errIdx || f.errLine != b.errLine || f.errCol != b.errCol)) return bad("error-position-vs-reference", fmt("error %u: %ld %lu:%lu vs reference %ld %lu:%lu", b.err, b.errIdx, b.errLine, b.errCol, f.errIdx, f.errLine, f.errCol));
  }
  return OKV;
}
// ================================================================ C05
static void genC05(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.malformed = r.chance(8); genPhase(r, o, p);
  if (r.chance(20)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  if (r.chance(60)) genDelivAll(r, p);
  for (auto &e : p.ents) if (e.how == HOW_DEFER) e.how = HOW_INLINE;   // an application that goes on without the entity may
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(15)) e.how = HOW_SUSPEND;
  if (r.chance(30)) addSuspends(r, p, countCb(p));
  genEnv(r, s.env, 20);
  // a second document on the same, reset, parser once memory is back
  if (r.chance(60)) { Phase q; GenOpts o2 = opts(r); o2.size = 8; o2.ns = p.c.ns >= 0; genPhase(r, o2, q); q.c.ns = p.c.ns; q.c.triplets = p.c.triplets; s.clients[0].phases.push_back(q); }
  s.env.fmode = (uint8_t)(r.chance(60) ? FM_ONCE : r.chance(60) ? FM_FROM : r.chance(50) ? FM_EVERY : FM_BIG);
  s.env.failArg = s.env.fmode == FM_EVERY ? (uint64_t)r.range(2, 9) : s.env.fmode == FM_BIG ? (uint64_t)r.range(30, 3000) : 0;
  s.env.failAt = r.next() & 0xffffff;   // reduced modulo the number of allocations of the failure-free run
  s.aux = {0};
}
static Verdict chkC05(const Scenario &s, Counters &c) {
  Scenario first = s; first.clients[0].phases.resize(1); first.env = calm(s.env);
  RunResult r0; { first.env.fmode = FM_ONCE; first.env.failAt = ~0ull; r0 = runScenario(first, gRex); }
  uint64_t N = r0.allocCount; if (!N) return OKV;
  PhaseResult base = plainRun(one(s), s.env);
  Scenario f = s; f.env.failAt = s.env.fmode == FM_BIG || s.env.fmode == FM_EVERY ? s.env.failAt % (N / 2 + 1) : s.env.failAt % N;
  f.clients[0].phases.resize(1);
  RunResult rr = runScenario(f, gRex);
  const PhaseResult &a = rr.cl[0].ph[0];
  tally(c, a); note(rr, rr.faultFired);
  if (rr.faultFired) c["alloc_failures"] += rr.as.failed;
  if (!rr.heap.empty()) return bad("heap:" + rr.heap, rr.heap);
  if (rr.leaked) return bad("leak", fmt("%zu blocks left after an allocation failure: ", rr.leaked) + rr.leak);
  TRY(runawayCheck(a));
  if (rr.faultFired) {
    c["runs_with_failure"]++;
    bool reported = !a.created || a.err == 1 || a.status == 0;
    for (auto &x : a.calls) if (x.err == 1 || x.what == "ChildCreate" || x.what == "GetBuffer" || (x.what == "ChildDone" && x.ret == 0)) reported = true;
    bool late = false; for (auto &x : a.calls) if (x.what == "ChildDone" && x.ret == 0 && (x.err == 1 || x.err == 21)) late = true;   // 21: its own entity parser could not be had
    if (a.status == 1 && late && a.nsusp) { c["late_child_failures"]++; }   // an entity parser the application resumed itself told it so
    else if (!reported || a.status == 1) {   // claims success: then nothing may be missing
      Verdict v = cmpAll(a, base, 0, false, "with failure", "without");
      if (v.bad) { v.cls = "silent-failure:" + v.cls; return v; }
      c["failure_tolerated"]++;
    } else {
      // the scopes of the declarations of a start tag that failed half-way are closed again
      PhaseResult cut = a; while (!cut.ev.empty() && cut.ev.back().type == E_ENS) cut.ev.pop_back();
      // an entity declaration whose value failed half-way (or, an external parameter entity in it) is still announced, with what there is of it (as in the reference)
      for (int k = 0; k < 2 && !cut.ev.empty() && cut.ev.back().type == E_END && cmpPrefix(cut, base, 0, "", "").bad; k++) {
        PhaseResult pre = cut; pre.ev.pop_back(); if (cmpPrefix(pre, base, 0, "", "").bad) break;
        auto head = [](const std::string &x) { size_t k = x.find('\x1f'); return k == std::string::npos ? k : x.find('\x1f', k + 1); };
        const std::string &x = cut.ev.back().s; size_t h = head(x); bool same = false;
        for (size_t j = cut.ev.size() - 1; !same && j < base.ev.size(); j++) same = base.ev[j].type == E_END && base.ev[j].label == cut.ev.back().label && h != std::string::npos && !base.ev[j].s.compare(0, h, x, 0, h);
        if (!same) break;
        cut.ev.pop_back();
      }
      if (late && a.nsusp) c["late_child_failures"]++;   // what the application makes of an entity parser that failed behind its parent's back is its own history
      else TRY(cmpPrefix(cut, base, 0, "with failure", "without"));
      if (a.created && a.status == 0 && a.err != 1 && a.err != 21 && !(base.status == 0 && a.err == base.err) && !(a.err == 35 && a.stopped)) {
        return bad("wrong-error", fmt("allocation failure reported as error %u (without failure: status %d error %u)", a.err, base.status, base.err));
      }
    }
  }
  if (s.clients[0].phases.size() > 1) {
    // same history, memory restored before the reset
    Scenario g = f; g.clients[0].phases.push_back(s.clients[0].phases[1]);
    if (s.env.fmode == FM_ONCE && f.env.failAt < rr.allocCount) {
      RunResult r2 = runScenario(g, gRex);
      if (!r2.heap.empty()) return bad("heap:" + r2.heap, r2.heap);
      if (r2.leaked) return bad("leak", fmt("%zu blocks left (after reset): ", r2.leaked) + r2.leak);
      if (r2.cl[0].ph.size() == 2 && r2.cl[0].ph[0].created && r2.cl[0].ph[0].faultFiredHere && !r2.cl[0].ph[1].faultFiredHere) {
        Scenario h; h.env = calm(s.env); h.clients.resize(1); h.clients[0].phases.push_back(s.clients[0].phases[1]);
        RunResult r3 = runScenario(h, gRex);
        c["resets_after_failure"]++;
        Verdict v = cmpAll(r2.cl[0].ph[1], r3.cl[0].ph[0], 0, true, "reset after failure", "new parser");
        if (v.bad) { v.cls = "reset-after-failure:" + v.cls; return v; }
      }
    }
  }
  return OKV;
}
// ================================================================ C06
static void genHistory(Rng &r, Phase &p, bool big) {
  GenOpts o = opts(r); if (!big && o.size > 60) o.size = 60; genPhase(r, o, p);
  if (r.chance(25)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  if (r.chance(75)) genDelivAll(r, p);
  int n = countCb(p);
  if (r.chance(45)) addSuspends(r, p, n);
  if (r.chance(20)) p.acts.push_back({r.below((uint32_t)n + 1), A_ABORT, r.below(4)});
  if (r.chance(15)) for (int i = r.range(1, 4); i--;) p.acts.push_back({r.below((uint32_t)n + 1), A_HANDLERS, (uint32_t)r.next() & H_ALL});
  if (r.chance(20)) for (int i = r.range(1, 6); i--;) p.acts.push_back({r.below((uint32_t)n + 1), A_DEFCUR, 0});
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(35)) { e.how = (uint8_t)(r.chance(60) ? HOW_SUSPEND : r.chance(40) ? HOW_DEFER : HOW_ABANDON); e.arg = r.below(1000); }
  if (r.chance(20)) for (int i = r.range(1, 5); i--;) p.acts.push_back({r.below((uint32_t)n + 1), A_ILLEGAL, r.below(48)});
  if (r.chance(35)) p.stopAfter = r.range(0, 8);
  p.c.query = (uint8_t)(r.chance(25) ? r.range(1, 2) : 0); p.c.queryBetween = (uint8_t)(r.chance(30) ? r.range(1, 2) : 0);
  if (r.chance(20)) p.c.illegalBetween = (uint8_t)r.next();
}
static void genC06(Rng &r, Scenario &s, uint64_t idx) {
  s.clients.resize(1); int n = r.chance(55) ? 1 : r.range(2, 4);
  for (int i = 0; i < n; i++) { Phase p; genHistory(r, p, true); s.clients[0].phases.push_back(p); }
  genEnv(r, s.env, 70);
  if (idx % 97 == 5) {   // depth: long chains of nested markup, groups and references
    Phase &p = s.clients[0].phases[0]; p = Phase(); p.c.handlers = H_NODEF; int d = 200 << r.below(6);
    std::string t;
    switch (r.below(5)) {
    case 0: t = "<!DOCTYPE a [<!ELEMENT a "; for (int i = 0; i < d; i++) t += "("; t += "b"; for (int i = 0; i < d; i++) t += ")"; t += ">]><a/>"; break;
    case 1: for (int i = 0; i < d; i++) t += "<a>"; for (int i = 0; i < d; i++) t += "</a>"; break;
    case 2: { int k = std::min(d, 1500); t = "<!DOCTYPE a [<!ENTITY e0 'x'>"; for (int i = 1; i < k; i++) t += "<!ENTITY e" + std::to_string(i) + " '&e" + std::to_string(i - 1) + ";'>"; t += "]><a b='" + (r.chance(50) ? "&e" + std::to_string(k - 1) + ";" : "") + "'>&e" + std::to_string(k - 1) + ";</a>"; break; }
    case 3: { p.c.ns = 1; for (int i = 0; i < d / 4; i++) t += "<a xmlns:p" + std::to_string(i % 7) + "='u" + std::to_string(i) + "' xmlns='d" + std::to_string(i) + "'>"; for (int i = 0; i < d / 4; i++) t += "</a>"; break; }
    default: t = "<a "; for (int i = 0; i < d / 4; i++) t += "x" + std::to_string(i) + "='v' "; t += "/>"; break;
    }
    p.doc = t; if (r.chance(50)) genDeliv(r, t.size(), p.d, 5);
  }
}
static Verdict heapCheck(const RunResult &rr) {
  if (!rr.heap.empty()) return bad("heap:" + rr.heap, rr.heap);
  if (rr.leaked) return bad("leak", fmt("%zu blocks left when every parser is freed: ", rr.leaked) + rr.leak);
  for (auto &cl : rr.cl) for (auto &p : cl.ph) TRY(runawayCheck(p));
  return OKV;
}
static Verdict chkC06(const Scenario &s, Counters &c) {
  RunResult rr = runScenario(s, gRex);
  for (auto &p : rr.cl[0].ph) tally(c, p);
  c["allocations"] += rr.as.allocs; c["frees"] += rr.as.frees; if (s.env.amode == AM_EFENCE) c["guard_page_runs"]++;
  note(rr, rr.as.allocs > 5);
  return heapCheck(rr);
}
// ================================================================ C07
static void genC07(Rng &r, Scenario &s, uint64_t) {
  s.clients.resize(1); int n = r.chance(80) ? 2 : 3;
  for (int i = 0; i < n; i++) { Phase p; if (i + 1 < n) genHistory(r, p, false); else { GenOpts o = opts(r); genPhase(r, o, p); if (r.chance(20)) p.c.handlers |= H_DEF; if (r.chance(60)) genDelivAll(r, p); if (r.chance(20)) addSuspends(r, p, countCb(p)); p.c.query = r.chance(40); p.c.queryBetween = r.chance(30); } s.clients[0].phases.push_back(p); }
  auto &ph = s.clients[0].phases;
  for (int i = 1; i < n; i++) { if (ph[(size_t)i].c.ns != ph[0].c.ns) { // separator is fixed at creation
      if ((ph[(size_t)i].c.ns >= 0) != (ph[0].c.ns >= 0) || true) ph[(size_t)i].c.ns = ph[0].c.ns; } }
  // the namespace-triplet choice and the unknown-encoding handler survive a reset
  bool tr = false; for (auto &p : ph) { if (p.c.triplets) tr = true; else if (tr) p.c.triplets = 1; }
  s.aux = {r.chance(50)};   // 1: rely on the surviving unknown-encoding handler
  genEnv(r, s.env, 25);
}
static Verdict chkC07(const Scenario &s, Counters &c) {
  RunResult rr = runScenario(s, gRex);
  for (auto &p : rr.cl[0].ph) tally(c, p);
  note(rr, rr.cl[0].ph.size() > 1 && rr.cl[0].ph[0].ncb > 0);
  for (auto &p : rr.cl[0].ph) TRY(invOf(p, {"C07"}));
  for (size_t i = 1; i < s.clients[0].phases.size(); i++) {
    Scenario f; f.env = calm(s.env); f.clients.resize(1); f.clients[0].phases.push_back(s.clients[0].phases[i]);
    RunResult fr = runScenario(f, gRex);
    c["resets"]++;
    TRY(cmpAll(rr.cl[0].ph[i], fr.cl[0].ph[0], C_POS | C_BC | C_LINES, true, "after reset", "new parser"));
    const PhaseResult &x = rr.cl[0].ph[i], &y = fr.cl[0].ph[0];
    if (x.status != 3 && (x.errIdx != y.errIdx || x.errLine != y.errLine || x.errCol != y.errCol)) return bad("final-position", fmt("after reset %ld %lu:%lu, new parser %ld %lu:%lu", x.errIdx, x.errLine, x.errCol, y.errIdx, y.errLine, y.errCol));
    if (x.rawHash != y.rawHash && x.stopped == y.stopped && s.clients[0].phases[i].stopAfter < 0) return bad("trace", "the raw trace (call results, piece boundaries) differs between a reset and a new parser");
  }
  return OKV;
}
// ================================================================ C08
static void genC08(Rng &r, Scenario &s, uint64_t) {
  int n = r.chance(60) ? 2 : r.range(3, 4); s.clients.resize((size_t)n);
  for (int i = 0; i < n; i++) { int k = r.chance(80) ? 1 : 2; for (int j = 0; j < k; j++) { Phase p; genHistory(r, p, false); if (i && r.chance(30) && !s.clients[0].phases.empty()) { p.doc = s.clients[0].phases[0].doc; p.ents = s.clients[0].phases[0].ents; } if (j && p.c.ns != s.clients[(size_t)i].phases[0].c.ns) p.c.ns = s.clients[(size_t)i].phases[0].c.ns; s.clients[(size_t)i].phases.push_back(p); } }
  if (r.chance(35)) for (auto &cl : s.clients) for (auto &p : cl.phases) { p.c.useBase = 1; p.c.style |= 2; p.c.handlers |= H_EER; p.c.paramEnt = 2; }
  if (r.chance(25)) { Phase &p = s.clients[0].phases[0]; p.acts.push_back({r.below((uint32_t)countCb(p) + 1), A_NEST, (uint32_t)n - 1}); }
  if (r.chance(10)) for (auto &cl : s.clients) for (auto &p : cl.phases) {   // several encodings the application supplies, with bytes they may not have
    std::string b; int k = r.range(1, 12); while (k--) b += r.chance(60) ? (char)('a' + r.below(26)) : (char)(128 + r.below(128));
    p.doc = std::string("<?xml version='1.0' encoding='") + encName[r.chance(50) ? EN_SIMSB : EN_SIMMB] + "'?><r>" + b + "</r>"; p.ents.clear(); p.c.enc = ""; p.c.handlers |= H_UENC; p.c.encMode = (uint8_t)(r.chance(60) ? 23 : r.chance(50) ? 21 : 0);
  }
  int L = r.range(20, 400); bool bursty = r.chance(50); uint8_t cur = 0; for (int i = 0; i < L; i++) { if (!bursty || r.chance(15)) cur = (uint8_t)r.below(12); s.baton.push_back(cur); }
  genEnv(r, s.env, 20);
  s.aux = {(int64_t)(r.next() >> 20), (int64_t)(r.next() >> 20), (int64_t)r.below(2)};
}
static Verdict chkC08(const Scenario &s, Counters &c) {
  RunResult rr = runScenario(s, gRex);
  c["switches"] += rr.switches; note(rr, rr.switches > 1);
  for (auto &cl : rr.cl) for (auto &p : cl.ph) tally(c, p);
  for (size_t i = 0; i < s.clients.size(); i++) {
    Scenario f; f.clients.resize(1); f.clients[0] = s.clients[i]; f.env = s.env;
    for (auto &p : f.clients[0].phases) p.acts.erase(std::remove_if(p.acts.begin(), p.acts.end(), [](const Action &a) { return a.kind == A_NEST; }), p.acts.end());
    if (s.aux.size() >= 3) { f.env.hashSeed = (uint64_t)s.aux[0]; f.env.layoutSeed = (uint64_t)s.aux[1]; f.env.move = (uint8_t)s.aux[2]; f.env.amode = AM_FAST; }
    RunResult fr = runScenario(f, gRex);
    for (size_t k = 0; k < fr.cl[0].ph.size() && k < rr.cl[i].ph.size(); k++) {
      TRY(cmpAll(rr.cl[i].ph[k], fr.cl[0].ph[k], C_POS | C_BC | C_LINES, true, "interleaved", "alone"));
      if (rr.cl[i].ph[k].rawHash != fr.cl[0].ph[k].rawHash) return bad("trace", fmt("client %zu phase %zu: raw trace differs between interleaved and alone, other hash seed and heap layout", i, k));
    }
  }
  return OKV;
}
// ================================================================ C09
static Verdict refDiff(const Phase &p, const PhaseResult &a, const PhaseResult &f, int fl, Counters &c, bool pos) {
  if (f.runaway || f.err == 43 /* amplification limit: newer than 2.2.9 */) return OKV;
  // the reference ignores half a UTF-16 character behind a final CR or ]
  auto halfTail = [](const std::string &d) { if (d.size() < 5 || d.size() % 2 == 0) return false; std::string t = d.substr(d.size() - 3, 2), n = std::string(1, 0); return t == "\r" + n || t == n + "\r" || t == "]" + n || t == n + "]"; };
  if (f.status == 1 && a.status == 0 && (a.err == 5 || a.err == 6) && a.errIdx + 1 >= (long)p.doc.size() && halfTail(p.doc)) return OKV;
  for (auto &e : p.ents) if (halfTail(e.bytes)) for (auto &x : a.calls) if (x.what == "ChildDone" && x.ret == 0 && (x.err == 5 || x.err == 6)) return OKV;
  // the reference drops the text from a parameter entity reference inside an external entity used in an entity value on
  for (auto &e : p.ents) if (e.sysid.size() && e.sysid[0] == 't' && e.bytes.find('%') != std::string::npos) return OKV;
  if (lateChild(a, f, p)) { c["late_child_failures"]++; return cmpPrefix(f, a, fl & ~C_POS, "reference", "suspended"); }
  // the reference glues the beginning of an enumerated type, cut off by a skipped parameter entity, onto the next comment
  auto cutEnum = [](const std::string &d0) { std::string d; for (char ch : d0) if (ch) d += ch; for (size_t i = 0; (i = d.find("<!ATTLIST", i)) != std::string::npos; i++) { size_t q = d.find('(', i), e = d.find('>', i); for (; q < e && q != std::string::npos; q = d.find('(', q + 1)) { size_t pc = d.find('%', q); if (pc < d.find(')', q)) return true; } } return false; };
  Verdict v = cmpAll(a, f, fl, pos, "rexpat", "reference");
  if (v.bad) { bool q = cutEnum(p.doc); for (auto &e : p.ents) q |= cutEnum(e.bytes); if (q) { c["reference_quirks"]++; return OKV; } }
  return v;
}
static Verdict vsRef(const Phase &p, const PhaseResult &a, const Env &e, int fl, Counters &c, bool pos = false) {
  PhaseResult f = plainRun(p, e, gRef);
  c["reference_runs"]++;
  return refDiff(p, a, f, fl, c, pos);
}
static void genC09(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.malformed = r.chance(60); genPhase(r, o, p);
  if (o.malformed && r.chance(15)) mutateBytes(r, p.doc, 2);
  if (r.chance(30)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  if (r.chance(35)) genDelivAll(r, p);
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(5)) { e.how = HOW_ABANDON; e.arg = r.below(1000); }
  if (r.chance(8)) {   // handlers and their argument exchanged on the way
    int n = countCb(p) + 1;
    for (int i = r.range(1, 4); i--;) { uint32_t m = r.chance(30) ? p.c.handlers : r.chance(50) ? p.c.handlers ^ (1u << r.below(22)) : (uint32_t)r.next() & H_ALL; uint32_t fix = H_SDT | (gGenEnc == EN_UTF8 && p.c.enc.empty() && p.ents.empty() ? 0 : (uint32_t)H_DEF | H_CD); m = (m & ~fix) | (p.c.handlers & fix);   /* the reference calls a missing handler, or without a name, or one handler to the end of a converted text */ p.acts.push_back({r.below((uint32_t)n), A_HANDLERS, m | (r.chance(40) ? 0 : 1 + r.below(4)) << 28}); }
  }
  genEnv(r, s.env, 10);
}
static Verdict chkC09(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr);
  note(rr, a.ev.size() > 0 || a.status == 0);
  if (!one(s).acts.empty()) {   // the callbacks are numbered alike only when all arrives in one piece
    Phase q = one(s); auto acts = q.acts; plainSchedule(q); q.acts = acts;
    PhaseResult x = runPhase(q, gRex, calm(s.env)), f = runPhase(q, gRef, calm(s.env));
    c["handler_change_runs"]++;
    { Verdict v = refDiff(q, x, f, C_TAIL, c, false); if (v.bad) { v.cls = "handlers-changed:" + v.cls; return v; } }
    return OKV;
  }
  TRY(vsRef(one(s), a, s.env, one(s).d.chunks.empty() && !one(s).d.rest ? 0 : C_TAIL, c));
  return OKV;
}
// ================================================================ C10
static void genC10(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.malformed = false; o.xmlDecl = false; o.textHeavy = r.chance(60);
  static const int cs[] = {EN_LATIN1, EN_ASCII, EN_SIMSB, EN_SIMMB, EN_UTF16LE, EN_UTF16BE, EN_UTF8BOM, EN_UTF16LE, EN_SIMMB};
  int target = cs[r.below(9)];
  o.enc = target; o.xmlDecl = false; o.ext = r.chance(40);
  // generate restricted to the target's repertoire, kept as UTF-8
  genPhase(r, o, p);
  // genPhase encoded it: decode back by generating again in UTF-8 with the same characters
  std::string body; {
    const std::string &d = p.doc; size_t i = 0;
    if (target == EN_UTF16LE || target == EN_UTF16BE) { i = 2; while (i + 1 < d.size()) { uint32_t u = target == EN_UTF16LE ? (unsigned char)d[i] | (unsigned char)d[i + 1] << 8 : (unsigned char)d[i] << 8 | (unsigned char)d[i + 1]; i += 2; if (u >= 0xD800 && u < 0xDC00) { uint32_t v = target == EN_UTF16LE ? (unsigned char)d[i] | (unsigned char)d[i + 1] << 8 : (unsigned char)d[i] << 8 | (unsigned char)d[i + 1]; i += 2; u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); } body += utf8(u); } }
    else if (target == EN_UTF8BOM) body = d.substr(d.compare(0, 3, "\xEF\xBB\xBF") ? 0 : 3);
    else for (; i < d.size(); i++) { unsigned char b = (unsigned char)d[i]; if (b < 128) body += (char)b; else if (target == EN_SIMSB) body += utf8((uint32_t)simsbMap(b)); else if (target == EN_SIMMB) { int k = b >= 0xF0 ? 1 : b >= 0xE0 ? 4 : b >= 0xD0 ? 3 : 2; uint32_t cp = k == 1 ? b : (uint32_t)simmbConvert(d.c_str() + i); body += utf8(cp); i += (size_t)k - 1; } else body += utf8(b); }
  }
  p.c.enc = ""; p.c.encVia = 0; p.c.handlers |= H_UENC; p.c.encMode = 0;
  p.doc = body; s.aux = {target, (int64_t)r.below(3) /* how the encoding is selected */, (int64_t)r.below(100), (int64_t)r.below(1000000)};
  if (r.chance(20)) { p.c.handlers |= H_DEF; p.c.defExpand = 1; }
  genEnv(r, s.env, 15);
  // the schedule seed travels in aux so that the encoded form, not the text, is what is cut
  for (auto &e : p.ents) genDeliv(r, e.bytes.size(), e.d);
}
static Phase encPhase(const Phase &p, int target, int how, bool decl, bool &ok) {
  Phase q = p; std::string hdr;
  bool proto = how == 2;
  if (target == EN_UTF16LE || target == EN_UTF16BE || target == EN_UTF8BOM) { proto = false; if (how == 1) hdr = std::string("<?xml version='1.0' encoding='") + encName[target] + "'?>"; else if (how == 2) hdr = "<?xml version='1.0'?>"; }
  else if (target == EN_UTF8) { if (decl) hdr = "<?xml version='1.0' encoding='utf-8'?>"; }
  else if (proto) { q.c.enc = encName[target]; q.c.encVia = decl; }
  else hdr = std::string("<?xml version='1.0' encoding=\"") + encName[target] + "\"?>";
  ok = encodeDoc(decodeUtf8(hdr + p.doc), target, q.doc);
  return q;
}
static Verdict chkC10(const Scenario &s, Counters &c) {
  const Phase &p = one(s);
  if (s.aux.size() < 4) return OKV;
  int target = (int)s.aux[0], how = (int)s.aux[1]; bool ok;
  Phase u = p; { bool k; Phase t = encPhase(p, EN_UTF8, 0, false, k); u = t; }
  Phase q = encPhase(p, target, how, s.aux[2] % 2, ok);
  if (!ok) { c["inexpressible"]++; return OKV; }
  Rng r((uint64_t)s.aux[3]); 
  if (!(s.aux[2] >= 90)) genDeliv(r, q.doc.size(), q.d);
  char t[32]; snprintf(t, sizeof t, "enc_%s", encName[target]); c[t]++;
  Scenario sq = s; one(sq) = q;
  RunResult rr; PhaseResult a = runOne(sq, c, &rr); PhaseResult b = plainRun(u, s.env);
  note(rr, true);
  TRY(invOf(a, {"C10"}));
  // drop the declaration and encoding events, which differ by construction
  auto strip = [](PhaseResult &x) { std::vector<Ev> o; std::string hd; for (auto &e : x.ev) { if (e.label == 0 && (e.type == E_XML || e.type == E_UENC)) continue; if (!o.empty() && e.type == E_DEF && o.back().type == E_DEF && o.back().label == e.label) { o.back().s += e.s; continue; } o.push_back(e); } x.ev = o; };
  strip(a); strip(b);
  // the XML declaration itself reaches the default handler when no XmlDecl handler is set
  if ((p.c.handlers & H_DEF) && !a.ev.empty() && a.ev[0].type == E_DEF && a.ev[0].s.compare(0, 5, "<?xml") == 0 && a.ev[0].s.size() > 5 && strchr(" \t\r\n", a.ev[0].s[5])) { size_t k = a.ev[0].s.find("?>"); if (k != std::string::npos) { a.ev[0].s = a.ev[0].s.substr(k + 2); if (a.ev[0].s.empty()) a.ev.erase(a.ev.begin()); } }
  TRY(cmpAll(a, b, 0, false, encName[target], "UTF-8"));
  // corrupted bytes of this encoding: same verdict as the reference, however they are cut
  if (s.aux[2] % 3 == 0) {
    Phase m = q; Rng r2((uint64_t)s.aux[3] + 5);
    if (m.doc.size() > 4) { int n = r2.range(1, 2); while (n--) { size_t at = r2.below((uint32_t)m.doc.size()); switch (r2.below(4)) { case 0: m.doc[at] = (char)(0x80 + r2.below(128)); break; case 1: m.doc.erase(at, 1); break; case 2: m.doc.insert(at, 1, (char)(0x80 + r2.below(128))); break; default: m.doc.resize(at); } } }
    genDeliv(r2, m.doc.size(), m.d);
    if (m.c.ns >= 0) m.c.ns = 1;   // the reference rejects a name space URI containing the separator; no URI can contain this one
    Scenario sm = s; one(sm) = m;
    if (getenv("SIM_DUMP")) { FILE *f = fopen(getenv("SIM_DUMP"), "w"); fputs(serialize(sm).c_str(), f); fclose(f); }
    PhaseResult x = runOne(sm, c); c["corrupted_encodings"]++;
    TRY(invOf(x, {"C10"}));
    Verdict v = vsRef(m, x, s.env, C_TAIL, c);
    if (v.bad) { v.cls = "corrupted-bytes:" + v.cls; return v; }
  }
  // declarations that agree with the bytes, that do not, and encodings the application supplies well, badly or not at all
  if (s.aux[2] % 3 == 1) {
    Rng r2((uint64_t)s.aux[3] + 9); Phase m = p; m.d = Deliv();
    static const char *names[] = {"utf-16", "UTF-16LE", "utf-16be", "UTF-8", "iso-8859-1", "us-ascii", "x-sim-sb", "x-sim-mb", "x-none", "UTF-16", "Utf-16Be", "utf-16le", "utf-1", "utf-16l", "utf-16bex"};
    bool sim = target == EN_SIMSB || target == EN_SIMMB;
    std::string nm = sim && r2.chance(80) ? encName[target] : names[r2.below(15)];
    bool text = r2.chance(15);
    if (!encodeDoc(decodeUtf8((r2.chance(92) ? "<?xml version='1.0' encoding='" + nm + "'?>" : "") + p.doc), target, m.doc)) return OKV;
    m.c.enc = r2.chance(25) ? names[r2.below(15)] : ""; m.c.encVia = (uint8_t)r2.below(2);
    m.c.handlers |= H_UENC; if (r2.chance(10)) m.c.handlers &= ~H_UENC; m.c.encMode = (uint8_t)(r2.chance(15) ? 0 : r2.below(24));
    if (text) { m.doc.resize(std::min<size_t>(m.doc.size(), r2.below(200))); }
    if (m.c.ns >= 0) m.c.ns = 1;
    genDeliv(r2, m.doc.size(), m.d);
    Scenario sm = s; one(sm) = m;
    if (getenv("SIM_DUMP")) { FILE *f = fopen(getenv("SIM_DUMP"), "w"); fputs(serialize(sm).c_str(), f); fclose(f); }
    PhaseResult x = runOne(sm, c); c["declared_encodings"]++;
    TRY(invOf(x, {"C10"}));
    Verdict v = vsRef(m, x, s.env, C_TAIL, c);
    if (v.bad) { v.cls = "declared-encoding:" + v.cls; return v; }
  }
  return OKV;
}
// ================================================================ C11
static std::vector<std::string> split(const std::string &s, char sep) { std::vector<std::string> v; size_t i = 0; for (;;) { size_t k = s.find(sep, i); if (k == std::string::npos) { v.push_back(s.substr(i)); return v; } v.push_back(s.substr(i, k - i)); i = k + 1; } }
static void genC11(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.ns = true; o.nsHeavy = true; o.malformed = r.chance(18); o.attHeavy = r.chance(30); genPhase(r, o, p);
  p.c.handlers |= H_SE | H_EE | H_SNS | H_ENS; if (o.ext) p.c.handlers |= H_EER;
  if (r.chance(10)) p.c.handlers |= H_DEF;
  if (r.chance(65)) genDelivAll(r, p);
  if (r.chance(35)) addSuspends(r, p, countCb(p));
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(30)) e.how = r.chance(70) ? HOW_SUSPEND : HOW_DEFER;
  genEnv(r, s.env, 20);
}
// namespace resolution done from first principles over the events of a parse without namespace processing
static Verdict nsModel(const Phase &p, const PhaseResult &ns, const Env &e, Counters &c) {
  Phase q = p; q.c.ns = -1; PhaseResult pl = plainRun(q, e);
  if (ns.status != 1 || pl.status != 1) return OKV;
  for (const PhaseResult *R : {&ns, (const PhaseResult *)&pl}) for (auto &x : R->calls) if (x.what == "ChildDone" && x.ret != 1) return OKV;
  for (auto &x : p.ents) if (x.how == HOW_DEFER) return OKV;
  std::vector<std::string> want, got; typedef std::map<std::string, std::string> M; std::map<int, std::vector<M>> st; M base; base["xml"] = "http://www.w3.org/XML/1998/namespace";
  std::string sep(p.c.ns ? 1 : 0, (char)p.c.ns);
  std::vector<M> cur{base};
  auto exp = [&](const std::string &n, const M &m, bool att) -> std::string {
    size_t k = n.find(':');
    if (k == std::string::npos) { if (att) return n; auto it = m.find(""); if (it == m.end() || it->second.empty()) return n; return it->second + sep + n; }
    std::string pf = n.substr(0, k), lo = n.substr(k + 1); auto it = m.find(pf); if (it == m.end()) return "?" + n;
    return it->second + sep + lo + (p.c.triplets && p.c.ns ? sep + pf : "");
  };
  for (auto &ev : pl.ev) {
    if (ev.type == E_SE) {
      auto f = split(ev.s, '\x1f'); M m = cur.back(); std::vector<std::string> at;
      for (size_t i = 1; i + 1 < f.size(); i++) { size_t k = f[i].find('='); std::string n = f[i].substr(0, k), v = f[i].substr(k + 1); if (n == "xmlns") m[""] = v; else if (n.compare(0, 6, "xmlns:") == 0) { if (n != "xmlns:xml") m[n.substr(6)] = v; } else at.push_back(f[i]); }
      std::string o = "S " + exp(f[0], m, false);
      for (auto &a : at) { size_t k = a.find('='); o += " | " + exp(a.substr(0, k), m, true) + a.substr(k); }
      want.push_back(o); cur.push_back(m);
    } else if (ev.type == E_EE) { if (cur.size() < 2) return OKV; want.push_back("E " + exp(ev.s, cur.back(), false)); cur.pop_back(); }
  }
  // scopes from the declaration callbacks must nest
  std::vector<std::string> open; size_t depth = 0; std::vector<size_t> marks; size_t pend = 0;
  for (auto &ev : ns.ev) {
    if (ev.type == E_SE) { auto f = split(ev.s, '\x1f'); std::string o = "S " + f[0]; for (size_t i = 1; i + 1 < f.size(); i++) o += " | " + f[i]; got.push_back(o); marks.push_back(pend); pend = 0; depth++; }
    else if (ev.type == E_EE) { got.push_back("E " + ev.s); depth--; }
    else if (ev.type == E_SNS) { open.push_back(split(ev.s, '\x1f')[0]); pend++; }
    else if (ev.type == E_ENS) { auto it = std::find(open.rbegin(), open.rend(), ev.s); if (it == open.rend()) return bad("scope-end-without-start", "end of an undeclared prefix " + esc(ev.s)); open.erase(std::next(it).base()); }
  }
  if (ns.status == 1 && !open.empty() && (p.c.handlers & H_SNS) && (p.c.handlers & H_ENS)) return bad("scope-not-ended", "namespace declaration never ended: " + esc(open[0]));
  c["ns_model_elements"] += want.size();
  for (size_t i = 0; i < std::min(want.size(), got.size()); i++) if (want[i] != got[i]) return bad("namespace-model", "resolved by hand: " + esc(want[i]) + " ; reported: " + esc(got[i]));
  if (want.size() != got.size()) return bad("namespace-model-count", fmt("%zu tags expected, %zu reported", want.size(), got.size()));
  return OKV;
}
static Verdict chkC11(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr);
  note(rr, a.ev.size() > 2);
  TRY(runawayCheck(a));
  bool defer = false; for (auto &e : one(s).ents) defer |= e.how == HOW_DEFER;
  TRY(vsRef(one(s), a, s.env, C_TAIL, c));
  TRY(nsModel(one(s), a, s.env, c));
  return OKV;
}
// ================================================================ C12
static void genC12(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.dtd = true; o.dtdHeavy = true; o.ext = r.chance(85); o.malformed = r.chance(22); o.ns = r.chance(25); genPhase(r, o, p);
  p.c.handlers |= H_SE | H_EER; if (r.chance(70)) p.c.handlers |= H_ELD | H_ATD | H_END | H_NOT | H_UED | H_SKIP | H_CD;
  p.c.paramEnt = (uint8_t)(r.chance(70) ? 2 : r.below(3));
  if (r.chance(12)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(70); }
  if (r.chance(15)) { // recursion and undeclared references
    static const char *v[] = {"<!DOCTYPE a [<!ENTITY x '&y;'><!ENTITY y '&x;'>]><a>&x;</a>", "<!DOCTYPE a [<!ENTITY x '&x;'>]><a b='&x;'/>", "<!DOCTYPE a [<!ENTITY x 'q'>]><a b='&zz;'>&x;</a>", "<!DOCTYPE a SYSTEM 'ext0' [<!ENTITY x 'q'>]><a b='&zz;'>&zz;&x;</a>", "<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 'ext0'><a>&zz;</a>", "<!DOCTYPE a [<!ENTITY % p SYSTEM 'ext0'>%p;<!ENTITY l 'late'><!ATTLIST a d 'v'>]><a>&l;</a>", "<!DOCTYPE a [<!ENTITY % p '<!ENTITY l \"from pe\">'>%p;]><a>&l;</a>", "<!DOCTYPE a [<!ENTITY e SYSTEM 's0'>]><a b='&e;'/>", "<!DOCTYPE a [<!ENTITY e SYSTEM 'u' NDATA n>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e '<b>'>]><a>&e;</b></a>", "<!DOCTYPE a [<!ENTITY e '</a><a>'>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e 'x<'>]><a b='&e;'/>", "<!DOCTYPE a [<!ATTLIST a b CDATA '&e;'><!ENTITY e 'x'>]><a/>", "<!DOCTYPE a [<!ENTITY e SYSTEM 's0'><!ENTITY e2 '&e;&e;'>]><a>&e2;</a>"};
    std::string d = v[r.below(14)]; std::vector<Entity> keep = p.ents; p.doc = d; p.ents.clear();
    Entity e; e.sysid = "ext0"; e.bytes = r.chance(50) ? "<!ENTITY zz 'ext zz'><!ATTLIST a d CDATA 'x'>" : r.chance(50) ? "<!ELEMENT a ANY>" : "<!ENTITY % r '%r2;'><!ENTITY % r2 '<!ENTITY zz \"deep\">'>%r2;"; e.how = (uint8_t)(r.chance(80) ? HOW_INLINE : r.below(3)); p.ents.push_back(e);
    Entity f; f.sysid = "s0"; f.bytes = r.chance(50) ? "<?xml encoding='utf-8'?>text<x>&lt;</x>" : r.chance(50) ? "<x>" : "&e;"; f.how = (uint8_t)(r.chance(80) ? HOW_INLINE : r.below(3)); p.ents.push_back(f);
    if (r.chance(20)) mutateBytes(r, p.doc, 1);
    p.c.enc = "";
  }
  else if (r.chance(12)) { if (p.c.ns < 0 && r.chance(50)) p.c.ns = '|'; dtdReach(r, p); if (r.chance(10)) { if (p.c.ns > 1) p.c.ns = 1; mutateBytes(r, p.doc, 1); } }
  if (r.chance(65)) genDelivAll(r, p);
  if (r.chance(30)) addSuspends(r, p, countCb(p));
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(25)) e.how = r.chance(70) ? HOW_SUSPEND : HOW_DEFER;
  genEnv(r, s.env, 20);
}
static Verdict chkC12(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr);
  note(rr, a.ev.size() > 2);
  TRY(runawayCheck(a));
  TRY(invOf(a, {"C12"}));
  TRY(vsRef(one(s), a, s.env, C_TAIL, c));
  return OKV;
}
// ================================================================ C13
static void genC13(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.malformed = r.chance(20); o.textHeavy = r.chance(40); 
  static const int cs[] = {EN_UTF8, EN_UTF8, EN_UTF8, EN_UTF8BOM, EN_UTF16LE, EN_UTF16BE, EN_LATIN1, EN_ASCII};
  o.enc = cs[r.below(8)];
  genPhase(r, o, p);
  int kind = (int)r.below(4);
  s.aux = {kind, o.enc, (int64_t)o.malformed};
  bool deep = kind == 1 && r.chance(50);   // entities read as well, their own bytes going to the default handler of their parser
  if (!deep) { p.c.paramEnt = 0; p.c.foreignDTD = 0; } else p.c.paramEnt = 2;
  if (kind == 3) { p.c.handlers = H_DEF | H_UENC | ((uint32_t)(r.chance(50) ? -1 : r.next()) & (H_SE | H_EE | H_CD | H_PI | H_CM | H_SCD | H_ECD)); p.c.defExpand = 0; }   // whatever a handler takes it hands on
  else if (kind == 0) { p.c.handlers = H_DEF | H_UENC; p.c.defExpand = 0; }   // the default handler alone: everything, verbatim
  else { p.c.handlers = (p.c.handlers | H_DEF) & ~(uint32_t)(deep ? 0 : H_EER); p.c.defExpand = r.chance(50); if (r.chance(40)) p.c.handlers &= (uint32_t)r.next() | H_DEF | H_UENC; if (deep) p.c.handlers |= H_EER; }
  if (r.chance(80)) genDelivAll(r, p);
  int n = countCb(p);
  if (r.chance(35)) addSuspends(r, p, n);
  if (kind == 2) for (int i = r.range(1, 10); i--;) p.acts.push_back({r.below((uint32_t)n + 1), A_DEFCUR, 0});
  if (kind == 3) p.acts.push_back({EVERY_CB, A_DEFCUR, 0});
  genEnv(r, s.env, 15);
}
static std::string toUtf8(const std::string &d, int enc) {
  std::string o; size_t i = 0;
  switch (enc) {
  case EN_UTF8: case EN_ASCII: return d;
  case EN_UTF8BOM: return d.compare(0, 3, "\xEF\xBB\xBF") ? d : d.substr(3);
  case EN_LATIN1: for (unsigned char c : d) o += utf8(c); return o;
  default: i = 2; while (i + 1 < d.size()) { auto g = [&]() { uint32_t u = enc == EN_UTF16LE ? (unsigned char)d[i] | (unsigned char)d[i + 1] << 8 : (unsigned char)d[i] << 8 | (unsigned char)d[i + 1]; i += 2; return u; }; uint32_t u = g(); if (u >= 0xD800 && u < 0xDC00 && i + 1 < d.size()) { uint32_t v = g(); u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); } o += utf8(u); }
    return o;
  }
}
static Verdict chkC13(const Scenario &s, Counters &c) {
  const Phase &p = one(s);
  RunResult rr; PhaseResult a = runOne(s, c, &rr);
  note(rr, a.ev.size() > 0);
  if (s.aux.size() < 3) return OKV;
  if ((s.aux[0] == 0 || s.aux[0] == 3) && p.c.enc.empty()) {
    std::string all; for (auto &e : a.ev) if (e.type == E_DEF) all += e.s;
    if (a.status == 1) {
      std::string doc = toUtf8(p.doc, (int)s.aux[1]);
      c["conserved_bytes"] += doc.size();
      if (all != doc && !s.aux[2]) { size_t k = 0; while (k < all.size() && k < doc.size() && all[k] == doc[k]) k++; return bad("bytes-not-conserved", fmt("default handler received %zu bytes of %zu, differing at %zu: ", all.size(), doc.size(), k) + esc(all.substr(k > 10 ? k - 10 : 0, 40)) + " vs " + esc(doc.substr(k > 10 ? k - 10 : 0, 40))); }
    } else if (!s.aux[2] && s.aux[1] == EN_UTF8) { if (p.doc.compare(0, all.size(), all)) return bad("bytes-not-conserved", "default handler data is not a prefix of the document"); }
  }
  if (s.aux[0] == 3) return OKV;
  // the reference hands over the rest of a long text with every piece of it, in CDATA sections that are converted
  if (s.aux[0] == 2 && p.doc.size() > 800 && s.aux[1] != EN_UTF8 && s.aux[1] != EN_UTF8BOM && toUtf8(p.doc, (int)s.aux[1]).find("<![CDATA[") != std::string::npos) return OKV;
  if (s.aux[0] == 2 && !p.acts.empty()) {
    // DefaultCurrent: the same history as the reference issuing the same calls, when delivered whole
    Phase q = p; auto acts = q.acts; plainSchedule(q); q.acts = acts;
    q.acts.erase(std::remove_if(q.acts.begin(), q.acts.end(), [](const Action &x) { return x.kind != A_DEFCUR; }), q.acts.end());
    PhaseResult x = runPhase(q, gRex, calm(s.env)), f = runPhase(q, gRef, calm(s.env));
    c["default_current_runs"]++;
    { Verdict v = refDiff(q, x, f, C_TAIL, c, false); if (v.bad) { v.cls = "default-current:" + v.cls; return v; } }
    // each DefaultCurrent hands over exactly the markup of its event
    return OKV;
  }
  if (s.aux[0] != 2) {
    PhaseResult b = plainRun(p, s.env);
    if (lateChild(a, b, p)) { c["late_child_failures"]++; TRY(cmpPrefix(b, a, C_TAIL, "whole", "suspended")); }
    else TRY(cmpAll(a, b, C_TAIL, false, "scheduled", "whole"));
    TRY(vsRef(p, a, s.env, C_TAIL, c));
  }
  return OKV;
}
// ================================================================ C14
static void genC14(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); o.malformed = r.chance(5); genPhase(r, o, p);
  if (r.chance(20)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  // cut the document, or one entity
  bool ent = !p.ents.empty() && r.chance(25);
  size_t which = ent ? 1 + r.below((uint32_t)p.ents.size()) : 0;
  size_t n = ent ? p.ents[which - 1].bytes.size() : p.doc.size();
  size_t cut = r.below((uint32_t)n + 1); if (r.chance(20)) cut = n - std::min<size_t>(n, r.below(12));
  if (r.chance(6)) {   // the cut falls inside a character: one of the document's, or one where no character may be
    std::string &st = ent ? p.ents[which - 1].bytes : p.doc; bool u8 = ent ? true : gGenEnc == EN_UTF8 || gGenEnc == EN_UTF8BOM;
    if (u8 && r.chance(60)) { static const char *ch[] = {"\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xC2\x85"}; size_t at = st.size(); if (r.chance(30)) { at = r.below((uint32_t)st.size() + 1); size_t g = st.find('>', at); if (g != std::string::npos) at = g + 1; else at = st.size(); } std::string x = std::string(r.below(3), ' ') + ch[r.below(4)]; st.insert(at, x); cut = at + x.size() - 1; if (r.chance(30) && cut > at + 1) cut--; }
    else { std::vector<size_t> in; for (size_t k = 1; k < st.size(); k++) if (((unsigned char)st[k] & 0xC0) == 0x80) in.push_back(k); if (!in.empty()) cut = r.pick(in); }
  }
  s.aux = {(int64_t)which, (int64_t)cut};
  if (r.chance(70)) genDelivAll(r, p);
  if (r.chance(20)) addSuspends(r, p, countCb(p));
  genEnv(r, s.env, 15);
}
static Verdict chkC14(const Scenario &s, Counters &c) {
  const Phase &p = one(s); if (s.aux.size() < 2) return OKV;
  size_t which = (size_t)s.aux[0]; 
  Scenario t = s; Phase &q = one(t);
  if (which > p.ents.size()) return OKV;
  std::string &st = which ? q.ents[which - 1].bytes : q.doc;
  size_t cut = std::min<size_t>((size_t)s.aux[1], st.size());
  std::string full = st; st.resize(cut);
  PhaseResult whole = plainRun(p, s.env);
  RunResult rr; PhaseResult a = runOne(t, c, &rr);
  note(rr, cut < full.size());
  c["cuts"]++;
  TRY(runawayCheck(a));
  if (which == 0) {
    // the end of input completes a token that could have gone on (a name, a group without its quantifier): its event may be the last but one (default data)
    PhaseResult pre = a;
    if (a.status == 0) for (int k = 0; k < 2 && !pre.ev.empty(); k++) if (cmpPrefix(pre, whole, C_TAIL, "cut", "complete").bad && (pre.ev.back().type == E_DEF || pre.ev.back().type == E_ELD || pre.ev.back().type == E_UED || pre.ev.back().type == E_NOT || pre.ev.back().type == E_ATD || pre.ev.back().type == E_END || pre.ev.back().type == E_NSA)) { pre.ev.pop_back(); c["end_completed_tokens"]++; }
    bool deferred = false; for (auto &e : p.ents) deferred |= e.how == HOW_DEFER;   // read after the document, unless that fails
    if ((whole.status != 0 || !deferred) && !lateChild(a, whole, p)) TRY(cmpPrefix(pre, whole, C_TAIL, "cut", "complete"));
    if (a.status == 1 && cut < full.size()) {
      // complete by itself only when nothing but white space, comments and PIs follow the document element
      PhaseResult f = plainRun(q, s.env, gRef);
      if (f.status != 1) return bad("truncated-accepted", fmt("the first %zu of %zu bytes were accepted as complete", cut, full.size()));
      int depth = 0; bool seen = false; for (auto &e : a.ev) if (e.label == 0) { if (e.type == E_SE) { depth++; seen = true; } else if (e.type == E_EE) depth--; }
      if ((p.c.handlers & H_SE) && (p.c.handlers & H_EE) && (!seen || depth)) return bad("truncated-accepted", fmt("accepted with %d elements open", depth));
    }
    // the same prefix without declaring its end: still the same events, no error beyond those of the complete document
    if (whole.status != 0 || !deferred) { PhaseResult g; Scenario u = s; Phase &w = one(u); w.d.chunks.clear(); w.d.rest = 0; w.acts.clear(); if (cut) w.d.chunks.push_back({(uint32_t)cut, CM_PARSE, 0}); w.stopAfter = cut ? 1 : 0; if (cut < full.size()) { g = runOne(u, c); TRY(cmpPrefix(g, whole, C_TAIL, "first part", "complete")); if (g.status == 0 && g.err != whole.err && !(whole.status == 0 && (g.err == 9 || whole.err == 9) && (g.err == 4 || whole.err == 4)) && !(whole.status == 0 && g.errIdx == whole.errIdx && (g.rsqb || whole.rsqb) && (g.err == 9 || whole.err == 9) && (g.err == 5 || whole.err == 5))) return bad("early-error", fmt("error %u after %zu bytes; complete document: status %d error %u", g.err, cut, whole.status, whole.err));
      for (auto &e : g.ev) if (e.label == 0 && (e.bi > (long)cut || e.bi + e.bc > (long)cut)) return bad("acausal", "event refers to bytes not delivered: " + showEv(e)); } }
    TRY(vsRef(q, a, s.env, C_TAIL, c));
  } else TRY(vsRef(q, a, s.env, C_TAIL, c));
  return OKV;
}
// ================================================================ C15
static void genC15(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); GenOpts o = opts(r); genPhase(r, o, p);
  if (r.chance(30)) { p.c.handlers |= H_DEF; p.c.defExpand = r.chance(50); }
  if (r.chance(75)) genDelivAll(r, p);
  if (r.chance(30)) addSuspends(r, p, countCb(p));
  if (r.chance(25)) for (int i = r.range(1, 6); i--;) p.acts.push_back({r.below(40), A_DEFCUR, 0});
  p.c.query = r.chance(40);
  for (auto &e : p.ents) if (e.how == HOW_INLINE && r.chance(15)) e.how = HOW_SUSPEND;
  genEnv(r, s.env, 25);
}
static Verdict chkC15(const Scenario &s, Counters &c) {
  RunResult rr; PhaseResult a = runOne(s, c, &rr, gRexU);
  bool defcur = false; for (auto &x : one(s).acts) defcur |= x.kind == A_DEFCUR;
  note(rr, a.ev.size() > 0);
  Phase p = one(s);
  if (defcur) { // callback ordinals can differ where text is cut differently: compare against the same build delivered whole without them
    p.acts.erase(std::remove_if(p.acts.begin(), p.acts.end(), [](const Action &x) { return x.kind == A_DEFCUR; }), p.acts.end());
    Scenario t = s; one(t) = p; a = runOne(t, c, nullptr, gRexU);
  }
  TRY(heapCheck(rr));
  PhaseResult b = plainRun(p, s.env, gRex);
  PhaseResult w = plainRun(p, s.env, gRexU);
  int fp = C_POS | C_BC | C_LINES; if (p.c.handlers & H_DEF) fp = 0;   // converting a token for the default handler moves the event position behind it
  bool epos = fp != 0; if (!p.doc.compare(0, 3, "\xEF\xBB\xBF") && p.doc.substr(0, 200).find("encoding") != std::string::npos) epos = false;   // a declaration that contradicts the byte order mark: the column of the error depends on the delivery, as in the reference
  TRY(cmpAll(w, b, fp, epos, "UTF-16 build, whole", "UTF-8 build"));
  if (lateChild(a, b, p)) return cmpPrefix(b, a, 0, "UTF-8 build", "UTF-16 build, suspended");
  TRY(cmpAll(a, b, a.nsusp ? C_TAIL : C_TAIL | fp, epos, "UTF-16 build", "UTF-8 build"));   // while suspended, trailing events have the position parsing will go on from
  return OKV;
}
// ================================================================ C20
static const int steadyEnd[] = {10, 20, 40, 80};
static void genC20(Rng &r, Scenario &s, uint64_t) {
  Phase &p = one(s); long pre = 0, len = 1; int mode = r.chance(80) ? 0 : 1;
  genSteady(r, p, mode ? r.range(1, 3) : steadyEnd[3], pre, len);
  s.aux = {mode, pre, len};
  int n = mode ? 40 : countCb(p) + 1;
  if (r.chance(35)) { int k = r.range(1, 60); while (k--) p.acts.push_back({r.below((uint32_t)n), A_SUSPEND, 0}); }
  if (mode) { if (r.chance(40)) p.stopAfter = r.range(0, 6); if (r.chance(30)) p.acts.push_back({r.below(60), A_ABORT, 0}); Phase q = p; for (int i = 1; i < 24; i++) s.clients[0].phases.push_back(q); }
  genEnv(r, s.env, 0);
}
static Verdict chkC20(const Scenario &s, Counters &c) {
  RunResult rr = runScenario(s, gRex);
  for (auto &p : rr.cl[0].ph) tally(c, p);
  for (auto &p : rr.cl[0].ph) if (p.runaway) { c["too_many_callbacks"]++; return OKV; }   // an entity cut into bytes, many times over
  size_t peak[4] = {0, 0, 0, 0}; bool have = false;
  if (s.aux[0] == 0) {
    const PhaseResult &a = rr.cl[0].ph[0]; long last = -1;
    for (auto &x : a.live) { long k = (x.first - s.aux[1]) / s.aux[2]; if (x.first < s.aux[1] || k == last || k >= steadyEnd[3]) continue; last = k; int w = k < steadyEnd[0] ? 0 : k < steadyEnd[1] ? 1 : k < steadyEnd[2] ? 2 : 3; peak[w] = std::max(peak[w], x.second); if (k == steadyEnd[3] - 1) have = true; }
    c["units"] += last < 0 ? 0 : (uint64_t)last + 1; c["peak_bytes"] += peak[3];
  } else {
    for (size_t i = 0; i < rr.cl[0].ph.size(); i++) { auto &l = rr.cl[0].ph[i].live; if (l.empty()) continue; int w = i < 2 ? 0 : i < 6 ? 1 : i < 12 ? 2 : 3; peak[w] = std::max(peak[w], l.back().second); have |= i == 23; }
    c["resets"] += rr.cl[0].ph.size() - 1;
  }
  note(rr, have);
  // what is kept per repetition shows in every window, in proportion to its length (twice the one before); a few bytes more are a longer text than before
  size_t least = s.aux[0] ? 48 : 160;
  if (have && peak[1] && peak[2] > peak[1] && peak[3] >= peak[2] + least && peak[3] - peak[2] >= peak[2] - peak[1]) return bad(s.aux[0] ? "growth-over-resets" : "growth-over-stream", fmt("bytes held at equal points keep growing: at most %zu, %zu, %zu, %zu in %s up to 10, 20, 40, 80", peak[0], peak[1], peak[2], peak[3], s.aux[0] ? "reset rounds (scaled)" : "units"));
  return OKV;
}
std::vector<CheckDef> gChecks = {
  {"C01", genC01, chkC01, "a generated document (with DTD, entities, namespaces, encodings, corruption chosen per run) delivered by a random schedule is compared with the same parser fed whole; non-trivial: the schedule has at least one cut", 60000, 2000000},
  {"C02", genC02, chkC02, "random suspension points (one to all callbacks), resumed by the application, children suspended with their parents; compared with the uninterrupted run; non-trivial: at least one suspension took effect", 60000, 2000000},
  {"C03", genC03, chkC03, "aborts, stops and misuse calls at random callbacks and between calls; non-trivial: at least one such action took effect", 60000, 2000000},
  {"C04", genC04, chkC04, "positions and input context queried at random instants under random schedules; compared with counting over the stream, the whole-document run and the reference; non-trivial: events were reported", 40000, 1500000},
  {"C05", genC05, chkC05, "an allocation failure injected at a random allocation of the run (once, from then on, periodically, or for large requests); non-trivial: the failure fired", 50000, 1500000},
  {"C06", genC06, chkC06, "random API histories over one to four documents per parser under guard-page or poisoning allocator; non-trivial: the library allocated during the run", 40000, 1500000},
  {"C07", genC07, chkC07, "a history cut off anywhere, then reset, then a second stream; compared with a new parser; non-trivial: the first history delivered events", 40000, 1500000},
  {"C08", genC08, chkC08, "two to four parsers on their own threads, switched by the scheduler at API calls and callbacks; compared with each alone under other hash seeds and heap layouts; non-trivial: at least two switches", 15000, 500000},
  {"C09", genC09, chkC09, "intact and corrupted streams under random schedules; compared with the C reference fed whole; non-trivial: events or an error were reported", 80000, 3000000},
  {"C10", genC10, chkC10, "a text encoded in one of seven encodings, cut anywhere including inside characters, compared with its UTF-8 form; corrupted bytes compared with the reference", 60000, 2000000},
  {"C11", genC11, chkC11, "namespace-heavy documents under random schedules and suspensions; compared with an independent resolution of prefixes and with the reference; non-trivial: more than two events", 50000, 2000000},
  {"C12", genC12, chkC12, "DTD-heavy documents with internal, external and parameter entities, each with its own schedule; compared with the reference; non-trivial: more than two events", 180000, 2000000},
  {"C13", genC13, chkC13, "default handler alone or with a random handler subset, XML_DefaultCurrent at random callbacks; byte conservation, schedule invariance and reference; non-trivial: events were reported", 50000, 2000000},
  {"C14", genC14, chkC14, "document or entity cut at a random byte under a random schedule; prefix relation with the complete run and verdict of the reference; non-trivial: the cut removed something", 50000, 2000000},
  {"C15", genC15, chkC15, "the 16-bit build under a random schedule compared with the 8-bit build fed whole; non-trivial: events were reported", 40000, 1500000},
  {"C20", genC20, chkC20, "a stream of 80 equal units (elements, namespaces, entities, references, text that varies), each cut alike, or one history repeated over 24 resets; bytes the library holds compared at equal points; non-trivial: the last unit or round was reached", 15000, 1000000},
  {"C16", genC16, chkC16, "one xmlwf process over 1-4 files with their entities on a simulated file system under a seeded read-splitting mode and I/O, file-kind and memory faults; exit status and message against a model driven by the reference parser; non-trivial: something was read", 40000, 1500000},
  {"C17", genC17, chkC17, "one xmlwf process with an output directory on a simulated file system under seeded read splitting, write, close and memory faults; output files against a model driven by the reference parser, fixed point by a second process; non-trivial: something was read", 40000, 1500000},
  {"C21", genC21, chkC21, "one xmlwf process over 1-4 files under the faults of C16 and C17, with every descriptor, stream and block it takes on the books; bad accesses, bad closes and what is left at exit; non-trivial: something was opened", 40000, 1500000},
};

// Known weakness of the encoding guess (the same in the reference): a stream whose second byte is 0 and whose first byte is none that
// announces an encoding is taken for UTF-16LE, unless that first byte is delivered alone. A violation that disappears when the first two
// bytes arrive together is exactly this one.
Verdict evalCheck(const CheckDef *cd, const Scenario &s, Counters &c) {
  Verdict v = cd->check(s, c);
  if (!v.bad) return v;
  Scenario q = s; bool any = false;
  auto fix = [&](const std::string &b, Deliv &d) {
    if (b.size() < 3 || b[1] != 0) return;
    unsigned char f = (unsigned char)b[0]; if (f == 0 || f == 0x3C || f == 0xFE || f == 0xFF || f == 0xEF) return;
    size_t got = 0, k = 0; while (k < d.chunks.size() && got < 2) got += d.chunks[k++].n;
    bool alone = d.chunks.empty() ? d.rest : false; size_t t = 0;
    for (size_t i = 0; i < d.chunks.size(); i++) { t += d.chunks[i].n; if (t == 1) alone = true; if (t > 1) break; }
    if (d.chunks.size() && t == 0 && d.rest) alone = true;
    if (!alone) return;
    any = true; d.chunks.erase(d.chunks.begin(), d.chunks.begin() + (long)k); d.chunks.insert(d.chunks.begin(), Chunk{(uint32_t)std::max<size_t>(got, 2), 0, 0});
  };
  for (auto &cl : q.clients) for (auto &p : cl.phases) { fix(p.doc, p.d); for (auto &e : p.ents) fix(e.bytes, e.d); }
  if (!any) return v;
  Counters c2; Verdict w = cd->check(q, c2);
  if (!w.bad) v.cls = "utf16-guess-one-byte";
  return v;
}
