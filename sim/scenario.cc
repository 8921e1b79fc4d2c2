// Scenario (= replay file) reading and writing.
#include "sim.h"
#include <sstream>
std::string hex(const std::string &s) { static const char *h = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o.empty() ? "-" : o; }
static std::string unhex(const std::string &s) { std::string o; if (s == "-") return o; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)(v(s[i]) << 4 | v(s[i + 1])); return o; }
std::string esc(const std::string &s, size_t max) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() > max) { o += "..."; break; }
    if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c == '\\') o += "\\\\";
    else if (c == 0x1f) o += " | "; else if (c == 0x1e) o += "<null>";
    else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\x%02x", c); o += t; } else o += (char)c;
  }
  return o;
}
static void putDeliv(std::ostringstream &o, const Deliv &d) {
  o << "  deliv " << (int)d.sepFinal << " " << (int)d.rest << " " << d.chunks.size();
  for (auto &c : d.chunks) o << " " << c.n << ":" << (int)c.mode << ":" << c.extra;
  o << "\n";
}
std::string serialize(const Scenario &s) {
  std::ostringstream o;
  o << "rexpat-sim-scenario 1\nproperty " << s.prop << "\nseed " << s.seed << "\n";
  o << "env " << s.env.hashSeed << " " << s.env.layoutSeed << " " << (int)s.env.amode << " " << (int)s.env.move << " " << (int)s.env.fmode << " " << s.env.failAt << " " << s.env.failArg << "\n";
  o << "aux " << s.aux.size(); for (auto a : s.aux) o << " " << a; o << "\n";
  for (auto &a : s.auxs) o << "auxs " << hex(a) << "\n";
  o << "baton " << s.baton.size(); for (auto b : s.baton) o << " " << (int)b; o << "\n";
  for (auto &c : s.clients) {
    o << "client\n";
    for (auto &p : c.phases) {
      const Config &g = p.c;
      o << " phase\n";
      o << "  # document: " << esc(p.doc, 3000) << "\n";
      o << "  config " << g.ns << " " << hex(g.enc) << " " << (int)g.encVia << " " << (int)g.triplets << " " << (int)g.paramEnt << " " << (int)g.foreignDTD << " " << (int)g.defExpand << " " << (int)g.parserArg << " " << (int)g.eerArg << " " << (int)g.useBase << " " << (int)g.nsaRet << " " << (int)g.query << " " << (int)g.encMode << " " << (int)g.freeModels << " " << (int)g.queryBetween << " " << (int)g.illegalBetween << " " << g.handlers << " " << (int)g.style << "\n";
      o << "  stopafter " << p.stopAfter << "\n";
      o << "  doc " << hex(p.doc) << "\n";
      putDeliv(o, p.d);
      for (auto &e : p.ents) { o << "  # entity " << esc(e.sysid) << ": " << esc(e.bytes, 2000) << "\n"; o << "  ent " << hex(e.sysid) << " " << hex(e.bytes) << " " << hex(e.enc) << " " << (int)e.how << " " << e.arg << "\n"; putDeliv(o, e.d); }
      for (auto &a : p.acts) o << "  act " << a.cb << " " << (int)a.kind << " " << a.arg << "\n";
    }
  }
  o << "end\n";
  return o.str();
}
bool deserialize(const std::string &txt, Scenario &s, std::string &err) {
  std::istringstream in(txt); std::string line;
  s = Scenario(); Client *c = nullptr; Phase *p = nullptr; Deliv *d = nullptr; bool end = false;
  if (!std::getline(in, line) || line != "rexpat-sim-scenario 1") { err = "not a scenario file"; return false; }
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; l >> k;
    if (k.empty() || k[0] == '#') continue;
    auto u8 = [&](uint8_t &x) { int t = 0; l >> t; x = (uint8_t)t; };
    if (k == "property") l >> s.prop;
    else if (k == "seed") l >> s.seed;
    else if (k == "env") { l >> s.env.hashSeed >> s.env.layoutSeed; u8(s.env.amode); u8(s.env.move); u8(s.env.fmode); l >> s.env.failAt >> s.env.failArg; }
    else if (k == "aux") { size_t n; l >> n; s.aux.resize(n); for (auto &a : s.aux) l >> a; }
    else if (k == "auxs") { std::string h; l >> h; s.auxs.push_back(unhex(h)); }
    else if (k == "baton") { size_t n; l >> n; s.baton.resize(n); for (auto &b : s.baton) u8(b); }
    else if (k == "client") { s.clients.emplace_back(); c = &s.clients.back(); p = nullptr; }
    else if (k == "phase") { if (!c) { err = "phase outside client"; return false; } c->phases.emplace_back(); p = &c->phases.back(); d = &p->d; }
    else if (k == "end") end = true;
    else if (!p) { err = "unexpected line: " + line; return false; }
    else if (k == "config") { Config &g = p->c; std::string e; l >> g.ns >> e; g.enc = unhex(e); u8(g.encVia); u8(g.triplets); u8(g.paramEnt); u8(g.foreignDTD); u8(g.defExpand); u8(g.parserArg); u8(g.eerArg); u8(g.useBase); u8(g.nsaRet); u8(g.query); u8(g.encMode); u8(g.freeModels); u8(g.queryBetween); u8(g.illegalBetween); l >> g.handlers; u8(g.style); }
    else if (k == "stopafter") l >> p->stopAfter;
    else if (k == "doc") { std::string h; l >> h; p->doc = unhex(h); d = &p->d; }
    else if (k == "ent") { std::string a, b, e; int how; uint32_t arg; l >> a >> b >> e >> how >> arg; Entity en; en.sysid = unhex(a); en.bytes = unhex(b); en.enc = unhex(e); en.how = (uint8_t)how; en.arg = arg; p->ents.push_back(en); d = &p->ents.back().d; }
    else if (k == "deliv") { size_t n; u8(d->sepFinal); u8(d->rest); l >> n; d->chunks.clear(); for (size_t i = 0; i < n; i++) { std::string t; l >> t; Chunk ch{}; unsigned a = 0, m = 0, x = 0; sscanf(t.c_str(), "%u:%u:%u", &a, &m, &x); ch.n = a; ch.mode = (uint8_t)m; ch.extra = x; d->chunks.push_back(ch); } }
    else if (k == "act") { Action a{}; int kind; l >> a.cb >> kind >> a.arg; a.kind = (uint8_t)kind; p->acts.push_back(a); }
    else { err = "unknown line: " + line; return false; }
    if (l.fail()) { err = "bad line: " + line; return false; }
  }
  if (!end) { err = "truncated scenario"; return false; }
  return true;
}
std::string showEv(const Ev &e) {
  char t[80];
  std::string o = evName[e.type];
  snprintf(t, sizeof t, "[p%d @%ld+%d", e.label, e.bi, e.bc); o += t;
  if (e.haspos) { snprintf(t, sizeof t, " %lu:%lu", e.line, e.col); o += t; }
  return o + "] " + esc(e.s, 160);
}
void count(Counters &c, const char *k, uint64_t n) { c[k] += n; }
