// Generation of documents, DTDs, entities, encodings, delivery schedules and corruptions.
#include "sim.h"
std::vector<uint32_t> decodeUtf8(const std::string &s, bool *ok) {
  std::vector<uint32_t> o; size_t i = 0; if (ok) *ok = true;
  while (i < s.size()) {
    unsigned char c = (unsigned char)s[i]; uint32_t cp; int n;
    if (c < 0x80) { cp = c; n = 1; } else if (c >= 0xC2 && c < 0xE0) { cp = c & 31; n = 2; } else if (c >= 0xE0 && c < 0xF0) { cp = c & 15; n = 3; } else if (c >= 0xF0 && c < 0xF5) { cp = c & 7; n = 4; }
    else { if (ok) *ok = false; o.push_back(0xFFFD); i++; continue; }
    bool bad = i + (size_t)n > s.size();
    for (int k = 1; !bad && k < n; k++) { unsigned char d = (unsigned char)s[i + (size_t)k]; if ((d & 0xC0) != 0x80) bad = true; cp = cp << 6 | (d & 63); }
    if (bad) { if (ok) *ok = false; o.push_back(0xFFFD); i++; continue; }
    o.push_back(cp); i += (size_t)n;
  }
  return o;
}
const char *encName[] = {"UTF-8", "UTF-8", "UTF-16", "UTF-16", "ISO-8859-1", "US-ASCII", "x-sim-sb", "x-sim-mb", "UTF-16LE", "UTF-16BE"};
int simsbMap(int b) {
  if (b < 0x80) return b;
  if (b == 0x81 || b == 0x9D) return -1;
  if (b < 0xC0) return 0x0410 + (b - 0x80);      // Cyrillic letters
  if (b < 0xF0) return 0x03B1 + (b - 0xC0) % 0x19 + (b >= 0xD9 ? 0x4DFF - 0x03B1 + 1 + (b - 0xD9) : 0);
  return b;                                       // Latin-1 tail
}
static int mbLead(int b) {
  if (b < 0x80) return b;
  if (b < 0x90) return -1;
  if (b < 0xD0) return -2;
  if (b < 0xE0) return -3;
  if (b < 0xF0) return -4;
  return b;
}
int simmbConvert(const char *s) {
  int b0 = (unsigned char)s[0], b1 = (unsigned char)s[1];
  int t1 = b1 - 0x40;
  if (t1 < 0 || t1 > 63) return -1;
  if (b0 < 0xD0) return 0x4E00 + (b0 - 0x90) * 64 + t1;
  int t2 = (unsigned char)s[2] - 0x40;
  if (t2 < 0 || t2 > 63) return -1;
  if (b0 < 0xE0) return b0 == 0xD0 ? 0x0400 + t1 * 4 + (t2 & 3) : 0x3000 + ((b0 - 0xD0) << 8 | t1 << 2 | (t2 & 3)) % 0x200;
  int t3 = (unsigned char)s[3] - 0x40;
  if (t3 < 0 || t3 > 63) return -1;
  return 0xAC00 + (b0 & 1) * 4096 + t2 * 64 + t3;
}
void simFillEncoding(const std::string &name, int mode, XEncoding *info, void *data, int (*conv)(void *, const char *), void (*rel)(void *), bool &ok) {
  ok = true;
  if (mode == 21 || mode == 23) {   // writes only what the encoding has
    XEncoding all = *info; simFillEncoding(name, 0, &all, data, conv, rel, ok); if (!ok) return;
    for (int i = 0; i < (mode == 23 ? 0x80 : 256); i++) if (all.map[i] != -1) info->map[i] = all.map[i];
    info->convert = all.convert; info->data = data; info->release = rel; return;
  }
  if (name == "x-sim-mb") { for (int i = 0; i < 256; i++) info->map[i] = mbLead(i); info->convert = conv; }
  else if (name == "x-sim-sb" || name.compare(0, 2, "x-") == 0) { for (int i = 0; i < 256; i++) info->map[i] = simsbMap(i); info->convert = nullptr; }
  else { ok = false; return; }
  info->data = data; info->release = rel;
  switch (mode) {  // unusual and unsuitable tables
  case 2: case 22: info->map['<'] = 'q'; break;             // ASCII markup remapped
  case 4: info->map[0x90] = -5; break;
  case 5: info->map[0xF5] = 0x10000; break;
  case 6: info->map[0x95] = -2; info->convert = nullptr; break;
  case 7: info->map['a'] = 'b'; break;
  case 8: info->map['$'] = '~'; info->map['^'] = 0x4E2D; break;
  case 9: info->map['$'] = 'x'; break;
  case 10: info->map[0x85] = 'x'; break;
  case 11: info->map[0x85] = '~'; break;
  case 12: info->map[0x90] = 0xD800; info->map[0x91] = 0xFFFE; info->map[0x92] = 0xFFFF; info->map[0x93] = 0; break;
  case 13: info->map[0x90] = 0xD7; info->map[0x91] = 0xE9; info->map[0x92] = 0x7FF; info->map[0x93] = 0x800; info->map[0x94] = 0xFFFD; break;
  case 14: info->map[1] = 0x416; info->map[0x7F] = 0xE9; break;
  case 15: info->map['\n'] = '\r'; break;
  case 16: for (int i = 0x80; i < 256; i++) info->map[i] = -1; break;
  case 17: info->map[0x90] = '\n'; break;
  case 18: info->map['~'] = -1; break;
  case 19: info->map['z'] = -1; break;
  }
}
bool encodeDoc(const std::vector<uint32_t> &cps, int enc, std::string &out) {
  out.clear();
  auto u16 = [&](uint32_t u, bool be) { if (be) { out += (char)(u >> 8); out += (char)u; } else { out += (char)u; out += (char)(u >> 8); } };
  bool be = enc == EN_UTF16BE || enc == EN_UTF16BE_NOBOM;
  if (enc == EN_UTF8BOM) out = "\xEF\xBB\xBF";
  if (enc == EN_UTF16LE || enc == EN_UTF16BE) u16(0xFEFF, be);
  for (uint32_t c : cps) {
    switch (enc) {
    case EN_UTF8: case EN_UTF8BOM: out += utf8(c); break;
    case EN_UTF16LE: case EN_UTF16BE: case EN_UTF16LE_NOBOM: case EN_UTF16BE_NOBOM:
      if (c >= 0x10000) { c -= 0x10000; u16(0xD800 + (c >> 10), be); u16(0xDC00 + (c & 1023), be); } else u16(c, be); break;
    case EN_LATIN1: if (c > 255) return false; out += (char)c; break;
    case EN_ASCII: if (c > 127) return false; out += (char)c; break;
    case EN_SIMSB: { if (c < 128) { out += (char)c; break; } int f = -1; for (int b = 128; b < 256; b++) if (simsbMap(b) == (int)c) { f = b; break; } if (f < 0) return false; out += (char)f; break; }
    case EN_SIMMB:
      if (c < 128 || (c >= 0xF0 && c < 0x100)) out += (char)c;
      else if (c >= 0x4E00 && c < 0x4E00 + 64 * 64) { c -= 0x4E00; out += (char)(0x90 + (c >> 6)); out += (char)(0x40 + (c & 63)); }
      else if (c >= 0x400 && c < 0x500) { c -= 0x400; out += (char)0xD0; out += (char)(0x40 + (c >> 2)); out += (char)(0x40 + (c & 3)); }
      else if (c >= 0xAC00 && c < 0xAC00 + 8192) { c -= 0xAC00; out += (char)(0xE0 + (c >> 12)); out += (char)0x41; out += (char)(0x40 + (c >> 6 & 63)); out += (char)(0x40 + (c & 63)); }
      else return false;
      break;
    }
  }
  return true;
}
static std::string anyCase(Rng &r, std::string s) { if (s.compare(0, 2, "x-") && r.chance(25)) for (auto &c : s) if (r.chance(50)) c = (char)(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c); return s; }
static uint32_t charFor(Rng &r, int enc, bool name) {
  static const std::vector<uint32_t> n2 = {0xE9, 0xF1, 0x3B1, 0x416, 0x5D0}, n3 = {0x4E2D, 0x6587, 0x30A2, 0xAC00, 0x0E01}, x2 = {0xA0, 0xD7, 0x2BB + 0, 0x7FF, 0x80, 0x85}, x3 = {0x2028, 0xFFFD, 0xE000, 0xD7FF, 0x800, 0x2020, 0xFEFF, 0x3000}, x4 = {0x10000, 0x1F600, 0x10FFFF, 0x1F4A9, 0x2F800, 0x10FFFD};
  switch (enc) {
  case EN_ASCII: return 'a' + r.below(26);
  case EN_LATIN1: return name ? (r.chance(50) ? 0xE9 : 0xC0 + r.below(20)) : 0xA0 + r.below(96);
  case EN_SIMSB: { int b; uint32_t c; do { b = 0x80 + (int)r.below(name ? 0x40 : 0x80); c = (uint32_t)simsbMap(b); } while ((int)c < 0 || (name && (c < 0x410 || c > 0x44F))); return c; }
  case EN_SIMMB: switch (r.below(4)) { case 0: return name ? 0xF1 : 0xF0 + r.below(16); case 1: return 0x4E00 + r.below(4096); case 2: return 0x410 + r.below(60); default: return 0xAC00 + r.below(8000); }
  }
  switch (r.below(name ? 2 : 5)) {
  case 0: return r.pick(n2);
  case 1: return r.pick(n3);
  case 2: return r.pick(x2);
  case 3: return r.pick(x3);
  default: return r.pick(x4);
  }
}
static const int TEXT_MAXLONG = 3200;

struct DocGen {
  Rng &r; GenOpts o; Phase &p; int enc;
  bool standalone = false, sawPEref = false, hasDoctype = false, extSubset = false, damaged = false;
  std::vector<std::string> names, pref, uris;
  struct Ent { std::string n; bool ext, attOk; int cost; };
  std::vector<Ent> ents; std::vector<std::string> pes, tpes, notations;
  std::vector<std::pair<std::string, std::vector<std::string>>> declared;  // element types with their declared attributes
  int entNo = 0, sysNo = 0, budget = 0, expand = 0;
  std::vector<std::vector<std::pair<std::string, std::string>>> scope;  // ns declarations
  int extDepth = 0; bool inExtSubset = false;
  DocGen(Rng &r, const GenOpts &o, Phase &p) : r(r), o(o), p(p) {}
  std::string ch(bool name) { return utf8(charFor(r, enc, name)); }
  std::string word(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + r.below(26)); return s; }
  std::string mkname() {
    std::string s;
    int k = (int)r.below(100);
    if (k < 50) s = word(r.range(1, 4));
    else if (k < 70) s = word(2) + (r.chance(50) ? "-" : ".") + word(2) + std::to_string(r.below(10));
    else if (k < 88) { s = word(1) + ch(true) + (r.chance(50) ? word(2) : ""); if (r.chance(30)) s = ch(true) + s; }
    else if (k < 97) s = word(r.range(24, 70));
    else s = o.bigTokens ? word(r.range(900, 1300)) : "_x";
    return s;
  }
  std::string nm() { if (names.size() < 4 || r.chance(15)) { names.push_back(mkname()); if (names.back().size() > 200 && names.size() < 3) names.back() = "nn"; } return r.pick(names); }
  std::string oddUri() {
    std::string x = r.chance(50) ? "http://www.w3.org/XML/1998/namespace" : "http://www.w3.org/2000/xmlns/";
    switch (r.below(5)) { case 0: return x.substr(0, (size_t)r.range(1, (int)x.size() - 1)); case 1: return x + (r.chance(50) ? "/" : "x"); case 2: { x[r.below((uint32_t)x.size())] ^= 1; return x; } case 3: return x.substr(1); default: return o.malformed ? x : "x"; }
  }
  std::string ws() { switch (r.below(8)) { case 0: return "\n"; case 1: return "\r\n"; case 2: return "\t"; case 3: return "  "; case 4: return "\r"; default: return " "; } }
  std::string ows() { return r.chance(20) ? ws() : ""; }
  std::string charref() {
    static const std::vector<uint32_t> v = {65, 10, 13, 9, 32, 0x3C, 0x26, 0x22, 0x3E, 0xE9, 0x4E2D, 0x1F600, 0x10FFFF, 0xFFFD, 0xD7FF};
    uint32_t c = r.pick(v); char t[24];
    if (r.chance(50)) snprintf(t, sizeof t, "&#%u;", c); else snprintf(t, sizeof t, r.chance(50) ? "&#x%x;" : "&#x%04X;", c);
    return t;
  }
  std::string bi() { static const char *b[] = {"&lt;", "&gt;", "&amp;", "&quot;", "&apos;"}; return b[r.below(5)]; }
  std::string entref(bool att) {
    if (ents.empty()) return bi();
    for (int i = 0; i < 4; i++) { const Ent &e = r.pick(ents); if (att && !e.attOk) continue; if (expand + e.cost > 4000) continue; expand += e.cost; return "&" + e.n + ";"; }
    return bi();
  }
  std::string textBit() {
    switch (r.below(20)) {
    case 0: case 1: case 2: case 3: return word(r.range(1, 12));
    case 4: case 5: return ws();
    case 6: { std::string s; int n = r.range(1, 6); while (n--) s += ch(false); return s; }
    case 7: return charref();
    case 8: return bi();
    case 9: return r.chance(60) ? "]" : "]]";
    case 10: return entref(false);
    case 11: return o.bigTokens && r.chance(15) ? longText() : word(5);
    case 12: return "\n";
    case 13: return "\r\n";
    case 14: return "\r";
    case 15: return "> '\" ";
    case 16: return entref(false);
    default: return " " + word(3);
    }
  }
  std::string longText() {
    if (r.chance(45)) {   // wide characters right where a conversion buffer or a pool block of 1024 (or 512) units ends
      std::string s; int k = r.range(1, 3), unit = r.chance(75) ? 1024 : 512;
      while (k--) { std::string f((size_t)(unit - r.range(0, 6)), (char)('a' + r.below(26))); s += f; int m = r.range(1, 5); while (m--) s += r.chance(80) ? ch(false) : word(1); }
      return s; }
    std::string s; int n = r.chance(50) ? r.range(1000, 1060) : r.range(200, TEXT_MAXLONG);
    bool multi = r.chance(50);
    while ((int)s.size() < n) { if (multi && r.chance(30)) s += ch(false); else s += (char)('a' + r.below(26)); if (r.chance(1)) s += ws(); }
    return s;
  }
  std::string text(int n) { std::string s; while (n-- > 0) { s += textBit(); size_t k = s.find("]]>"); if (k != std::string::npos) s.replace(k, 3, "]] "); } if (!s.empty() && s.back() == ']') s += " "; return s; }
  std::string attval(char q, bool dtdDefault) {
    std::string s; int n = r.chance(10) ? 0 : r.range(1, 4);
    while (n--) switch (r.below(12)) {
      case 0: s += ws(); break;
      case 1: s += charref(); break;
      case 2: s += bi(); break;
      case 3: s += entref(true); break;
      case 4: s += ch(false); break;
      case 5: s += "  " + word(2) + " "; break;
      case 6: s += q == '"' ? "'" : "\""; break;
      case 7: if (o.bigTokens && r.chance(8)) { std::string t = longText(); s += t; } else s += "x>"; break;
      default: s += word(r.range(1, 8));
    }
    (void)dtdDefault;
    return s;
  }
  std::string quoted(const std::string &v, char q) { return std::string(1, q) + v + q; }
  std::string comment() { std::string s = "<!--"; int n = (int)r.below(5); while (n--) s += r.chance(30) ? "- " : r.chance(30) ? ws() : r.chance(20) ? ch(false) : word(4); if (o.bigTokens && r.chance(3)) s += longText(); if (s.size() > 4 && s.back() == '-') s += " "; return s + "-->"; }
  std::string pi() { std::string t = mkname(); if (t == "xml" || t.size() > 200) t = "pi"; std::string s = "<?" + t; if (r.chance(70)) { s += ws(); int n = (int)r.below(4); while (n--) s += r.chance(20) ? "?" : r.chance(20) ? ch(false) : word(4) + ows(); if (s.back() == '?') s += " "; } return s + "?>"; }
  std::string cdata() { std::string s = "<![CDATA["; int n = (int)r.below(6); while (n--) switch (r.below(7)) { case 0: s += "]"; break; case 1: s += "]] "; break; case 2: s += "<&>"; break; case 3: s += ws(); break; case 4: s += ch(false); break; case 5: if (o.bigTokens && r.chance(10)) s += longText(); break; default: s += word(5); }
    size_t k; while ((k = s.find("]]>", 9)) != std::string::npos) s.replace(k, 3, "]] "); return s + "]]>"; }
  bool bound(const std::string &pf) { for (auto &v : scope) for (auto &d : v) if (d.first == pf) { /* may have been undeclared */ } for (size_t i = scope.size(); i--;) for (auto &d : scope[i]) if (d.first == pf) return !d.second.empty(); return pf == "xml"; }
  std::string qname(bool att, const std::vector<std::pair<std::string, std::string>> &) {
    std::string n = nm();
    if (!o.ns) return r.chance(8) ? n + ":" + word(2) : n;
    if (r.chance(o.nsHeavy ? 65 : 40)) {
      std::vector<std::string> can; for (auto &q : pref) if (bound(q)) can.push_back(q);
      if (!can.empty()) return r.pick(can) + ":" + n;
      if (r.chance(2)) return "zz:" + n;
    }
    (void)att;
    return n;
  }
  std::string element(int depth) {
    budget--;
    std::vector<std::pair<std::string, std::string>> decl;
    std::string atts; std::set<std::string> used;
    if (o.ns && r.chance(o.nsHeavy ? 50 : 25)) {
      int n = r.chance(80) ? 1 : r.range(2, 4);
      while (n--) {
        std::string pf = r.chance(35) ? "" : r.pick(pref);
        std::string uri = r.pick(uris);
        if (pf.empty() && r.chance(25)) uri = "";
        bool dup = false; for (auto &d : decl) if (d.first == pf) dup = true;
        if (dup) continue;
        decl.push_back({pf, uri});
      }
    }
    scope.push_back(decl);
    auto usable = [&](const std::string &x) { size_t c = x.find(':'); return x.size() < 300 && x.compare(0, 5, "xmlns") && (!o.ns || c == std::string::npos || (c > 0 && bound(x.substr(0, c)))); };
    const std::pair<std::string, std::vector<std::string>> *dt = nullptr;
    if (!declared.empty() && r.chance(35)) { dt = &declared[r.below((uint32_t)declared.size())]; if (!usable(dt->first)) dt = nullptr; }
    std::string n0 = dt ? dt->first : "";
    std::vector<std::string> dn; if (dt) dn = dt->second;
    std::vector<std::string> al;
    char q = r.chance(60) ? '"' : '\'';
    for (auto &d : decl) al.push_back((d.first.empty() ? "xmlns" : "xmlns:" + d.first) + ows() + "=" + ows() + quoted(d.second, q));
    int na = r.chance(40) ? 0 : r.chance(o.attHeavy ? 30 : 4) ? r.range(12, 40) : r.range(1, 4);
    for (int i = 0; i < na; i++) {
      std::string n = qname(true, decl);
      if (na > 10) n = "a" + std::to_string(i);
      if (r.chance(3)) n = r.chance(50) ? "xml:lang" : "xml:space";
      bool tok = false; if (!dn.empty() && r.chance(50)) { const std::string &d = r.pick(dn); if (usable(d)) { n = d; tok = r.chance(60); } }
      if (!used.insert(n).second) continue;
      // two prefixes may share a URI: keep local names distinct to stay well formed
      size_t c = n.find(':'); if (o.ns && c != std::string::npos && !used.insert("*" + n.substr(c)).second) continue;
      if (n.size() > 300) continue;
      q = r.chance(60) ? '"' : '\'';
      al.push_back(n + ows() + "=" + ows() + quoted(tok ? ows() + ws() + attval(q, false) + ws() + ws() + word(2) + ows() : attval(q, false), q));
    }
    for (size_t i = al.size(); i > 1; i--) std::swap(al[i - 1], al[r.below((uint32_t)i)]);
    for (auto &a : al) atts += ws() + a;
    std::string n = n0.empty() ? qname(false, decl) : n0;
    std::string s = "<" + n + atts + ows();
    if (r.chance(25)) s += "/>";
    else { s += ">"; s += content(depth + 1); s += "</" + n + ows() + ">"; }
    scope.pop_back();
    return s;
  }
  std::string content(int depth) {
    std::string s; int n = r.chance(15) ? 0 : r.range(1, depth > 6 ? 2 : 5);
    if (depth == 1) n = r.range(1, 6) + o.size / 12;
    while (n-- > 0) {
      if (budget <= 0 || depth > 30) { s += text(1); break; }
      budget--;
      switch (r.below(o.textHeavy ? 16 : 11)) {
      case 0: case 1: case 2: s += element(depth); break;
      case 3: s += comment(); break;
      case 4: s += pi(); break;
      case 5: s += cdata(); break;
      default: s += text(r.range(1, 4));
      }
    }
    size_t k; while ((k = s.find("]]>")) != std::string::npos && s.rfind("<![CDATA[", k) == std::string::npos) s.replace(k, 3, "]] ");
    return s;
  }
  std::string model(int depth) {
    std::string s; int n = r.range(1, 4); bool alt = r.chance(50);
    s = "(" + ows();
    for (int i = 0; i < n; i++) { if (i) s += ows() + (alt ? "|" : ",") + ows(); if (depth < 4 && r.chance(25)) s += model(depth + 1); else { s += nm(); if (r.chance(40)) s += "?*+"[r.below(3)]; } }
    s += ows() + ")";
    if (r.chance(40)) s += "?*+"[r.below(3)];
    return s;
  }
  std::string elementDecl() {
    std::string s = "<!ELEMENT" + ws() + (o.ns && r.chance(30) ? r.pick(pref) + ":" : "") + nm() + ws();
    switch (r.below(6)) {
    case 0: s += "EMPTY"; break;
    case 1: s += "ANY"; break;
    case 2: s += "(#PCDATA)"; if (r.chance(30)) s += "*"; break;
    case 3: { s += "(" + ows() + "#PCDATA"; int n = r.range(1, r.chance(10) ? 20 : 3); while (n--) s += ows() + "|" + ows() + nm(); s += ows() + ")*"; break; }
    default: if (r.chance(4)) { int n = r.range(10, 70); for (int i = 0; i < n; i++) s += "("; s += nm(); for (int i = 0; i < n; i++) { if (r.chance(20)) s += (r.chance(50) ? "," : "|") + nm(); s += ")"; if (r.chance(20)) s += "?*+"[r.below(3)]; } } else s += model(0);
    }
    return s + ows() + ">";
  }
  std::string attlist() {
    std::string et = (o.ns && r.chance(25) ? r.pick(pref) + ":" : "") + nm(), s = "<!ATTLIST" + ws() + et; std::vector<std::string> mine;
    int n = r.chance(4) ? r.range(9, 40) : r.range(0, 3); bool many = n > 8; int no = 0;
    while (n--) {
      std::string an = o.ns && r.chance(30) ? (r.chance(50) ? "xmlns:" + r.pick(pref) : r.chance(30) ? "xmlns" : r.pick(pref) + ":" + nm()) : nm();
      if (an.size() > 300) an = "la";
      if (many) an = "m" + std::to_string(no++);
      bool isns = an.compare(0, 5, "xmlns") == 0;
      s += ws() + an + ws(); mine.push_back(an);
      bool cd = true;
      switch (isns ? 0 : r.below(9)) {
      case 0: case 1: s += "CDATA"; break;
      case 2: s += "ID"; cd = false; break;
      case 3: s += r.chance(50) ? "IDREF" : "IDREFS"; cd = false; break;
      case 4: s += r.chance(50) ? "NMTOKEN" : "NMTOKENS"; cd = false; break;
      case 5: s += r.chance(50) ? "ENTITY" : "ENTITIES"; cd = false; break;
      case 6: case 7: { s += "(" + word(2); int k = (int)r.below(3); while (k--) s += ows() + "|" + ows() + word(2); s += ")"; cd = false; break; }
      default: if (!notations.empty()) { s += "NOTATION" + ws() + "(" + ows() + r.pick(notations) + ows(); int k = (int)r.below(3); while (k--) s += "|" + ows() + r.pick(notations) + ows(); s += ")"; cd = false; } else s += "CDATA";
      }
      (void)cd;
      s += ws();
      char q = r.chance(60) ? '"' : '\'';
      switch (isns ? 3 + r.below(2) : r.below(5)) {
      case 0: s += "#REQUIRED"; break;
      case 1: s += "#IMPLIED"; break;
      case 2: s += "#FIXED" + ws() + quoted(attval(q, true), q); break;
      default: s += isns ? quoted(r.pick(uris), q) : quoted(attval(q, true), q);
      }
    }
    declared.push_back({et, mine});
    return s + ows() + ">";
  }
  std::string pubid() { static const char *v[] = {"-//X//DTD a//EN", "  spaced \n id ", "p", "ISO 8879:1986//ENTITIES"};
    if (r.chance(60)) return v[r.below(4)];
    static const std::string ok = " \r\nabcXYZ0189-()+,./:=?;!*#@$_%"; std::string s; int n = r.range(0, 12); while (n--) s += ok[r.below((uint32_t)ok.size())];
    if (o.malformed && r.chance(5)) { static const std::string bad = "\t\"&<>[]\\^`{|}~\x7f\x01\xC3"; char c = bad[r.below((uint32_t)bad.size())]; s.insert(r.below((uint32_t)s.size() + 1), c == '\xC3' ? std::string("\xC3\xA9") : std::string(1, c)); damaged = true; }
    return s; }
  // An XML or text declaration put together from parts, most of them wrong somewhere.
  std::string oddDecl(bool text) {
    damaged = true; std::string s = r.chance(96) ? "<?xml" : r.chance(50) ? "<?xmL" : "<?XML"; bool at[3] = {r.chance(text ? 60 : 90), r.chance(text ? 85 : 60), r.chance(text ? 15 : 50)};
    static const char *nmv[] = {"version", "encoding", "standalone"}; int ord[3] = {0, 1, 2}; if (r.chance(15)) std::swap(ord[r.below(3)], ord[r.below(3)]);
    static const char *val[3][8] = {{"1.0", "1.0", "1.0", "1.1", "", "1 0", "2", "1.0:a-b_c"}, {"UTF-8", "utf-8", "us-ascii", "x", "", "1x", "UTF 8", "iso-8859-1"}, {"yes", "no", "yes", "no", "", "Yes", "n", "nope"}};
    int fault = r.chance(12) ? -1 : (int)r.below(3);
    for (int i = 0; i < 3; i++) { int k = ord[i]; if (!at[k]) continue; if (r.chance(4)) i--;
      std::string n = nmv[k], sp = ws(), e1 = r.chance(80) ? "" : ws(), e2 = r.chance(80) ? "" : ws(), eq = "=", q = r.chance(50) ? "'" : "\"", q2 = q, v = val[k][r.below(i == fault ? 8 : 2)];
      if (i == fault) switch (r.below(12)) { case 0: n = ""; break; case 1: n += "x"; break; case 2: n.resize(n.size() - 1); break; case 3: sp = ""; break; case 4: eq = ""; break; case 5: q = ""; break; case 6: q2 = ""; break; case 7: q2 = q == "'" ? "\"" : "'"; break; case 8: v.insert(r.below((uint32_t)v.size() + 1), r.chance(50) ? ch(false) : "&#65;"); break; case 9: n.insert(r.below((uint32_t)n.size() + 1), ws()); break; case 10: q = q2 = r.chance(50) ? "?" : "a"; break; default:; }
      s += sp + n + e1 + eq + e2 + q + v + q2; }
    s += ows(); if (r.chance(6)) s += r.chance(50) ? "x" : ch(false); return s + (r.chance(92) ? "?>" : r.chance(50) ? ">" : "? >");
  }
  // A declaration with one token dropped, doubled, replaced or put in.
  std::string oddMarkup(bool ext) {
    damaged = true;
    if (r.chance(30)) { static const char *v[] = {"]>", "]", ">", "<!", "<!ENTITY y", "<!ENTITY % z", "-->", "<!--", "<![INCLUDE[", "<![IGNORE[", "<![", "]]>", "<?p", "?>", "<!ELEMENT a (", "<!ELEMENT a", "(b)>", "'", "'x'", "PUBLIC", "<a/>", "&#38;#60;a/>", "%zz;", "&#37;zz;", "&#37;yy;", "x", "<!ATTLIST a b", "CDATA 'x'>", "<!ELEMENT a ANY>]>", "<!ELEMENT a ANY", "<!DOCTYPE a>", "<?xml version='1.0'?>", "<?xml encoding='utf-8'?>", "<!NOTATION n SYSTEM", " ", "&e0;", "|b", "#PCDATA"};
      std::string n = r.chance(40) ? (r.chance(50) ? "zz" : "yy") : "zz" + std::to_string(entNo++), w = v[r.below(sizeof v / sizeof *v)], q = w.find('\'') != std::string::npos ? "\"" : "'", s;
      if (o.ext && r.chance(30)) { std::string sys = "z" + std::to_string(sysNo++); addEntity(sys, w, true, true); s = "<!ENTITY % " + n + " SYSTEM '" + sys + "'>"; }
      else s = "<!ENTITY % " + n + " " + q + w + q + ">";
      return s + (!ext || r.chance(50) ? "%" + n + ";" : r.chance(50) ? "<!ELEMENT a (b%" + n + ";)>" : "<!ATTLIST a %" + n + "; CDATA #IMPLIED>"); }
    std::string d; switch (r.below(6)) { case 0: d = elementDecl(); break; case 1: case 2: d = attlist(); break; case 3: d = entityDecl(); break; case 4: d = notationDecl(); break; default: d = ext ? "<![INCLUDE[" + simpleDecl() + "]]>" : entityDecl(); }
    std::vector<std::string> tk;
    for (size_t i = 0; i < d.size();) { size_t b = i; unsigned char c = (unsigned char)d[i]; auto name = [&](unsigned char x) { return isalnum(x) || x >= 0x80 || strchr(":_.-", x); };
      if (c == '"' || c == '\'') { i = d.find((char)c, i + 1); i = i == std::string::npos ? d.size() : i + 1; }
      else if (isspace(c)) while (i < d.size() && isspace((unsigned char)d[i])) i++;
      else { i++; if (c == '<' || c == '#' || c == '%' || name(c)) { if (c == '<' && i < d.size()) i++; while (i < d.size() && name((unsigned char)d[i])) i++; if (c == '%' && i < d.size() && d[i] == ';') i++; } }
      tk.push_back(d.substr(b, i - b)); }
    static const char *v[] = {"<!ELEMENT", "<!ATTLIST", "<!ENTITY", "<!NOTATION", "<!X", "<!--c-->", "<?p d?>", "<![", "<a>", "</a>", "(", ")", ")*", ")+", ")?", "|", ",", "*", "?", "+", ">", "[", "]", "]]>", "%", "#PCDATA", "#REQUIRED", "#IMPLIED", "#FIXED", "#X", "CDATA", "ID", "NMTOKENS", "ENTITY", "NOTATION", "SYSTEM", "PUBLIC", "NDATA", "EMPTY", "ANY", "INCLUDE", "IGNORE", "name", "1tok", "p:q", "a:b:c", "'lit'", "\"lit\"", "''", " ", "\n", "=", "/", "&e0;", "%p1;", "\xC3\xA9", "\xE2\x82\xAC", "x*", "x+", "-", ".", ";"};
    for (int n = r.chance(75) ? 1 : 2; n-- && tk.size() > 1;) { size_t k = 1 + r.below((uint32_t)tk.size() - 1); std::string w = v[r.below(sizeof v / sizeof *v)];
      switch (r.below(5)) { case 0: tk.erase(tk.begin() + (long)k); break; case 1: tk.insert(tk.begin() + (long)k, tk[k]); break; case 2: tk.insert(tk.begin() + (long)k, w); break; case 3: std::swap(tk[k], tk[1 + r.below((uint32_t)tk.size() - 1)]); break; default: tk[k] = w; } }
    std::string s; for (auto &x : tk) s += x; return s;
  }
  std::string extid(const std::string &sys) { return r.chance(60) ? "SYSTEM" + ws() + "\"" + sys + "\"" : "PUBLIC" + ws() + "'" + pubid() + "'" + ws() + "\"" + sys + "\""; }
  uint8_t pickHow(bool pe) {
    int k = (int)r.below(100);
    if (k < 80) return HOW_INLINE;
    if (k < 83) return HOW_MISSING;
    if (k < 87) return HOW_IGNORE;
    if (k < 97) return pe ? HOW_INLINE : HOW_SUSPEND;
    return pe ? HOW_INLINE : HOW_INLINE;
  }
  // the name of the encoding in its declaration; sometimes one that contradicts the bytes
  const char *declName(int en) {
    if (o.malformed && r.chance(5)) { int k = (int)r.below(10); if (k != EN_SIMSB && k != EN_SIMMB) return encName[k]; }   // (with those, which rows of the declaration were already counted shows)
    if (en != EN_UTF16LE && en != EN_UTF16BE) return encName[en];
    if (o.malformed && r.chance(12)) return encName[en == EN_UTF16LE ? 9 : 8];
    return r.chance(25) ? encName[en == EN_UTF16LE ? 8 : 9] : encName[en];
  }
  void addEntity(const std::string &sys, const std::string &body, bool pe, bool textDecl) {
    Entity e; e.sysid = sys; 
    int en = pickEnc(true);
    std::string t;
    bool needDecl = en >= EN_LATIN1 && en <= EN_SIMMB;
    if (needDecl && r.chance(15)) { e.enc = encName[en]; needDecl = false; }
    if (textDecl && o.malformed && r.chance(3)) t = oddDecl(true);
    else if (textDecl && (needDecl || r.chance(25))) t = std::string("<?xml") + ws() + (r.chance(50) ? "version=\"1.0\" " : "") + "encoding=\"" + anyCase(r, declName(en)) + "\"" + ows() + "?>";
    else if (needDecl) { en = EN_UTF8; }
    std::vector<uint32_t> cps = decodeUtf8(t + body);
    if (!encodeDoc(cps, en, e.bytes)) { t = ""; e.enc = ""; encodeDoc(decodeUtf8(body), EN_UTF8, e.bytes); }
    e.how = pickHow(pe);
    p.ents.push_back(e);
  }
  int pickEnc(bool ent) {
    int k = (int)r.below(100);
    if (ent) { if (enc >= EN_LATIN1 && enc <= EN_SIMMB) return r.chance(60) ? enc : EN_UTF8; return k < 70 ? EN_UTF8 : k < 78 ? EN_UTF8BOM : k < 89 ? EN_UTF16LE : EN_UTF16BE; }
    if (k < 58) return EN_UTF8;
    if (k < 63) return EN_UTF8BOM;
    if (k < 70) return EN_UTF16LE;
    if (k < 77) return EN_UTF16BE;
    if (k < 84) return EN_LATIN1;
    if (k < 88) return EN_ASCII;
    if (k < 94) return o.unknownEnc ? EN_SIMSB : EN_UTF8;
    return o.unknownEnc ? EN_SIMMB : EN_UTF8;
  }
  std::string entityDeclIn() { std::string t = entityDecl(); extDepth--; return t; }
  std::string entityDecl() {
    std::string n = "e" + std::to_string(entNo++);
    if (r.chance(10)) n = word(40) + n;
    if (r.chance(15)) n = ch(true) + n;
    if (!ents.empty() && r.chance(7)) n = r.pick(ents).n;       // declared again: the first declaration counts
    std::string s = "<!ENTITY" + ws();
    char q = r.chance(60) ? '"' : '\'';
    int k = (int)r.below(100);
    if (k < 55) {  // internal general
      std::string v; bool att = true; int cost = 30; int save = expand; expand = 0;
      if (r.chance(45)) { GenOpts so = o; int sb = budget; budget = 4; auto sc = scope; if (!ents.empty() && r.chance(40)) v += entref(false); v += content(25); budget = sb; scope = sc; att = false; }
      else { int c = r.range(0, 3); while (c--) { v += r.chance(30) ? charrefSafe() : r.chance(25) && !ents.empty() ? entrefAtt() : r.chance(20) ? ws() : word(4); } if (o.bigTokens && r.chance(4)) v += longText(); }
      std::string w; for (char c : v) { if (c == q) w += q == '"' ? "&#34;" : "&#39;"; else if (c == '%') w += "&#37;"; else w += c; }
      if (o.malformed && r.chance(6)) { static const char *bad[] = {"<u>", "</u>", "<u>&#13;", "<u>]", "&#60;", "<", "&#38;", "]]>", "]]", "<u a='", "<![CDATA[", "<!--x", "<?p", "<u/>&#60;u>", "</u><u>", "&#38;#60;", "&#38;lt", "&#x26;e0;", "<u", "&#13;", "&#xD;&#xA;"}; w += bad[r.below(21)]; for (auto &c : w) if (c == q) c = ' '; }
      if (inExtSubset && !tpes.empty() && r.chance(40)) { w += "%" + r.pick(tpes) + ";" + word(1); cost += 60; if (r.chance(30)) w += "%" + r.pick(tpes) + ";"; }
      cost += (int)w.size() + expand; expand = save;
      if (cost > 3000) { w = "big"; cost = 30; att = true; }
      // character references to markup characters would be expanded inside the literal: keep the entity balanced
      s += n + ws() + quoted(w, q) + ows() + ">";
      bool again = false; for (auto &e : ents) if (e.n == n) again = true;
      if (!again) ents.push_back({n, false, att, cost});
      return s;
    }
    if (k < 70 && o.ext) {  // external general
      std::string sys = "s" + std::to_string(sysNo++);
      int sb = budget; budget = 6; auto sc = scope; int sv = expand; expand = 0;
      std::string body = extDepth > 2 ? word(3) : (extDepth++, content(20));
      if (!ents.empty() && extDepth && r.chance(35)) for (int i = r.range(1, 4); i--;) body += entref(false);
      if (extDepth) extDepth--;
      budget = sb; scope = sc; int cost = 40 + (int)body.size() + expand; expand = sv;
      addEntity(sys, body, false, true);
      s += n + ws() + extid(sys) + ows() + ">";
      bool again = false; for (auto &e : ents) if (e.n == n) again = true;
      if (!again) ents.push_back({n, true, false, cost});
      return s;
    }
    if (k < 78 && o.ext) { std::string nt = notations.empty() ? "nt" : r.pick(notations); return s + n + ws() + extid("u" + std::to_string(sysNo++)) + ws() + "NDATA" + ws() + nt + ows() + ">"; }
    std::string pn = "p" + std::to_string(entNo); if (!pes.empty() && r.chance(7)) pn = r.pick(pes);
    if (k < 90 || !o.ext) {  // internal parameter entity: whole declarations, or nothing
      std::string v; int c = r.range(0, 2); while (c--) v += r.chance(50) ? simpleDecl() : ws();
      std::string w; for (char c2 : v) { if (c2 == q) w += q == '"' ? "&#34;" : "&#39;"; else if (c2 == '%') w += "&#37;"; else if (c2 == '&') w += "&#38;"; else w += c2; }
      pes.push_back(pn);
      return s + "%" + ws() + pn + ws() + quoted(w, q) + ows() + ">";
    }
    std::string sys = "d" + std::to_string(sysNo++);
    std::string body; int c = r.range(0, 3); bool sv = inExtSubset; inExtSubset = true; while (c--) body += extDepth < 2 && r.chance(30) ? (extDepth++, entityDeclIn()) : simpleDecl(); inExtSubset = sv;
    addEntity(sys, body, true, true);
    pes.push_back(pn);
    return s + "%" + ws() + pn + ws() + extid(sys) + ows() + ">";
  }
  std::string charrefSafe() { static const char *v[] = {"&#65;", "&#10;", "&#x4e2d;", "&#233;", "&#x1F600;", "&#9;"}; return v[r.below(6)]; }
  std::string entrefAtt() { for (int i = 0; i < 3; i++) { const Ent &e = r.pick(ents); if (e.attOk && expand + e.cost < 2000) { expand += e.cost; return "&" + e.n + ";"; } } return "z"; }
  std::string simpleDecl() {
    switch (r.below(o.ext ? 8 : 6)) {
    case 0: return elementDecl();
    case 1: return attlist();
    case 6: { std::string n = "x" + std::to_string(entNo++), sys = "s" + std::to_string(sysNo++); addEntity(sys, word(3) + (r.chance(30) ? "<x1/>" : ""), false, true); ents.push_back({n, true, false, 50}); return "<!ENTITY " + n + " SYSTEM '" + sys + "'>"; }
    case 7: return "<!ENTITY y" + std::to_string(entNo++) + " SYSTEM 'u" + std::to_string(sysNo++) + "' NDATA nt>";
    case 2: return comment();
    case 3: { std::string n = "i" + std::to_string(entNo++); ents.push_back({n, false, true, 20}); return "<!ENTITY " + n + " '" + word(4) + "'>"; }
    case 4: return notationDecl();
    default: return ws();
    }
  }
  std::string notationDecl() { static const char *nn[] = {"n", "n", "b", "N", "z", "no", "n.", "_", "nn", "a"}; std::string n = nn[r.below(10)] + (r.chance(40) ? "" : std::to_string(notations.size()));
    if (!notations.empty() && r.chance(40)) { n = r.pick(notations); if (n.size() > 1 && r.chance(40)) n.pop_back(); else n += "a0.x"[r.below(4)]; }   // one name the beginning of another
    if (std::find(notations.begin(), notations.end(), n) != notations.end()) n += "_" + std::to_string(notations.size());
    notations.push_back(n); return "<!NOTATION" + ws() + n + ws() + (r.chance(30) ? "PUBLIC" + ws() + "'" + pubid() + "'" : extid("nsys")) + ows() + ">"; }
  std::string subset(int n, bool ext) {
    std::string s; bool sv = inExtSubset; inExtSubset = ext;
    while (n--) {
      if (o.malformed && r.chance(6)) { s += oddMarkup(ext); continue; }
      switch (r.below(ext ? 13 : 11)) {
      case 0: case 1: s += elementDecl(); break;
      case 2: case 3: s += attlist(); break;
      case 4: case 5: case 6: s += entityDecl(); break;
      case 7: s += notationDecl(); break;
      case 8: s += r.chance(50) ? comment() : pi(); break;
      case 9: s += ws(); break;
      case 10: if (!pes.empty() && (ext || r.chance(70))) { s += "%" + r.pick(pes) + ";"; sawPEref = true; } break;
      case 11: { std::string sec = r.chance(50) ? "INCLUDE" : "IGNORE"; if (sec == "IGNORE") s += "<![" + ows() + "IGNORE" + ows() + "[" + (r.chance(50) ? "<![x[ y ]]> " : "") + word(5) + " <!ELEMENT" + " ]]>"; else s += "<![" + ows() + "INCLUDE" + ows() + "[" + simpleDecl() + simpleDecl() + "]]>"; break; }
      case 12: { std::string pn = "q" + std::to_string(entNo++); switch (r.chance(20) ? 7 : (int)r.below(10)) {
          case 0: s += "<!ENTITY % " + pn + " 'CDATA'><!ATTLIST " + nm() + " pa %" + pn + "; #IMPLIED>"; break;
          case 1: s += "<!ENTITY % " + pn + " '(a|b)*'><!ELEMENT " + nm() + " %" + pn + ";>"; break;
          case 2: s += "<!ENTITY % " + pn + " '" + (r.chance(60) ? "INCLUDE" : "IGNORE") + "'><![%" + pn + ";[" + simpleDecl() + "]]>"; break;
          case 3: { std::string n = "i" + std::to_string(entNo++); s += "<!ENTITY % " + pn + " '\"" + word(3) + "\"'><!ENTITY " + n + " %" + pn + ";>"; ents.push_back({n, false, true, 30}); break; }
          case 4: s += "<!ENTITY % " + pn + " '" + nm() + "'><!ELEMENT %" + pn + "; ANY><!ATTLIST %" + pn + "; z CDATA 'v'>"; break;
          case 5: s += "<!ENTITY % " + pn + " '|" + word(2) + "|" + word(1) + "'><!ELEMENT " + nm() + " (x%" + pn + ";)>"; break;
          case 6: s += "<!ENTITY % " + pn + " '" + word(3) + ws() + word(2) + "'>"; tpes.push_back(pn); break;
          case 7: if (o.ext) { std::string sys = "t" + std::to_string(sysNo++); addEntity(sys, word(4) + (r.chance(30) ? "&#65;" : "") + (r.chance(30) ? ws() : "") + (!tpes.empty() && r.chance(40) ? "%" + r.pick(tpes) + ";" : "") + word(2), true, true); s += "<!ENTITY % " + pn + " SYSTEM '" + sys + "'>"; tpes.push_back(pn); } break;
          case 8: s += "<!ENTITY % " + pn + " ''><!ELEMENT%" + pn + ";" + nm() + "%" + pn + ";EMPTY%" + pn + ";>"; break;
          default: s += "<![INCLUDE[" + simpleDecl() + "<![" + (r.chance(50) ? "INCLUDE" : "IGNORE") + "[" + (r.chance(40) ? "<![INCLUDE[]]>" : "") + simpleDecl() + "]]>" + ws() + "]]>"; } break; }
      }
      if (s.size() > 6000) break;
    }
    inExtSubset = sv;
    return s;
  }
  std::string doctype(const std::string &root) {
    hasDoctype = true;
    std::string s = "<!DOCTYPE" + ws() + root;
    bool ext = o.ext && r.chance(35);
    std::string internal; bool haveInt = !ext || r.chance(70);
    if (haveInt) internal = subset(o.dtdHeavy ? r.range(3, 16) : r.range(0, 7), false);
    if (ext) {
      extSubset = true;
      std::string sys = "ext" + std::to_string(sysNo++);
      std::string body = subset(o.dtdHeavy ? r.range(2, 10) : r.range(0, 5), true);
      addEntity(sys, body, true, true);
      s += ws() + extid(sys);
    }
    if (haveInt) s += ows() + "[" + internal + "]";
    return s + ows() + ">";
  }
  std::string make() {
    enc = o.enc >= 0 ? o.enc : pickEnc(false);
    budget = o.size; 
    if (o.ns) { int n = r.range(1, 4); for (int i = 0; i < n; i++) { pref.push_back(i == 0 ? "p" : i == 1 ? "q" : i == 2 ? word(30) : ch(true)); } n = r.range(1, 4); for (int i = 0; i < n; i++) uris.push_back(r.chance(15) ? oddUri() : i == 0 ? "u:1" : i == 1 ? "http://example.org/ns/" + word(r.range(1, 60)) : "u" + std::to_string(i)); }
    else { pref = {"p"}; uris = {"u:1"}; }
    std::string s;
    if (o.xmlDecl && o.malformed && r.chance(5)) s += oddDecl(false);
    else if (o.xmlDecl && (r.chance(50) || (enc >= EN_LATIN1 && enc <= EN_SIMMB))) {
      bool viaProto = (enc >= EN_LATIN1 && enc <= EN_SIMMB) && r.chance(20);
      s += "<?xml" + ws() + "version" + ows() + "=" + ows() + (r.chance(50) ? "\"1.0\"" : "'1.0'");
      if (viaProto) { p.c.enc = encName[enc]; p.c.encVia = (uint8_t)r.below(2); }
      if (enc >= EN_LATIN1 ? (!viaProto || r.chance(50)) : r.chance(50)) s += ws() + "encoding" + ows() + "=" + ows() + (r.chance(50) ? "\"" + anyCase(r, declName(enc)) + "\"" : "'" + anyCase(r, declName(enc)) + "'");
      if (r.chance(25)) { standalone = r.chance(60); s += ws() + "standalone" + ows() + "=" + ows() + (standalone ? "'yes'" : "\"no\""); }
      s += ows() + "?>";
    }
    auto misc = [&]() { std::string m; int n = (int)r.below(3); while (n--) m += r.chance(40) ? comment() : r.chance(40) ? pi() : ws(); return m; };
    s += misc();
    if (o.dtd && r.chance(o.dtdHeavy ? 97 : 50)) { s += doctype(nm()); s += misc(); }
    budget = o.size;
    std::string root = element(0);
    if (root.find('>') == root.size() - 1 && r.chance(60)) root = "<r>" + root + content(1) + "</r>";
    s += root + misc();
    return s;
  }
};
uint32_t genHandlers(Rng &r, bool def) {
  uint32_t m;
  int k = (int)r.below(100);
  if (k < 55) m = H_NODEF;
  else if (k < 70) { m = H_NODEF; for (int i = 0; i < 3; i++) m &= ~(1u << r.below(22)); }
  else if (k < 85) m = (uint32_t)r.next() & H_NODEF;
  else if (k < 92) m = H_SE | H_EE | H_CD;
  else m = H_NODEF & ~(H_CD | H_CM | H_PI);
  if (def) m |= H_DEF;
  return m;
}
// Everything a DTD says about elements and entities has to reach the parsers of external entities as well: element types with declared
// attributes of every type, used before, inside (also nested) and after external entities.
void dtdReach(Rng &r, Phase &p) {
  bool ns = p.c.ns >= 0; static const char *pf[] = {"p", "q", "", "", ""}, *ty[] = {"CDATA", "NMTOKENS", "NMTOKEN", "ID", "IDREFS", "ENTITIES", "(a|b|c)", "NOTATION (n|m)"}, *vals[] = {"  a   b  ", "a", " \n c\t", "&g;", "b &g; &lt;", "", " &#32;d&#10; ", "  "};
  auto qn = [&](const char *l) { std::string x = ns || r.chance(15) ? pf[r.below(5)] : ""; return (x.empty() ? "" : x + ":") + l; };
  struct At { std::string n; }; std::vector<std::pair<std::string, std::vector<std::string>>> els;
  std::string d = "<!DOCTYPE r" + std::string(r.chance(30) ? " SYSTEM 'sub'" : "") + " [", decls;
  static const char *en[] = {"e", "f", "g1"}; int ne = r.range(1, 3);
  for (int i = 0; i < ne; i++) { std::string e = qn(en[i]); els.push_back({e, {}}); if (r.chance(20)) decls += "<!ELEMENT " + e + " (#PCDATA|" + e + ")*>";
    for (int b = r.chance(25) ? 2 : 1; b--;) { decls += "<!ATTLIST " + e; int na = r.range(1, 5); static const char *an[] = {"a", "b", "c", "i", "xml:space"};
      while (na--) { std::string n = r.chance(92) ? qn(an[r.below(4)]) : ns && r.chance(50) ? "xmlns:p" : an[4]; bool x = n == "xmlns:p"; els.back().second.push_back(n); decls += " " + n + " " + (x ? "CDATA" : ty[r.below(8)]) + " " + (x ? "'u4'" : r.chance(40) ? "#IMPLIED" : r.chance(20) ? "#REQUIRED" : (r.chance(20) ? "#FIXED '" : "'") + std::string(vals[r.chance(50) ? r.below(3) : 0 + 5 + r.below(3)]) + "'"); }
      decls += ">"; } }
  bool unp = false, g = r.chance(85); if (g) decls.insert(r.chance(80) ? 0 : decls.size(), "<!ENTITY g 'x y '>"); if (r.chance(30)) { decls += std::string("<!NOTATION n SYSTEM 'N'><!ENTITY u ") + (r.chance(50) ? "SYSTEM" : "PUBLIC 'P u'") + " 'U' NDATA n>"; unp = true; }
  std::string ents = "<!ENTITY x SYSTEM 'x' ><!ENTITY y SYSTEM 'y'><!ENTITY h '<e a=\" z  z \"/>&g;'>";
  auto use = [&](int depth) { std::string s; int n = r.range(1, 3); while (n--) { if (r.chance(15)) s += r.chance(50) ? "&h;" : "&g;"; if (unp && depth && r.chance(12)) s += "&u;"; auto &e = els[r.below((uint32_t)els.size())]; std::set<std::string> u; s += "<" + e.first; if (ns && r.chance(depth ? 25 : 10)) s += r.chance(60) ? " xmlns:p='u3'" : " xmlns='u1'"; for (auto &n : e.second) if (n.compare(0, 5, "xmlns") && r.chance(70) && u.insert(n).second) s += " " + n + "='" + vals[r.below(8)] + "'"; s += r.chance(70) ? "/>" : ">t</" + e.first + ">"; } return s; };
  p.ents.clear(); auto ent = [&](const char *id, const std::string &b) { Entity e; e.sysid = id; e.bytes = b; e.how = (uint8_t)(r.chance(75) ? HOW_INLINE : r.chance(50) ? HOW_SUSPEND : HOW_DEFER); p.ents.push_back(e); };
  bool sub = d.find("SYSTEM") != std::string::npos; if (sub && r.chance(60)) { ent("sub", decls + (r.chance(30) ? ents : "")); d += r.chance(70) ? ents : ""; } else { if (sub) ent("sub", "<!ATTLIST e late NMTOKEN ' v '>"); if (r.chance(15)) { bool k = r.chance(60); d += std::string("<!ENTITY % z '") + (k && r.chance(60) ? "<!ENTITY k \"k k\">" : "") + "<!ATTLIST e z NMTOKENS \" w  " + (k ? r.chance(70) ? "&#38;k;" : "&#38;g;" : "w") + " \">" + (k && r.chance(30) ? "<!ENTITY k \"later\">" : "") + "'>" + (k && r.chance(15) ? "<!ENTITY k \"outer\">" : "") + "%z;"; } d += ents + decls; }
  d += "]><r" + std::string(r.chance(90) ? " xmlns:p='u1' xmlns:q='u2'" : "") + ">" + (r.chance(50) ? use(0) : "") + "&x;" + (r.chance(60) ? use(0) : "") + (r.chance(30) ? "&x;" : "") + "</r>";
  if (r.chance(25)) d = std::string("<?xml version='1.0'") + (r.chance(80) ? " standalone='yes'" : " standalone='no'") + "?>" + d;
  p.doc = d; ent("x", use(1) + (r.chance(35) ? "&y;" + use(1) : "")); ent("y", use(2)); p.c.enc = "";
}
int gGenEnc = 0;  // the encoding the last generated document really has
void genPhase(Rng &r, const GenOpts &o0, Phase &p) {
  GenOpts o = o0;
  o.size = o.size <= 0 ? 10 : o.size;
  DocGen g(r, o, p);
  p.c = Config();
  if (o.ns) { static const int seps[] = {1, 0, '|', ' ', 0xC, '!', 0}; p.c.ns = seps[r.below(o.malformed ? 2 : 7)]; p.c.triplets = r.chance(40); }
  std::string d = g.make();
  bool early = o.malformed && g.enc != EN_UTF8 && g.enc != EN_UTF8BOM && r.chance(60) && !g.damaged;  // damage characters, not bytes
  if (early) mutateBytes(r, d, r.chance(70) ? 1 : r.range(2, 4));
  if (!encodeDoc(decodeUtf8(d), g.enc, p.doc)) { // not expressible: fall back to UTF-8 without the declaration
    size_t k = d.compare(0, 5, "<?xml") == 0 ? d.find("?>") + 2 : 0;
    p.c.enc = ""; p.doc = d.substr(k); g.enc = EN_UTF8;
  }
  gGenEnc = g.enc;
  p.c.paramEnt = (uint8_t)r.below(3);
  p.c.foreignDTD = o.ext && r.chance(6);
  if (p.c.foreignDTD && r.chance(70)) { Entity e; e.sysid = "\x1e"; e.bytes = "<!ELEMENT fd ANY><!ENTITY fe 'foreign'>"; e.how = HOW_INLINE; p.ents.push_back(e); }
  p.c.parserArg = r.chance(15); p.c.eerArg = r.chance(15); p.c.useBase = r.chance(25); p.c.nsaRet = !r.chance(10);
  p.c.freeModels = r.chance(30); p.c.style = (uint8_t)((r.chance(25) ? 1 : 0) | (r.chance(25) ? 2 : 0));
  p.c.handlers = genHandlers(r, false);
  if (r.chance(60) && o.ext) p.c.handlers |= H_EER;
  p.c.handlers |= H_UENC;
  if (r.chance(4)) p.c.handlers &= ~(uint32_t)H_UENC;
  if (r.chance(g.enc == EN_SIMSB || g.enc == EN_SIMMB ? 20 : 5)) p.c.encMode = (uint8_t)r.below(r.chance(30) ? 4 : 24);
  if (o.malformed && !early && !(g.damaged && r.chance(75))) {
    int k = (int)r.below(10);
    if (k < 7 || p.ents.empty()) mutateBytes(r, p.doc, r.chance(70) ? 1 : r.range(2, 4));
    else mutateBytes(r, p.ents[r.below((uint32_t)p.ents.size())].bytes, 1);
  }
  if (o.dtd && o.ext && gGenEnc == EN_UTF8 && p.c.enc.empty() && r.chance(5)) { dtdReach(r, p); p.c.handlers |= H_EER | H_SE; if (o.malformed && r.chance(50)) { if (p.c.ns > 1) p.c.ns = 1; mutateBytes(r, p.doc, 1); } }
  p.d = plainDeliv();
}
void genSteady(Rng &r, Phase &p, int units, long &preLen, long &unitLen) {
  GenOpts o; o.size = r.range(4, 25); o.ns = r.chance(60); o.dtd = r.chance(60); o.ext = r.chance(60); o.nsHeavy = r.chance(30); o.attHeavy = r.chance(15); o.textHeavy = r.chance(25); o.bigTokens = r.chance(15);
  DocGen g(r, o, p); p.c = Config();
  if (o.ns) { p.c.ns = r.chance(70) ? 1 : '|'; p.c.triplets = r.chance(40); }
  static const int encs[] = {EN_UTF8, EN_UTF8, EN_UTF8, EN_UTF8BOM, EN_UTF16LE, EN_UTF16BE, EN_LATIN1, EN_SIMSB, EN_SIMMB};
  g.enc = encs[r.below(9)]; o.enc = g.enc;
  std::string seed0; g.o.enc = g.enc; g.make();   // names, prefixes, URIs, entities of this document
  p.ents.clear(); g.ents.clear(); g.pes.clear(); g.tpes.clear(); g.notations.clear(); g.expand = 0; g.hasDoctype = false; g.scope.clear(); p.c.enc = "";
  std::string pre = g.enc >= EN_LATIN1 ? std::string("<?xml version='1.0' encoding='") + encName[g.enc] + "'?>" : "";
  g.budget = g.o.size; g.o.dtdHeavy = r.chance(20);
  if (o.dtd) pre += g.doctype("r");
  std::string unit; int tries = 0; bool noTags = r.chance(20);
  do { unit.clear(); if (noTags) {   // markup that no tag interrupts
    g.expand = 0; std::string one; int n = r.range(1, 4), kind = (int)r.below(8);
    while (n--) switch (kind < 5 ? kind : (int)r.below(5)) { case 0: one += g.comment(); break; case 1: one += g.pi(); break; case 2: one += g.cdata(); break; case 3: one += g.text(r.range(1, 4)); break; default: one += g.ents.empty() ? "<?QQQQ QQQQ?>" : g.entref(false); }
    if (one.empty()) one = "x";
    unit = "<?u?>" + one; long ex = g.expand; while (unit.size() < 300) { unit += ex > 1500 ? "<!--no more entities-->" : one; ex += g.expand; }
    continue; } g.expand = 0; g.budget = r.range(1, 8); int n = r.range(1, 3); while (n--) unit += r.chance(70) ? g.element(r.range(1, 5)) : r.chance(50) ? g.comment() : g.pi();
    if (!g.ents.empty() && r.chance(50)) unit += g.entref(false);
    if (r.chance(50)) unit += std::string("<v w='QQQQ'") + (o.ns && r.chance(60) ? " xmlns:z='u:QQQQ'" : "") + ">QQQQ" + (r.chance(40) ? "<!--QQQQ-->" : "") + (r.chance(40) ? "<?p QQQQ?>" : "") + "</v>";
    std::string one = "<i>" + unit + "</i>"; unit = one; while (unit.size() < 300) unit += one; unit = "<u>" + unit + "</u>"; } while (unit.size() > 900 && ++tries < 20);
  std::string all = pre + "<r>", a0, a1;
  auto inst = [&](int k) { std::string u = unit, w; for (int i = 0, v = k; i < 4; i++, v /= 26) w += (char)('a' + v % 26); for (size_t q = 0; (q = u.find("QQQQ", q)) != std::string::npos;) u.replace(q, 4, w); return u; };
  encodeDoc(decodeUtf8(all), g.enc, a0); bool ok = encodeDoc(decodeUtf8(all + inst(0)), g.enc, a1);
  preLen = (long)a0.size(); unitLen = (long)a1.size() - preLen;
  for (int k = 0; k < units; k++) all += inst(k);
  all += "</r>";
  if (!ok || !encodeDoc(decodeUtf8(all), g.enc, p.doc)) { p.doc = "<r/>"; preLen = 3; unitLen = 1; }
  p.c.paramEnt = (uint8_t)r.below(3); p.c.useBase = r.chance(25); p.c.style = (uint8_t)r.below(4); p.c.freeModels = 0; p.c.nsaRet = 1;
  p.c.handlers = genHandlers(r, r.chance(25)) | H_SE | H_UENC | (noTags ? H_PI : 0); if (r.chance(70)) p.c.handlers |= H_EER;
  p.d = plainDeliv();
  if (r.chance(85)) {   // the same cuts in every unit
    std::vector<Chunk> per; long left = unitLen; int st = (int)r.below(8);
    while (left > 0) { long n = st < 3 ? left : st == 4 ? 1 : r.range(1, 60); if (n > left) n = left; per.push_back({(uint32_t)n, (uint8_t)r.below(4), (uint32_t)(r.chance(30) ? r.below(200) : 0)}); left -= n; }
    p.d.chunks.push_back({(uint32_t)preLen + (uint32_t)r.below((uint32_t)unitLen), CM_PARSE, 0});
    for (int k = 0; k < units; k++) for (auto &c : per) p.d.chunks.push_back(c);
    // the last ones reach beyond the end: cut
    size_t t = 0; for (size_t k = 0; k < p.d.chunks.size(); k++) { if (t + p.d.chunks[k].n >= p.doc.size()) { p.d.chunks.resize(k); break; } t += p.d.chunks[k].n; }
    p.d.sepFinal = r.chance(30);
  }
  for (auto &e : p.ents) { if (e.how == HOW_ABANDON || e.how == HOW_DEFER || e.how == HOW_MISSING) e.how = HOW_INLINE; if (r.chance(40) && e.bytes.size() < 200) genDeliv(r, e.bytes.size(), e.d); }
}
Deliv plainDeliv() { return Deliv(); }
void mutateBytes(Rng &r, std::string &s, int n) {
  static const std::vector<std::string> dict = {"<", ">", "&", ";", "]]>", "<!--", "-->", "--", "<?", "?>", "<![CDATA[", "</", "/>", "=", "\"", "'", "&#0;", "&#x110000;", "&#xD800;", "&undef;", "%undef;", "xmlns", "xmlns:p=''", "xml:", ":", "<!DOCTYPE", "<!ENTITY", "[", "]", "]>", "(", ")", "|", ",", "*", "\xC0\x80", "\xED\xA0\x80", "\xFF", "\xFE", "\xF4\x90\x80\x80", "\xE0\x80\x80", "\xC2", "\xE2\x80", "\xF0\x9F\x98", "\xEF\xBF\xBE", "\xEF\xBF\xBF", std::string(1, '\0'), "\x01", "\x7f", "\r", "\n", "<a", "</a>", "<a b='1' b='2'/>", "standalone='yes'", "encoding='UTF-16'", "encoding='x-unk'", "<?xml version='1.0'?>", "#PCDATA", "#REQUIRED", "SYSTEM", "&#;", "&#x;", "&;", "&lt", "<!ELEMENT a ((b))>", "<![INCLUDE[", "<![IGNORE[", "version='1.1'", "p:q:r", "\xC3\xA9", "\xE4\xB8\xAD", "<p:x/>", "xmlns:xml='u'", "xmlns:xmlns='u'", "xmlns:z='http://www.w3.org/XML/1998/namespace'", "xmlns:z='http://www.w3.org/2000/xmlns/'", "]]]>", "]]]", "]]]]>", "]] >", "--->", "---", "-- >", "?\?>", "<!", "<![", "<![CDATA", "<![CDATA[]]]]>", "<a:", "a:", "&#xfffe;", "&#55296;", "&#x10FFFF;", "&#1;", "&#x;", "&#9a;", "&#xg;", "<?xml ", "<?XML x?>", "<?xMl?>", "<? x?>", "<1", "<a/", "<a b", "<a b=", "<a b='", "<a b=c>", "<a b='<'", "</a b>", "</a ", "PUBLIC", "NDATA", "NDATA n", "SYSTEM 'x'", "PUBLIC 'p' 'x'", "PUBLIC '\x7f' 'x'", "<!NOTATION n PUBLIC 'p'>", "<!ENTITY % p 'x'>%p;", "%", "% ", "%p;", "&e0;", "&e1;", "<!ATTLIST a b CDATA #FIXED 'x'>", "<!ATTLIST a i ID #IMPLIED j ID #IMPLIED>", "<!ELEMENT a (b,c|d)>", "<!ELEMENT a (b|c)+>", "<!ELEMENT a (#PCDATA|b)>", "<!DOCTYPE a>", "\xEF\xBB\xBF", "\xC3", "\xF0\x9F", "\xF4\x8F\xBF\xBF", "\xED\x9F\xBF", "\xEE\x80\x80", "\xEF\xBF\xBD", "\xCC\x80", "\xC2\xB7", "\r\n", "\n\r", "\r\r"};
  while (n--) {
    size_t L = s.size();
    size_t at = L ? r.below((uint32_t)L) : 0;
    static const std::vector<std::string> tails = {"\r", "]", "]]", "]]]", "<", "&", "\xE2\x82", "\xC3", "<u>", "<u>\r", "<u>]", "<u>]]", "</", "</u", "</u>", "\r\n", "<u a='", "<!--", "<!-", "<!", "<![CDATA[", "<![CDATA[]", "<![CDATA[x\r", "<?", "<?p", "<?p ?", "&#", "&#x", "&e", "<u", "<u ", "<u/", "<!DOCTYPE r [ ", "<!ELEMENT", " ", "\n", "x"};
    switch (r.below(10)) {
    case 9: if (L > 2) { if (r.chance(70)) { size_t b = s.find_first_of("<>]&;\r", at); s.resize(b == std::string::npos ? at : b + (r.chance(50) ? 1 : 0)); } s += r.pick(tails); } break;
    case 0: if (L) s[at] = (char)(s[at] ^ (1 << r.below(8))); break;
    case 1: if (L) s.erase(at, r.chance(70) ? 1 : r.range(2, 12)); break;
    case 2: case 3: s.insert(at, r.pick(dict)); break;
    case 4: if (L) s.insert(at, s.substr(at, (size_t)r.range(1, 30))); break;
    case 5: if (L > 2) s.resize(r.below((uint32_t)L)); break;
    case 6: if (L) s[at] = (char)r.below(256); break;
    case 7: { if (L > 4) { size_t b = r.below((uint32_t)L), e = (size_t)r.range(1, 20); std::string t = s.substr(b, e); s.erase(b, e); s.insert(r.below((uint32_t)s.size() + 1), t); } break; }
    case 8: { size_t k = s.find_first_of("<>&;\"'=:[](", at); if (k != std::string::npos) { if (r.chance(50)) s.erase(k, 1); else s[k] = "<>&;\"'=:[]( x"[r.below(13)]; } break; }
    }
  }
}
void genDeliv(Rng &r, size_t n, Deliv &d, int style) {
  d = Deliv();
  d.sepFinal = r.chance(40);
  int st = style >= 0 ? style : (int)r.below(8);
  size_t left = n; int guard = 0;
  auto mode = [&]() -> uint8_t { return (uint8_t)(r.chance(60) ? CM_PARSE : r.chance(70) ? CM_BUFFER : r.chance(60) ? CM_BUFFER2 : CM_EMPTY); };
  auto add = [&](size_t k, int m = -1) { Chunk c{(uint32_t)k, m < 0 ? mode() : (uint8_t)m, 0}; if ((c.mode == CM_BUFFER || c.mode == CM_BUFFER2) && r.chance(40)) c.extra = r.chance(70) ? r.below(64) : r.below(5000); d.chunks.push_back(c); left -= std::min(left, k); };
  switch (st) {
  case 0: if (r.chance(50)) add(n, r.chance(50) ? CM_BUFFER : CM_PARSE); break;
  case 1: if (n <= 2500) { d.rest = 1; if (r.chance(50)) { while (left && guard++ < 2500) add(1, r.chance(50) ? CM_PARSE : CM_BUFFER); } } else while (left && guard++ < 1500) add((size_t)r.range(1, 5)); break;
  case 2: while (left && guard++ < 1200) add((size_t)r.range(0, 8)); break;
  case 3: while (left && guard++ < 600) add((size_t)r.range(0, 200)); break;
  case 4: { int k = r.range(1, 3); while (k-- && left) add(r.below((uint32_t)left + 1)); break; }
  case 5: while (left && guard++ < 200) add((size_t)(r.chance(50) ? r.range(1000, 1050) : r.range(1, 2100))); break;
  case 6: { size_t k = r.below((uint32_t)n + 1); if (k) add(k); int m = r.range(1, 12); while (m-- && left) add(1); break; }
  default: while (left && guard++ < 800) add((size_t)(r.chance(70) ? r.range(1, 30) : r.range(1, 700))); break;
  }
}
void genDelivAll(Rng &r, Phase &p) {
  genDeliv(r, p.doc.size(), p.d);
  for (auto &e : p.ents) genDeliv(r, e.bytes.size(), e.d);
}
void plainSchedule(Phase &p) {
  p.d = Deliv(); p.acts.clear(); p.stopAfter = -1; p.c.illegalBetween = 0; p.c.queryBetween = 0;
  for (auto &e : p.ents) { e.d = Deliv(); if (e.how == HOW_SUSPEND) e.how = HOW_INLINE; }
}
void genEnv(Rng &r, Env &e, int efencePct) {
  e.hashSeed = r.next() & 0xffffffffffff; e.layoutSeed = r.next() & 0xffffffffffff;
  e.amode = r.chance(efencePct) ? AM_EFENCE : AM_FAST; e.move = r.chance(85);
}
