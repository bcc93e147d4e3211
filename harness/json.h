// A strict JSON (RFC 8259) parser, independent of the code under test.  Byte strings; \uXXXX below 0x100 decode to one byte.
#pragma once
#include "common.h"
struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  bool b = false; double n = 0; std::string s, raw;
  std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  const J* get(const std::string& k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
};
struct JP {
  const std::string& s; size_t i = 0; bool ok = true;
  explicit JP(const std::string& x) : s(x) {}
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
  bool eat(char c) { if (i < s.size() && s[i] == c) { i++; return true; } ok = false; return false; }
  J str() {
    J r; r.t = J::STR;
    if (!eat('"')) return r;
    while (ok) {
      if (i >= s.size()) { ok = false; break; }
      unsigned char c = s[i++];
      if (c == '"') return r;
      if (c < 0x20) { ok = false; break; }
      if (c != '\\') { r.s += char(c); continue; }
      if (i >= s.size()) { ok = false; break; }
      char e = s[i++];
      switch (e) {
        case '"': case '\\': case '/': r.s += e; break;
        case 'b': r.s += '\b'; break; case 'f': r.s += '\f'; break; case 'n': r.s += '\n'; break;
        case 'r': r.s += '\r'; break; case 't': r.s += '\t'; break;
        case 'u': {
          unsigned v = 0;
          for (int k = 0; k < 4; k++) {
            if (i >= s.size() || !isxdigit((unsigned char)s[i])) { ok = false; return r; }
            char h = s[i++]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
          }
          if (v < 0x100) r.s += char(v); else r.s += "?";
          break;
        }
        default: ok = false;
      }
    }
    return r;
  }
  J num() {
    J r; r.t = J::NUM; size_t b = i;
    auto dig = [&] { size_t k = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; return i > k; };
    if (i < s.size() && s[i] == '-') i++;
    if (i < s.size() && s[i] == '0') i++; else if (!dig()) { ok = false; return r; }
    if (i < s.size() && s[i] == '.') { i++; if (!dig()) { ok = false; return r; } }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (!dig()) { ok = false; return r; } }
    r.raw = s.substr(b, i - b); r.n = strtod(r.raw.c_str(), nullptr);
    return r;
  }
  J val(int depth = 0) {
    J r; ws();
    if (!ok || i >= s.size() || depth > 20) { ok = false; return r; }
    char c = s[i];
    if (c == '"') r = str();
    else if (c == '{') {
      i++; r.t = J::OBJ; ws();
      if (i < s.size() && s[i] == '}') { i++; return r; }
      while (ok) { ws(); J k = str(); ws(); if (!eat(':')) break; J v = val(depth + 1); r.o.push_back({k.s, v}); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } eat('}'); break; }
    } else if (c == '[') {
      i++; r.t = J::ARR; ws();
      if (i < s.size() && s[i] == ']') { i++; return r; }
      while (ok) { r.a.push_back(val(depth + 1)); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } eat(']'); break; }
    } else if (s.compare(i, 4, "true") == 0) { i += 4; r.t = J::BOOL; r.b = true; }
    else if (s.compare(i, 5, "false") == 0) { i += 5; r.t = J::BOOL; }
    else if (s.compare(i, 4, "null") == 0) i += 4;
    else r = num();
    return r;
  }
};
inline bool parseJson(const std::string& s, J* out) { JP p(s); *out = p.val(); p.ws(); return p.ok && p.i == s.size(); }
inline std::string show(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c < 0x20 || c >= 0x7f || c == '\\') { snprintf(b, 8, "\\x%02x", c); o += b; } else o += char(c); } return o; }
