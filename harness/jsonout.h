// JSON output of bytes and tokens for records read by TLC
#pragma once
#include <string>
#include "oracle.h"
inline void bytes(std::string &o, const char *p, size_t n)
{
  o += '[';
  for (size_t i = 0; i < n; i++) { if (i) o += ','; o += std::to_string((unsigned char)p[i]); }
  o += ']';
}
inline void bytes(std::string &o, const std::string &s) { bytes(o, s.data(), s.size()); }
inline void sep(std::string &o, bool &f) { if (!f) o += ','; f = false; }
inline char tyc(JS::Type t)
{
  switch (t)
  {
  case JS::Type::String: return 'S'; case JS::Type::Ascii: return 'A'; case JS::Type::Number: return 'N';
  case JS::Type::ObjectStart: return '{'; case JS::Type::ObjectEnd: return '}'; case JS::Type::ArrayStart: return '[';
  case JS::Type::ArrayEnd: return ']'; case JS::Type::Bool: return 'B'; case JS::Type::Null: return 'Z';
  default: return '?';
  }
}
inline void dtok(std::string &o, const JS::Token &t)
{
  char v = tyc(t.value_type); bool br = v == '{' || v == '}' || v == '[' || v == ']';
  o += "{\"nt\":\""; o += tyc(t.name_type); o += "\",\"n\":"; bytes(o, t.name.data, t.name.size);
  o += ",\"vt\":\""; o += v; o += "\",\"v\":"; bytes(o, t.value.data, br ? 0 : t.value.size); o += '}';
}
inline void otok(std::string &o, const OTok &t) { o += "{\"nt\":\""; o += t.nt; o += "\",\"n\":"; bytes(o, t.n); o += ",\"vt\":\""; o += t.vt; o += "\",\"v\":"; bytes(o, t.v); o += '}'; }
inline std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t q = s.find(c, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + 1; } }
