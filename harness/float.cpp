// Floating point numbers in both directions.
// line: P <raw hex> <0|1>                     a number (1: quoted) into float and double
//       W <f|d> <hex bits>                    this value written and read back
//       R <w|p> <f|d> <seed> <n> <sample>     n random values written (w), or decimals parsed (p); records of every sample-th and of
//                                             all that the C++ library sees differently
//       S <start> <step> <n> <sample>         floats with consecutive bit patterns, written
#include <json_struct/json_struct.h>
#include <charconv>
#include <iostream>
#include <random>
#include <cmath>
#include "guard.h"
#include "oracle.h"
#include "jsonout.h"
using std::string; using std::vector;
template <class T> struct FI;
template <> struct FI<float> { using B = uint32_t; static constexpr int p = 24, w = 8; static const char *n() { return "f"; } };
template <> struct FI<double> { using B = uint64_t; static constexpr int p = 53, w = 11; static const char *n() { return "d"; } };
template <class T> static typename FI<T>::B bits(T t) { typename FI<T>::B b; memcpy(&b, &t, sizeof b); return b; }
template <class T> static T val(typename FI<T>::B b) { T t; memcpy(&t, &b, sizeof b); return t; }
template <class T> static bool finite(T t) { int e = int((bits(t) >> (FI<T>::p - 1)) & ((1 << FI<T>::w) - 1)); return e != (1 << FI<T>::w) - 1; }
template <class T> static void dval(string &o, T t)
{
  using I = FI<T>; uint64_t b = bits(t), m = b & ((uint64_t(1) << (I::p - 1)) - 1); int e = int((b >> (I::p - 1)) & ((1 << I::w) - 1));
  bool neg = b >> (I::p - 1 + I::w), top = e == (1 << I::w) - 1;
  int bias = (1 << (I::w - 1)) - 1 + I::p - 1;
  if (e) m |= uint64_t(1) << (I::p - 1); else e = 1;
  o += string("{\"neg\":") + (neg ? "true" : "false") + ",\"nan\":" + (top && (m << (64 - I::p + 1)) ? "true" : "false") + ",\"inf\":" + (top ? "true" : "false") + ",\"m\":[";
  if (!top) { bool f = true; while (m) { sep(o, f); o += std::to_string(m % 10000); m /= 10000; } }
  o += "],\"e\":" + std::to_string(e - bias) + "}";
}
template <class T> static bool parse1(const string &doc, T &t)
{
  vector<T> v; JS::ParseContext pc(doc.data(), doc.size());
  if (pc.parseTo(v) != JS::Error::NoError || v.size() != 1) return false;
  t = v[0]; return true;
}
static void out(string &all, bool &f, const string &o) { sep(all, f); all += o; }
template <class T> static string wrec(T t, const string &text, bool back) { string o = "{\"kind\":\"W\",\"w\":\""; o += FI<T>::n(); o += "\",\"v\":"; dval(o, t); o += ",\"raw\":"; bytes(o, text); o += back ? ",\"ok\":true}" : ",\"ok\":false}"; return o; }
template <class T> static string prec(const string &raw, bool ok, T t) { string o = "{\"kind\":\"P\",\"w\":\""; o += FI<T>::n(); o += "\",\"raw\":"; bytes(o, raw); o += ok ? ",\"ok\":true" : ",\"ok\":false"; if (ok) { o += ",\"v\":"; dval(o, t); } o += '}'; return o; }
static int digits(const char *b, const char *e) { int n = 0, z = 0; bool st = false; for (; b < e; b++) { if (*b == 'e' || *b == 'E') break; if (*b >= '0' && *b <= '9') { if (*b != '0') { st = true; n += z + 1; z = 0; } else if (st) z++; } } return n; }
// a batch of values through one array
template <class T> static void writes(string &all, bool &f, const vector<T> &v, size_t sample, size_t &count)
{
  string t = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
  vector<T> b; JS::ParseContext pc(t.data(), t.size()); bool ok = pc.parseTo(b) == JS::Error::NoError && b.size() == v.size();
  auto parts = split(t.substr(1, t.size() - 2), ','); if (parts.size() != v.size()) { ok = false; parts.resize(v.size()); }
  for (size_t i = 0; i < v.size(); i++)
  {
    bool back = ok && bits(b[i]) == bits(v[i]);
    T c; const string &p = parts[i]; auto r = std::from_chars(p.data(), p.data() + p.size(), c);
    char s[64]; auto q = std::to_chars(s, s + 64, v[i], std::chars_format::scientific);
    bool odd = !back || r.ec != std::errc() || bits(c) != bits(v[i]) || digits(p.data(), p.data() + p.size()) != digits(s, q.ptr);
    if (odd || (sample && ++count % sample == 0)) out(all, f, wrec(v[i], p, back));
  }
}
template <class T> static void parses(string &all, bool &f, const vector<string> &v, size_t sample, size_t &count)
{
  string t = "["; for (auto &x : v) { if (t.size() > 1) t += ','; t += x; } t += ']';
  vector<T> b; JS::ParseContext pc(t.data(), t.size()); bool ok = pc.parseTo(b) == JS::Error::NoError && b.size() == v.size();
  for (size_t i = 0; i < v.size(); i++)
  {
    bool odd = !ok;
    if (ok)
    {
      T c; auto r = std::from_chars(v[i].data(), v[i].data() + v[i].size(), c);
      odd = r.ec != std::errc() ? !(std::isinf(b[i]) || b[i] == 0) : bits(c) != bits(b[i]);
    }
    if (odd || (sample && ++count % sample == 0)) { T x = 0; bool k = ok || parse1("[" + v[i] + "]", x); if (ok) x = b[i]; out(all, f, prec(v[i], k, x)); }
  }
}
using Rng = std::mt19937_64;
template <class T> static T rnd(Rng &r)
{
  using I = FI<T>; using B = typename I::B;
  for (;;)
  {
    B b = B(r());
    B man = b & ((B(1) << (I::p - 1)) - 1), ex;
    switch (r() % 8)
    {
    case 0: man = 0; break;                                              // powers of two
    case 1: man = (B(1) << (I::p - 1)) - 1 - B(r() % 4); break;
    case 2: man = B(r() % 8); break;
    case 3: { T t = T(double(int64_t(r() >> (r() % 60 + 3))) * std::pow(10.0, double(int(r() % 40) - 30))); if (finite(t)) return t; continue; }  // short decimals
    case 4: { T t = T(double(r() % 100000) / std::pow(10.0, double(r() % 8))); return t; }
    default: break;
    }
    switch (r() % 6)
    {
    case 0: ex = B(r() % 3); break;                                      // denormal and smallest
    case 1: ex = B((1 << I::w) - 2 - int(r() % 3)); break;
    case 2: ex = B((1 << (I::w - 1)) - 1 + int(r() % 140) - 70) & ((1 << I::w) - 1); break;
    default: ex = B(r()) & ((1 << I::w) - 1); break;
    }
    T t = val<T>(man | ex << (I::p - 1) | (r() % 2 ? B(1) << (I::p - 1 + I::w) : 0));
    if (finite(t)) return t;
  }
}
template <class T> static string dec(Rng &r)
{
  char s[80]; int k = int(r() % 19) + 1; string d;
  if (r() % 3 == 0)
  { // next to the middle of two neighbours
    T t = std::fabs(rnd<T>(r)); T u = std::nextafter(t, std::numeric_limits<T>::infinity());
    long double mid = finite(u) ? ((long double)t + (long double)u) / 2 : (long double)t + ((long double)t - std::nextafter(t, T(0))) / 2;
    k = int(r() % 5) + 15; if (sizeof(T) == 4 && r() % 2) k = int(r() % 19) + 1;
    snprintf(s, sizeof s, "%.*Le", k - 1, mid); d = s;
    size_t e = d.find('e'); int x = int(r() % 3) - 1;
    size_t l = e - 1; if (x > 0 && d[l] < '9') d[l]++; else if (x < 0 && d[l] > '0') d[l]--;
    if (r() % 2) { int q = atoi(d.c_str() + e + 1); string m = d.substr(0, e); size_t dot = m.find('.'); int fr = dot == string::npos ? 0 : int(m.size() - dot - 1); if (dot != string::npos) m.erase(dot, 1);
      q -= fr; if (q <= 0 && -q < 60 && r() % 2) { if (int(m.size()) <= -q) m = string(size_t(-q) - m.size() + 1, '0') + m; if (q) m.insert(m.size() - size_t(-q), "."); if (m[0] == '.') m = "0" + m; d = m; } else d = m + "e" + std::to_string(q); }
  }
  else
  {
    for (int i = 0; i < k; i++) d += char('0' + r() % (r() % 4 ? 10 : 2));
    if (r() % 4 == 0) d += string(r() % 6, '0').substr(0, size_t(19 - k));
    int q; switch (r() % 5) { case 0: q = int(r() % 40) - 30; break; case 1: q = (sizeof(T) == 4 ? 38 : 308) - int(d.size()) + int(r() % 4); break; case 2: q = (sizeof(T) == 4 ? -45 : -324) - int(d.size()) + int(r() % 30); break; case 3: q = int(r() % 740) - 380; break; default: q = 0; }
    if (r() % 2) { size_t p = r() % (d.size() + 1); q += int(d.size() - p); d.insert(p, "."); if (d[0] == '.') d = "0" + d; }
    if (d.size() > 1 && d[0] == '0' && d[1] != '.' && r() % 2) d = d.substr(1);
    if (q || r() % 3 == 0) d += (r() % 2 ? "e" : "E") + string(q >= 0 && r() % 2 ? "+" : "") + (r() % 8 ? "" : q < 0 ? "" : "0") + std::to_string(q);
  }
  if (r() % 3 == 0) d = "-" + d;
  if (r() % 16 == 0) { size_t z = r() % 4; string m = d[0] == '-' ? "-" : ""; d = m + string(z, '0') + d.substr(m.size()); }
  return d;
}
template <class T> static void sweep(string &all, bool &first, const vector<string> &f)
{
  Rng r(std::stoull(f[3])); size_t n = std::stoul(f[4]), sample = std::stoul(f[5]), count = 0;
  for (size_t i = 0; i < n; i += 500)
  {
    guard::ticks++;
    if (f[1] == "w") { vector<T> v; for (int j = 0; j < 500; j++) v.push_back(rnd<T>(r)); writes(all, first, v, sample, count); }
    else { vector<string> v; for (int j = 0; j < 500; j++) v.push_back(dec<T>(r)); parses<T>(all, first, v, sample, count); }
    if (all.size() > 4000000) break;
  }
}
int main()
{
  guard::install();
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' '); string o = "["; bool first = true;
    if (f[0] == "P")
    {
      string raw = unhex(f[1]), q = f[2] == "1" ? "\"" : "", doc = "[" + q + raw + q + "]";
      float a = 0; double b = 0; bool x = parse1(doc, a), y = parse1(doc, b);
      out(o, first, prec(raw, x, a)); out(o, first, prec(raw, y, b));
    }
    else if (f[0] == "W")
    {
      size_t c = 0; uint64_t b = std::stoull(f[2], nullptr, 16);
      if (f[1] == "f") writes(o, first, vector<float>{val<float>(uint32_t(b))}, 1, c); else writes(o, first, vector<double>{val<double>(b)}, 1, c);
    }
    else if (f[0] == "R") { if (f[2] == "f") sweep<float>(o, first, f); else sweep<double>(o, first, f); }
    else
    {
      uint64_t b = std::stoull(f[1]), step = std::stoull(f[2]), n = std::stoull(f[3]); size_t sample = std::stoul(f[4]), c = 0;
      vector<float> v;
      for (uint64_t i = 0; i < n; i++) { float t = val<float>(uint32_t(b + i * step)); if (finite(t)) v.push_back(t); if (v.size() == 1000 || i + 1 == n) { guard::ticks++; writes(o, first, v, sample, c); v.clear(); if (o.size() > 4000000) break; } }
    }
    o += ']';
    puts(o.c_str());
  }
}
