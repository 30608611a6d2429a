// C++ values as JSON for records read by TLC; serializing with chosen buffers; tokens of a text according to the specification.
#pragma once
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_UNORDERED_SET 1
#define JS_STL_ARRAY 1
#define JS_STD_TIMEPOINT 1
#define JS_INT_128 1
#include <json_struct/json_struct.h>
#include <charconv>
#include <algorithm>
#include <iostream>
#include <sstream>
#include "guard.h"
#include "jsonout.h"
#include "feed.h"
using std::string; using std::vector;

inline void digits(string &o, const string &s) { o += '['; for (size_t i = 0; i < s.size(); i++) { if (i) o += ','; o += s[i]; } o += ']'; }
template <class U> void dnat(string &o, bool neg, U u)
{
  string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u != 0);
  o += neg ? "{\"neg\":true,\"d\":" : "{\"neg\":false,\"d\":"; digits(o, s); o += '}';
}
inline void dint(string &o, __int128 v) { bool n = v < 0; unsigned __int128 u = n ? (unsigned __int128)(-(v + 1)) + 1 : (unsigned __int128)v; dnat(o, n, u); }
inline void dflt(string &o, const string &txt)
{ // txt: [-]d[.ddd]e[+-]dd in scientific form
  bool neg = txt[0] == '-'; string t = neg ? txt.substr(1) : txt; size_t e = t.find('e');
  int ex = e == string::npos ? 0 : atoi(t.c_str() + e + 1); string m = t.substr(0, e), d; int fr = 0; bool dot = false;
  for (char c : m) { if (c == '.') dot = true; else { d += c; if (dot) fr++; } }
  ex -= fr;
  size_t z = 0; while (z < d.size() && d[z] == '0') z++; d = d.substr(z);
  while (!d.empty() && d.back() == '0') { d.pop_back(); ex++; }
  if (d.empty()) ex = 0;
  o += neg ? "{\"neg\":true,\"d\":" : "{\"neg\":false,\"d\":"; digits(o, d); o += ",\"e\":" + std::to_string(ex) + "}";
}
template <class T> struct D;
#define DINT(T) template <> struct D<T> { static void d(string &o, const T &v) { dint(o, v); } };
DINT(int8_t) DINT(uint8_t) DINT(int16_t) DINT(uint16_t) DINT(int32_t) DINT(uint32_t) DINT(long) DINT(unsigned long) DINT(long long) DINT(unsigned long long) DINT(char) DINT(__int128)
template <> struct D<unsigned __int128> { static void d(string &o, const unsigned __int128 &v) { dnat(o, false, v); } };
template <> struct D<bool> { static void d(string &o, const bool &v) { o += v ? "{\"b\":true}" : "{\"b\":false}"; } };
template <class T> void dfl(string &o, T v) { char b[64]; auto r = std::to_chars(b, b + 64, v, std::chars_format::scientific); dflt(o, string(b, r.ptr)); }
template <> struct D<double> { static void d(string &o, const double &v) { dfl(o, v); } };
template <> struct D<float> { static void d(string &o, const float &v) { dfl(o, v); } };
template <> struct D<string> { static void d(string &o, const string &v) { o += "{\"s\":"; bytes(o, v); o += '}'; } };
template <class It> void dlist(string &o, It a, It b) { o += "{\"l\":["; bool f = true; for (; a != b; ++a) { sep(o, f); D<typename std::remove_cv<typename std::remove_reference<decltype(*a)>::type>::type>::d(o, *a); } o += "]}"; }
template <class T> struct D<vector<T>> { static void d(string &o, const vector<T> &v) { dlist(o, v.begin(), v.end()); } };
template <> struct D<vector<bool>> { static void d(string &o, const vector<bool> &v) { o += "{\"l\":["; bool f = true; for (bool b : v) { sep(o, f); D<bool>::d(o, b); } o += "]}"; } };
template <class T> struct D<std::set<T>> { static void d(string &o, const std::set<T> &v) { dlist(o, v.begin(), v.end()); } };
template <class T> struct D<std::unordered_set<T>> { static void d(string &o, const std::unordered_set<T> &v) { std::set<T> s(v.begin(), v.end()); dlist(o, s.begin(), s.end()); } };
template <class M> void dmap(string &o, const M &m) { o += "{\"kv\":["; bool f = true; for (auto it = m.begin(); it != m.end(); ++it) { sep(o, f); o += "{\"k\":"; bytes(o, it->first); o += ",\"v\":"; D<typename M::mapped_type>::d(o, it->second); o += '}'; } o += "]}"; }
template <class T> struct D<std::map<string, T>> { static void d(string &o, const std::map<string, T> &v) { dmap(o, v); } };
template <class T> struct D<std::unordered_map<string, T>> { static void d(string &o, const std::unordered_map<string, T> &v) { std::map<string, const T *> m; for (auto &p : v) m[p.first] = &p.second; o += "{\"kv\":["; bool f = true; for (auto &p : m) { sep(o, f); o += "{\"k\":"; bytes(o, p.first); o += ",\"v\":"; D<T>::d(o, *p.second); o += '}'; } o += "]}"; } };
template <class T, size_t N> struct D<T[N]> { static void d(string &o, const T (&v)[N]) { o += "{\"l\":["; bool f = true; for (size_t i = 0; i < N; i++) { sep(o, f); D<T>::d(o, v[i]); } o += "]}"; } };
template <class T, size_t N> struct D<std::array<T, N>> { static void d(string &o, const std::array<T, N> &v) { dlist(o, v.begin(), v.end()); } };
template <class T, size_t N> struct D<JS::ArrayVariableContent<T, N>> { static void d(string &o, const JS::ArrayVariableContent<T, N> &v) { dlist(o, v.data, v.data + (v.size <= N ? v.size : 0)); } };
template <class T> struct D<JS::OneOrMany<T>> { static void d(string &o, const JS::OneOrMany<T> &v) { dlist(o, v.data.begin(), v.data.end()); } };
template <class... Ts> struct D<std::tuple<Ts...>> {
  template <size_t... I> static void e(string &o, const std::tuple<Ts...> &v, std::index_sequence<I...>) { bool f = true; int x[] = {(sep(o, f), D<Ts>::d(o, std::get<I>(v)), 0)...}; (void)x; }
  static void d(string &o, const std::tuple<Ts...> &v) { o += "{\"l\":["; e(o, v, std::index_sequence_for<Ts...>()); o += "]}"; } };
template <class... Ts> struct D<JS::Tuple<Ts...>> {
  template <size_t... I> static void e(string &o, const JS::Tuple<Ts...> &v, std::index_sequence<I...>) { bool f = true; int x[] = {(sep(o, f), D<Ts>::d(o, v.template get<I>()), 0)...}; (void)x; }
  static void d(string &o, const JS::Tuple<Ts...> &v) { o += "{\"l\":["; e(o, v, std::index_sequence_for<Ts...>()); o += "]}"; } };
// in half of the runs the wrappers are handed around, as programs do, before they are looked at; this must not change them
struct Hand { bool on = false; unsigned n = 0; };
inline Hand &hand() { static Hand h; return h; }
template <class T> struct Plain { static const bool value = std::is_arithmetic<T>::value || std::is_same<T, string>::value; };
template <class T> struct Plain<vector<T>> { static const bool value = Plain<T>::value; };
template <class W> bool said(const W &) { return true; }
template <class T> bool said(const JS::NullableChecked<T> &v) { return !v.null; }
template <class T> bool said(const JS::OptionalChecked<T> &v) { return v.assigned; }
template <class W, class T, bool = Plain<T>::value> struct Around { static void go(W &v) { W a(std::move(v)); v = W(); v = std::move(a); } };
template <class W, class T> struct Around<W, T, true>
{
  static void go(W &v)
  {
    { W a(v), b; b = a; W c(std::move(b)); v = W(); v = std::move(c); const W d(v); v = W(); v = d; }
    if (!said(v)) return;
    T x(static_cast<const W &>(v)()), y(x); v = W();
    switch (hand().n++ % 5) { case 0: v = x; break; case 1: v = std::move(y); break; case 2: { W e(x); v = e; break; } case 3: { W e(std::move(y)); v = std::move(e); break; } default: { W e(x); e() = T(); e = x; v = e; } }
  }
};
template <class W, class T> void around(const W &v) { if (hand().on) Around<W, T>::go(const_cast<W &>(v)); }
template <class T> struct D<JS::Nullable<T>> { static void d(string &o, const JS::Nullable<T> &v) { around<JS::Nullable<T>, T>(v); D<T>::d(o, v.data); } };
template <class T> struct D<JS::Optional<T>> { static void d(string &o, const JS::Optional<T> &v) { around<JS::Optional<T>, T>(v); D<T>::d(o, v.data); } };
template <class T> struct D<JS::NullableChecked<T>> { static void d(string &o, const JS::NullableChecked<T> &v) { around<JS::NullableChecked<T>, T>(v); o += v.null ? "{\"null\":true,\"v\":" : "{\"null\":false,\"v\":"; D<T>::d(o, v.data); o += '}'; } };
template <class T> struct D<JS::OptionalChecked<T>> { static void d(string &o, const JS::OptionalChecked<T> &v) { around<JS::OptionalChecked<T>, T>(v); o += v.assigned ? "{\"asg\":true,\"v\":" : "{\"asg\":false,\"v\":"; D<T>::d(o, v.data); o += '}'; } };
template <class T> void dhas(string &o, const T *p) { if (!p) { o += "{\"has\":false}"; return; } o += "{\"has\":true,\"v\":"; D<T>::d(o, *p); o += '}'; }
template <class T> struct D<std::optional<T>> { static void d(string &o, const std::optional<T> &v) { dhas<T>(o, v ? &*v : nullptr); } };
template <class T> struct D<std::unique_ptr<T>> { static void d(string &o, const std::unique_ptr<T> &v) { dhas<T>(o, v.get()); } };
// in every other run the harness holds on to the shared pointers it has seen, like a program that shares them
struct Kept { std::vector<std::shared_ptr<const void>> v; bool on = false; };
inline Kept &kept() { static Kept k; return k; }
template <class T> struct D<std::shared_ptr<T>> { static void d(string &o, const std::shared_ptr<T> &v) { dhas<T>(o, v.get()); if (kept().on) kept().v.push_back(v); } };
template <class T> struct IsStruct { static const bool value = false; }; // specialised by the generated types
template <> struct D<JS::SilentString> { static void d(string &o, const JS::SilentString &v) { D<string>::d(o, v.data); } };
template <class T> struct D<JS::SilentVector<T>> { static void d(string &o, const JS::SilentVector<T> &v) { D<vector<T>>::d(o, v.data); } };
template <class T> struct D<JS::SilentUniquePtr<T>> { static void d(string &o, const JS::SilentUniquePtr<T> &v) { dhas<T>(o, v.data.get()); } };
#define DRAW(T) template <> struct D<T> { static void d(string &o, const T &v) { D<string>::d(o, v.data); } };
DRAW(JS::JsonObject) DRAW(JS::JsonArray) DRAW(JS::JsonObjectOrArray)
#define DREF(T) template <> struct D<T> { static void d(string &o, const T &v) { D<string>::d(o, string(v.ref.data ? v.ref.data : "", v.ref.size)); } };
DREF(JS::JsonObjectRef) DREF(JS::JsonArrayRef) DREF(JS::JsonObjectOrArrayRef)
template <> struct D<JS::JsonTokens> { static void d(string &o, const JS::JsonTokens &v) { o += "{\"t\":["; bool f = true; for (auto &t : v.data) { sep(o, f); dtok(o, t); } o += "]}"; } };
template <class C, class Du> struct D<std::chrono::time_point<C, Du>> { static void d(string &o, const std::chrono::time_point<C, Du> &v) { dint(o, std::chrono::duration_cast<std::chrono::nanoseconds>(v.time_since_epoch()).count()); } };

struct SerO { bool pretty; int shift; size_t buf; };
template <class T> string serialize(const T &v, const SerO &s)
{
  JS::SerializerOptions o(s.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  o.setShiftSize((unsigned char)s.shift);
  static unsigned nth = 0;
  if (s.buf == 0 && ++nth % 3) return JS::serializeStruct(v, o);
  if (s.buf == 0)
  {
    // a context that writes several values into one string, which may hold something already
    string out(nth / 3 % 5 == 0 ? 0 : nth / 3 % 61, '#'), one, all;
    { JS::SerializerContext c(out); c.serializer.setOptions(o); c.serialize(v); one = out; c.serialize(v); all = out; }
    if (all != out) return out;
    if (one.empty() || (one[0] != '{' && one[0] != '[')) return one;
    Oracle a(0), b(0); for (unsigned char x : one) a.step(x); for (unsigned char x : all) b.step(x);
    bool same = b.out.size() == 2 * a.out.size(); for (size_t i = 0; same && i < b.out.size(); i++) same = b.out[i] == a.out[i % a.out.size()];
    return same && !a.err ? one : all;
  }
  string out; vector<char> b(s.buf); JS::Serializer z(b.data(), b.size()); z.setOptions(o);
  z.setRequestBufferCallback([&](JS::Serializer &q) { out.append(b.data(), b.size()); q.setBuffer(b.data(), b.size()); });
  JS::Token t; JS::TypeHandler<T>::from(v, t, z);
  out.append(b.data(), z.currentBuffer().used);
  return out;
}
inline void names(string &o, const vector<string> &v) { o += '['; bool f = true; for (auto &s : v) { sep(o, f); bytes(o, s); } o += ']'; }
// the tokens of a text according to the exported specification, and where each of them was complete
inline void lex(string &o, int opt, const string &txt, bool pos)
{
  Oracle k(opt); string ps; bool f = true;
  for (size_t i = 0; i < txt.size() && !k.err; i++) { size_t n = k.out.size(); k.step((unsigned char)txt[i]); for (; n < k.out.size(); n++) { sep(ps, f); ps += std::to_string(i + 1); } }
  o += ",\"tk\":["; f = true; for (auto &t : k.out) { sep(o, f); otok(o, t); } o += ']';
  if (pos) o += ",\"pos\":[" + ps + "],\"lf\":" + (k.err ? "true" : "false");
  else o += k.complete() ? ",\"cm\":true" : ",\"cm\":false";
}
