// Scalars: strings and integers in both directions.
// line: S <raw hex> <cuts>       raw text of a string: parsed as element, key and member
//       E <bytes hex>            a string with these contents: serialized as element, key and member, and read back
//       I <raw hex> <0|1>        a number (1: quoted) into every integer type
#define JS_STL_MAP 1
#define JS_INT_128 1
#include <json_struct/json_struct.h>
#include <map>
#include <iostream>
#include "guard.h"
#include "oracle.h"
#include "jsonout.h"
#include "feed.h"
using std::string; using std::vector;
struct Mem { string v; JS_OBJ(v); };
template <class T> static bool parse(const string &doc, const vector<size_t> &cuts, T &t)
{
  Feeder f(doc, cuts, 3); JS::ParseContext pc; f.attach(pc.tokenizer);
  return pc.parseTo(t) == JS::Error::NoError;
}
template <class U> static string dig(U u) { string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u != 0); return s; }
static void dnat(string &o, bool neg, const string &s) { o += neg ? "{\"neg\":true,\"d\":[" : "{\"neg\":false,\"d\":["; for (size_t i = 0; i < s.size(); i++) { if (i) o += ','; o += s[i]; } o += "]}"; }
template <class T> static void dint(string &o, T v) { bool n = v < 0; dnat(o, n, dig(n ? (unsigned __int128)(-(v + 1)) + 1 : (unsigned __int128)v)); }
template <class T> static void one(string &o, bool &f, int w, bool sg, const string &doc)
{
  sep(o, f);
  T x[1] = {T(77)}; vector<T> v; bool ok = parse(doc, {}, v) && v.size() == 1;
  (void)x;
  o += "{\"w\":" + std::to_string(w) + ",\"sg\":" + (sg ? "true" : "false") + ",\"ok\":" + (ok ? "true" : "false");
  if (ok)
  {
    o += ",\"v\":"; dint<T>(o, v[0]);
    string t = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact)); o += ",\"text\":"; bytes(o, t);
    vector<T> b; bool bok = parse(t, {}, b) && b.size() == 1 && b[0] == v[0]; o += bok ? ",\"back\":true" : ",\"back\":false";
  }
  o += '}';
}
int main()
{
  guard::install();
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' '); string raw = unhex(f[1]); string o = "{\"kind\":\"" + f[0] + "\",\"raw\":"; bytes(o, raw);
    if (f[0] == "S")
    {
      vector<size_t> cuts; if (f[2] != "-") for (auto &x : split(f[2], ',')) cuts.push_back(size_t(atol(x.c_str())));
      vector<string> v; std::map<string, string> m; Mem s; s.v = "previous";
      bool a = parse("[\"" + raw + "\"]", cuts, v) && v.size() == 1, b = parse("{\"" + raw + "\":\"" + raw + "\"}", cuts, m) && m.size() == 1, c = parse("{\"v\":\"" + raw + "\"}", cuts, s);
      o += a && b && c ? ",\"ok\":true" : ",\"ok\":false";
      if (a && b && c) { o += ",\"dec\":["; bytes(o, v[0]); o += ','; bytes(o, m.begin()->first); o += ','; bytes(o, m.begin()->second); o += ','; bytes(o, s.v); o += ']'; }
    }
    else if (f[0] == "E")
    {
      JS::SerializerOptions c(JS::SerializerOptions::Compact);
      vector<string> v{raw}; std::map<string, string> m{{raw, raw}}; Mem s; s.v = raw;
      string tv = JS::serializeStruct(v, c), tm = JS::serializeStruct(m, c), ts = JS::serializeStruct(s, c);
      vector<string> v2; std::map<string, string> m2; Mem s2;
      bool ok = parse(tv, {}, v2) && v2 == v && parse(tm, {}, m2) && m2 == m && parse(ts, {}, s2) && s2.v == s.v;
      o += ",\"tv\":"; bytes(o, tv); o += ",\"tm\":"; bytes(o, tm); o += ",\"ts\":"; bytes(o, ts); o += ok ? ",\"back\":true" : ",\"back\":false";
    }
    else
    {
      string q = f[2] == "1" ? "\"" : "", doc = "[" + q + raw + q + "]"; bool first = true;
      o += ",\"res\":[";
      one<int8_t>(o, first, 8, true, doc); one<uint8_t>(o, first, 8, false, doc); one<char>(o, first, 8, true, doc); one<short>(o, first, 16, true, doc); one<unsigned short>(o, first, 16, false, doc);
      one<int>(o, first, 32, true, doc); one<unsigned>(o, first, 32, false, doc); one<long>(o, first, 64, true, doc); one<unsigned long>(o, first, 64, false, doc);
      one<long long>(o, first, 64, true, doc); one<unsigned long long>(o, first, 64, false, doc); one<__int128>(o, first, 128, true, doc); one<unsigned __int128>(o, first, 128, false, doc);
      o += ']';
    }
    o += '}';
    puts(o.c_str());
  }
}
