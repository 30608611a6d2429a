// The serializer and reformat.
// line: W <p|c> <shift> <quote> <delim> <base> <how> <sizes|f<n>> <tok;tok;...>      tok: nt,hex,vt,hex
//         how: 0 options given to the constructor, 1 setStyle afterwards
//       R <p|c> <shift> <quote> <prefill> <dochex>
#include <json_struct/json_struct.h>
#include <iostream>
#include "guard.h"
#include "jsonout.h"
using std::string; using std::vector;
static JS::SerializerOptions options(bool pretty, int shift, bool quote, bool delim, int base, int how)
{
  JS::SerializerOptions o(how ? (pretty ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty) : (pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact));
  if (how) o.setStyle(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  o.setShiftSize((unsigned char)shift); o.setConvertAsciiToString(quote); o.skipDelimiter(!delim); o.setDepth(base);
  return o;
}
static JS::Type tyOf(char c)
{
  switch (c) { case 'S': return JS::Type::String; case 'A': return JS::Type::Ascii; case 'N': return JS::Type::Number; case '{': return JS::Type::ObjectStart; case '}': return JS::Type::ObjectEnd;
  case '[': return JS::Type::ArrayStart; case ']': return JS::Type::ArrayEnd; case 'B': return JS::Type::Bool; case 'Z': return JS::Type::Null; }
  return JS::Type::Error;
}
static void style(string &o, bool pretty, int shift, bool quote, bool delim, int base)
{
  auto b = [](bool x) { return x ? "true" : "false"; };
  o += string("{\"pretty\":") + b(pretty) + ",\"shift\":" + std::to_string(shift) + ",\"quote\":" + b(quote) + ",\"delim\":" + b(delim) + ",\"base\":" + std::to_string(base) + "}";
}
static void lex(string &o, int opt, const string &txt)
{
  Oracle k(opt); for (size_t i = 0; i < txt.size() && !k.err; i++) k.step((unsigned char)txt[i]);
  o += "{\"tk\":["; bool f = true; for (auto &t : k.out) { sep(o, f); otok(o, t); }
  o += string("],\"lf\":") + (k.err ? "true" : "false") + ",\"cm\":" + (k.complete() ? "true" : "false") + "}";
}
// buffers of exactly the given size; everything that was written is collected when a buffer is full
struct Sink
{
  vector<size_t> sizes; size_t next = 0; string done; vector<char *> all; char *cur = nullptr; size_t cursz = 0; size_t got = 0; bool fixed;
  char *alloc(size_t n) { char *p = static_cast<char *>(malloc(n ? n : 1)); memset(p, 0x7e, n); all.push_back(p); return p; }
  void attach(JS::Serializer &z)
  {
    cursz = sizes[next % sizes.size()]; next++; cur = alloc(cursz); z.setBuffer(cur, cursz);
    if (!fixed) z.setRequestBufferCallback([this](JS::Serializer &q) { done.append(cur, cursz); cursz = sizes[next % sizes.size()]; next++; cur = alloc(cursz); q.setBuffer(cur, cursz); });
  }
  ~Sink() { for (auto p : all) free(p); }
};
int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' '); string o = "{\"kind\":\"" + f[0] + "\",\"s\":";
    bool pretty = f[1] == "p"; int shift = atoi(f[2].c_str()); bool quote = f[3] == "1";
    if (f[0] == "W")
    {
      bool delim = f[4] == "1"; int base = atoi(f[5].c_str());
      style(o, pretty, shift, quote, delim, base);
      Sink k; k.fixed = f[7][0] == 'f';
      if (k.fixed) k.sizes.push_back(size_t(atol(f[7].c_str() + 1))); else for (auto &x : split(f[7], ',')) k.sizes.push_back(size_t(atol(x.c_str())));
      JS::Serializer z; z.setOptions(options(pretty, shift, quote, delim, base, atoi(f[6].c_str()))); k.attach(z);
      string tk, res, len; bool first = true, ok = true;
      if (f[8] != "-") for (auto &t : split(f[8], ';'))
      {
        auto p = split(t, ','); string n = unhex(p[1]), v = unhex(p[3]);
        JS::Token tok; tok.name_type = tyOf(p[0][0]); tok.value_type = tyOf(p[2][0]); tok.name = JS::DataRef(n.data(), n.size());
        string vv = v; char c = p[2][0]; if (c == '{' || c == '}' || c == '[' || c == ']') vv = string(1, c);
        // names and values are copies that are gone after the call
        char *np = static_cast<char *>(malloc(n.size() ? n.size() : 1)), *vp = static_cast<char *>(malloc(vv.size() ? vv.size() : 1)); memcpy(np, n.data(), n.size()); memcpy(vp, vv.data(), vv.size());
        tok.name = JS::DataRef(np, n.size()); tok.value = JS::DataRef(vp, vv.size());
        ok = z.write(tok);
        free(np); free(vp);
        if (!first) { tk += ','; res += ','; len += ','; } first = false;
        tk += "{\"nt\":\"" + p[0] + "\",\"n\":"; bytes(tk, n); tk += ",\"vt\":\"" + p[2] + "\",\"v\":"; bytes(tk, v); tk += '}';
        res += ok ? "true" : "false";
        len += std::to_string(k.done.size() + z.currentBuffer().used);
        if (!ok && k.fixed) break;
      }
      string text = k.done;
      if (k.fixed && !ok && z.currentBuffer().buffer != k.cur) text.append(k.cur, k.cursz); else text.append(k.cur, z.currentBuffer().used);
      o += ",\"room\":" + std::to_string(k.fixed ? long(k.sizes[0]) : -1L) + ",\"tks\":[" + tk + "],\"res\":[" + res + "],\"len\":[" + len + "],\"text\":"; bytes(o, text);
      o += ",\"back\":"; lex(o, quote ? 0 : 1, text);
    }
    else
    {
      style(o, pretty, shift, quote, true, 0);
      string doc = unhex(f[5]);
      char *d = static_cast<char *>(malloc(doc.size() ? doc.size() : 1)); memcpy(d, doc.data(), doc.size());
      auto so = options(pretty, shift, quote, true, 0, 0);
      string out(size_t(atoi(f[4].c_str())), 'x'), again, comp, compdirect, viatok;
      JS::Error e = JS::reformat(d, doc.size(), out, so);
      JS::Error e2 = JS::reformat(out, again, so);
      JS::SerializerOptions co(JS::SerializerOptions::Compact); co.setConvertAsciiToString(quote);
      JS::reformat(out, comp, co); JS::reformat(d, doc.size(), compdirect, co);
      // the same through a list of tokens
      vector<JS::Token> list; { JS::Tokenizer t; t.addData(d, doc.size()); JS::Token tok; while (t.nextToken(tok) == JS::Error::NoError) list.push_back(tok); }
      if (!list.empty())
      {
        JS::Tokenizer t; t.addData(&list); JS::Token tok; vector<char> b(64); JS::Serializer z(b.data(), b.size()); z.setOptions(so);
        z.setRequestBufferCallback([&](JS::Serializer &q) { viatok.append(b.data(), b.size()); q.setBuffer(b.data(), b.size()); });
        JS::Error te; size_t lim = list.size() + 4;
        while ((te = t.nextToken(tok)) == JS::Error::NoError && lim--) z.write(tok);
        viatok.append(b.data(), z.currentBuffer().used);
        if (te != JS::Error::NeedMoreData) viatok += "<error>";
      }
      free(d);
      auto err = [](JS::Error x) { return x == JS::Error::NoError ? "true" : "false"; };
      o += ",\"room\":-1,\"doc\":"; bytes(o, doc); o += ",\"in\":"; lex(o, 0, doc); o += string(",\"ok\":") + err(e) + ",\"out\":"; bytes(o, out); o += string(",\"ok2\":") + err(e2) + ",\"again\":"; bytes(o, again);
      o += ",\"comp\":"; bytes(o, comp); o += ",\"cdir\":"; bytes(o, compdirect); o += ",\"via\":"; bytes(o, viatok); o += ",\"back\":"; lex(o, quote ? 0 : 1, out);
    }
    o += "}";
    puts(o.c_str());
  }
}
