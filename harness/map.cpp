// Histories of a JS::Map, and metadata of token lists.
// line: M <doc hex>                     metadata of all tokens of the text
//       H <op> <op> ...                 a history:
//   D@<doc hex>                parse a document into the map
//   S@<name hex>@<type>@<doc>  set a member to the value the document gives for the type
//   A@<type>@<doc>             set the whole map
//   C@<name hex>@<type>        convert a member        W@<type>  convert the whole map
//   F@<name hex>               look a name up
//   Y / V                      replace the map by a copy of it (the original is destroyed) / move it
//   X@p<shift>b<buf>           write the map
#include "dump.h"
#include <type_traits>
struct MapRun
{
  std::unique_ptr<JS::Map> m{new JS::Map}; JS::ParseContext pc; vector<std::unique_ptr<string>> docs;
};
template <class T, class = void> struct SetAll { static bool go(MapRun &, const T &, JS::Error &) { return false; } };
template <class T> struct SetAll<T, typename std::enable_if<IsStruct<T>::value>::type>
{ static bool go(MapRun &r, const T &v, JS::Error &e) { e = r.m->setValue(r.pc, v); return true; } };
struct Entry
{
  void (*set)(MapRun &, const string &name, const string &doc, bool all, string &o);
  void (*cast)(MapRun &, const string *name, int how, string &o);
};
static const char *tf(bool b) { return b ? "true" : "false"; }
template <class T> struct Box { T v{}; JS_OBJ(v); };
template <class T> void doset(MapRun &r, const string &name, const string &doc, bool all, string &o)
{
  std::unique_ptr<Box<T>> box(new Box<T>()); JS::ParseContext p(doc.data(), doc.size()); if (p.parseTo(*box) != JS::Error::NoError) box.reset(new Box<T>());
  T *v = &box->v;
  JS::Error e;
  if (!all) e = r.m->setValue(name, r.pc, *v); else if (!SetAll<T>::go(r, *v, e)) { fprintf(stderr, "not a struct\n"); exit(3); }
  o += string(",\"ok\":") + tf(e == JS::Error::NoError) + ",\"val\":"; D<T>::d(o, *v);
}
template <class T> void docast(MapRun &r, const string *name, int how, string &o)
{
  T v{}; JS::Error e, e2;
  if (how == 0) { e = name ? r.m->castToType(*name, r.pc, v) : r.m->castToType(r.pc, v); e2 = r.pc.error; }
  else { v = name ? r.m->castTo<T>(*name, r.pc) : r.m->castTo<T>(r.pc); e = e2 = r.pc.error; }
  o += string(",\"ok\":") + tf(e == JS::Error::NoError) + ",\"pok\":" + tf(e2 == JS::Error::NoError) + ",\"nf\":" + tf(e == JS::Error::KeyNotFound) + ",\"val\":"; if (e == JS::Error::NoError) D<T>::d(o, v); else o += "0";
}
template <class T> Entry entry() { return Entry{&doset<T>, &docast<T>}; }
#include "types_gen.h"
static void dtoks(string &o, const vector<JS::Token> &v) { o += '['; bool f = true; for (auto &t : v) { sep(o, f); dtok(o, t); } o += ']'; }
static void dmeta(string &o, const vector<JS::JsonMeta> &v)
{
  o += '['; bool f = true;
  for (auto &m : v) { sep(o, f); o += "{\"position\":" + std::to_string(m.position) + ",\"size\":" + std::to_string(m.size) + ",\"skip\":" + std::to_string(m.skip) + ",\"children\":" + std::to_string(m.children) + ",\"complex_children\":" + std::to_string(m.complex_children) + ",\"is_array\":" + tf(m.is_array) + ",\"has_data\":" + tf(m.has_data) + "}"; }
  o += ']';
}
static void state(string &o, const JS::Map &m)
{
  o += ",\"obs\":"; dtoks(o, m.tokens.data); o += ",\"meta\":"; dmeta(o, m.meta); o += ",\"it\":[";
  bool f = true; size_t lim = m.tokens.data.size() + 2;
  if (m.tokens.data.size()) for (auto it = m.begin(); it != m.end() && lim--; ++it) { sep(o, f); o += std::to_string(it.index + 1); if (it.index >= m.tokens.data.size()) break; }
  o += ']';
}
int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  vector<Entry> reg; register_all(reg);
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' '); string o = "{\"kind\":\"" + f[0] + "\"";
    if (f[0] == "M")
    {
      string doc = unhex(f[1]); JS::Tokenizer t; t.addData(doc.data(), doc.size()); JS::JsonTokens v; JS::Token k; JS::Error e;
      while ((e = t.nextToken(k)) == JS::Error::NoError) v.data.push_back(k);
      o += ",\"doc\":"; bytes(o, doc); lex(o, 0, doc, false);
      long dep = 0; for (auto &t : v.data) dep += (t.value_type == JS::Type::ObjectStart || t.value_type == JS::Type::ArrayStart) - (t.value_type == JS::Type::ObjectEnd || t.value_type == JS::Type::ArrayEnd);
      bool whole = e == JS::Error::NeedMoreData && dep == 0; // only for complete token lists
      vector<JS::JsonMeta> m; if (whole) m = JS::metaForTokens(v); else v.data.clear();
      o += string(",\"whole\":") + tf(whole);
      o += ",\"meta\":"; dmeta(o, m); o += ",\"first\":["; bool ff = true;
      for (size_t i = 0; i < m.size(); i++) { sep(o, ff); o += std::to_string((long long)JS::Internal::findFirstChildWithData(m, i)); }
      o += "]}"; puts(o.c_str()); continue;
    }
    MapRun r; bool first = true; o += ",\"ops\":[";
    for (size_t i = 1; i < f.size(); i++)
    {
      auto p = split(f[i], '@'); sep(o, first); char op = p[0][0]; o += string("{\"op\":\"") + op + "\"";
      if (op == 'D')
      {
        r.docs.emplace_back(new string(unhex(p[1]))); string &d = *r.docs.back();
        r.pc.tokenizer.resetData(d.data(), d.size(), 0); bool ok = r.pc.parseTo(*r.m) == JS::Error::NoError;
        o += string(",\"ok\":") + tf(ok) + ",\"doc\":"; bytes(o, d); lex(o, 0, d, false);
        if (!ok) { o += '}'; break; }
        state(o, *r.m);
      }
      else if (op == 'B') // the context is used for something else, which may fail half way
      {
        r.docs.emplace_back(new string(unhex(p[1]))); string &d = *r.docs.back();
        r.pc.tokenizer.resetData(d.data(), d.size(), 0); JS::JsonTokens t; (void)r.pc.parseTo(t);
      }
      else if (op == 'S' || op == 'A')
      {
        bool all = op == 'A'; size_t b = all ? 1 : 2; string n = all ? "" : unhex(p[1]); int ty = atoi(p[b].c_str());
        o += ",\"name\":"; bytes(o, n); o += ",\"ty\":" + std::to_string(ty); reg[size_t(ty)].set(r, n, unhex(p[b + 1]), all, o); state(o, *r.m);
      }
      else if (op == 'C' || op == 'W')
      {
        string n = op == 'C' ? unhex(p[1]) : ""; int ty = atoi(p[op == 'C' ? 2 : 1].c_str());
        o += ",\"name\":"; bytes(o, n); o += ",\"ty\":" + std::to_string(ty); reg[size_t(ty)].cast(r, op == 'C' ? &n : nullptr, int(i & 1), o);
      }
      else if (op == 'F')
      {
        string n = unhex(p[1]); o += ",\"name\":"; bytes(o, n); size_t ix = 0;
        if (r.m->tokens.data.size()) { auto it = r.m->find(n); if (it != r.m->end()) ix = it.index + 1; }
        o += ",\"at\":" + std::to_string(ix);
      }
      else if (op == 'Y' || op == 'V')
      {
        std::unique_ptr<JS::Map> n;
        if (op == 'V') n.reset(new JS::Map(std::move(*r.m))); else if (i & 1) n.reset(new JS::Map(*r.m)); else { n.reset(new JS::Map); n->setValue("before", r.pc, 1); *n = *r.m; }
        r.m = std::move(n); state(o, *r.m);
      }
      else
      {
        string w = p[1]; size_t b = w.find('b'); SerO s{w[0] == 'p', atoi(w.c_str() + 1), size_t(atol(w.c_str() + b + 1))};
        string t = serialize(*r.m, s); o += string(",\"pretty\":") + tf(s.pretty) + ",\"shift\":" + std::to_string(s.shift) + ",\"text\":"; bytes(o, t); lex(o, 0, t, false);
      }
      o += '}';
    }
    o += "]}"; puts(o.c_str());
  }
}
