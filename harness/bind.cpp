// Typed parsing and serializing: executes histories read from stdin on real C++ objects.
// line: <type> <cfg bits> <opts> <mode> <ser> <doc hex>@<cuts>@<delivery> ...
//   mode: 0 a new parse context per document; 1 same
//   ser: list of  p<shift>b<bufsize> | c<shift>b<bufsize>
// answer: one JSON record per line
#include "dump.h"
struct Step { string doc; vector<size_t> cuts; int how; };
struct Case { int cfg, opt, mode; vector<SerO> ser; vector<Step> steps; };
struct Entry { void (*run)(const Case &, string &); };

template <class T> void runCase(const Case &c, string &o)
{
  std::unique_ptr<T> obj(new T());
  static size_t runs = 0; kept().v.clear(); kept().on = ++runs & 1; hand().on = runs & 2;
  vector<std::unique_ptr<Feeder>> feeders; // refs point into the documents: keep them
  o += ",\"steps\":[";
  bool first = true, ok = true;
  for (auto &s : c.steps)
  {
    sep(o, first);
    feeders.emplace_back(new Feeder(s.doc, s.cuts, s.how));
    JS::ParseContext pc;
    pc.allow_missing_members = c.cfg & 1; pc.allow_unasigned_required_members = c.cfg & 2; pc.track_member_assignement_state = c.cfg & 4;
    pc.tokenizer.allowAsciiType(c.opt & 1); pc.tokenizer.allowNewLineAsTokenDelimiter(c.opt & 2); pc.tokenizer.allowSuperfluousComma(c.opt & 4); pc.tokenizer.allowComments(c.opt & 8);
    feeders.back()->attach(pc.tokenizer);
    JS::Error e = pc.parseTo(*obj);
    ok = e == JS::Error::NoError;
    o += "{\"doc\":"; bytes(o, s.doc); o += ok ? ",\"ok\":true" : ",\"ok\":false"; o += ",\"err\":" + std::to_string(int(e)) + ",\"mi\":"; names(o, pc.missing_members); o += ",\"un\":"; names(o, pc.unassigned_required_members);
    lex(o, c.opt, s.doc, true);
    if (ok)
    {
      o += ",\"val\":"; D<T>::d(o, *obj); o += ",\"rest\":[";
      JS::Token t; bool f = true; size_t lim = 2 * s.doc.size() + 8; JS::Error re;
      while ((re = pc.tokenizer.nextToken(t)) == JS::Error::NoError && lim--) { sep(o, f); dtok(o, t); }
      o += re == JS::Error::NeedMoreData ? "],\"rfail\":false" : "],\"rfail\":true";
    }
    o += '}';
    if (!ok) break;
  }
  o += "],\"ser\":[";
  first = true;
  if (ok) for (auto &w : c.ser)
  {
    sep(o, first);
    string text = serialize(*obj, w);
    o += w.pretty ? "{\"pretty\":true" : "{\"pretty\":false"; o += ",\"shift\":" + std::to_string(w.shift) + ",\"buf\":" + std::to_string(w.buf) + ",\"text\":"; bytes(o, text); lex(o, 0, text, false);
    std::unique_ptr<T> b(new T()); JS::ParseContext pc(text); JS::Error e = pc.parseTo(*b);
    o += e == JS::Error::NoError ? ",\"bok\":true,\"back\":" : ",\"bok\":false,\"back\":"; D<T>::d(o, *b); o += '}';
  }
  o += ']';
}
template <class T> Entry entry() { return Entry{&runCase<T>}; }
#include "types_gen.h"

int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  vector<Entry> reg; register_all(reg);
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    vector<string> f = split(line, ' ');
    Case c; int ty = atoi(f[0].c_str()); c.cfg = atoi(f[1].c_str()); c.opt = atoi(f[2].c_str()); c.mode = atoi(f[3].c_str());
    if (f[4] != "-") for (auto &w : split(f[4], ',')) { size_t b = w.find('b'); c.ser.push_back({w[0] == 'p', atoi(w.c_str() + 1), size_t(atol(w.c_str() + b + 1))}); }
    for (size_t i = 5; i < f.size(); i++)
    {
      auto p = split(f[i], '@'); Step s; s.doc = unhex(p[0]);
      if (p[1] != "-") for (auto &x : split(p[1], ',')) s.cuts.push_back(size_t(atol(x.c_str())));
      s.how = atoi(p[2].c_str()); c.steps.push_back(s);
    }
    string o = "{\"root\":" + std::to_string(ty) + ",\"cfg\":{\"am\":" + (c.cfg & 1 ? "true" : "false") + ",\"au\":" + (c.cfg & 2 ? "true" : "false") + ",\"tr\":" + (c.cfg & 4 ? "true" : "false") + "}"
      + ",\"o\":{\"a\":" + (c.opt & 1 ? "true" : "false") + ",\"n\":" + (c.opt & 2 ? "true" : "false") + ",\"s\":" + (c.opt & 4 ? "true" : "false") + ",\"c\":" + (c.opt & 8 ? "true" : "false") + "}";
    reg[size_t(ty)].run(c, o);
    o += "}";
    puts(o.c_str());
  }
  return 0;
}
