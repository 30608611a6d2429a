// Histories of a JS::DiffContext.
// line: <doc hex>,<doc hex>,... <op> <op> ...     documents are numbered from 1
//   B@<doc>@<options>  (re)start with this base     D@<doc>  compare a document
//   C@<position>       make a compared document the base    I@<options>  compare all again
// options: d default, n no tolerance, z tolerance 0, f<k> tolerance 10^-k
#include "dump.h"
#include <json_struct/json_struct_diff.h>
#include <cmath>
static const char *tf(bool b) { return b ? "true" : "false"; }
static JS::DiffOptions options(const string &s)
{
  if (s == "d") return JS::DiffOptions();
  if (s == "n") return JS::DiffOptions(JS::DiffFlags::None, 1e-6);
  if (s == "z") return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 0.0);
  return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, std::pow(10.0, -atoi(s.c_str() + 1)));
}
static void dopt(string &o, const string &s)
{
  o += string(",\"fuzzy\":") + tf(s != "n") + ",\"k\":" + (s == "d" ? "6" : s[0] == 'f' ? s.substr(1) : string("-1"));
}
static char mark(JS::DiffType t)
{
  switch (t)
  {
  case JS::NoDiff: return '='; case JS::ValueDiff: return 'V'; case JS::TypeDiff: return 'T'; case JS::NewMember: return 'N'; case JS::NewArrayItem: return 'A';
  case JS::MissingMembers: return 'm'; case JS::MissingArrayItems: return 'a'; case JS::RootItemDiff: return 'R'; case JS::ErroneousRootItem: return 'E';
  }
  return '!';
}
static void dump(string &o, const JS::DiffTokens &d)
{
  o += "{\"m\":["; bool f = true; for (auto m : d.diffs) { sep(o, f); o += string("\"") + mark(m) + "\""; }
  o += "],\"x\":["; f = true;
  for (size_t i = 0; i < d.tokens.data.size(); i++)
    for (auto *v : {d.getMissingMembers(d.tokens.data[i]), d.getMissingArrayItems(d.tokens.data[i])})
      if (v) { sep(o, f); o += "{\"at\":" + std::to_string(i + 1) + ",\"tk\":["; bool g = true; for (auto &t : *v) { sep(o, g); dtok(o, t); } o += "]}"; }
  o += "],\"count\":" + std::to_string(d.diff_count) + "}";
}
int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' '); vector<string> docs; for (auto &h : split(f[0], ',')) docs.push_back(unhex(h));
    string o = "{\"docs\":["; bool ff = true;
    for (auto &d : docs) { string t; lex(t, 0, d, false); sep(o, ff); o += t.substr(6, t.rfind(",\"cm\"") - 6); }
    o += "],\"ops\":["; ff = true;
    std::unique_ptr<JS::DiffContext> c;
    for (size_t i = 1; i < f.size(); i++)
    {
      auto p = split(f[i], '@'); sep(o, ff); char op = p[0][0]; o += string("{\"op\":\"") + op + "\"";
      auto all = [&] { o += ",\"obs\":["; bool g = true; for (auto &d : c->diffs) { sep(o, g); dump(o, d); } o += ']'; };
      if (op == 'B')
      {
        string &d = docs[size_t(atoi(p[1].c_str()) - 1)];
        if (!c) c.reset(i & 1 ? new JS::DiffContext(d, options(p[2])) : new JS::DiffContext(d.data(), d.size(), options(p[2]))); else { c->clear(); c->reset(d, options(p[2])); }
        o += ",\"doc\":" + p[1]; dopt(o, p[2]);
      }
      else if (op == 'D')
      {
        string &d = docs[size_t(atoi(p[1].c_str()) - 1)]; size_t pos = c->diff(d);
        o += ",\"doc\":" + p[1] + ",\"pos\":" + std::to_string(pos == size_t(-1) ? -1 : int(pos)) + ",\"err\":" + tf(c->error != JS::DiffError::NoError) + ",\"obs\":[";
        if (pos < c->diffs.size()) dump(o, c->diffs[pos]);
        o += ']';
      }
      else if (op == 'C') { c->changeBase(size_t(atoi(p[1].c_str()))); o += ",\"pos\":" + p[1]; all(); }
      else { c->invalidate(options(p[1])); dopt(o, p[1]); all(); }
      o += '}';
    }
    o += "]}"; puts(o.c_str());
  }
}
