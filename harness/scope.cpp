// Reading with scopes. line: <opts> <how | 4: from a token list> <dochex> <cuts> <ops>
// ops: x popScope if possible, else nextToken; n nextToken, p pushScope at the last token, g goToEndOfScope, o popScope (only where the scope is known to have ended)
#include <json_struct/json_struct.h>
#include <iostream>
#include "guard.h"
#include "jsonout.h"
#include "feed.h"
using std::string; using std::vector;
int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' ');
    int opt = atoi(f[0].c_str()), how = atoi(f[1].c_str()); string doc = unhex(f[2]);
    vector<size_t> cuts; if (f[3] != "-") for (auto &x : split(f[3], ',')) cuts.push_back(size_t(atol(x.c_str())));
    Oracle k(opt); for (char c : doc) { k.step((unsigned char)c); if (k.err) break; }
    string o = "{\"tk\":["; bool first = true; for (auto &t : k.out) { sep(o, first); otok(o, t); }
    o += k.err ? "],\"end\":\"fail\",\"ops\":[" : "],\"end\":\"more\",\"ops\":[";
    JS::Tokenizer t; vector<JS::Token> vec;
    auto options = [&](JS::Tokenizer &z) { z.allowAsciiType(opt & 1); z.allowNewLineAsTokenDelimiter(opt & 2); z.allowSuperfluousComma(opt & 4); z.allowComments(opt & 8); };
    options(t);
    Feeder fd(doc, cuts, how & 3);
    if (how & 4)
    {
      JS::Tokenizer z; options(z); z.addData(doc.data(), doc.size()); JS::Token x;
      while (z.nextToken(x) == JS::Error::NoError) vec.push_back(x);
      if (vec.size()) t.addData(&vec);
    }
    else fd.attach(t);
    vector<bool> ended; bool have = false, failed = false; JS::Token tok; JS::Type last = JS::Type::Null; first = true;
    for (char c : f[4])
    {
      if (c == 'x') c = !ended.empty() && ended.back() ? 'o' : 'n';
      string res = "none"; bool hastok = false;
      if (failed) break;
      if (c == 'n' || c == 'g')
      {
        if (c == 'g' && ended.empty()) continue;
        JS::Error e = c == 'n' ? t.nextToken(tok) : t.goToEndOfScope(tok);
        if (e == JS::Error::NoError) { res = c == 'n' ? "tok" : "ok"; hastok = have = true; last = tok.value_type; if (c == 'g') ended.back() = true; }
        else if (e == JS::Error::ScopeHasEnded) { res = "ended"; if (!ended.empty()) ended.back() = true; }
        else if (e == JS::Error::NeedMoreData) { res = "more"; failed = true; }
        else { res = "fail"; failed = true; }
        if (how & 4 && res == "more" && k.err) res = "fail"; // a token list just ends
      }
      else if (c == 'p') { if (!have || last == JS::Type::ObjectEnd || last == JS::Type::ArrayEnd) continue; t.pushScope(last); ended.push_back(last != JS::Type::ObjectStart && last != JS::Type::ArrayStart); }
      else { if (ended.empty() || !ended.back()) continue; t.popScope(); ended.pop_back(); }
      sep(o, first); o += "{\"op\":\""; o += c; o += "\",\"res\":\"" + res + "\""; if (hastok) { o += ",\"tok\":"; dtok(o, tok); } o += '}';
    }
    o += "]}"; puts(o.c_str());
  }
}
