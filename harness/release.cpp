// When buffers are given back. line: <opts> <0 all at once | 1 callback | 2 one by one when asked | 3 ahead of need> <dochex> <cuts> [<tokens> <skipped> <dochex> <cuts>]
// After <tokens> requests the tokenizer is given a new input (resetData), whose first buffer has <skipped> bytes too many in front.
#include <json_struct/json_struct.h>
#include <iostream>
#include <memory>
#include "guard.h"
#include "jsonout.h"
#include "feed.h"
using std::string; using std::vector;
static vector<size_t> cutlist(const string &s) { vector<size_t> c; if (s != "-") for (auto &x : split(s, ',')) c.push_back(size_t(atol(x.c_str()))); return c; }
// what the model says about the input: tokens determined by each buffer, the buffer with the malformed byte, the tokens
static string expect(int opt, const string &doc, const Feeder &fd, size_t skip)
{
  Oracle k(opt); string det; size_t errb = 0, p = 0; bool first = true;
  for (size_t b = 0; b < fd.bufs.size(); b++)
  {
    for (size_t i = 0; i < fd.bufs[b].n; i++, p++) if (!k.err && p >= skip) { k.step((unsigned char)doc[p]); if (k.err) errb = b + 1; }
    sep(det, first); det += std::to_string(k.out.size());
  }
  string o = "\"tk\":["; first = true; for (auto &x : k.out) { sep(o, first); otok(o, x); }
  return o + "],\"det\":[" + det + "],\"errb\":" + std::to_string(errb);
}
int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' ');
    int opt = atoi(f[0].c_str()), how = atoi(f[1].c_str()); string doc = unhex(f[2]);
    std::unique_ptr<Feeder> fd(new Feeder(doc, cutlist(f[3]), 2));
    string o = "{\"parts\":[{" + expect(opt, doc, *fd, 0);
    string ev; bool first = true;
    auto event = [&](const string &e) { sep(ev, first); ev += e; };
    JS::Tokenizer t; t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8);
    auto feed = [&](JS::Tokenizer &z) { if (fd->nb < fd->bufs.size()) { event("{\"e\":\"add\"}"); fd->feed(z); return true; } return false; };
    std::function<void(const char *)> rel = [&](const char *d) {
      size_t b = 0; while (b < fd->bufs.size() && fd->bufs[b].p != d) b++;
      event("{\"e\":\"rel\",\"b\":" + std::to_string(b < fd->bufs.size() ? b + 1 : 0) + "}");
      fd->rel(d);
    };
    t.setReleaseCallback(rel);
    if (how == 0) while (feed(t)) {}
    if (how == 1) t.setNeedMoreDataCallback([&](JS::Tokenizer &z) { feed(z); });
    auto run = [&](size_t asked) {
      size_t limit = 2 * doc.size() + 2 * fd->bufs.size() + 16;
      while (limit-- && asked--)
      {
        if (how == 3 && fd->nb < fd->bufs.size() && fd->nb < fd->released.size() + 2) feed(t);
        JS::Token tok; JS::Error e = t.nextToken(tok); string nb = ",\"nb\":" + std::to_string(t.registeredBuffers());
        if (e == JS::Error::NoError) { string s = "{\"e\":\"tok\",\"tok\":"; dtok(s, tok); event(s + nb + "}"); }
        else if (e == JS::Error::NeedMoreData) { event("{\"e\":\"more\"" + nb + "}"); if (!feed(t)) break; }
        else { event("{\"e\":\"fail\"" + nb + "}"); break; }
      }
    };
    run(f.size() > 4 ? size_t(atol(f[4].c_str())) : size_t(-1));
    if (f.size() > 4)
    {
      size_t skip = size_t(atol(f[5].c_str())); string doc2 = string(skip, '\\') + unhex(f[6]);
      std::unique_ptr<Feeder> old, next(new Feeder(doc2, cutlist(f[7]), 2));
      event("{\"e\":\"reset\"}");
      t.resetData(next->bufs[0].p, next->bufs[0].n, skip); // gives back what the old input still has
      old = std::move(fd); fd = std::move(next); doc = doc2; fd->nb = 1;
      o += ",\"ev\":[" + ev + "]},{" + expect(opt, doc, *fd, skip); ev.clear(); first = true;
      event("{\"e\":\"add\"}");
      if (how == 0) while (feed(t)) {}
      run(size_t(-1));
    }
    puts((o + ",\"ev\":[" + ev + "]}]}").c_str());
  }
}
