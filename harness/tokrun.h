// Running the real tokenizer on a segmented input through the public API.
#pragma once
#include <json_struct/json_struct.h>
#include <memory>
#include "guard.h"
#include "oracle.h"
struct Obs
{
  std::vector<OTok> toks; int end = 0; // end: 0 = wants more data, otherwise JS::Error
  std::vector<std::pair<size_t, size_t>> marks; // (bytes fed, tokens seen) at every request for data
  bool operator==(const Obs &o) const { return end == o.end && toks == o.toks; }
};
inline char tyc(JS::Type t)
{
  switch (t)
  {
  case JS::Type::String: return 'S'; case JS::Type::Ascii: return 'A'; case JS::Type::Number: return 'N';
  case JS::Type::ObjectStart: return '{'; case JS::Type::ObjectEnd: return '}'; case JS::Type::ArrayStart: return '[';
  case JS::Type::ArrayEnd: return ']'; case JS::Type::Bool: return 'B'; case JS::Type::Null: return 'Z';
  default: return '?';
  }
}
inline bool isBracket(char c) { return c == '{' || c == '}' || c == '[' || c == ']'; }
inline OTok conv(const JS::Token &t)
{
  OTok o;
  o.nt = tyc(t.name_type); o.n.assign(t.name.data ? t.name.data : "", t.name.size);
  o.vt = tyc(t.value_type);
  if (!isBracket(o.vt)) o.v.assign(t.value.data ? t.value.data : "", t.value.size);
  return o;
}
inline void setOpts(JS::Tokenizer &t, int opt)
{
  t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8);
}
enum Delivery { Push, Callback, Queue, PushRelease, CallbackRelease, NDelivery };
// Every buffer lives in its own exactly-sized allocation; with a release callback it is
// overwritten and freed as soon as the tokenizer gives it back.
inline Obs run(const std::string &s, const std::vector<size_t> &cuts, int opt, Delivery how)
{
  struct Buf { char *p; size_t n; };
  std::vector<Buf> bufs; size_t p = 0;
  auto add = [&](size_t c) { char *m = static_cast<char *>(malloc(c > p ? c - p : 1)); memcpy(m, s.data() + p, c - p); bufs.push_back({m, c - p}); p = c; };
  for (size_t c : cuts) add(c); // a cut that is there twice makes an empty buffer
  if (s.size() > p || !cuts.empty()) add(s.size());
  Obs o; JS::Tokenizer t; setOpts(t, opt);
  size_t nb = 0, fed = 0;
  auto feed = [&](JS::Tokenizer &tk) { if (nb < bufs.size()) { fed += bufs[nb].n; tk.addData(bufs[nb].p, bufs[nb].n); nb++; return true; } return false; };
  std::function<void(const char *)> rel = [&](const char *d) {
    for (auto &b : bufs) if (b.p == d) { memset(b.p, 0x5a, b.n); free(b.p); b.p = nullptr; }
  };
  if (how == PushRelease || how == CallbackRelease) t.setReleaseCallback(rel);
  if (how == Queue) while (feed(t)) {}
  if (how == Callback || how == CallbackRelease) t.setNeedMoreDataCallback([&](JS::Tokenizer &tk) { feed(tk); });
  JS::Token tok;
  size_t limit = 2 * s.size() + bufs.size() + 16;
  for (size_t i = 0;; i++)
  {
    JS::Error e = t.nextToken(tok);
    if (e == JS::Error::NeedMoreData)
    {
      if (how == Push || how == PushRelease) o.marks.push_back({fed, o.toks.size()});
      if (nb < bufs.size() && feed(t)) continue;
      break;
    }
    if (e != JS::Error::NoError) { o.end = int(e); break; }
    o.toks.push_back(conv(tok));
    if (i > limit) { o.end = 1000; break; } // endless token stream
  }
  for (auto &b : bufs) free(b.p);
  return o;
}
inline std::string show(const Obs &o)
{
  std::string r;
  for (auto &t : o.toks) r += std::string(1, t.nt) + "<" + t.n + ">" + t.vt + "<" + t.v + "> ";
  return r + (o.end == 0 ? "..." : "error " + std::to_string(o.end));
}
inline std::string tokHex(const std::vector<OTok> &v)
{
  std::string r;
  for (auto &t : v) { if (!r.empty()) r += ';'; r += std::string(1, t.nt) + "," + hex(t.n) + "," + t.vt + "," + hex(t.v); }
  return r.empty() ? "-" : r;
}
