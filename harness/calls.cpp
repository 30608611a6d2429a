// Documents that call functions: executes histories read from stdin on real C++ objects.
// line: <class> <cfg: 1 am 2 au 4 tr 8 allow_missing 16 stop> <opts> <p|c><shift>b<bufsize> <mode> <doc hex>@<cuts>@<delivery>
//   mode: 0 a context of our own over a parse context and a serializer; 1 the default context
#include "dump.h"
struct Step { string doc; vector<size_t> cuts; int how; };
struct Case { int cfg, opt, mode; SerO w; Step s; };
static string calls; static bool cfirst; static int ncalls;
static void note(int id) { sep(calls, cfirst); ncalls++; calls += "{\"f\":" + std::to_string(id) + "}"; }
template <class T> void note(int id, const T &a) { sep(calls, cfirst); ncalls++; calls += "{\"f\":" + std::to_string(id) + ",\"v\":"; D<T>::d(calls, a); calls += '}'; }
typedef void (*Runner)(const Case &, string &);
struct Own : JS::CallFunctionContext
{
  using JS::CallFunctionContext::CallFunctionContext;
  int before = 0, after = 0;
  void beforeCallFunctions() override { before++; }
  void afterCallFunctions() override { after++; }
};
static void setup(const Case &c, JS::CallFunctionContext &x)
{
  JS::ParseContext &pc = x.parse_context;
  pc.allow_missing_members = c.cfg & 1; pc.allow_unasigned_required_members = c.cfg & 2; pc.track_member_assignement_state = c.cfg & 4;
  pc.tokenizer.allowAsciiType(c.opt & 1); pc.tokenizer.allowNewLineAsTokenDelimiter(c.opt & 2); pc.tokenizer.allowSuperfluousComma(c.opt & 4); pc.tokenizer.allowComments(c.opt & 8);
  x.allow_missing = c.cfg & 8; x.stop_execute_on_fail = c.cfg & 16; x.user_context = "who";
}
struct Named { JS::Error e; JS_OBJ(e); };
// a failed call comes with a text, which names the error unless the function chose one of its own
static bool told(const JS::CallFunctionExecutionState &s)
{
  if (s.error_string.data.empty() || s.error == JS::Error::NoError || s.error >= JS::Error::UserDefinedErrors) return !s.error_string.data.empty();
  Named n; n.e = s.error; string w = JS::serializeStruct(n, JS::SerializerOptions(JS::SerializerOptions::Compact)); // {"e":"Name"}
  return w.size() > 8 && s.error_string.data.find(w.substr(6, w.size() - 8)) != string::npos;
}
template <class T> void drive(JS::CallFunctionContext &x, Own *own, string &o)
{
  T obj; bool first = true; ncalls = 0;
  o += ",\"runs\":[";
  for (int k = 0; k < 8; k++)
  {
    sep(o, first); calls.clear(); cfirst = true;
    JS::Error e = x.callFunctions(obj);
    o += e == JS::Error::NoError ? "{\"ok\":true" : "{\"ok\":false"; o += ",\"err\":" + std::to_string(int(e)) + ",\"log\":[" + calls + "],\"ex\":[";
    bool f = true, who = true;
    for (auto &s : x.execution_list)
    {
      who = who && s.context.data == "who";
      sep(o, f); o += "{\"n\":"; bytes(o, s.name); o += s.error == JS::Error::NoError ? ",\"kind\":\"ok\"" : s.error == JS::Error::MissingFunction ? ",\"kind\":\"missing\"" : s.error >= JS::Error::UserDefinedErrors ? ",\"kind\":\"user\"" : ",\"kind\":\"parse\"";
      o += ",\"err\":" + std::to_string(int(s.error)) + ",\"mi\":"; names(o, s.missing_members.data); o += ",\"un\":"; names(o, s.unassigned_required_members.data);
      size_t m = s.error_string.data.find("msg"); o += !told(s) ? ",\"told\":false" : ",\"told\":true"; o += ",\"msg\":"; bytes(o, m == string::npos ? string() : s.error_string.data.substr(m, s.error_string.data.find('.', m) + 1 - m)); o += '}';
    }
    o += who ? "],\"who\":true" : "],\"who\":false"; o += ",\"before\":" + std::to_string(own ? own->before : k + 1) + ",\"after\":" + std::to_string(own ? own->after : k + 1) + "}";
    if (e != JS::Error::NoError) break;
  }
  o += ']';
}
template <class T> void runCase(const Case &c, string &o)
{
  string text;
  JS::SerializerOptions so(c.w.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact); so.setShiftSize((unsigned char)c.w.shift);
  Feeder fd(c.s.doc, c.s.cuts, c.s.how);
  if (c.mode == 0)
  {
    JS::ParseContext pc; vector<char> b(c.w.buf ? c.w.buf : 20000); JS::Serializer z(b.data(), b.size()); z.setOptions(so);
    z.setRequestBufferCallback([&](JS::Serializer &q) { text.append(b.data(), b.size()); q.setBuffer(b.data(), b.size()); });
    Own x(pc, z); setup(c, x); fd.attach(pc.tokenizer); drive<T>(x, &x, o);
    text.append(b.data(), z.currentBuffer().used);
  }
  else { JS::DefaultCallFunctionContext x(text); x.s_context.serializer.setOptions(so); setup(c, x); fd.attach(x.parse_context.tokenizer); drive<T>(x, nullptr, o); }
  o += ",\"text\":"; bytes(o, text);
  string q; lex(q, 0, text, false); o += ",\"w\":{" + q.substr(1) + "}";
}
#include "calls_gen.h"

int main()
{
  guard::install(); load_table(getenv("TOK_TABLE")); stderr = fopen("/dev/null", "w");
  vector<Runner> reg; classes(reg);
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    vector<string> f = split(line, ' ');
    Case c; int k = atoi(f[0].c_str()); c.cfg = atoi(f[1].c_str()); c.opt = atoi(f[2].c_str()); c.mode = atoi(f[4].c_str());
    c.w = {f[3][0] == 'p', atoi(f[3].c_str() + 1), size_t(atol(f[3].c_str() + f[3].find('b') + 1))};
    auto p = split(f[5], '@'); c.s.doc = p[0] == "-" ? "" : unhex(p[0]); if (p[1] != "-") for (auto &x : split(p[1], ',')) c.s.cuts.push_back(size_t(atol(x.c_str()))); c.s.how = atoi(p[2].c_str());
    auto bit = [](int v) { return v ? "true" : "false"; };
    string o = "{\"cls\":" + std::to_string(k + 1) + ",\"cfg\":{\"am\":" + bit(c.cfg & 1) + ",\"au\":" + bit(c.cfg & 2) + ",\"tr\":" + bit(c.cfg & 4) + "},\"miss\":" + bit(c.cfg & 8) + ",\"stop\":" + bit(c.cfg & 16)
      + ",\"o\":{\"a\":" + bit(c.opt & 1) + ",\"n\":" + bit(c.opt & 2) + ",\"s\":" + bit(c.opt & 4) + ",\"c\":" + bit(c.opt & 8) + "},\"pretty\":" + bit(c.w.pretty) + ",\"shift\":" + std::to_string(c.w.shift) + ",\"doc\":";
    bytes(o, c.s.doc); lex(o, c.opt, c.s.doc, true);
    reg[size_t(k)](c, o);
    puts((o + "}").c_str());
  }
  return 0;
}
