// Error reports: what is told about the place where parsing failed.
// line: <opts> <mode> <line context> <range context> <doc hex>@<cuts>@<delivery>
//   mode: t tokens one by one; v a vector of integers; k the same from a list of tokens; s a struct, all names checked
#include "dump.h"
struct Two { int x = 0; int why = 0; JS::Optional<int> o; JS_OBJ(x, why, o); };
static const char *nameOf(JS::Error e)
{
  switch (e)
  {
#define E(x) case JS::Error::x: return #x;
  E(NoError) E(NeedMoreData) E(InvalidToken) E(ExpectedPropertyName) E(ExpectedDelimiter) E(ExpectedDataToken) E(ExpectedObjectStart) E(ExpectedObjectEnd) E(ExpectedArrayStart) E(ExpectedArrayEnd)
  E(UnexpectedArrayEnd) E(UnexpectedObjectEnd) E(IllegalPropertyName) E(IllegalPropertyType) E(IllegalDataValue) E(EncounteredIllegalChar) E(NodeNotFound) E(MissingPropertyMember) E(FailedToParseBoolean)
  E(FailedToParseDouble) E(FailedToParseFloat) E(FailedToParseInt) E(UnassignedRequiredMember) E(UserDefinedErrors)
#undef E
  default: return "";
  }
}
int main()
{
  guard::install(); load_table(getenv("TOK_TABLE"));
  string line;
  while (std::getline(std::cin, line))
  {
    guard::set(line);
    auto f = split(line, ' '); int opt = atoi(f[0].c_str()); char mode = f[1][0]; auto p = split(f[4], '@');
    string doc = p[0] == "-" ? "" : unhex(p[0]); vector<size_t> cuts; if (p[1] != "-") for (auto &x : split(p[1], ',')) cuts.push_back(size_t(atol(x.c_str())));
    Feeder fd(doc, cuts, atoi(p[2].c_str()));
    JS::ParseContext pc; JS::Tokenizer &t = pc.tokenizer; t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8);
    if (f[2] != "-") t.setErrorContextConfig(size_t(atol(f[2].c_str())), size_t(atol(f[3].c_str())));
    JS::Error e = JS::Error::NoError; JS::JsonTokens jt; string told;
    vector<std::pair<const char *, size_t>> src;
    if (mode == 'k')
    { // the tokens come from several texts; before, another error was reported
      JS::ParseContext q(doc.data(), doc.size()); JS::Error pe = q.parseTo(jt); if (pe != JS::Error::NoError) jt.data.clear();
      static vector<string> keep; keep.clear(); keep.reserve(2 * jt.data.size());
      if (opt & 16) for (auto &k : jt.data) { keep.push_back(string(k.value.data, k.value.size)); k.value = JS::DataRef(keep.back().data(), keep.back().size()); }
      vector<int> v; JS::ParseContext *c = &pc; { t.addData("\n]", 2); (void)c->parseTo(v); }
      if (!jt.data.empty()) { t.resetData(&jt.data, 0); e = pc.parseTo(v); }
    }
    else
    {
      fd.attach(t);
      if (mode == 't')
      { // 32: a program reports an error of its own at the first token and goes on; 64: in a scope
        size_t lim = 2 * doc.size() + 16; bool first = true, scope = false;
        while (lim--)
        {
          e = pc.nextToken();
          if (e == JS::Error::ScopeHasEnded && scope) { t.popScope(); scope = false; continue; }
          if (e != JS::Error::NoError) break;
          if (first && (opt & 64) && (pc.token.value_type == JS::Type::ArrayStart || pc.token.value_type == JS::Type::ObjectStart)) { t.pushScope(pc.token.value_type); scope = true; }
          if (first && (opt & 32)) t.updateErrorContext(JS::Error::UserDefinedErrors, "an earlier error");
          first = false;
        }
      }
      else if (mode == 'v') { vector<int> v; e = pc.parseTo(v); }
      else { Two v; pc.allow_missing_members = false; pc.allow_unasigned_required_members = false; e = pc.parseTo(v); }
    }
    const auto &c = t.errorContext(); told = pc.makeErrorString();
    size_t base = 0, n = 0; bool found = false;
    if (mode != 'k') { const char *cp = t.currentPosition(); for (auto &b : fd.bufs) { if (b.p && cp >= b.p && cp <= b.p + b.n) { n = b.n; found = true; break; } base += b.n; } }
    string o = string("{\"mode\":\"") + mode + "\",\"o\":{\"a\":" + (opt & 1 ? "true" : "false") + ",\"n\":" + (opt & 2 ? "true" : "false") + ",\"s\":" + (opt & 4 ? "true" : "false") + ",\"c\":" + (opt & 8 ? "true" : "false") + "}";
    o += ",\"doc\":"; bytes(o, doc); 
    Oracle k(opt & 15); size_t at = 0; string ps; bool fi = true;
    for (size_t i = 0; i < doc.size() && !k.err; i++) { size_t m = k.out.size(); k.step((unsigned char)doc[i]); for (; m < k.out.size(); m++) { sep(ps, fi); ps += std::to_string(i + 1); } at = i + 1; }
    o += ",\"tk\":["; fi = true; for (auto &x : k.out) { sep(o, fi); otok(o, x); } o += "],\"pos\":[" + ps + "],\"lf\":" + (k.err ? "true" : "false") + ",\"at\":" + std::to_string(at);
    o += ",\"ok\":" + string(e == JS::Error::NoError ? "true" : "false") + ",\"more\":" + (e == JS::Error::NeedMoreData ? "true" : "false") + ",\"ename\":"; bytes(o, nameOf(e)); o += ",\"cname\":"; bytes(o, nameOf(c.error));
    o += ",\"found\":" + string(found ? "true" : "false") + ",\"base\":" + std::to_string(base) + ",\"n\":" + std::to_string(n) + ",\"lines\":["; fi = true; for (auto &l : c.lines) { sep(o, fi); bytes(o, l); }
    o += "],\"line\":" + std::to_string(c.line) + ",\"char\":" + std::to_string(c.character) + ",\"told\":"; bytes(o, told);
    o += ",\"mi\":"; names(o, pc.missing_members); o += ",\"un\":"; names(o, pc.unassigned_required_members);
    puts((o + "}").c_str());
  }
  return 0;
}
