// Input generation shared by the tokenizer harnesses (deterministic in the seed).
#pragma once
#include <random>
#include <string>
#include <vector>
struct Rng
{
  std::mt19937_64 g;
  explicit Rng(unsigned long long s) : g(s) {}
  unsigned operator()(unsigned n) { return unsigned(g() % n); }
  bool p(unsigned percent) { return (*this)(100) < percent; }
};
enum { OA = 1, ON = 2, OS = 4, OC = 8 };

struct DocGen
{
  Rng &r; int opt; std::string s;
  DocGen(Rng &r, int opt) : r(r), opt(opt) {}
  unsigned len()
  {
    switch (r(10)) { case 0: return 0; case 1: return r(4); case 2: return 14 + r(5); case 3: return 30 + r(6);
      case 4: return 46 + r(6); case 5: return 62 + r(6); case 6: return r(130); default: return r(12); }
  }
  void strBody()
  {
    unsigned n = len();
    unsigned esc = r(4) == 0 ? 30 : 4;
    for (unsigned i = 0; i < n; i++)
    {
      if (r.p(esc)) { static const char *e[] = {"\\\"", "\\\\", "\\n", "\\/", "\\u0041", "\\ud83d\\ude00", "\\t", "\\b"}; s += e[r(8)]; }
      else switch (r(12))
      {
        case 0: s += "{}[]:,/"[r(7)]; break;
        case 1: s += char(0x80 + r(0x80)); break;
        case 2: s += " \t"[r(2)]; break;
        case 3: s += char(1 + r(31)); break;
        case 4: s += char('0' + r(10)); break;
        default: s += char('a' + r(26));
      }
    }
  }
  void str() { s += '"'; strBody(); s += '"'; }
  void num()
  {
    static const char *n[] = {"0", "1", "-1", "12", "3.14", "-2.5e3", "1e10", "1E-5", "123456789012345678901234567890", "0.5", "9", "42"};
    if (r.p(15)) { unsigned k = 1 + len(); s += '-'; for (unsigned i = 0; i < k; i++) s += char('0' + r(10)); if (r.p(30)) { s += '.'; s += "5"; } }
    else s += n[r(12)];
  }
  void asc()
  {
    static const char first[] = "abcxyzABCZ_^`./eEtfn";
    static const char rest[] = "abcxyzABCZ_^`./eE019-tfn";
    unsigned n = r.p(10) ? len() : r(8);
    if (r.p(10)) { static const char *k[] = {"tru", "truee", "nul", "nulll", "falsE", "True", "fals", "false1"}; s += k[r(8)]; return; }
    s += first[r(20)];
    for (unsigned i = 0; i < n; i++) s += rest[r(24)];
  }
  void comment() { s += "//"; unsigned n = len(); for (unsigned i = 0; i < n; i++) { char c = "ab \"{}[],:\\/1\t"[r(14)]; s += c; } s += '\n'; }
  void ws(bool nl = true)
  {
    if (r.p(60)) return;
    unsigned n = r.p(10) ? len() : r(3);
    for (unsigned i = 0; i < n; i++) s += (nl && r.p(30)) ? '\n' : " \t\r"[r(3)];
    if ((opt & OC) && r.p(40) && nl) comment();
  }
  bool nlOk() const { return true; }
  void value(int depth)
  {
    switch (r(depth > 0 ? 9 : 6))
    {
    case 0: case 1: str(); break;
    case 2: num(); break;
    case 3: { static const char *k[] = {"true", "false", "null"}; s += k[r(3)]; break; }
    case 4: if (opt & OA) asc(); else num(); break;
    case 5: str(); break;
    case 6: case 7: object(depth - 1); break;
    case 8: array(depth - 1); break;
    }
  }
  void name() { if ((opt & OA) && r.p(50)) asc(); else str(); }
  void delim(bool &prev)
  {
    prev = true;
    if ((opt & ON) && r.p(50)) { unsigned k = r(3); while (k--) s += ' '; if ((opt & OC) && r.p(20)) comment(); else s += '\n'; }
    else { ws(!(opt & ON)); s += ','; if ((opt & OS) && r.p(10)) { ws(); } }
  }
  void object(int depth)
  {
    s += '{';
    unsigned n = r(4);
    bool d;
    for (unsigned i = 0; i < n; i++)
    {
      ws(); name(); ws(); s += ':'; ws(); value(depth);
      if (i + 1 < n || ((opt & OS) && r.p(30))) delim(d);
      else ws();
    }
    ws();
    s += '}';
  }
  void array(int depth)
  {
    s += '[';
    unsigned n = r(4);
    bool d;
    for (unsigned i = 0; i < n; i++)
    {
      ws(); value(depth);
      if (i + 1 < n || ((opt & OS) && r.p(30))) delim(d);
      else ws();
    }
    ws();
    s += ']';
  }
  std::string doc(int depth)
  {
    s.clear();
    ws();
    if (r.p(50)) object(depth); else array(depth);
    if (r.p(10)) { ws(); if (r.p(50)) object(1); else array(1); }
    ws();
    return s;
  }
};
inline std::string mutate(Rng &r, std::string s)
{
  static const char al[] = "{}[],:\"\\/1-+.etn \n^\xc3" "fa_\t";
  unsigned k = 1 + r(2);
  while (k--)
  {
    if (s.empty()) { s += al[r(24)]; continue; }
    size_t i = r(unsigned(s.size()));
    switch (r(5))
    {
    case 0: s.erase(i, 1); break;
    case 1: s.insert(i, 1, al[r(24)]); break;
    case 2: s[i] = al[r(24)]; break;
    case 3: if (i + 1 < s.size()) std::swap(s[i], s[i + 1]); break;
    case 4: s.erase(i); break;
    }
  }
  return s;
}
