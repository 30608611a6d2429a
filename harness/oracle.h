// Interpreter for the control table exported from spec/Tok.tla (tok_table.h is generated
// from TLC's output on every run).  Nothing about JSON is known here.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include "tok_table.h"
static std::vector<Ent> T_D; // [16][NQ][3][NC][3]
static std::vector<unsigned> T_HIT;
inline void load_table(const char *path)
{
  FILE *f = fopen(path, "rb");
  T_D.resize(size_t(16) * NQ * 3 * NC * 3);
  if (!f || fread(T_D.data(), sizeof(Ent), T_D.size(), f) != T_D.size()) { fprintf(stderr, "cannot load table\n"); exit(3); }
  fclose(f);
  T_HIT.assign(T_D.size(), 0);
}
struct OTok
{
  char nt; std::string n; char vt; std::string v;
  bool operator==(const OTok &o) const { return nt == o.nt && vt == o.vt && n == o.n && v == o.v; }
  bool operator!=(const OTok &o) const { return !(*this == o); }
};
struct Oracle
{
  int opt; int q = Q0; std::string stk, n, v; std::vector<OTok> out; int err = 0; int steps = 0;
  explicit Oracle(int o) : opt(o) {}
  static int kw(const std::string &s) { return s == "true" || s == "false" ? 1 : s == "null" ? 2 : 0; }
  void step(unsigned char b)
  {
    for (;;)
    {
      steps++;
      int top = stk.empty() ? 0 : stk.back() == 'O' ? 1 : 2;
      int k = Q_S_ASC[q] ? kw(Q_M_N[q] ? n : v) : 0;
      size_t ix = (((size_t(opt) * NQ + size_t(q)) * 3 + size_t(top)) * NC + T_CLASS[b]) * 3 + size_t(k);
      const Ent &e = T_D[ix];
      T_HIT[ix]++;
      if (!err) err = e.err;
      for (int i = 0; i < e.nacts; i++) act(e.acts[i], b, Q_T[q]);
      q = e.q;
      if (q == Q_FAIL || !e.again) return;
    }
  }
  void emit(char nt, const std::string &nn, char vt, const std::string &vv) { out.push_back({nt, nn, vt, vv}); n.clear(); v.clear(); }
  void act(int a, unsigned char b, char nt)
  {
    switch (a)
    {
    case A_np: n += char(b); break;
    case A_vp: v += char(b); break;
    case A_ns: n += '/'; break;
    case A_vs: v += '/'; break;
    case A_openO: emit('A', "", '{', ""); stk += 'O'; break;
    case A_openA: emit('A', "", '[', ""); stk += 'A'; break;
    case A_closeO: emit('A', "", '}', ""); stk.pop_back(); break;
    case A_closeA: emit('A', "", ']', ""); stk.pop_back(); break;
    case A_mopenO: emit(nt, std::string(n), '{', ""); stk += 'O'; break;
    case A_mopenA: emit(nt, std::string(n), '[', ""); stk += 'A'; break;
    case A_membS: emit(nt, std::string(n), 'S', std::string(v)); break;
    case A_membN: emit(nt, std::string(n), 'N', std::string(v)); break;
    case A_membA: emit(nt, std::string(n), 'A', std::string(v)); break;
    case A_membB: emit(nt, std::string(n), 'B', std::string(v)); break;
    case A_membZ: emit(nt, std::string(n), 'Z', std::string(v)); break;
    case A_elemS: emit('A', "", 'S', std::string(n)); break;
    case A_elemN: emit('A', "", 'N', std::string(n)); break;
    case A_elemA: emit('A', "", 'A', std::string(n)); break;
    case A_elemB: emit('A', "", 'B', std::string(n)); break;
    case A_elemZ: emit('A', "", 'Z', std::string(n)); break;
    }
  }
  bool complete() const { return !err && stk.empty() && Q_M_E[q]; }
};
