// Tokenizer conformance: the real tokenizer against the control table of spec/Tok.tla.
//   tok conf  <optset> <seed> <nrandom> <depth> <shard> <nshards>   whole documents
//   tok chunk <optset> <seed> <nrandom> <depth> <shard> <nshards>   every kind of segmentation
//   tok digest ...                                                  one hash per case, for comparing builds
//   tok one <opt> <hex> <cut,cut,..|-> <delivery>                   a single case, verbose
// Lines written: MISMATCH <kind> <opt> <hex> <cuts> <delivery> / REC <record for TLC> / STAT <name> <n>
#include "tokrun.h"
#include "gen.h"
#include <algorithm>
#include <set>
using namespace std;
static string what; static unsigned long cases = 0, runs = 0, bytes_ = 0, mism = 0, recs = 0, accepted = 0, rejected = 0;
static size_t rec_cap = 100; // reservoir of records for TLC
static vector<string> reservoir; static unsigned long rec_seen = 0;
static Rng *R; static Rng RR(7);
static string cutsStr(const vector<size_t> &c) { string r; for (size_t x : c) { if (!r.empty()) r += ','; r += to_string(x); } return r.empty() ? "-" : r; }
static void mismatch(const char *kind, int opt, const string &s, const vector<size_t> &cuts, int how)
{
  if (mism++ < 20) printf("MISMATCH %s %d %s %s %d\n", kind, opt, hex(s).c_str(), cutsStr(cuts).c_str(), how), fflush(stdout);
}
static string marksStr(const Obs &o) { string r; for (auto &m : o.marks) { if (!r.empty()) r += ','; r += to_string(m.second); } return r.empty() ? "-" : r; }
static string recLine(int opt, const string &s, const vector<size_t> &cuts, int how, const Obs &o)
{
  return "REC " + to_string(opt) + " " + hex(s) + " " + cutsStr(cuts) + " " + to_string(how) + " " + tokHex(o.toks) + " " + to_string(o.end) + " " + marksStr(o);
}
static void record(int opt, const string &s, const vector<size_t> &cuts, int how, const Obs &o)
{
  rec_seen++;
  size_t slot = reservoir.size();
  if (slot >= rec_cap) { slot = size_t(RR.g() % rec_seen); if (slot >= rec_cap) return; }
  else reservoir.emplace_back();
  reservoir[slot] = recLine(opt, s, cuts, how, o);
}
static uint64_t fnv(const string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// What the specification says after each prefix.
struct Expect { vector<OTok> toks; int err; size_t errAt; vector<size_t> cnt; bool complete; };
static Expect expect(const string &s, int opt)
{
  Expect e; Oracle o(opt); e.errAt = s.size() + 1; e.cnt.push_back(0);
  for (size_t i = 0; i < s.size(); i++)
  {
    o.step((unsigned char)s[i]);
    e.cnt.push_back(o.out.size());
    if (o.err) { e.errAt = i + 1; break; }
  }
  e.err = o.err; e.toks = o.out; e.complete = o.complete();
  return e;
}
static void conf1(const string &s, int opt, const Expect &e, const vector<size_t> &cuts, int how)
{
  guard::set("conf " + to_string(opt) + " " + hex(s) + " " + cutsStr(cuts) + " " + to_string(how));
  Obs o = run(s, cuts, opt, Delivery(how)); runs++;
  bool bad = (e.err != 0) != (o.end != 0) || o.toks != e.toks;
  if (bad) mismatch(e.err ? "accept" : "valid", opt, s, cuts, how);
  if (bad) { if (mism <= 20) printf("BAD%s\n", recLine(opt, s, cuts, how, o).c_str()); }
  else if (s.size() < 400) record(opt, s, cuts, how, o);
}
static void checkConf(const string &s, int opt)
{
  cases++; bytes_ += s.size();
  Expect e = expect(s, opt);
  if (e.err) rejected++; else accepted++;
  conf1(s, opt, e, {}, Push);
  // the same in pieces: in two, and in single bytes
  if (s.size() < 2) return;
  conf1(s, opt, e, {1 + (*R)(unsigned(s.size() - 1))}, int((*R)(NDelivery)));
  if ((*R)(4)) return;
  vector<size_t> all; for (size_t i = 1; i < s.size(); i++) all.push_back(i);
  conf1(s, opt, e, all, int((*R)(NDelivery)));
}
static void cmpChunk(const string &s, int opt, const Expect &e, const Obs &whole, const vector<size_t> &cuts, int how, bool conforms)
{
  runs++;
  guard::set("chunk " + to_string(opt) + " " + hex(s) + " " + cutsStr(cuts) + " " + to_string(how));
  Obs o = run(s, cuts, opt, Delivery(how));
  bool bad = !(o == whole);
  // tokens are handed out as soon as their last byte (or the byte that ends them) is there
  if (!bad && conforms) for (auto &m : o.marks) if (m.first < e.errAt && m.second != e.cnt[m.first]) bad = true;
  if (bad) mismatch("segmentation", opt, s, cuts, how);
  if (bad) { if (mism <= 20) printf("BAD%s\n", recLine(opt, s, cuts, how, o).c_str()); }
  else if (conforms && s.size() < 400) record(opt, s, cuts, how, o);
}
static void checkChunk(const string &s, int opt)
{
  if (s.size() < 2) return;
  cases++; bytes_ += s.size();
  guard::set("chunk " + to_string(opt) + " " + hex(s) + " - 0");
  Expect e = expect(s, opt);
  Obs whole = run(s, {}, opt, Push); runs++;
  bool conforms = (e.err != 0) == (whole.end != 0) && whole.toks == e.toks;
  auto how = [&] { return int((*R)(NDelivery)); };
  vector<size_t> all; for (size_t i = 1; i < s.size(); i++) all.push_back(i);
  for (int h = 0; h < NDelivery; h++) if (s.size() < 40 || (*R)(NDelivery) == 0) cmpChunk(s, opt, e, whole, all, h, conforms);
  if (s.size() <= 48) for (size_t c = 1; c < s.size(); c++) cmpChunk(s, opt, e, whole, {c}, how(), conforms);
  else for (int k = 0; k < 24; k++) cmpChunk(s, opt, e, whole, {1 + (*R)(unsigned(s.size() - 1))}, how(), conforms);
  for (int k = 0; k < 4; k++)
  {
    set<size_t> c; unsigned n = 2 + (*R)(5); while (n--) c.insert(1 + (*R)(unsigned(s.size() - 1)));
    cmpChunk(s, opt, e, whole, vector<size_t>(c.begin(), c.end()), how(), conforms);
  }
  size_t step = 2 + (*R)(40); vector<size_t> reg; for (size_t i = step; i < s.size(); i += step) reg.push_back(i);
  if (!reg.empty()) cmpChunk(s, opt, e, whole, reg, how(), conforms);
  // buffers without a byte
  vector<size_t> dup; for (size_t i = 0; i <= s.size(); i++) { dup.push_back(i); if (i && i < s.size()) dup.push_back(i); if (s.size() > 40 && i < s.size()) i = std::min(s.size() - 1, i + (*R)(30)); }
  cmpChunk(s, opt, e, whole, dup, how(), conforms);
  size_t x = (*R)(unsigned(s.size() + 1)); cmpChunk(s, opt, e, whole, {x, x}, how(), conforms);
}
static void checkDigest(const string &s, int opt)
{
  cases++; bytes_ += s.size();
  guard::set("digest " + to_string(opt) + " " + hex(s) + " - 0");
  Obs o = run(s, {}, opt, Push); runs++;
  vector<size_t> cuts; if (s.size() > 2) { size_t a = 1 + (*R)(unsigned(s.size() - 1)); cuts.push_back(a); }
  Obs o2 = run(s, cuts, opt, PushRelease); runs++;
  if (s.size() < 400) record(opt, s, cuts, PushRelease, o2);
  printf("D %d %s %s %016llx\n", opt, hex(s).c_str(), cutsStr(cuts).c_str(), (unsigned long long)fnv(tokHex(o.toks) + "|" + to_string(o.end) + "|" + tokHex(o2.toks) + "|" + to_string(o2.end)));
}
static void check(const string &s, int opt)
{
  if (s.find('\0') != string::npos) return;
  if (what == "conf") checkConf(s, opt); else if (what == "chunk") checkChunk(s, opt); else checkDigest(s, opt);
}
// All strings over the alphabet up to the given length that the specification has not
// rejected before their last byte.
static unsigned long leaf = 0; static unsigned shard = 0, nshards = 1;
static void dfs(string &s, const Oracle &st, int opt, int depth, const vector<string> &al)
{
  for (auto &f : al)
  {
    Oracle n = st; size_t k = 0; for (; k < f.size() && !n.err; k++) n.step((unsigned char)f[k]);
    s += f;
    if (leaf++ % nshards == shard) check(s, opt);
    if (!n.err && depth > 1) dfs(s, n, opt, depth - 1, al);
    s.resize(s.size() - f.size());
  }
}
int main(int argc, char **argv)
{
  guard::install();
  load_table(getenv("TOK_TABLE"));
  if (argc < 2) return 3;
  what = argv[1];
  if (what == "one")
  {
    int opt = atoi(argv[2]); string s = unhex(argv[3]); vector<size_t> cuts; string c = argv[4];
    if (c != "-") { size_t p = 0; while (p < c.size()) { size_t q = c.find(',', p); if (q == string::npos) q = c.size(); cuts.push_back(size_t(atol(c.substr(p, q - p).c_str()))); p = q + 1; } }
    Expect e = expect(s, opt); Obs w = run(s, {}, opt, Push), o = run(s, cuts, opt, Delivery(atoi(argv[5])));
    Obs eo; eo.toks = e.toks;
    printf("input     : %s\nsegmented : %s\nwhole     : %s\nexpected  : %s%s\n", s.c_str(), show(o).c_str(), show(w).c_str(), show(eo).c_str(), ERR_NAME[e.err]);
    for (auto &m : o.marks) printf("mark fed=%zu toks=%zu expected=%zu\n", m.first, m.second, m.first < e.cnt.size() ? e.cnt[m.first] : 0);
    return 0;
  }
  string optset = argv[2]; unsigned long long seed = strtoull(argv[3], 0, 10); long n = atol(argv[4]); int depth = atoi(argv[5]);
  shard = unsigned(atoi(argv[6])); nshards = unsigned(atoi(argv[7])); rec_cap = strtoul(argv[8], 0, 10); RR = Rng(seed * 77 + shard);
  vector<int> opts; { size_t p = 0; while (p < optset.size()) { opts.push_back(atoi(optset.c_str() + p)); p = optset.find(',', p); if (p == string::npos) break; p++; } }
  Rng r(seed * 1000003 + shard); R = &r;
  static const vector<string> bytesAl = {"{", "}", "[", "]", ",", ":", "\"", "\\", "/", "1", "-", ".", "e", "a", " ", "\n", "_", "\xc3"};
  static const vector<string> lexAl = {"{", "}", "[", "]", ",", ":", "\"k\"", "1", "true", "null", "w", "/", "//c\n", "\n", " "};
  for (int opt : opts)
  {
    for (int pass = 0; pass < 2; pass++) { string s; Oracle st(opt); dfs(s, st, opt, depth, pass ? lexAl : bytesAl); }
  }
  unsigned long exh = cases;
  for (long i = 0; i < n; i++)
  {
    int opt = opts[r(unsigned(opts.size()))];
    DocGen g(r, opt); string s = g.doc(int(1 + r(4)));
    if (r.p(15)) { DocGen g2(r, 15); s = g2.doc(3); }
    if (s.size() > 4000) s.resize(4000);
    check(s, opt);
    if (r.p(what == "conf" ? 100 : 40)) check(mutate(r, s), opt);
  }
  for (auto &l : reservoir) puts(l.c_str());
  recs = reservoir.size();
  unsigned long hit = 0, tot = 0; for (size_t i = 0; i < T_HIT.size(); i++) { if (T_HIT[i]) hit++; tot += T_HIT[i]; }
  printf("STAT cases %lu\nSTAT exhaustive %lu\nSTAT runs %lu\nSTAT bytes %lu\nSTAT mismatches %lu\nSTAT recs %lu\nSTAT accepted %lu\nSTAT rejected %lu\nSTAT table_entries_hit %lu\nSTAT table_steps %lu\n",
         cases, exh, runs, bytes_, mism, recs, accepted, rejected, hit, tot);
  return 0;
}
