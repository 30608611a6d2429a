// a document in exactly sized allocations, overwritten and freed when given back
#pragma once
#include <functional>
#include <string>
#include <vector>
struct Feeder
{
  struct Buf { char *p; size_t n; };
  std::vector<Buf> bufs; size_t nb = 0; int how; // 1: through the callback, 2: with release callback
  std::vector<int> released; bool bad_release = false;
  std::function<void(const char *)> rel;
  Feeder(const std::string &doc, const std::vector<size_t> &cuts, int h) : how(h)
  {
    size_t p = 0;
    auto add = [&](size_t c) { { size_t n = c - p; char *m = static_cast<char *>(malloc(n ? n : 1)); memcpy(m, doc.data() + p, n); bufs.push_back({m, n}); p = c; } };
    for (size_t c : cuts) if (c < doc.size()) add(c); // a cut that is there twice makes an empty buffer
    add(doc.size());
    rel = [this](const char *d) {
      for (size_t i = 0; i < bufs.size(); i++)
        if (bufs[i].p == d) { released.push_back(int(i)); memset(bufs[i].p, 0x5a, bufs[i].n); free(bufs[i].p); bufs[i].p = nullptr; return; }
      bad_release = true;
    };
  }
  Feeder(const Feeder &) = delete;
  bool feed(JS::Tokenizer &t) { if (nb < bufs.size()) { size_t i = nb++; t.addData(bufs[i].p, bufs[i].n); return true; } return false; }
  void attach(JS::Tokenizer &t)
  {
    if (how & 2) t.setReleaseCallback(rel);
    if (how & 1) t.setNeedMoreDataCallback([this](JS::Tokenizer &k) { feed(k); });
    else while (feed(t)) {}
  }
  ~Feeder() { for (auto &b : bufs) free(b.p); }
};
