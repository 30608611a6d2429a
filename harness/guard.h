// Crash and hang reporting for harnesses: whatever happens inside the library under
// test, the case that was running is written out.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <sys/time.h>
#if defined(__has_include)
#if __has_include(<sanitizer/common_interface_defs.h>) && (defined(__SANITIZE_ADDRESS__))
#include <sanitizer/common_interface_defs.h>
#define HAVE_SAN 1
#endif
#endif
namespace guard
{
static char cur[1 << 16];
static size_t cur_len = 0;
static volatile unsigned long ticks = 0;
static volatile unsigned long seen = 0;
static volatile int stuck = 0;

inline void write_case(const char *what)
{
  char b[64];
  int n = snprintf(b, sizeof b, "\n%s ", what);
  (void)!write(2, b, size_t(n));
  (void)!write(2, cur, cur_len);
  (void)!write(2, "\n", 1);
}
inline void on_signal(int s)
{
  write_case(s == SIGFPE ? "CRASH-FPE" : s == SIGABRT ? "CRASH-ABRT" : s == SIGSEGV ? "CRASH-SEGV" : "CRASH");
  _exit(97);
}
inline void on_alarm(int)
{
  if (seen == ticks)
  {
    if (++stuck >= 6) { write_case("HANG"); _exit(98); }
  }
  else { stuck = 0; seen = ticks; }
}
#ifdef HAVE_SAN
inline void on_death() { write_case("CRASH-SAN"); }
#endif
inline void install()
{
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
  {
#ifdef HAVE_SAN
    if (s != SIGABRT) continue;
#endif
    sigaction(s, &sa, nullptr);
  }
#ifdef HAVE_SAN
  __sanitizer_set_death_callback(on_death);
#endif
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 5; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_REAL, &it, nullptr);
}
inline void set(const std::string &s)
{
  size_t n = s.size() < sizeof cur ? s.size() : sizeof cur;
  memcpy(cur, s.data(), n);
  cur_len = n;
  ticks = ticks + 1;
}
} // namespace guard

inline std::string hex(const char *p, size_t n)
{
  static const char *d = "0123456789abcdef";
  if (!n) return "-";
  std::string r;
  r.reserve(n * 2);
  for (size_t i = 0; i < n; i++) { r += d[(unsigned char)p[i] >> 4]; r += d[(unsigned char)p[i] & 15]; }
  return r;
}
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
inline std::string unhex(const std::string &s)
{
  std::string r;
  if (s == "-") return r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}
