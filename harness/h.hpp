// Concrete replay harness support: independent reference functions, case reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <functional>
typedef std::vector<int> VI;
typedef std::vector<double> VD;

static char h_case[1 << 16] = "(start)";
static long h_cases = 0;
static std::set<uint64_t> h_seen;
static int h_fails = 0, h_samples = 0;

static void h_die(int sig) {
  static volatile int once = 0;
  if (once++) _exit(3);
  char b[1 << 16 | 256];
  int n = snprintf(b, sizeof b, "\nFAIL %s: %s\n", h_case, sig == SIGALRM ? "does not terminate" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : "aborted (memory error detected)");
  fflush(stdout);
  (void)!write(1, b, n);
  _exit(1);
}
static uint64_t h_hash(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }
// describe the case about to be run (also what a crash is reported with)
static void CASE(const char *f, ...) {
  va_list a; va_start(a, f); vsnprintf(h_case, sizeof h_case, f, a); va_end(a);
  h_cases++;
  h_seen.insert(h_hash(h_case));
  if (h_samples < 4 && (h_cases == 1 || h_cases % 97 == 0)) { h_samples++; printf("SAMPLE %.300s\n", h_case); }
  static int tmo = 0; if (!tmo) { const char *t = getenv("H_TMO"); tmo = t ? atoi(t) : 60; }
  alarm(tmo);
}
static void FAIL(const char *f, ...) {
  char b[4096];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  printf("FAIL %s: %s\n", h_case, b);
  fflush(stdout);
  if (++h_fails >= 8) { fflush(stdout); _exit(1); }
}
static int DONE() { printf("DONE cases=%ld distinct=%ld\n", h_cases, (long)h_seen.size()); fflush(stdout); return h_fails ? 1 : 0; }
static uint64_t rs_ = 88172645463325252ULL;
static uint64_t rnd64() { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return rs_; }
static int rnd(int n) { return (int)(rnd64() >> 11) % n < 0 ? 0 : (int)((rnd64() >> 11) % (uint64_t)n); }
static double urnd() { return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }
static bool THOROUGH() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
struct HInit { HInit() {
  const char *s = getenv("VERIF_SEED"); if (s) rs_ ^= (uint64_t)atoll(s) * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 20; i++) rnd64();
  signal(SIGSEGV, h_die); signal(SIGABRT, h_die); signal(SIGFPE, h_die); signal(SIGALRM, h_die); signal(SIGBUS, h_die); signal(SIGILL, h_die);
  setvbuf(stdout, 0, _IOLBF, 0);
} };
static HInit h_init_;

// ---------- reference functions (independent of the code under test)
static long binom(int n, int k) { if (k < 0 || k > n) return 0; long r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static long refK(int m, int r) { long s = 0; for (int i = 0; i <= r; i++) s += binom(m, i); return s; }
// x -> code bits; consumes bits through *px
static VI refE(int m, int r, const int *&x) {
  if (r == 0) return VI(1 << m, *x++);
  if (m == 0) return VI(1, *x++);
  VI v = refE(m - 1, r - 1, x), u = refE(m - 1, r < m ? r : m - 1, x), y;
  for (size_t i = 0; i < v.size(); i++) y.push_back(v[i] ^ u[i]);
  y.insert(y.end(), u.begin(), u.end());
  return y;
}
// sub-code, end nodes r==0 and r==m
static VI refSE(int m, int r, const int *&N, const int *&x) {
  if (r == 0) { int b = *N++ ? *x++ : 0; return VI(1 << m, b); }
  if (r == m) { if (!*N++) return VI(1 << m, 0); return refE(m, m, x); }
  VI v = refSE(m - 1, r - 1, N, x), u = refSE(m - 1, r, N, x), y;
  for (size_t i = 0; i < v.size(); i++) y.push_back(v[i] ^ u[i]);
  y.insert(y.end(), u.begin(), u.end());
  return y;
}
static int refNN(int m, int r) { return r == 0 || r == m ? 1 : refNN(m - 1, r - 1) + refNN(m - 1, r); }
static int refSK(int m, int r, const int *&N) {
  if (r == 0) return *N++ ? 1 : 0;
  if (r == m) return *N++ ? 1 << m : 0;
  int a = refSK(m - 1, r - 1, N); return a + refSK(m - 1, r, N);
}
// par0: end nodes r==0 only
static VI refPE(int m, int r, const int *&N, const int *&x) {
  if (r == 0) { int b = *N++ ? *x++ : 0; return VI(1 << m, b); }
  VI v = refPE(m - 1, r - 1, N, x), u = refPE(m - 1, r == m ? r - 1 : r, N, x), y;
  for (size_t i = 0; i < v.size(); i++) y.push_back(v[i] ^ u[i]);
  y.insert(y.end(), u.begin(), u.end());
  return y;
}
static int refPN(int m, int r) { return r == 0 ? 1 : refPN(m - 1, r - 1) + refPN(m - 1, r == m ? r - 1 : r); }
static VI refCRC(const VI &x, const VI &g) {
  VI b = x; int n = x.size(), L = g.size();
  for (int i = 0; i + L < n; i++) if (b[i]) for (int j = 0; j < L; j++) b[i + 1 + j] ^= g[j];
  return VI(b.end() - L, b.end());
}
static std::string show(const VI &v, size_t lim = 64) { std::string s; for (size_t i = 0; i < v.size() && i < lim; i++) { char b[16]; snprintf(b, 16, v[i] == 0 ? "0" : v[i] == 1 ? "1" : "(%d)", v[i]); s += b; } if (v.size() > lim) s += "..."; return s; }
static VI rbits(int n) { VI v(n); int mode = rnd(6); for (auto &b : v) b = mode == 0 ? 0 : mode == 1 ? 1 : rnd(2); if (mode == 2 && n) { for (auto &b : v) b = 0; v[rnd(n)] = 1; } return v; }
