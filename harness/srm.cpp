// C01..C04 on common/srm_utils.c
#include "h.hpp"
extern "C" {
typedef unsigned int uint32;
int calc_rm_k(int, int); int mrm_enc_mm_bsc(int, int *, int *); int mrm_enc_bsc(int, int, int *, int *); int mrm_enc_bpsk(int, int, int *, double *);
int calc_srm_k(int, int, uint32 *); int smrm_enc_bsc(int, int, uint32 *, int *, int *); int smrm_enc_bpsk(int, int, uint32 *, int *, double *);
int calc_par0_srm_k(int, int, uint32 *); int smrm_par0_enc_bsc(int, int, uint32 *, int *, int *); int smrm_par0_enc_bpsk(int, int, uint32 *, int *, double *);
void err_msg(const char *) {} void show_msg(const char *) {} void msg_printf(const char *, ...) {} void msg_flush(void) {}
}
static const int G = 7;   // guard cells around every output
struct IB { VI b; int n; IB(int n) : b(n + 2 * G, 77), n(n) {} int *p() { return b.data() + G; } bool ok() { for (int i = 0; i < G; i++) if (b[i] != 77 || b[G + n + i] != 77) return false; return true; } };
struct DB { VD b; int n; DB(int n) : b(n + 2 * G, 7.5), n(n) {} double *p() { return b.data() + G; } bool ok() { for (int i = 0; i < G; i++) if (b[i] != 7.5 || b[G + n + i] != 7.5) return false; return true; } };
static std::vector<uint32> rmask(int n, int mode) { std::vector<uint32> N(n); for (auto &v : N) v = mode == 0 ? 1 : mode == 1 ? 0 : mode == 2 ? (rnd(2) ? 1 + rnd(40) : 0) : mode == 3 ? (rnd(8) != 0) : rnd(2); return N; }
static VI toi(const std::vector<uint32> &N) { VI v; for (auto x : N) v.push_back(x != 0); return v; }
static std::string shm(const std::vector<uint32> &N) { VI v; for (auto x : N) v.push_back(x); return show(v, 80); }

static void cmpword(const char *fn, const VI &ref, int *y) {
  for (size_t i = 0; i < ref.size(); i++) if (y[i] != ref[i]) { FAIL("%s: code bit %zu is %d, must be %d", fn, i, y[i], ref[i]); return; }
}
static void cmpbpsk(const char *fn, const VI &ref, double *y) {
  for (size_t i = 0; i < ref.size(); i++) { double w = ref[i] ? 1.0 : -1.0; if (y[i] != w) { FAIL("%s: symbol %zu is %g, must be %g", fn, i, y[i], w); return; } }
}
static void c01() {
  for (int m = 0; m <= 20; m++) for (int r = 0; r <= m; r++) {
    CASE("calc_rm_k(m=%d,r=%d)", m, r);
    long w = refK(m, r); int g = calc_rm_k(m, r);
    if (g != w) FAIL("returned %d, dimension is %ld", g, w);
  }
  int R = THOROUGH() ? 60 : 12;
  for (int m = 0; m <= 9; m++) for (int r = 0; r <= m; r++) for (int q = 0; q < R; q++) {
    auto N = rmask(refNN(m, r), q % 5);
    CASE("calc_srm_k(m=%d,r=%d,mask=%s)", m, r, shm(N).c_str());
    VI Ni = toi(N); const int *np = Ni.data(); long w = refSK(m, r, np); int g = calc_srm_k(m, r, N.data());
    if (g != w) FAIL("returned %d, must be %ld", g, w);
    g = calc_srm_k(m, r, N.data());
    if (g != w) FAIL("second call returned %d, must be %ld", g, w);
    if (q % 5 == 0 && g != refK(m, r)) FAIL("full mask gives %d, RM dimension is %ld", g, refK(m, r));
    auto P = rmask(refPN(m, r), q % 5);
    CASE("calc_par0_srm_k(m=%d,r=%d,mask=%s)", m, r, shm(P).c_str());
    w = 0; for (auto v : P) w += v != 0;
    g = calc_par0_srm_k(m, r, P.data());
    if (g != w) FAIL("returned %d, must be %ld", g, w);
    if (q % 5 == 0 && r && g != refK(m, r)) FAIL("full mask gives %d, RM dimension is %ld", g, refK(m, r));
  }
}
static void c02() {
  int R = THOROUGH() ? 60 : 10;
  for (int m = 0; m <= 10; m++) for (int r = 0; r <= m; r++) for (int q = 0; q < R; q++) {
    int k = refK(m, r), n = 1 << m; VI x = rbits(k), x0 = x; const int *xp = x0.data(); VI ref = refE(m, r, xp);
    CASE("mrm_enc_bsc/bpsk(m=%d,r=%d,x=%s)", m, r, show(x).c_str());
    IB y(n); int g = mrm_enc_bsc(m, r, x.data(), y.p());
    cmpword("mrm_enc_bsc", ref, y.p());
    if (g != k) FAIL("mrm_enc_bsc returned %d used bits, must be %d", g, k);
    if (!y.ok()) FAIL("mrm_enc_bsc wrote outside its %d outputs", n);
    if (x != x0) FAIL("mrm_enc_bsc changed the information vector");
    DB z(n); mrm_enc_bpsk(m, r, x.data(), z.p());
    cmpbpsk("mrm_enc_bpsk", ref, z.p());
    if (!z.ok()) FAIL("mrm_enc_bpsk wrote outside its %d outputs", n);
    if (x != x0) FAIL("mrm_enc_bpsk changed the information vector");
  }
}
static void c03() {
  int R = THOROUGH() ? 60 : 12;
  for (int m = 0; m <= 9; m++) for (int r = 0; r <= m; r++) for (int q = 0; q < R; q++) {
    int n = 1 << m;
    for (int par = 0; par < 2; par++) {
      auto N = rmask(par ? refPN(m, r) : refNN(m, r), q % 5); VI Ni = toi(N);
      const int *np = Ni.data(); int k = 0;
      if (par) { for (int v : Ni) k += v; } else k = refSK(m, r, np);
      VI x = rbits(k), x0 = x; x.resize(k + 1); const int *xp = x0.data(); np = Ni.data();
      VI ref = par ? refPE(m, r, np, xp) : refSE(m, r, np, xp);
      CASE("%s(m=%d,r=%d,mask=%s,x=%s)", par ? "smrm_par0_enc" : "smrm_enc", m, r, shm(N).c_str(), show(x0).c_str());
      auto N0 = N;
      for (int rep = 0; rep < 2; rep++) {
        IB y(n); int g = par ? smrm_par0_enc_bsc(m, r, N.data(), x.data(), y.p()) : smrm_enc_bsc(m, r, N.data(), x.data(), y.p());
        cmpword(rep ? "bsc encoder (second call)" : "bsc encoder", ref, y.p());
        if (g != k) FAIL("bsc encoder returned %d used bits, must be %d", g, k);
        if (!y.ok()) FAIL("bsc encoder wrote outside its %d outputs", n);
        DB z(n); par ? smrm_par0_enc_bpsk(m, r, N.data(), x.data(), z.p()) : smrm_enc_bpsk(m, r, N.data(), x.data(), z.p());
        cmpbpsk(rep ? "bpsk encoder (second call)" : "bpsk encoder", ref, z.p());
        if (!z.ok()) FAIL("bpsk encoder wrote outside its %d outputs", n);
      }
      if (N != N0) FAIL("node mask changed");
      if (!std::equal(x0.begin(), x0.end(), x.begin())) FAIL("information vector changed");
      if (q % 5 == 0 && (!par || r)) { IB y(n); const int *p2 = x0.data(); VI e = refE(m, r, p2); par ? smrm_par0_enc_bsc(m, r, N.data(), x.data(), y.p()) : smrm_enc_bsc(m, r, N.data(), x.data(), y.p()); cmpword("full mask against RM", e, y.p()); }
    }
  }
}
static void c04() {
  int R = THOROUGH() ? 200 : 40;
  for (int m = 0; m <= 12; m++) for (int q = 0; q < R; q++) {
    int n = 1 << m; VI x = rbits(n), x0 = x; const int *xp = x0.data(); VI ref = refE(m, m, xp);
    CASE("mrm_enc_mm_bsc(m=%d,x=%s)", m, show(x).c_str());
    IB y(n), z(n); int g = mrm_enc_mm_bsc(m, x.data(), y.p());
    cmpword("transform", ref, y.p());
    if (g != n) FAIL("returned %d, length is %d", g, n);
    if (!y.ok()) FAIL("wrote outside its output");
    if (x != x0) FAIL("input changed");
    mrm_enc_mm_bsc(m, y.p(), z.p());
    cmpword("transform applied twice", x0, z.p());
    mrm_enc_mm_bsc(m, y.p(), y.p());
    cmpword("transform applied twice, second time in place", x0, y.p());
    if (!y.ok()) FAIL("in place transform wrote outside");
    mrm_enc_mm_bsc(m, y.p(), y.p());
    cmpword("transform in place", ref, y.p());
  }
}
int main(int c, char **v) {
  std::string p = c > 1 ? v[1] : "";
  if (p == "C01") c01();
  if (p == "C02") c02();
  if (p == "C03") c03();
  if (p == "C04") c04();
  return DONE();
}
