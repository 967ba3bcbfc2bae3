// C15, C16, C19: the simulator through its public interface, with a recording stub codec, on scratch files
#include "h.hpp"
#include <sys/stat.h>
#include <ctime>
#include <map>
extern "C" {
#include "interfaces/simul.h"
extern char tr_num_token[], en_bit_token[], en_bl_token[], er_n_token[], ml_tr_num_token[], enml_bl_token[];
}
static int h_errmsgs = 0;
extern "C" void err_msg(char *) { h_errmsgs++; }
extern "C" void show_msg(char *) {}
extern "C" void msg_printf(char *, ...) {}
extern "C" void msg_flush(void) {}
// ---- recorded uniform draws, controlled clock
static std::vector<int> draws; static int hot = 0;
extern "C" int rand(void) throw() {
  int v = (int)(rnd64() >> 33);
  if (hot && rnd(6) == 0) { static const int S[] = {0, 1, 2147483647, 2147483646, 1073741823, 1073741824, 1073741823 + 500, 1073741824 - 70}; v = S[rnd(8)]; }
  draws.push_back(v); return v;
}
extern "C" void srand(unsigned) throw() {}
static long h_now = 1000000; static int tick = 1;
extern "C" time_t time(time_t *t) throw() { if (tick == 1 || (tick > 1 && rnd(tick) == 0)) h_now++; if (t) *t = h_now; return h_now; }
// ---- stub codec
struct Stub { int n, k; double sg; int cs; VI x; VD y; bool enc_open; const int *xp; const double *yp; };
static Stub S;
struct Cnt { int trn = 0, ebit = 0, ebl = 0, er = 0, tml = 0, eml = 0; bool operator==(const Cnt &o) const { return trn == o.trn && ebit == o.ebit && ebl == o.ebl && er == o.er && tml == o.tml && eml == o.eml; } };
static std::vector<Cnt> *gc = 0; static std::vector<double> *gsnr = 0;
static double R_; static int rndcw_, ml_, mlhd_; static int epct, xpct; static double perr; static bool noisechk; static int capmode = 0;
static VI wrong(const VI &x) { VI d = x; int q = 1 + rnd(S.k); if (rnd(3) == 0) q = S.k; for (int j = 0; j < q; j++) d[j] ^= 1; for (int j = S.k; j-- > 1;) std::swap(d[j], d[rnd(j + 1)]); if (d == x) d[rnd(S.k)] ^= 1; return d; }
static void encsym(const int *x, double *y) { for (int j = 0; j < S.n; j++) { int b = 0; for (int i = 0; i < S.k; i++) if ((j + 1) * (i + 3) % 7 & 1 || i == j % S.k) b ^= x[i]; y[j] = b ? 1.0 : -1.0; } }
extern "C" {
int cdc_init(char *, void **c) { *c = &S; return 0; }
int cdc_get_n(void *) { return S.n; }
int cdc_get_k(void *) { return S.k; }
void cdc_set_csnrn(void *, int c) { S.cs = c; }
void cdc_set_sg(void *, double s) { S.sg = s; }
void cdc_close(void *) {}
static bool ml_next = false; static VD ml_out, ml_in; 
int enc_bpsk(void *, int *x, double *y) {
  if (ml_next) { // re-encoding of the decision for the ML bound
    encsym(x, y);
    double d1 = 0, d2 = 0; for (int j = 0; j < S.n; j++) { double o = mlhd_ ? (ml_out[j] > 0 ? 1.0 : -1.0) : ml_out[j]; d1 += (ml_in[j] - o) * (ml_in[j] - o); d2 += (y[j] - o) * (y[j] - o); }
    if (d1 > d2) (*gc)[S.cs].eml++;
    ml_next = false; return 0;
  }
  S.x.assign(x, x + S.k); S.xp = x; S.yp = y; S.enc_open = true;
  for (int b : S.x) if (b != 0 && b != 1) FAIL("information bit %d handed to the encoder", b);
  encsym(x, y); S.y.assign(y, y + S.n); draws.clear(); return 0;
}
int dec_bpsk(void *, double *c, int *xd) {
  if (!rndcw_) { S.x.assign(S.k, 0); S.y.assign(S.n, -1.0); }
  else if (!S.enc_open) FAIL("decoding without having encoded a word");
  else if (VD(S.yp, S.yp + S.n) != S.y || VI(S.xp, S.xp + S.k) != S.x) FAIL("the sent word changed before decoding");
  S.enc_open = false;
  if (S.cs < 0 || S.cs >= (int)gsnr->size()) { FAIL("SNR number %d out of range", S.cs); S.cs = 0; }
  double want = 1 / sqrt(2 * R_ * pow(10.0, (*gsnr)[S.cs] / 10));
  if (!(fabs(S.sg - want) <= 1e-9 * want)) FAIL("noise level %.12g given to the decoder, expected %.12g", S.sg, want);
  if (noisechk) {
    size_t p = 0; 
    for (int i = 0; i < S.n; i += 2) {
      double v1, v2, r;
      do { if (p + 2 > draws.size()) { FAIL("%ld fresh draws are too few for %d samples", (long)draws.size(), S.n); return 0; }
        v1 = 2.0 * (draws[p] / 2147483647.0) - 1; v2 = 2.0 * (draws[p + 1] / 2147483647.0) - 1; p += 2; r = v1 * v1 + v2 * v2; } while (r >= 1);
      double f = sqrt(-2 * log(r) / r), e0 = S.y[i] + v1 * f * want, e1 = S.y[i + 1] + v2 * f * want;
      bool ok = fabs(c[i] - e0) <= 1e-7 * (1 + fabs(e0)) && fabs(c[i + 1] - e1) <= 1e-7 * (1 + fabs(e1));
      if (!ok) { FAIL("received symbols %d,%d are %.12g %.12g, expected %.12g %.12g", i, i + 1, c[i], c[i + 1], e0, e1); break; }
    }
    if (p != draws.size()) FAIL("%ld draws made, %ld used", (long)draws.size(), (long)p);
    
  }
  draws.clear();
  Cnt &g = (*gc)[S.cs]; g.trn++;
  VI d = urnd() < perr ? wrong(S.x) : S.x; int e = 0; for (int j = 0; j < S.k; j++) e += d[j] != S.x[j];
  g.ebit += e; g.ebl += e > 0;
  for (int j = 0; j < S.k; j++) xd[j] = d[j];
  int rc = rnd(100) < epct ? 1 : 0;   // RC_DEC_ERASURE
  if (rc) g.er++;
  else if (ml_) { g.tml++; ml_next = true; ml_out.assign(c, c + S.n); ml_in = S.y; }
  return rc;
}
}
// ---- results file
struct Res { bool ok = false; std::vector<double> snr; std::vector<Cnt> c; std::string txt; };
static Res readres(const char *fn) {
  Res r; FILE *f = fopen(fn, "rb"); if (!f) return r; char b[4096]; size_t q; while ((q = fread(b, 1, sizeof b, f)) > 0) r.txt.append(b, q); fclose(f);
  std::vector<std::string> w; { std::string c; bool cm = false; for (char ch : r.txt) { if (ch == '\n') cm = false; if (ch == '%') cm = true; if (cm || strchr(" \t\r\n", ch)) { if (c.size()) w.push_back(c); c.clear(); } else c += ch; } if (c.size()) w.push_back(c); }
  auto list = [&](const char *nm) { std::vector<double> v; for (size_t i = 0; i + 1 < w.size(); i++) if (w[i] == nm && w[i + 1] == "{") { for (size_t j = i + 2; j < w.size() && w[j] != "}"; j++) v.push_back(atof(w[j].c_str())); break; } return v; };
  r.snr = list("SNR"); auto a = list(tr_num_token), b1 = list(en_bit_token), c = list(en_bl_token), d = list(er_n_token), e = list(ml_tr_num_token), g = list(enml_bl_token);
  size_t n = r.snr.size(); if (a.size() != n || b1.size() != n || c.size() != n || d.size() != n || e.size() != n || g.size() != n) return r;
  for (size_t i = 0; i < n; i++) { Cnt k; k.trn = a[i]; k.ebit = b1[i]; k.ebl = c[i]; k.er = d[i]; k.tml = e[i]; k.eml = g[i]; r.c.push_back(k); }
  r.ok = true; return r;
}
static std::string cs(const Cnt &c) { char b[120]; snprintf(b, 120, "(trials %d, bit errors %d, block errors %d, erasures %d, ml trials %d, ml errors %d)", c.trn, c.ebit, c.ebl, c.er, c.tml, c.eml); return b; }
static void wr(const std::string &fn, const std::string &t) { FILE *f = fopen(fn.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
struct Inst { void *p = 0; std::vector<double> snr; std::vector<int> req; std::vector<Cnt> cnt, saved; int minen = 0; bool done = false; std::string desc, rf; };
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.15g", v); return b; }
// params: snr list, requested trials
static bool mk(Inst &I, const std::string &spf, bool perval, int mintr) {
  std::string t; if (rnd(2)) t += "res_file " + I.rf + "\n";
  if (perval) { t += "SNR_val_trn {"; for (size_t i = 0; i < I.snr.size(); i++) t += " " + num(I.snr[i]) + " " + std::to_string(I.req[i]) + ","; t += " }\n"; }
  else { t += "EbNo_values { "; for (double d : I.snr) t += num(d) + " "; t += "}\nmin_trials_per_snr " + std::to_string(mintr) + "\n"; for (auto &r : I.req) r = mintr; }
  if (I.minen) t += "min_errors_per_snr " + std::to_string(I.minen) + "\n";
  if (rndcw_) t += "random_codeword on\n";
  if (ml_ && !mlhd_) t += "ml_lb on\n"; if (mlhd_) t += "ml_lb_hard on\n";
  if (R_ != (double)S.k / S.n) t += "fixed_R " + num(R_) + "\n";
  if (t.find("res_file") == std::string::npos) t += "res_file " + I.rf + "\n";
  wr(spf, t); I.desc = t; for (auto &ch : I.desc) if (ch == '\n') ch = ';';
  sim_init_params sp; memset(&sp, 0, sizeof sp); std::vector<char> nm(spf.begin(), spf.end()); nm.push_back(0); sp.spf_name = nm.data(); sp.ret_int = 0; sp.dont_randomize = rnd(2);
  I.cnt.assign(I.snr.size(), Cnt()); I.saved = I.cnt;
  return sim_init(&sp, &I.p) == 0;
}
static int step(Inst &I) { gc = &I.cnt; gsnr = &I.snr; ml_next = false; S.enc_open = false; draws.clear(); int rc = sim_run(I.p); if (ml_next) FAIL("ML bound not evaluated"); if (rc == 0) I.done = true; return rc; }
static void setcode() { int lg = 1 + rnd(4); S.n = 1 << lg; S.k = 1 + rnd(S.n); S.cs = -1; S.sg = -1; R_ = rnd(3) ? (double)S.k / S.n : 0.25 * (1 + rnd(4)); }
static double rsnr() { double d = rnd(4) ? -5 + 0.5 * rnd(20) : rnd(2) ? rnd(1000) / 100.0 : rnd(100000) / 7777.0; return atof(num(d).c_str()); }

static void c16(bool noise) {
  for (int q = 0; q < (THOROUGH() ? 20000 : 2500); q++) {
    setcode(); hot = noise ? rnd(2) : 0; noisechk = noise; rndcw_ = rnd(2); ml_ = rnd(3) == 0; mlhd_ = ml_ && rnd(2); perr = rnd(3) ? urnd() : rnd(2); epct = rnd(2) ? rnd(101) : 0; tick = rnd(3) ? 1 + rnd(9) : 0;
    Inst I; I.rf = "res"; int n = 1 + rnd(5); std::set<double> u; while ((int)u.size() < n) u.insert(rsnr()); I.snr.assign(u.begin(), u.end());
    if (rnd(2)) for (int j = n; j-- > 1;) std::swap(I.snr[j], I.snr[rnd(j + 1)]);
    bool pv = rnd(2); int mt = 1 + rnd(noise ? 8 : 40); for (int i = 0; i < n; i++) I.req.push_back(1 + rnd(noise ? 8 : 40));
    I.minen = rnd(3) == 0 ? 0 : rnd(3) ? 1 + rnd(4) : 1 + rnd(60); if (perr < 0.2) perr = 0.2; if (perr < 0.5 && I.minen > 10) I.minen = 10;
    if (noise) I.minen = 0;
    unlink("res"); 
    if (!mk(I, "spf", pv, mt)) { CASE("sim_init %s", I.desc.c_str()); FAIL("refused"); continue; }
    CASE("n=%d k=%d %s block error rate %.2f erasures %d%%", S.n, S.k, I.desc.c_str(), perr, epct);
    std::vector<int> met(n, 0); int rc, last = 0, guard = 0, more = 0; bool ctl = !noise && rnd(5) == 0;
    for (;;) {
      int cs0 = last; VI pre; for (auto &c : I.cnt) pre.push_back(c.ebl);
      rc = step(I);
      if (rc != 0 && rc != RC_SIMUL_NOT_COMPLETED) { FAIL("sim_run status %d", rc); break; }
      if (S.cs < last) FAIL("went back to SNR number %d", S.cs);
      last = S.cs; (void)cs0;
      if (rc == 0) break;
      if (ctl && more < 3 && rnd(10) == 0) { more++; sim_control(I.p, SIM_CTRL_CUR_MORE); }
      if (++guard > 200000) { FAIL("no end after %d returns", guard); break; }
    }
    int me = I.minen < 1 ? 1 : I.minen;
    for (int i = 0; i < n; i++) {
      Cnt &c = I.cnt[i];
      if (rc == 0 && c.trn < I.req[i]) FAIL("SNR %g: %d trials, %d requested", I.snr[i], c.trn, I.req[i]);
      if (rc == 0 && c.ebl < me) FAIL("SNR %g: moved on with %d block errors of %d after %d trials", I.snr[i], c.ebl, me, c.trn);
      if (perr == 1 && !ctl && me == 1 && c.trn != I.req[i]) FAIL("SNR %g: %d trials, exactly %d requested and errors from the start", I.snr[i], c.trn, I.req[i]);
    }
    if (rc == 0) { int t0 = 0; for (auto &c : I.cnt) t0 += c.trn; step(I); int t1 = 0; for (auto &c : I.cnt) t1 += c.trn; if (t1 != t0) FAIL("trials run after completion"); }
    char *b = (char *)malloc(10000); sim_cur_res_str(I.p, b); free(b);
    if (sim_save_res(I.p)) FAIL("saving failed");
    Res r = readres("res"); if (!r.ok) FAIL("results file has count lists of different lengths");
    else for (int i = 0; i < n; i++) { size_t j = 0; while (j < r.snr.size() && r.snr[j] != I.snr[i]) j++;
      if (j == r.snr.size()) FAIL("SNR %g is not in the results", I.snr[i]); else if (!(r.c[j] == I.cnt[i])) FAIL("SNR %g: counted %s, really %s", I.snr[i], cs(r.c[j]).c_str(), cs(I.cnt[i]).c_str()); }
    sim_close(I.p);
  }
}
static void c16ctl() { // control codes and many trials
  for (int q = 0; q < (THOROUGH() ? 400 : 60); q++) {
    setcode(); hot = 0; noisechk = false; rndcw_ = rnd(2); ml_ = mlhd_ = 0; perr = 0.3; epct = 0; tick = 1;
    Inst I; I.rf = "res"; I.snr = {1, 2}; I.req = {100 + rnd(200), 50}; I.minen = 1; unlink("res");
    if (!mk(I, "spf", true, 0)) continue;
    int at = 5 + rnd(60), code = rnd(3); CASE("control %d after %d trials, %s", code, at, I.desc.c_str());
    for (int i = 0; i < at; i++) step(I);
    if (rnd(8) == 0) { for (int i = 0; i < 70; i++) sim_control(I.p, SIM_CTRL_CUR_MORE); for (int i = 0; i < 400; i++) step(I); if (S.cs != 0) FAIL("left the first value after %d trials though more were asked for repeatedly", I.cnt[0].trn); sim_close(I.p); continue; }
    sim_control(I.p, code == 0 ? SIM_CTRL_CUR_MORE : code == 1 ? SIM_CTRL_CUR_LESS : SIM_CTRL_CUR_NEXT);
    while (step(I)) ;
    int R0 = I.req[0], want = code == 0 ? R0 + R0 / 2 : code == 1 ? std::max(R0 - R0 / 3, at) : at;
    if (I.cnt[0].trn != want && !(I.cnt[0].ebl == 0)) FAIL("%d trials at the first value, expected %d", I.cnt[0].trn, want);
    sim_close(I.p);
  }
}
static void c15() {
  for (int q = 0; q < (THOROUGH() ? 6000 : 700); q++) {
    setcode(); hot = 0; noisechk = false; rndcw_ = rnd(2); ml_ = rnd(2); mlhd_ = ml_ && rnd(2); perr = 0.2 + 0.6 * urnd(); epct = rnd(60); tick = 1;
    std::string rf = rnd(30) ? "res" : std::string(200, 'r'); if (rnd(40) == 0) { rf = ""; while (rf.size() < 985) rf += "./"; rf += "res"; while (rf.size() < 999) rf = "./" + rf; rf = rf.substr(rf.size() - 999); if (rf[0] != '.') rf[0] = '.', rf[1] = '/'; if (rf[1] == '.' ) rf = rf.substr(0, 999); }
    unlink("res"); rmdir("res"); unlink(rf.c_str());
    std::map<double, Cnt> ref; int ni = 1 + rnd(3), maxs = rnd(8) ? 6 : 45; std::vector<Inst> T(ni); bool full = false;
    std::vector<double> pool; for (int i = 0; i < maxs + 4; i++) pool.push_back(rsnr());
    std::string d;
    for (auto &I : T) {
      I.rf = rf; int n = 1 + rnd(maxs); std::vector<double> p = pool; for (int j = p.size(); j-- > 1;) std::swap(p[j], p[rnd(j + 1)]); if (rnd(3) == 0) std::sort(p.begin(), p.end());
      std::set<double> u; for (int i = 0; i < n; i++) if (rnd(12) == 0 || u.insert(p[i]).second) I.snr.push_back(p[i]);
      for (size_t i = 0; i < I.snr.size(); i++) I.req.push_back(1 + rnd(maxs > 10 ? 2 : 6)); I.minen = 0;
      if (!mk(I, "spf", rnd(2), 1 + rnd(4))) { CASE("sim_init %s", I.desc.c_str()); FAIL("refused"); I.done = true; }
      d += " [" + I.desc + "]";
    }
    std::string ops; int nop = 5 + rnd(60); bool exists = false;
    for (int o = 0; o < nop; o++) {
      Inst &I = T[rnd(ni)]; if (!I.p) continue; int k = rnd(10);
      if (k < 7) { if (!I.done) { ops += char('a' + (&I - &T[0])); if (rnd(4) == 0) { int c = rnd(12); while (c-- && !I.done) step(I), ops += '.'; } else step(I); } continue; }
      std::string before; { Res r = readres(rf.c_str()); before = r.txt; }
      bool brk = k == 7 && rf == "res" && rnd(2);
      ops += char('A' + (&I - &T[0])); if (brk) ops += "!";
      CASE("res_file shared by%.1500s operations %.400s (letter: that instance runs a trial, capital: it saves, !: the file cannot be opened)", d.c_str(), ops.c_str());
      if (brk) { // the file cannot be opened for writing: its place is taken by a directory
        if (exists) rename("res", "res.keep"); mkdir("res", 0700); int rc = sim_save_res(I.p); rmdir("res"); if (exists) rename("res.keep", "res");
        if (rc == 0) FAIL("saving into a file that cannot be opened was reported as success");
        if (access("res.bsy", F_OK) == 0) { FAIL("busy flag left behind"); unlink("res.bsy"); }
        continue;
      }
      std::map<double, Cnt> want = ref;
      for (size_t i = 0; i < I.snr.size(); i++) if (I.cnt[i].trn != I.saved[i].trn) { Cnt &w = want[I.snr[i]], a = I.cnt[i], b = I.saved[i]; w.trn += a.trn - b.trn; w.ebit += a.ebit - b.ebit; w.ebl += a.ebl - b.ebl; w.er += a.er - b.er; w.tml += a.tml - b.tml; w.eml += a.eml - b.eml; }
      int rc = sim_save_res(I.p);
      Res r = readres(rf.c_str());
      if (want.size() > 50) { full = true; if (rc == 0) FAIL("%ld SNR values saved, the table holds 50", (long)want.size()); if (r.txt != before) FAIL("a refused save changed the file"); break; }
      if (rc) { FAIL("saving failed with status %d", rc); break; }
      exists = true; ref = want; I.saved = I.cnt;
      if (!r.ok) { FAIL("count lists of different lengths"); break; }
      for (size_t i = 1; i < r.snr.size(); i++) if (!(r.snr[i - 1] < r.snr[i])) { FAIL("SNR values %g %g not in increasing order", r.snr[i - 1], r.snr[i]); break; }
      size_t i = 0; bool bad = r.snr.size() != ref.size(); for (auto &kv : ref) { if (bad || r.snr[i] != kv.first || !(r.c[i] == kv.second)) { FAIL("entry %ld: expected SNR %.15g %s, file has %s %s (%ld of %ld entries)", (long)i, kv.first, cs(kv.second).c_str(), i < r.snr.size() ? num(r.snr[i]).c_str() : "nothing", i < r.c.size() ? cs(r.c[i]).c_str() : "", (long)r.snr.size(), (long)ref.size()); bad = true; break; } i++; }
      if (bad) break;
      if (rnd(3) == 0) { if (sim_save_res(I.p)) FAIL("repeated save failed"); Res r2 = readres(rf.c_str()); if (r2.txt != r.txt) { FAIL("saving again without new trials changed the file"); break; } }
    }
    (void)full;
    for (auto &I : T) if (I.p) sim_close(I.p);
  }
}
int main(int ac, char **av) {
  std::string m = av[1];
  if (m == "c15") c15();
  if (m == "c16") { c16(false); c16ctl(); }
  if (m == "c19") c16(true);
  return DONE();
}
