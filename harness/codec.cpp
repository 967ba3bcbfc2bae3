// Codec level checks through the codec interface (one build per codec: CDC=0 dtrm0, 1 dtrm1, 2 polar, 3 glp)
#include "h.hpp"
extern "C" {
int cdc_init(char *, void **); int cdc_get_n(void *); int cdc_get_k(void *); void cdc_set_sg(void *, double);
#if CDC == 3
void cdc_set_csnrn(void *, int);
#endif
int enc_bpsk(void *, int *, double *); int dec_bpsk(void *, double *, int *); void cdc_close(void *);
}
static int h_errmsgs = 0;
extern "C" void err_msg(char *) { h_errmsgs++; }
extern "C" void show_msg(char *) {}
extern "C" void msg_printf(char *, ...) {}
extern "C" void msg_flush(void) {}

struct Cfg { int m = 0, r = 0, L = 1; VI mask, crc; std::vector<VI> perms; std::vector<std::pair<int, double>> var; };
static std::string sep(const std::vector<std::string> &t) { std::string s; for (auto &x : t) { s += x; s += '\1'; } return s; }
static std::string S(int v) { return std::to_string(v); }
static std::string bits(const VI &v) { std::string s; for (int b : v) s += b ? '1' : '0'; return s; }
static std::string params(const Cfg &c) {
  std::vector<std::string> t;
#if CDC == 2
  t = {"c_m", S(c.m), "info_bits_mask", bits(c.mask), "list_size", S(c.L)};
  if (c.crc.size()) { t.push_back("ca_polar_crc"); t.push_back(bits(c.crc)); }
#else
  t = {"RM_m", S(c.m), "RM_r", S(c.r)};
#endif
#if CDC == 3
  t.push_back("border_node_mask"); t.push_back(bits(c.mask)); t.push_back("border_node_lsize"); t.push_back(S(c.L));
  if (c.var.size()) { t.push_back("use_variable_list"); t.push_back("on"); t.push_back("distance_threshold"); t.push_back("{"); for (auto &p : c.var) { t.push_back(S(p.first)); t.push_back(std::to_string(p.second)); } t.push_back("}"); }
#endif
  if (c.perms.size()) { t.push_back("permutations"); t.push_back("{"); for (auto &p : c.perms) for (int v : p) t.push_back(S(v)); t.push_back("}"); }
  return sep(t);
}
static std::string desc(const Cfg &c) { std::string s = params(c); for (auto &ch : s) if (ch == '\1') ch = ' '; return s.substr(0, 1500); }
static int dimOf(const Cfg &c) {
#if CDC == 2
  int k = 0; for (int b : c.mask) k += b; return k - (int)c.crc.size();
#elif CDC == 3
  const int *np = c.mask.data(); return refSK(c.m, c.r, np);
#else
  return refK(c.m, c.r);
#endif
}
static VI word(const Cfg &c, const VI &x) {
#if CDC == 2
  VI t = x; if (c.crc.size()) { VI q = refCRC(x, c.crc); t.insert(t.end(), q.begin(), q.end()); }
  t.push_back(0); const int *np = c.mask.data(), *xp = t.data(); return refPE(c.m, c.m, np, xp);
#elif CDC == 3
  VI t = x; t.push_back(0); const int *np = c.mask.data(), *xp = t.data(); return refSE(c.m, c.r, np, xp);
#else
  const int *xp = x.data(); return refE(c.m, c.r, xp);
#endif
}
struct Inst { void *p = 0; int rc; Inst(const Cfg &c) { std::string s = params(c); std::vector<char> b(s.begin(), s.end()); b.push_back(0); rc = cdc_init(b.data(), &p); } ~Inst() { if (p && rc == 0) cdc_close(p); } };

static VI identity(int m) { VI v(m); for (int i = 0; i < m; i++) v[i] = i; return v; }
static VI randperm(int m) { VI v = identity(m); for (int i = m - 1; i > 0; i--) std::swap(v[i], v[rnd(i + 1)]); return v; }
static int MM = 0;   // cap on m
// random valid configuration; idperm: only identity permutations
static Cfg rcfg(bool idperm, int q) {
  Cfg c;
  for (;;) {
    c = Cfg();
#if CDC == 0
    c.m = MM == 12 ? 11 + rnd(3) : 1 + rnd(MM ? MM : 9); c.r = 1 + rnd(c.m);
#elif CDC == 1
    c.m = MM == 12 ? 11 + rnd(3) : 1 + rnd(MM ? MM : 9); c.r = 1 + rnd(c.m);
#elif CDC == 2
    c.m = 1 + rnd(MM ? MM : 7); int n = 1 << c.m;
    c.mask = VI(n); int mode = rnd(5);
    for (int i = 0; i < n; i++) c.mask[i] = mode == 0 ? 1 : mode == 1 ? rnd(2) : mode == 2 ? (rnd(5) == 0) : mode == 3 ? (__builtin_popcount(i) >= (c.m + 1) / 2) : (rnd(5) != 0);
    int k = 0; for (int b : c.mask) k += b;
    if (k == 0) continue;
    int Ls[] = {1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 6, 1}; c.L = Ls[rnd(12)];
    if (rnd(2)) { int cl = 1 + rnd(10); if (k - cl >= cl) c.crc = VI(cl); for (auto &b : c.crc) b = rnd(2); if (c.crc.size()) c.crc.back() = 1; }
#else
    c.m = 3 + rnd(MM ? MM - 2 : 6); c.r = 2 + rnd(c.m - 2); if (c.r >= c.m) continue;
    int nn = refNN(c.m, c.r); c.mask = VI(nn); int mode = rnd(4);
    (void)nn;
    // border mask is in terms of decoder end nodes (r==1 and r==m)
#endif
#if CDC == 3
    int Ls[] = {1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 6, 1}; c.L = Ls[rnd(12)];
    for (auto &b : c.mask) b = mode == 0 ? 1 : mode == 1 ? rnd(2) : mode == 2 ? (rnd(4) != 0) : (rnd(8) != 0);
    { int k = 0; const int *np = c.mask.data(); k = refSK(c.m, c.r, np); if (k == 0) continue; bool full = std::count(c.mask.begin(), c.mask.end(), 1) == nn;
      int np_ = rnd(3) ? 0 : rnd(20) == 0 ? 30 + rnd(70) : 1 + rnd(4);
      for (int i = 0; i < np_; i++) c.perms.push_back(idperm || !full ? identity(c.m) : randperm(c.m)); }
#endif
    break;
  }
  return c;
}
// received word with the signs of the code word, random magnitudes whose full product stays representable
static VD rx(const VI &w, double sg22, int style) {
  int n = w.size(); VD y(n); double B = 4 + 18 * urnd(); VD wt(n); double sum = 0;
  for (auto &x : wt) { double u = urnd(); x = style == 0 ? 1 : style == 1 ? u : style == 2 ? u * u * u * u : style == 3 ? (rnd(n) == 0 ? 1 : 1e-9) : -log(u + 1e-12); sum += x; }
  if (sum <= 0) sum = 1;
  for (int i = 0; i < n; i++) {
    double l = B * wt[i] / sum;                      // -log|e|
    if (l < 1e-7) l = 1e-7;
    double e = exp(-l), llr = 2 * atanh(e);
    if (style == 5) llr = 0.5 + 40 * urnd();
    if (style == 6) llr = rnd(2) ? 1000 * (1 + urnd()) : 6;
    y[i] = (w[i] ? 1 : -1) * llr / sg22;
  }
  return y;
}
static void dim() {
#if CDC == 0 || CDC == 1
  for (int m = 1; m <= 14; m++) for (int r = 1; r <= m; r++) {
    Cfg c; c.m = m; c.r = r;
#else
  for (int q = 0; q < (THOROUGH() ? 600 : 150); q++) {
    Cfg c = rcfg(false, q);
#endif
    CASE("cdc_init(%s)", desc(c).c_str());
    Inst I(c);
    if (I.rc) { FAIL("valid parameters refused"); continue; }
    int n = cdc_get_n(I.p), k = cdc_get_k(I.p);
    if (n != 1 << c.m) FAIL("reported length %d, must be %d", n, 1 << c.m);
    if (k != dimOf(c)) FAIL("reported dimension %d, must be %d", k, dimOf(c));
  }
}
static void enc() {
  for (int q = 0; q < (THOROUGH() ? 800 : 200); q++) {
    Cfg c = rcfg(false, q); int n = 1 << c.m, k = dimOf(c);
    if (k < 0) continue;
    VI x = rbits(k), x0 = x, w = word(c, x);
    CASE("enc_bpsk(%s, x=%s)", desc(c).c_str(), show(x).c_str());
    Inst I(c); if (I.rc) { FAIL("valid parameters refused"); continue; }
    for (int rep = 0; rep < 2; rep++) {
      VD y(n + 8, 7.5); enc_bpsk(I.p, x.data(), y.data() + 4);
      for (int i = 0; i < n; i++) if (y[i + 4] != (w[i] ? 1.0 : -1.0)) { FAIL("%ssymbol %d is %g, must be %g", rep ? "second call: " : "", i, y[i + 4], w[i] ? 1.0 : -1.0); break; }
      for (int i = 0; i < 4; i++) if (y[i] != 7.5 || y[n + 4 + i] != 7.5) { FAIL("wrote outside the %d symbols", n); break; }
      if (x != x0) FAIL("information vector changed");
    }
  }
}
static void dec() {
  int R = THOROUGH() ? 4000 : 900;
  for (int q = 0; q < R; q++) {
    if (q % 150 == 149) MM = 12; else if (q % 60 == 59) MM = 10; else if (q % 3 == 0) MM = 4; else MM = 0;
#if CDC == 3
    if (MM == 10) MM = 9;
    if (MM == 12) MM = 11;
    if (MM == 4) MM = 5;
#endif
    Cfg c = rcfg(true, q); int n = 1 << c.m, k = dimOf(c);
#if CDC == 3
    if (q % 90 == 40) { c = Cfg(); c.m = 8 + rnd(4); c.r = c.m - 1 - rnd(2); c.L = 1 + rnd(3); c.mask = VI(refNN(c.m, c.r), 1); n = 1 << c.m; k = dimOf(c); }
#endif
    VI x = rbits(k), w = word(c, x);
    Inst I(c); CASE("cdc_init(%s)", desc(c).c_str()); if (I.rc) { FAIL("valid parameters refused"); continue; }
    for (int s = 0; s < 7; s++) {
      double sg = s == 0 ? 1.0 : 0.2 + 1.5 * urnd(), sg22 = 2.0 / (sg * sg);
      VD y = rx(w, sg22, s);
      CASE("dec_bpsk(%s, sigma=%g, sent x=%s, magnitude style %d, y[0..3]=%.17g %.17g)", desc(c).c_str(), sg, show(x, 200).c_str(), s, y[0], y[n - 1]);
      cdc_set_sg(I.p, sg);
      VD yy = y; VI xd(k + 8, 77);
      int rc = dec_bpsk(I.p, yy.data(), xd.data() + 4);
      if (rc != 0) FAIL("decoder returned status %d", rc);
      VI got(xd.begin() + 4, xd.begin() + 4 + k);
      if (got != x) FAIL("decoded %s", show(got, 200).c_str());
      for (int i = 0; i < 4; i++) if (xd[i] != 77 || xd[k + 4 + i] != 77) { FAIL("wrote outside the %d information bits", k); break; }
    }
  }
}
static VD noisy(const VI &w, double sg) { VD y(w.size()); for (size_t i = 0; i < y.size(); i++) { double s = 0; for (int j = 0; j < 12; j++) s += urnd(); y[i] = (w[i] ? 1 : -1) + sg * (s - 6); } return y; }
static VD anyword(const Cfg &c, const VI &w, double sg, int s) {
  int n = w.size(); VD y(n);
  if (s % 6 == 0) return noisy(w, sg);
  if (s % 6 == 1) { for (auto &v : y) v = 0; return y; }
  if (s % 6 == 2) { for (auto &v : y) v = rnd(2) ? 1 : -1; return y; }
  if (s % 6 == 3) { for (auto &v : y) v = (urnd() - 0.5) * 1e6; return y; }
  if (s % 6 == 4) { for (auto &v : y) v = rnd(3) - 1; return y; }
  for (auto &v : y) v = (urnd() - 0.5) * 1e-6;
  return y;
}
// C17: result is a function of the received word; also used as a memory exercise (C10/C11)
static void pure() {
  int R = THOROUGH() ? 2500 : 500;
  for (int q = 0; q < R; q++) {
    MM = q % 40 == 39 ? 9 : q % 3 == 0 ? 4 : 0;
#if CDC == 3
    if (MM == 4) MM = 5;
#endif
    Cfg c = rcfg(false, q); int n = 1 << c.m, k = dimOf(c);
#if CDC == 3
    if (q % 4 == 0) { int a = 1 + rnd(2 * c.L); c.var.push_back({a, rnd(2) ? 1e-3 : 0.25 * n}); if (rnd(2)) c.var.push_back({c.L, 1e-3 + urnd() * n}); }
    // schedules whose threshold the received words meet on either side (the normalised distance is near n)
    bool sched = q % 4 == 2;
    if (sched) { int a = 1 + rnd(2), e = 1 + rnd(4); for (int i = 0; i < e; i++, a *= 1 + rnd(4)) c.var.push_back({a, n * (0.7 + 0.6 * urnd())}); if (rnd(3) == 0) std::reverse(c.var.begin(), c.var.end()); }
    if (q % 50 == 21) { c = Cfg(); c.m = 8 + rnd(4); c.r = c.m - 1; c.L = 1 + rnd(2); c.mask = VI(refNN(c.m, c.r), 1); n = 1 << c.m; k = dimOf(c); sched = false; }
#endif
    VI x = rbits(k), w = word(c, x);
    CASE("cdc_init(%s)", desc(c).c_str());
    Inst I(c); if (I.rc) { FAIL("valid parameters refused"); continue; }
    std::vector<VD> ys; std::vector<VI> first; std::vector<int> rcs; std::vector<double> sgs;
    for (int s = 0; s < 6; s++) {
      double sg = 0.4 + 0.8 * urnd(); VD y = anyword(c, w, sg, s);
#if CDC == 3
      if (sched) y = noisy(w, sg = 0.6 + 0.6 * urnd());
#endif
      std::string ystr; for (int i = 0; i < n && i < 16; i++) { char b[40]; snprintf(b, 40, "%.17g ", y[i]); ystr += b; }
      CASE("dec_bpsk(%s, sigma=%g, y=%s...) word %d of one instance", desc(c).c_str(), sg, ystr.c_str(), s);
      cdc_set_sg(I.p, sg);
      VD yy(n + 8, 7.5); std::copy(y.begin(), y.end(), yy.begin() + 4); VD y0 = yy; VI xd(k + 8, 77);
      int rc = dec_bpsk(I.p, yy.data() + 4, xd.data() + 4);
      if (memcmp(yy.data(), y0.data(), yy.size() * sizeof(double))) FAIL("received vector changed");
      for (int i = 0; i < 4; i++) if (xd[i] != 77 || xd[k + 4 + i] != 77) { FAIL("wrote outside the %d information bits", k); break; }
      for (int i = 0; i < k; i++) if (xd[i + 4] != 0 && xd[i + 4] != 1) { FAIL("information bit %d is %d", i, xd[i + 4]); break; }
      ys.push_back(y); sgs.push_back(sg); rcs.push_back(rc); first.push_back(VI(xd.begin() + 4, xd.begin() + 4 + k));
    }
    for (int s = 0; s < 6; s++) {
      int fresh = s & 1; CASE("dec_bpsk(%s) word %d again, %s", desc(c).c_str(), s, fresh ? "fresh instance" : "same instance");
      Inst J(c); void *p = fresh ? J.p : I.p;
      cdc_set_sg(p, sgs[s]); VI xd(k + 1); int rc = dec_bpsk(p, ys[s].data(), xd.data()); xd.resize(k);
      if (xd != first[s] || rc != rcs[s]) FAIL("sigma=%g y[0]=%.17g: decoded %s status %d, before %s status %d", sgs[s], ys[s][0], show(xd).c_str(), rc, show(first[s]).c_str(), rcs[s]);
    }
  }
}
#if CDC == 2
// independent list decoder, used where its own decisions are not near ties
struct Path { double s; VI x; };
struct Ref {
  const Cfg &c; double margin = 1e9; std::vector<Path> P; int pos = 0;
  Ref(const Cfg &c) : c(c) {}
  static double clip(double e) { double t = 1.0 - 1e-8; return e > t ? t : e < -t ? -t : e; }
  // decode sub-block for all paths; Y[p] input estimates; returns decided +-1 words, re-indexed by surviving paths; par: parent of each survivor
  void rec(int m, std::vector<VD> &Y, std::vector<VD> &D, std::vector<int> &par) {
    int np = Y.size(); par.resize(np); for (int i = 0; i < np; i++) par[i] = i;
    if (m == 0) {
      if (!c.mask[pos++]) { D.assign(np, VD(1, 1.0)); for (int i = 0; i < np; i++) P[i].s += log(1 + Y[i][0]); return; }
      struct Cd { double s; int p, b; }; std::vector<Cd> cd;
      for (int i = 0; i < np; i++) { double e = Y[i][0]; for (int b = 0; b < 2; b++) cd.push_back({P[i].s + log(1 + (b ? -e : e)), i, b}); }
      std::stable_sort(cd.begin(), cd.end(), [](const Cd &a, const Cd &b) { return a.s > b.s; });
      if ((int)cd.size() > c.L) { margin = std::min(margin, cd[c.L - 1].s - cd[c.L].s); cd.resize(c.L); }
      std::vector<Path> Q; par.clear(); D.clear();
      for (auto &d : cd) { Path q = P[d.p]; q.s = d.s; q.x.push_back(d.b); Q.push_back(q); par.push_back(d.p); D.push_back(VD(1, d.b ? -1.0 : 1.0)); }
      P = Q; return;
    }
    int h = 1 << (m - 1);
    std::vector<VD> A(np, VD(h)), V, U; std::vector<int> p1, p2;
    for (int i = 0; i < np; i++) for (int j = 0; j < h; j++) A[i][j] = Y[i][j] * Y[i][j + h];
    rec(m - 1, A, V, p1);
    std::vector<VD> B(p1.size(), VD(h));
    for (size_t i = 0; i < p1.size(); i++) for (int j = 0; j < h; j++) { double a = Y[p1[i]][j] * V[i][j], b = Y[p1[i]][j + h]; B[i][j] = clip((a + b) / (1 + a * b)); }
    rec(m - 1, B, U, p2);
    D.assign(p2.size(), VD(2 * h)); par.resize(p2.size());
    for (size_t i = 0; i < p2.size(); i++) { par[i] = p1[p2[i]]; for (int j = 0; j < h; j++) { D[i][j] = V[p2[i]][j] * U[i][j]; D[i][j + h] = U[i][j]; } }
  }
  void run(const VD &llr) {
    P.assign(1, Path{0.0, {}}); pos = 0; std::vector<VD> Y(1), D; std::vector<int> par;
    for (double l : llr) Y[0].push_back(clip(-tanh(l / 2)));
    rec(c.m, Y, D, par);
    std::stable_sort(P.begin(), P.end(), [](const Path &a, const Path &b) { return a.s > b.s; });
    for (size_t i = 1; i < P.size(); i++) margin = std::min(margin, P[i - 1].s - P[i].s);
  }
};
// C12/C13 at codec level: same survivors, first valid candidate, status
static void scl() {
  int R = THOROUGH() ? 6000 : 1500, used = 0, erasures = 0, later = 0;
  for (int q = 0; q < R; q++) {
    MM = q % 5 == 0 ? 7 : 5;
    Cfg c = rcfg(true, q); int n = 1 << c.m, k = dimOf(c);
    if (q % 2 && c.crc.empty()) continue;
    VI x = rbits(k), w = word(c, x); double sg = 0.5 + 0.9 * urnd(), sg22 = 2 / (sg * sg); VD y = noisy(w, sg), llr(n);
    for (int i = 0; i < n; i++) llr[i] = y[i] * sg22;
    Ref ref(c); ref.run(llr);
    if (ref.margin < 1e-7) continue;
    used++;
    VI want = ref.P[0].x; int wrc = 0, which = 0;
    if (c.crc.size()) {
      int f = -1;
      for (size_t i = 0; i < ref.P.size() && f < 0; i++) { VI in(ref.P[i].x.begin(), ref.P[i].x.begin() + k), cr = refCRC(in, c.crc); if (std::equal(cr.begin(), cr.end(), ref.P[i].x.begin() + k)) f = i; }
      if (f < 0) { wrc = 1; erasures++; } else { want = ref.P[f].x; which = f; later += f > 0; }
    }
    want.resize(k);
    std::string ystr; for (int i = 0; i < n && i < 64; i++) { char b[40]; snprintf(b, 40, "%.17g ", y[i]); ystr += b; }
    CASE("dec_bpsk(%s, sigma=%g, sent x=%s, y=%s)", desc(c).c_str(), sg, show(x).c_str(), ystr.c_str());
    Inst I(c); if (I.rc) { FAIL("valid parameters refused"); continue; }
    cdc_set_sg(I.p, sg); VI xd(k + 8, 77); int rc = dec_bpsk(I.p, y.data(), xd.data() + 4);
    VI got(xd.begin() + 4, xd.begin() + 4 + k);
    if (rc != wrc) FAIL("status %d, must be %d (candidate %d of the sorted list is the first with a valid CRC)", rc, wrc, which);
    if (got != want) FAIL("decoded %s, must be candidate %d: %s", show(got).c_str(), which, show(want).c_str());
    for (int i = 0; i < 4; i++) if (xd[i] != 77 || xd[k + 4 + i] != 77) { FAIL("wrote outside the %d information bits", k); break; }
  }
  printf("SAMPLE reference list decoder comparisons: %d words, %d erasures, %d decided by a later candidate\n", used, erasures, later);
}
#endif
#if CDC == 3
// independent list decoder for the RM sub-codes, used where its own decisions are not near ties
struct Path { double s; VI x; };
struct Ref {
  const Cfg &c; double margin = 1e9; std::vector<Path> P; int pos = 0;
  Ref(const Cfg &c) : c(c) {}
  static double clip(double e) { double t = 1.0 - 1e-8; return e > t ? t : e < -t ? -t : e; }
  struct Cd { double s; int p; VI x; VD d; };
  void cut(std::vector<Cd> &cd, std::vector<VD> &D, std::vector<int> &par) {
    std::stable_sort(cd.begin(), cd.end(), [](const Cd &a, const Cd &b) { return a.s > b.s; });
    if ((int)cd.size() > c.L) { margin = std::min(margin, cd[c.L - 1].s - cd[c.L].s); cd.resize(c.L); }
    std::vector<Path> Q; par.clear(); D.clear();
    for (auto &d : cd) { Path q = P[d.p]; q.s = d.s; q.x.insert(q.x.end(), d.x.begin(), d.x.end()); Q.push_back(q); par.push_back(d.p); D.push_back(d.d); }
    P = Q;
  }
  static VI trans(VI b) { int n = b.size(); for (int h = 1; h < n; h *= 2) for (int i = 0; i < n; i += 2 * h) for (int j = 0; j < h; j++) b[i + j] ^= b[i + j + h]; return b; }
  void full(int m, std::vector<VD> &Y, std::vector<VD> &D, std::vector<int> &par) {
    int np = Y.size(), n = 1 << m;
    if (!c.mask[pos++]) { D.assign(np, VD(n, 1.0)); for (int i = 0; i < np; i++) for (double e : Y[i]) P[i].s += log(1 + e); return; }
    std::vector<Cd> cd;
    for (int i = 0; i < np; i++) {
      VI hd(n); VD d(n); double s = P[i].s; std::vector<std::pair<double, int>> o;
      for (int j = 0; j < n; j++) { double e = Y[i][j]; hd[j] = !(e > 0); s += log(1 + fabs(e)); d[j] = log((1 - fabs(e)) / (1 + fabs(e))); o.push_back({fabs(e), j}); }
      std::vector<std::vector<int>> fl = {{}};
      if (n == 2) fl = {{}, {0}, {1}, {0, 1}};
      else {
        std::stable_sort(o.begin(), o.end(), [](const std::pair<double, int> &a, const std::pair<double, int> &b) { return a.first < b.first; });
        for (int t = 0; t < 3 && t + 1 < n; t++) margin = std::min(margin, o[t + 1].first - o[t].first);
        int a = o[0].second, b = o[1].second, e = o[2].second;
        margin = std::min(margin, fabs(d[a] + d[b] - d[e]));
        fl.push_back({a}); fl.push_back({b}); if (d[a] + d[b] > d[e]) fl.push_back({a, b}); else fl.push_back({e});
      }
      for (auto &f : fl) { VI x = hd; double t = s; for (int j : f) { x[j] ^= 1; t += d[j]; } VD w(n); for (int j = 0; j < n; j++) w[j] = x[j] ? -1.0 : 1.0; cd.push_back({t, i, trans(x), w}); }
    }
    cut(cd, D, par);
  }
  void rec(int m, int r, std::vector<VD> &Y, std::vector<VD> &D, std::vector<int> &par) {
    int np = Y.size(); par.resize(np); for (int i = 0; i < np; i++) par[i] = i;
    if (r == m) { full(m, Y, D, par); return; }
    int h = 1 << (m - 1);
    std::vector<VD> A(np, VD(h)), V, U; std::vector<int> p1 = par, p2;
    for (int i = 0; i < np; i++) for (int j = 0; j < h; j++) A[i][j] = Y[i][j] * Y[i][j + h];
    if (r == 1) {
      std::vector<Cd> cd; bool sel = c.mask[pos++];
      for (int i = 0; i < np; i++) for (int b = 0; b <= (int)sel; b++) { double s = P[i].s; for (double e : A[i]) s += log(1 + (b ? -e : e)); cd.push_back({s, i, sel ? VI(1, b) : VI(), VD(h, b ? -1.0 : 1.0)}); }
      if (sel) cut(cd, V, p1); else for (auto &d : cd) { P[d.p].s = d.s; V.push_back(d.d); }
    }
    else rec(m - 1, r - 1, A, V, p1);
    std::vector<VD> B(p1.size(), VD(h));
    for (size_t i = 0; i < p1.size(); i++) for (int j = 0; j < h; j++) { double a = Y[p1[i]][j] * V[i][j], b = Y[p1[i]][j + h]; B[i][j] = clip((a + b) / (1 + a * b)); }
    rec(m - 1, r, B, U, p2);
    D.assign(p2.size(), VD(2 * h)); par.resize(p2.size());
    for (size_t i = 0; i < p2.size(); i++) { par[i] = p1[p2[i]]; for (int j = 0; j < h; j++) { D[i][j] = V[p2[i]][j] * U[i][j]; D[i][j + h] = U[i][j]; } }
  }
  void run(const VD &llr) {
    P.assign(1, Path{0.0, {}}); pos = 0; std::vector<VD> Y(1), D; std::vector<int> par;
    for (double l : llr) Y[0].push_back(clip(-tanh(l / 2)));
    rec(c.m, c.r, Y, D, par);
    std::stable_sort(P.begin(), P.end(), [](const Path &a, const Path &b) { return a.s > b.s; });
    if (P.size() > 1) margin = std::min(margin, P[0].s - P[1].s);
  }
};
// C12 at codec level: the survivors of every cut are the best ones
static void lst() {
  int R = THOROUGH() ? 20000 : 6000, used = 0;
  for (int q = 0; q < R; q++) {
    MM = q % 5 == 0 ? 7 : 5;
    Cfg c = rcfg(true, q); c.perms.clear(); if (q % 3) c.L = std::min(c.L, 8); int n = 1 << c.m, k = dimOf(c);
    VI x = rbits(k), w = word(c, x); double sg = 0.5 + 1.5 * urnd(), sg22 = 2 / (sg * sg); VD y = noisy(w, sg), llr(n);
    for (int i = 0; i < n; i++) llr[i] = y[i] * sg22;
    Ref ref(c); ref.run(llr);
    if (ref.margin < 1e-7) continue;
    used++;
    std::string ystr; for (int i = 0; i < n && i < 64; i++) { char b[40]; snprintf(b, 40, "%.17g ", y[i]); ystr += b; }
    CASE("dec_bpsk(%s, sigma=%g, sent x=%s, y=%s)", desc(c).c_str(), sg, show(x).c_str(), ystr.c_str());
    Inst I(c); if (I.rc) { FAIL("valid parameters refused"); continue; }
    cdc_set_sg(I.p, sg); cdc_set_csnrn(I.p, 0); VI xd(k + 8, 77); dec_bpsk(I.p, y.data(), xd.data() + 4);
    VI got(xd.begin() + 4, xd.begin() + 4 + k);
    if (got != ref.P[0].x) FAIL("decoded %s, the best of the list is %s", show(got).c_str(), show(ref.P[0].x).c_str());
  }
  printf("SAMPLE reference list decoder comparisons: %d words\n", used);
}
#endif
int main(int ac, char **av) {
  std::string p = ac > 1 ? av[1] : "";
  if (p == "dim") dim();
  if (p == "enc") enc();
  if (p == "dec") dec();
  if (p == "pure") pure();
#if CDC == 2
  if (p == "scl") scl();
#endif
#if CDC == 3
  if (p == "lst") lst();
#endif
  return DONE();
}
