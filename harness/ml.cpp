// C20: first-order decoding against exhaustive search
#include "h.hpp"
extern "C" { int rm1_dec_sh_finp(int, double *, int *); int rm1_dec_sh(int, double *, int *); int rm1_dec_lst(int, double *, int, int *); }
static int h_errmsgs = 0;
extern "C" void err_msg(char *) { h_errmsgs++; }
extern "C" void show_msg(char *) {}
extern "C" void msg_printf(char *, ...) {}
extern "C" void msg_flush(void) {}
static double lik(const VD &e, const VI &w) { double s = 0; for (size_t i = 0; i < e.size(); i++) s += log(1 + (w[i] ? -e[i] : e[i])); return s; }
int main() {
  for (int q = 0; q < (THOROUGH() ? 20000 : 3000); q++) {
    int m = 1 + rnd(q % 10 == 0 ? 7 : 4), n = 1 << m, st = rnd(7); double sc = st == 0 ? 0.999999 : st == 1 ? 1e-3 : urnd();
    VI x = rbits(m + 1); const int *xp = x.data(); VI w = refE(m, 1, xp); VD e(n);
    for (int i = 0; i < n; i++) { double g = 0; for (int j = 0; j < 12; j++) g += urnd(); double l = 2 * ((w[i] ? -1 : 1) + sc * 1.5 * (g - 6)); e[i] = st == 2 ? (rnd(2) ? 0.3 : -0.3) : st == 3 ? (2 * urnd() - 1) * 0.99 : st == 4 && rnd(3) == 0 ? 0 : tanh(l / 2); if (fabs(e[i]) > 1 - 1e-7) e[i] = e[i] > 0 ? 1 - 1e-7 : -(1 - 1e-7); }
    std::string es; for (int i = 0; i < n && i < 16; i++) { char b[40]; snprintf(b, 40, "%.17g ", e[i]); es += b; }
    for (int which = 0; which < 3; which++) {
    // 0: reliabilities; 1, 2: log-likelihood ratios ln(p1/p0), with a list in case 2
    static const char *fn[3] = {"rm1_dec_sh_finp", "rm1_dec_sh", "rm1_dec_lst"}; int ls = which == 2 ? 1 + rnd(n < 5 ? n : 5) : 1;
    CASE("%s(m=%d, list %d, e=%s%s)", fn[which], m, ls, es.c_str(), n > 16 ? "..." : "");
    VD in(n); for (int i = 0; i < n; i++) in[i] = which ? -2 * atanh(e[i]) : e[i];
    VD y(n + 8, 0.5); std::copy(in.begin(), in.end(), y.begin() + 4); VI xd(ls * (m + 1) + 8, 77);
    int rc = which == 0 ? rm1_dec_sh_finp(m, y.data() + 4, xd.data() + 4) : which == 1 ? rm1_dec_sh(m, y.data() + 4, xd.data() + 4) : rm1_dec_lst(m, y.data() + 4, ls, xd.data() + 4);
    if (rc) { FAIL("status %d", rc); continue; }
    for (int i = 0; i < n; i++) if (y[i + 4] != in[i]) { FAIL("input changed"); break; }
    if (which == 2) { xd.erase(xd.begin() + 5 + m, xd.begin() + 4 + ls * (m + 1)); }
    for (int i = 0; i < 4; i++) if (xd[i] != 77 || xd[m + 5 + i] != 77) { FAIL("wrote outside the %d information bits", m + 1); break; }
    VI got(xd.begin() + 4, xd.begin() + 5 + m); bool bits = true; for (int b : got) if (b != 0 && b != 1) bits = false; if (!bits) { FAIL("not bits: %s", show(got).c_str()); continue; }
    xp = got.data(); double lg = lik(e, refE(m, 1, xp)), best = -1e300; VI bx;
    for (int v = 0; v < 2 << m; v++) { VI t(m + 1); for (int i = 0; i <= m; i++) t[i] = v >> i & 1; xp = t.data(); double l = lik(e, refE(m, 1, xp)); if (l > best) best = l, bx = t; }
    if (lg < best - 1e-6 * (1 + fabs(best))) FAIL("decoded %s with log-likelihood %.12g, %s has %.12g", show(got).c_str(), lg, show(bx).c_str(), best);
    }
  }
  return DONE();
}
