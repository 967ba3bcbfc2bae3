// C04: the iterative transform of the list decoder computes the same function as the recursive one
#include "h.hpp"
extern "C" { void code_mm(int, int *, int *); int mrm_enc_mm_bsc(int, int *, int *); void err_msg(const char *) {} void show_msg(const char *) {} void msg_printf(const char *, ...) {} void msg_flush(void) {} }
int main() {
  int R = THOROUGH() ? 200 : 40;
  for (int m = 0; m <= 14; m++) for (int q = 0; q < (m > 11 ? 4 : R); q++) {
    int n = 1 << m; VI x = rbits(n), x0 = x, y(n + 4, 77), z(n), w(n); const int *xp = x0.data();
    CASE("code_mm(n=%d,x=%s)", n, show(x).c_str());
    VI ref = refE(m, m, xp);
    code_mm(n, x.data(), y.data() + 2);
    mrm_enc_mm_bsc(m, x.data(), z.data());
    if (x != x0) FAIL("input changed");
    if (y[0] != 77 || y[1] != 77 || y[n + 2] != 77 || y[n + 3] != 77) FAIL("wrote outside its output");
    for (int i = 0; i < n; i++) if (y[i + 2] != ref[i] || z[i] != ref[i]) { FAIL("bit %d: iterative %d recursive %d must be %d", i, y[i + 2], z[i], ref[i]); break; }
    code_mm(n, y.data() + 2, w.data());
    if (w != x0) FAIL("applied twice it does not give back the vector");
  }
  return DONE();
}
