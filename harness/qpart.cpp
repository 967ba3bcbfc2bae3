// C12: pruning of a candidate list, run directly on the decoder's own function
#include "h.hpp"
extern "C" {
#if CDC == 2
#include "../polar_scl/polar_scl_inner.c"
#else
#include "../dtrm_glp/dtrm_glp_inner.c"
#endif
}
int main() {
  int R = THOROUGH() ? 400000 : 60000;
  for (int q = 0; q < R; q++) {
    int n = 1 + rnd(q % 50 == 0 ? 200 : 12), k = rnd(n), W = n + rnd(8), st = rnd(5);
    std::vector<double> s(W); VI cells(W), v(n + 8, -7);
    for (int i = 0; i < W; i++) { cells[i] = i; s[i] = st == 0 ? 0 : st == 1 ? -rnd(3) : st == 2 ? -(double)i : st == 3 ? (double)i : -30 * urnd(); }
    if (st == 4 && rnd(3) == 0) s[rnd(W)] = -INFINITY;
    for (int i = W - 1; i > 0; i--) std::swap(cells[i], cells[rnd(i + 1)]);
    if (rnd(4) == 0) std::sort(cells.begin(), cells.begin() + n, [&](int a, int b) { return s[a] < s[b]; });
    if (rnd(8) == 0) std::sort(cells.begin(), cells.begin() + n, [&](int a, int b) { return s[a] > s[b]; });
    for (int i = 0; i < n; i++) v[i + 4] = cells[i];
    std::string d; for (int i = 0; i < n && i < 40; i++) { char b[40]; snprintf(b, 40, "%.17g ", s[v[i + 4]]); d += b; }
    CASE("qpartition(len=%d, k=%d) metrics in list order: %s", n, k, d.c_str());
    VI w = v; std::vector<double> s0 = s; slist = s.data();
    qpartition(v.data() + 4, n, k);
    if (memcmp(s.data(), s0.data(), W * sizeof(double))) FAIL("metrics changed");
    for (int i = 0; i < 4; i++) if (v[i] != -7 || v[n + 4 + i] != -7) FAIL("wrote outside the list");
    VI a(w.begin() + 4, w.begin() + 4 + n), b(v.begin() + 4, v.begin() + 4 + n); VI r = b;
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) FAIL("candidates lost or duplicated");
    else if (k) { double lo = INFINITY, hi = -INFINITY; for (int i = 0; i < k; i++) lo = std::min(lo, s[r[i]]); for (int i = k; i < n; i++) hi = std::max(hi, s[r[i]]);
      if (lo < hi) FAIL("kept a candidate with metric %.17g, dropped one with %.17g", lo, hi); }
  }
  return DONE();
}
