// C18: derived permutations of an initialised RM list codec
#define main codec_main
#define CDC 3
#include "codec.cpp"
#undef main
extern "C" { int *h_px(void *); int *h_py(void *); int h_pnum(void *); }
int main() {
  for (int q = 0; q < (THOROUGH() ? 4000 : 500); q++) {
    Cfg c; c.m = 3 + rnd(q % 20 == 0 ? 7 : 4); c.r = 2 + rnd(c.m - 2); if (c.r >= c.m) continue; c.L = 1 + rnd(8);
    c.mask = VI(refNN(c.m, c.r), 1); int np = q % 25 == 7 ? 30 + rnd(170) : q % 4 ? 1 + rnd(12) : 0, id = rnd(8) == 0;
    for (int i = 0; i < np; i++) c.perms.push_back(id ? identity(c.m) : randperm(c.m));
    int n = 1 << c.m, k = refK(c.m, c.r);
    CASE("cdc_init(%s)", desc(c).c_str());
    Inst I(c); if (I.rc) { FAIL("valid parameters refused"); continue; }
    int want = np ? np : 1; if (h_pnum(I.p) != want) { FAIL("%d permutations kept, %d given", h_pnum(I.p), want); continue; }
    for (int p = 0; p < want; p++) {
      const int *px = h_px(I.p) + p * k, *py = h_py(I.p) + p * n;
      VI a(py, py + n), b(px, px + k), sa = a, sb = b; std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end());
      bool ok = true; for (int i = 0; i < n; i++) if (sa[i] != i) ok = false; if (!ok) { FAIL("permutation %d of the %d positions is not a bijection", p, n); break; }
      for (int i = 0; i < k; i++) if (sb[i] != i) ok = false; if (!ok) { FAIL("permutation %d of the %d information positions is not a bijection", p, k); break; }
      if (np == 0 || id) { if (a != identity(n) || b != identity(k)) { FAIL("permutation %d must be the identity", p); break; } }
      if (np) for (int i = 0; i < n; i++) { int v = 0; for (int j = 0; j < c.m; j++) if (i >> j & 1) v |= 1 << c.perms[p][j]; if (a[i] != v) { FAIL("permutation %d sends position %d to %d, must be %d", p, i, a[i], v); ok = false; break; } }
      for (int t = 0; t < 3 && ok; t++) {
        VI x = rbits(k), x1(k), y(n); for (int j = 0; j < k; j++) x1[j] = x[b[j]];
        VI w = word(c, x), w1 = word(c, x1); for (int j = 0; j < n; j++) y[j] = w[a[j]];
        if (y != w1) { FAIL("permutation %d: information %s permuted gives another word than the permuted codeword", p, show(x).c_str()); ok = false; }
      }
      if (!ok) break;
    }
  }
  return DONE();
}
