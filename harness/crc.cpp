// C05
#include "h.hpp"
extern "C" { int *calc_crc(const int *, int, const int *, int, int *); int is_valid_crc(const int *, int, const int *, int, int *); }
static void one(const VI &x, const VI &g) {
  int n = x.size(), L = g.size();
  CASE("x=%s poly=%s", show(x, 200).c_str(), show(g).c_str());
  VI x1 = x, g1 = g, buf(n + 8, 77), ref = refCRC(x, g);
  int *c = calc_crc(x1.data(), n, g1.data(), L, buf.data() + 4);
  if (c != buf.data() + 4 + n - L) { FAIL("calc_crc returns a wrong position"); return; }
  for (int j = 0; j < L; j++) if (c[j] != ref[j]) { FAIL("check bit %d is %d, remainder has %d", j, c[j], ref[j]); break; }
  if (x1 != x || g1 != g) FAIL("calc_crc changed its input");
  for (int i = 0; i < 4; i++) if (buf[i] != 77 || buf[n + 4 + i] != 77) FAIL("calc_crc wrote outside its buffer");
  VI blk = x; blk.insert(blk.end(), ref.begin(), ref.end());
  std::vector<VI> tries(1, blk);
  for (int j = 0; j < L; j++) { VI t = blk; t[n + j] ^= 1; tries.push_back(t); }
  for (int q = 0; q < 4 && n; q++) { VI t = blk; t[rnd(n)] ^= 1; tries.push_back(t); }
  for (int q = 0; q < 4 && L > 1; q++) { VI t = blk; t[n + rnd(L)] ^= 1; t[n + rnd(L)] ^= 1; tries.push_back(t); }
  if (L) { VI t = blk; for (int j = 0; j < L; j++) t[n + j] ^= 1; tries.push_back(t); }
  for (auto &t : tries) {
    VI in(t.begin(), t.begin() + n), r2 = refCRC(in, g), t1 = t; bool w = std::equal(r2.begin(), r2.end(), t.begin() + n);
    VI b2(n + 8, 77);
    int r = is_valid_crc(t1.data(), n, g1.data(), L, b2.data() + 4);
    if ((r != 0) != w || r < 0 || r > 1) FAIL("is_valid_crc returns %d for received block %s, must be %d", r, show(t, 200).c_str(), (int)w);
    if (t1 != t || g1 != g) FAIL("is_valid_crc changed its input");
    for (int i = 0; i < 4; i++) if (b2[i] != 77 || b2[n + 4 + i] != 77) FAIL("is_valid_crc wrote outside its buffer");
  }
}
int main() {
  for (int L = 0; L <= 4; L++) for (int n = L; n <= 8; n++) for (int g = 0; g < (1 << L); g++) for (int x = 0; x < (1 << n); x++) {
    if (n > 6 && (x * 7 + g) % 5) continue;
    VI X, Gv; for (int i = 0; i < n; i++) X.push_back(x >> i & 1); for (int i = 0; i < L; i++) Gv.push_back(g >> i & 1);
    one(X, Gv);
  }
  int R = THOROUGH() ? 20000 : 2000;
  for (int q = 0; q < R; q++) { int L = rnd(33), n = L + rnd(q % 10 ? 80 : 300); one(rbits(n), rbits(L)); }
  return DONE();
}
