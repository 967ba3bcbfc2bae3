// C14: parameter file pre-parser, through its public interface, on files written to the scratch directory
#include "h.hpp"
extern "C" {
int spf_read_preparse(char *, char **); int spf_tryread_preparse(char *, char **);
int strcpy_strip_comments(char *, int, int, char *);
}
static int h_errmsgs = 0;
extern "C" void err_msg(char *) { h_errmsgs++; }
extern "C" void show_msg(char *) {}
extern "C" void msg_printf(char *, ...) {}
extern "C" void msg_flush(void) {}
static const long LIMIT = 140000;
typedef std::string Str; typedef std::vector<Str> VS;
static std::vector<std::pair<Str, Str>> files;   // name, content
static Str *findf(const Str &n) { for (auto &f : files) if (f.first == n) return &f.second; return 0; }
static void put(const Str &n, const Str &c) { FILE *f = fopen(n.c_str(), "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); if (Str *p = findf(n)) *p = c; else files.push_back({n, c}); }
static Str strip(const Str &s) { Str r; bool cm = false; for (char ch : s) { if (ch == '\n') { cm = false; r += ch; } else if (cm) continue; else if (ch == '%') cm = true; else r += ch; } return r; }
static VS words(const Str &s) { VS r; Str w; for (char ch : s) { if (strchr(" ,\t\n\r", ch)) { if (w.size()) r.push_back(w); w.clear(); } else w += ch; } if (w.size()) r.push_back(w); return r; }
static long textsum; static int bad;
// expected tokens; bad: 1 must be refused, 2 may be refused
static void expand(const Str &name, VS &out, int depth) {
  Str *c = findf(name);
  if (!c || c->empty()) { bad = 1; return; }
  if (depth > 300) { bad = 1; return; }
  textsum += strip(*c).size() + 1;
  if ((long)c->size() >= LIMIT) { bad = 1; return; }
  if ((long)c->size() >= LIMIT - 4) { if (!bad) bad = 2; }
  if (textsum >= LIMIT) { bad = 1; return; }
  VS w = words(strip(*c));
  for (size_t i = 0; i < w.size() && bad != 1; i++) {
    if (w[i] == "include") { if (i + 1 >= w.size()) { bad = 3; return; } expand(w[++i], out, depth + 1); continue; }
    Str cur; for (char ch : w[i]) { if (ch == '{' || ch == '}') { if (cur.size()) out.push_back(cur); cur.clear(); out.push_back(Str(1, ch)); } else cur += ch; }
    if (cur.size()) out.push_back(cur);
  }
}
static void check(const Str &name, const char *what) {
  VS want; textsum = 0; bad = 0; expand(name, want, 0);
  if (bad == 3) return;             // include as the very last word of an included file: takes its name from the including one
  Str ref; for (auto &t : want) { ref += t; ref += '\1'; }
  if (!bad && (long)ref.size() >= LIMIT) bad = 1;
  if (!bad && ((long)ref.size() >= LIMIT - 8 || textsum >= LIMIT - 600)) bad = 2;
  Str text = *findf(name); Str sh; for (char ch : text.substr(0, 160)) { if (ch == '\n') sh += "\\n"; else if (ch == '\r') sh += "\\r"; else if (ch == '\t') sh += "\\t"; else sh += ch; }
  Str inc; for (auto &f : files) if (f.first != name) { inc += f.first + "=\""; for (char ch : f.second.substr(0, 80)) { if (ch == '\n') inc += "\\n"; else inc += ch; } inc += "\"(" + std::to_string(f.second.size()) + ") "; if (inc.size() > 700) break; }
  CASE("spf_read_preparse %s: file of %ld bytes \"%s\" includes %s", what, (long)text.size(), sh.c_str(), inc.c_str());
  char *o = 0; std::vector<char> nm(name.begin(), name.end()); nm.push_back(0);
  int rc = (rnd(2) ? spf_read_preparse : spf_tryread_preparse)(nm.data(), &o);
  if (rc != 0) { if (!bad) FAIL("refused with status %d", rc); return; }
  if (bad == 1) { FAIL("accepted, must be refused"); free(o); return; }
  Str got = o; free(o);
  if (got != ref) {
    size_t k = 0; while (k < got.size() && k < ref.size() && got[k] == ref[k]) k++;
    Str a = got.substr(k > 10 ? k - 10 : 0, 60), b = ref.substr(k > 10 ? k - 10 : 0, 60); for (auto &ch : a) if (ch == '\1') ch = '|'; for (auto &ch : b) if (ch == '\1') ch = '|';
    FAIL("tokens differ at offset %ld: got ...%s expected ...%s (| ends a token)", (long)k, a.c_str(), b.c_str());
  }
}
static Str rword() { static const char *W[] = {"RM_m", "7", "SNR_val_trn", "x", "0.5", "includes", "xinclude", "on", "-1.25e3", "a{", "}b", "{", "}", "{1", "2}", "{3}", "}{", "{{", "}}", "a}b{c", "{x}y"}; Str s = W[rnd(21)]; if (rnd(40) == 0) s = Str(1 + rnd(300), 'q'); return s; }
static Str rsep() { Str s; int n = 1 + rnd(3); while (n--) s += " ,\t\n\r"[rnd(5)]; if (rnd(5) == 0) s += "% comment, include nofile { } %\n"; if (rnd(12) == 0) s += "\r\n"; if (rnd(30) == 0) s += "%\n"; return s; }
static Str rtext(const VS &inc) {
  Str s; int n = rnd(14); if (rnd(3) == 0) s += rsep();
  while (n--) { if (inc.size() && rnd(5) == 0) s += "include" + rsep() + inc[rnd(inc.size())]; else s += rword(); if (n || rnd(2)) s += rsep(); }
  int e = rnd(6); if (e == 0) s += "% last line"; if (e == 1 && s.size()) s += "%"; return s;
}
int main() {
  int R = THOROUGH() ? 30000 : 2500;
  for (int q = 0; q < R; q++) {
    files.clear(); VS inc; int n = rnd(4);
    for (int i = 0; i < n; i++) { Str t = rtext(inc); Str nm = "inc" + std::to_string(i); put(nm, t); inc.push_back(nm); }
    put("main", rtext(inc)); check("main", "");
  }
  // comment stripping on its own, also in place
  for (int q = 0; q < R; q++) {
    Str s; int n = rnd(40); while (n--) s += "ab %%\n{,\r"[rnd(9)];
    Str want = strip(s); int term = rnd(2), len = rnd(2) ? (int)s.size() : -1, inplace = rnd(2);
    std::vector<char> src(s.begin(), s.end()); src.push_back(0); std::vector<char> dst(s.size() + 1, 'Z');
    CASE("strcpy_strip_comments(\"%s\", %d, %d)%s", s.c_str(), len, term, inplace ? " in place" : "");
    char *d = inplace ? src.data() : dst.data(); int r = strcpy_strip_comments(src.data(), len, term, d);
    if (r != (int)want.size() || memcmp(d, want.data(), want.size())) FAIL("got \"%.*s\" (%d)", r < 0 ? 0 : r, d, r);
    else if (term && d[r]) FAIL("not terminated");
  }
  // sizes at the limit
  for (int q = 0; q < (THOROUGH() ? 2000 : 120); q++) {
    files.clear(); int kind = q % 10; long N = LIMIT - 3 + rnd(6); Str w = "main";
    auto fill = [](long n, const char *unit) { Str s; size_t u = strlen(unit); while ((long)(s.size() + u) <= n) s += unit; while ((long)s.size() < n) s += 'z'; return s; };
    if (kind == 0) put(w, fill(N, "tok "));
    if (kind == 1) put(w, fill(LIMIT * 2, "tok "));
    if (kind == 2) put(w, fill(90000 + rnd(50000), "{a} "));                 // grows when braces are split
    if (kind == 3) put(w, fill(69000 + rnd(2000), "{"));
    if (kind == 4) put(w, fill(104990 + rnd(20), "x} "));
    if (kind == 5) { put("big", fill(N, "tok ")); put(w, "a include big b"); }
    if (kind == 6) { put("big", fill(LIMIT / 2 + rnd(2000) - 1000, "tok ")); put(w, fill(LIMIT / 2 + rnd(2000) - 1000, "tok ") + " include big b"); }
    if (kind == 7) { put("big", "a " + fill(N + rnd(3) * 40000, "% long comment that is stripped\n") + " b"); put(w, "include big c"); }
    if (kind == 8) { put("self", "x include self y"); put(w, "include self"); }
    if (kind == 9) { put("r2", "a b include r1"); put("r1", "include r2 c"); put(w, "q include r1 z"); }
    check(w, "(size limit)");
  }
  return DONE();
}
