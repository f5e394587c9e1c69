// basic_string content (PART 1), ordering (PART 2), stringstream (PART 3), against std::string.
#include <string>
#include <vector>
#include "mc.hpp"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanomath.h"
#include "nanosstream.h"
#include "nanostring.h"
#include "nanoutility.h"
typedef nanostl::string NS;
typedef std::string RS;

static void same(const NS &a, const RS &r, const char *op) {
  std::string o(op);
  MC_CHECK(a.size() == r.size(), o + ":size", "after %s size() is %lld, expected %zu", op, (long long)a.size(), r.size());
  MC_CHECK(a.length() == r.size(), o + ":length", "after %s length() is %lld, expected %zu", op, (long long)a.length(), r.size());
  MC_CHECK(a.empty() == r.empty(), o + ":empty", "after %s empty() is %d, expected %d", op, a.empty(), r.empty());
  MC_CHECK(memcmp(a.c_str(), r.data(), r.size()) == 0, o + ":content", "after %s content is \"%.60s\", expected \"%.60s\"", op, a.c_str(), r.c_str());
  MC_CHECK(a.c_str()[r.size()] == 0, o + ":terminator", "after %s c_str() is not terminated at size()", op);
  NS &m = const_cast<NS &>(a);
  for (size_t i = 0; i < r.size(); i++)
    MC_CHECK(a[i] == r[i] && a.at(i) == r[i] && m[i] == r[i] && m.at(i) == r[i], o + ":index", "after %s character %zu differs", op, i);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void order(const NS &a, const NS &b, const RS &x, const RS &y) {
  int e = sgn(x.compare(y));
  MC_CHECK(sgn(a.compare(b)) == e, "compare", "compare(\"%s\",\"%s\") = %d, expected sign %d", x.c_str(), y.c_str(), a.compare(b), e);
  MC_CHECK((a == b) == (e == 0), "==", "\"%s\"==\"%s\" wrong", x.c_str(), y.c_str());
  MC_CHECK((a != b) == (e != 0), "!=", "\"%s\"!=\"%s\" wrong", x.c_str(), y.c_str());
  MC_CHECK((a < b) == (e < 0), "<", "\"%s\"<\"%s\" wrong", x.c_str(), y.c_str());
  MC_CHECK((a > b) == (e > 0), ">", "\"%s\">\"%s\" wrong", x.c_str(), y.c_str());
  const char *q = y.c_str();  // against the text up to the first NUL
  e = sgn(x.compare(q));
  MC_CHECK(sgn(a.compare(q)) == e, "compare(cstr)", "compare(\"%s\",cstr \"%s\") = %d, expected sign %d", x.c_str(), q, a.compare(q), e);
  MC_CHECK((a == q) == (e == 0), "==cstr", "\"%s\"==cstr \"%s\" wrong", x.c_str(), q);
  MC_CHECK((a != q) == (e != 0), "!=cstr", "\"%s\"!=cstr \"%s\" wrong", x.c_str(), q);
  MC_CHECK((a < q) == (e < 0), "<cstr", "\"%s\"<cstr \"%s\" wrong", x.c_str(), q);
  MC_CHECK((a > q) == (e > 0), ">cstr", "\"%s\">cstr \"%s\" wrong", x.c_str(), q);
}

#if PART == 1
struct P { NS s[2]; RS r[2]; int fresh; P() : fresh(0) {} };
static const char LET[] = "abcdefghijklmnopqrstuvwxyz\x80\xff\x01 Z";
static char nextc(P &p) { char c = LET[p.fresh % 31]; p.fresh++; return c; }
enum { NOPS = 28 };
static const char *apply(P &p, int op) {
  NS &a = p.s[0], &b = p.s[1];
  RS &x = p.r[0], &y = p.r[1];
  switch (op) {
    case 0: { char t[2] = {nextc(p), 0}; a += t; x += t; return "+= one character"; }
    case 1: { char t[4] = {nextc(p), nextc(p), nextc(p), 0}; a += NS(t); x += t; return "+= three characters"; }
    case 2: a += ""; x += ""; return "+= empty";
    case 3: { NS &q = (a += a); MC_CHECK(&q == &a, "+=:ref", "+= does not return *this"); x += RS(x); if (x.size() > 300) return 0; return "s += s"; }
    case 4: a += b; x += y; if (x.size() > 300) return 0; return "a += b";
    case 5: b += a; y += x; if (y.size() > 300) return 0; return "b += a";
    case 6: { NS c = a + b; RS z = x + y; same(c, z, "a + b"); same(a, x, "a + b (left operand)"); same(b, y, "a + b (right operand)"); if (z.size() > 300) return 0; a = c; x = z; return "a = a + b"; }
    case 7: { NS c = b + a; RS z = y + x; same(c, z, "b + a"); if (z.size() > 300) return 0; b = c; y = z; return "b = b + a"; }
    case 8: { NS &q = (a = b); MC_CHECK(&q == &a, "=:ref", "= does not return *this"); x = y; return "a = b"; }
    case 9: b = a; y = x; return "b = a";
    case 10: a = *&a; return "a = a";
    case 11: { NS t(a); same(t, x, "copy construct"); t += "q"; same(a, x, "copy construct (original)"); b = t; y = x + "q"; return "copy, append, assign"; }
    case 12: a.clear(); x.clear(); return "clear";
    case 13: if (x.empty()) return 0; { char *it = a.erase(&a[0]); x.erase(x.begin()); MC_CHECK(it == &a[0], "erase:position", "erase(first) returned offset %ld", (long)(it - &a[0])); return "erase(first)"; }
    case 14: if (x.size() < 2) return 0; { size_t k = x.size() - 1; char *it = a.erase(&a[0] + k); x.erase(k, 1); MC_CHECK(it == &a[0] + k, "erase:position", "erase(last) returned offset %ld, expected %zu", (long)(it - &a[0]), k); return "erase(last)"; }
    case 15: if (x.size() < 3) return 0; { size_t k = x.size() / 2; char *it = a.erase(&a[0] + k); x.erase(k, 1); MC_CHECK(it == &a[0] + k, "erase:position", "erase(middle) returned offset %ld, expected %zu", (long)(it - &a[0]), k); return "erase(middle)"; }
    case 16: if (x.empty()) return 0; { char c = nextc(p); a[0] = c; x[0] = c; return "[0] ="; }
    case 17: if (x.empty()) return 0; { char c = nextc(p); a.at(x.size() - 1) = c; x[x.size() - 1] = c; return "at(last) ="; }
    case 18: { char t[6] = {nextc(p), nextc(p), nextc(p), nextc(p), nextc(p), 0}; NS u(t, t + 4); same(u, RS(t, t + 4), "string(first,last)"); NS v(t + 1, t + 1); same(v, RS(), "string(first,first)"); b = u; y = RS(t, 4); return "b = string(first,last)"; }
    case 19: { char t[6] = {nextc(p), nextc(p), nextc(p), nextc(p), nextc(p), 0}; NS u(t, 3ull); same(u, RS(t, 3), "string(s,count)"); NS v(t, 0ull); same(v, RS(), "string(s,0)"); a = u; x = RS(t, 3); return "a = string(s,count)"; }
    case 20: { NS t; same(t, RS(), "string()"); NS u((const char *)0); same(u, RS(), "string(null)"); t += a; same(t, x, "empty += a"); return "default construct"; }
    case 21: a = a.c_str(); x = RS(x.c_str()); return "a = a.c_str()";
    case 22: a += a.c_str(); x += RS(x.c_str()); if (x.size() > 300) return 0; return "a += a.c_str()";
    case 23: { NS t(a.c_str(), a.c_str() + a.size()); same(t, x, "string(c_str range)"); b = t; y = x; return "b = string(range of a)"; }
    case 24: { static const char t[4] = {'p', 0, 'q', 0}; NS u(t, t + 3); same(u, RS(t, 3), "string(first,last) with NUL"); NS v(t, 2ull); same(v, RS(t, 2), "string(s,count) with NUL"); v += u; same(v, RS(t, 2) + RS(t, 3), "+= with NUL"); b = u; y = RS(t, 3); return "b = string with NUL"; }
    case 26: MC_CHECK(memcmp(a.c_str(), x.c_str(), x.size() + 1) == 0, "c_str", "c_str() is \"%.60s\", expected \"%.60s\"", a.c_str(), x.c_str()); return "c_str()";
    case 27: { bool e = x == y; MC_CHECK((a == b) == e && (a != b) == !e && a.size() == x.size(), "==", "a == b is %d", !e); return "a == b"; }
    case 25: if (x.empty()) return 0; a[x.size() / 2] = 0; x[x.size() / 2] = 0; return "[middle] = NUL";
  }
  return 0;
}
static uint64_t canon(const P &p) {
  uint64_t h = 3; int nm[256]; memset(nm, 0, sizeof nm); int k = 2; nm[0] = 1;
  for (int i = 0; i < 2; i++) { h = mc::mix(h, p.r[i].size()); for (size_t j = 0; j < p.r[i].size(); j++) { int &r = nm[(unsigned char)p.r[i][j]]; if (!r) r = k++; h = mc::mix(h, r); } }
  return h;
}
static int g_depth, g_bfs; static size_t g_max;
template <bool BLIND> static void seq(mc::Chooser &c) {  // BLIND: nothing is looked at before the end, except by the operations themselves
  P p;
  int depth = BLIND ? 2 + c.choose(g_depth - 1) : g_depth;
  for (int d = 0; d < depth; d++) {
    const char *n = apply(p, c.choose(NOPS));
    if (!n) throw mc::Prune();
    c.log("%s -> a=\"%s\" b=\"%s\"", n, p.r[0].c_str(), p.r[1].c_str());
    c.step();
    if (!BLIND || d == depth - 1) { same(p.s[0], p.r[0], n); same(p.s[1], p.r[1], n); }
    c.state(canon(p));
  }
  order(p.s[0], p.s[1], p.r[0], p.r[1]);
  c.outcome(canon(p));
}
static void dedup(mc::Chooser &c) {
  P p;
  for (int d = 0; d < g_bfs; d++) {
    c.state_or_prune(canon(p), g_bfs - d);
    const char *n = apply(p, c.choose(NOPS));
    if (!n || p.r[0].size() > g_max || p.r[1].size() > g_max) throw mc::Prune();
    c.log("%s -> a=\"%s\" b=\"%s\"", n, p.r[0].c_str(), p.r[1].c_str());
    c.step();
    same(p.s[0], p.r[0], n); same(p.s[1], p.r[1], n);
  }
}
static int g_lad;
static void ladder(mc::Chooser &c) {
  P p;
  int n = c.choose(g_lad + 1), how = c.choose(3);
  RS t; for (int i = 0; i < n; i++) t += LET[i % 31];
  if (how == 0) p.s[0] = t.c_str();
  else if (how == 1) for (int i = 0; i < n; i++) { char q[2] = {t[i], 0}; p.s[0] += q; }
  else { p.s[0] = (t + "xyz").c_str(); for (int i = 0; i < 3; i++) p.s[0].erase(&p.s[0][n]); }
  p.r[0] = t;
  same(p.s[0], t, "build");
  for (int d = 0; d < 2; d++) {
    const char *nm = apply(p, c.choose(NOPS));
    if (!nm) throw mc::Prune();
    c.log("n=%d how=%d %s", n, how, nm);
    c.step();
    same(p.s[0], p.r[0], nm); same(p.s[1], p.r[1], nm);
    c.state(canon(p));
  }
}
static void concat(uint64_t x) {
  uint64_t n = x % 80, m = x / 80;
  RS a, b; for (uint64_t i = 0; i < n; i++) a += LET[i % 31]; for (uint64_t i = 0; i < m; i++) b += LET[(i * 7 + 3) % 31];
  NS na(a.c_str()), nb(b.c_str());
  same(na, a, "string(cstr)"); same(na + nb, a + b, "+"); same(na, a, "+ (operand)");
  NS r(na); r += nb; same(r, a + b, "+="); r = nb; same(r, b, "=");
  same(NS(a.c_str(), (unsigned long long)n), a, "string(s,count)"); same(NS(a.c_str(), a.c_str() + n), a, "string(first,last)");
  for (uint64_t k = 0; k < m && k < 80; k += (m > 8 ? m / 8 : 1)) { NS e(nb); e.erase(&e[0] + k); RS f(b); f.erase(k, 1); same(e, f, "erase"); }
  mc::nontrivial(n && m);
  mc::say("lengths %d and %d", (int)n, (int)m);
}
static void lengths(uint64_t n) {  // long strings: growth thresholds
  RS a; NS s; 
  for (uint64_t i = 0; i < n; i++) a += LET[(i * 11 + i / 31) % 31];
  s = a.c_str(); same(s, a, "string(cstr) long");
  NS t; for (uint64_t i = 0; i < n; i++) { char q[2] = {a[i], 0}; t += q; }
  same(t, a, "+= long"); same(t + s, a + a, "+ long"); t += t; same(t, a + a, "s += s long");
  MC_CHECK(s == a.c_str() && !(s != NS(a.c_str())), "==", "long strings of length %d do not compare equal", (int)n);
  mc::nontrivial(n > 0);
}
// pairs of large lengths around powers of two
static std::vector<uint64_t> LL;
static void longcat(uint64_t x) {
  uint64_t n = LL[x % LL.size()], m = LL[x / LL.size()];
  RS a, b; for (uint64_t i = 0; i < n; i++) a += LET[(i * 5 + i / 31) % 31]; for (uint64_t i = 0; i < m; i++) b += LET[(i * 7 + 3 + i / 31) % 31];
  mc::say("lengths %d and %d", (int)n, (int)m);
  NS na(a.c_str()), nb(b.data(), (unsigned long long)m);
  same(na, a, "string(cstr) large"); same(nb, b, "string(s,count) large");
  same(na + nb, a + b, "+ large"); NS r(na); r += nb; same(r, a + b, "+= large"); same(na, a, "copy large"); r = nb; same(r, b, "= large");
  if (m) { r.erase(&r[0] + m / 2); RS f(b); f.erase(m / 2, 1); same(r, f, "erase large"); r += "xyz"; f += "xyz"; same(r, f, "+= after erase large"); }
  same(NS(a.data(), a.data() + n), a, "string(first,last) large");
  r.clear(); same(r, RS(), "clear large"); r += na; same(r, a, "+= after clear large");
  mc::nontrivial(n && m);
}
static void setup() {
  bool t = mc::thorough();
  for (uint64_t k = 128; k <= (t ? 1u << 17 : 1u << 13); k *= 2) for (int d = -1; d <= 1; d++) LL.push_back(k + d);
  uint64_t more[] = {0, 1, 31, 300, 1000, 5000, 32768, 65535, 65536, 65537}; for (uint64_t m : more) LL.push_back(m);
  mc::range("string/large", longcat, 0, (uint64_t)LL.size() * LL.size(), t ? "every pair of lengths around the powers of two up to 2^17, and ten more" : "every pair of lengths around the powers of two up to 2^13, and ten more up to 65537");
  g_depth = t ? 5 : 4; g_bfs = t ? 8 : 6; g_max = t ? 16 : 10; g_lad = t ? 130 : 40;
  mc::tree("string/unobserved", seq<true>, "every sequence of 2 to 4 (thorough 5) operations, looked at only by the operations and at the end");
  mc::tree("string/sequences", seq<false>, t ? "every sequence of 5 operations out of 28, two strings" : "every sequence of 4 operations out of 28, two strings");
  mc::tree("string/states", dedup, "deduplicated search, depth 8 (quick 6), strings up to 16 (10) characters");
  mc::tree("string/ladder", ladder, "every length 0..N built three ways, then every pair of operations");
  mc::range("string/concat", concat, 0, 80 * 80, "every pair of lengths < 80");
  mc::range("string/lengths", lengths, 0, t ? 4200 : 700, "every length up to N");
}
#elif PART == 2
// ordering: every pair (and triple-derived laws) of strings over a small alphabet
static const unsigned char AL[] = {0, 1, ' ', 'a', 'b', 127, 128, 255};
static std::vector<RS> U, L;
static void gen(std::vector<RS> &v, const unsigned char *al, int k, int len) {
  size_t b = 0; v.push_back("");
  for (int l = 0; l < len; l++) { size_t e = v.size(); for (size_t i = b; i < e; i++) for (int c = 0; c < k; c++) v.push_back(v[i] + (char)al[c]); b = e; }
}
static void pairU(uint64_t x) {
  const RS &a = U[x / U.size()], &b = U[x % U.size()];
  NS na(a.data(), a.data() + a.size()), nb(b.data(), b.data() + b.size());
  mc::say("\"%s\" vs \"%s\"", a.c_str(), b.c_str());
  order(na, nb, a, b);
  mc::nontrivial(a != b);
}
// long strings with a common prefix of length n, differing at one place
static void longpair(uint64_t x) {
  static const int PL[] = {511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072};
  uint64_t n = x % 316, q = x / 316;
  if (n >= 300) n = PL[n - 300];
  RS p; for (uint64_t i = 0; i < n; i++) p += (char)(1 + (i * 37) % 255);
  RS a = p, b = p;
  unsigned char v[] = {1, 'a', 127, 128, 255};
  int i = q % 6, j = (q / 6) % 6, tail = q / 36;
  if (i) a += (char)v[i - 1];
  if (j) b += (char)v[j - 1];
  if (i && j) { if (tail & 1) a += "zz"; if (tail & 2) b += "\x01"; }
  mc::nontrivial(a != b);
  order(NS(a.c_str()), NS(b.c_str()), a, b);
}
// strings reached by different histories (spare capacity, erased tails) compare like fresh ones
static void history(uint64_t x) {
  const RS &a = L[x / L.size()], &b = L[x % L.size()];
  RS at = a + "tail";
  NS na(at.data(), at.data() + at.size()), nb;
  for (int i = 0; i < 4; i++) na.erase(&na[0] + a.size());
  nb = "a much longer string than needed";
  nb = NS(b.data(), b.data() + b.size());
  order(na, nb, a, b); order(nb, na, b, a);
  NS nc(nb); nc.clear(); nc += nb; order(na, nc, a, b);
  mc::nontrivial(a != b);
}
static void setup() {
  bool t = mc::thorough();
  gen(U, AL, 8, t ? 4 : 3);
  gen(L, (const unsigned char *)"ab\xff", 4, t ? 5 : 4);
  mc::range("string-order/pairs", pairU, 0, (uint64_t)U.size() * U.size(), "every ordered pair of strings of length <= 3 (thorough 4) over 8 byte values (NUL among them)");
  mc::range("string-order/long", longpair, 0, 316 * 36 * 4, "common prefixes of every length < 300 and of 16 lengths up to 131072, then every combination of differing bytes/ends");
  mc::range("string-order/history", history, 0, (uint64_t)L.size() * L.size(), "every pair over 4 byte values (NUL among them), operands produced by erase/assign/append histories");
}
#else
struct P { nanostl::stringstream s[2]; RS r[2]; int k; P() : k(0) {} };
enum { NOPS = 14 };
static const char *apply(P &p, int op) {
  nanostl::stringstream &a = p.s[0], &b = p.s[1]; RS &x = p.r[0], &y = p.r[1];
  char t[8]; snprintf(t, sizeof t, "%c", 'a' + p.k % 26);
  switch (op) {
    case 0: { nanostl::stringstream &q = (a << t); MC_CHECK(&q == &a, "<<:ref", "<< does not return the stream"); x += t; p.k++; return "<< char"; }
    case 1: a << "one" << "two"; x += "onetwo"; return "<< one << two";
    case 2: a << ""; return "<< empty";
    case 3: { NS s("xyz"); a << s; x += "xyz"; return "<< string"; }
    case 4: a << a.str(); x += RS(x); if (x.size() > 200) return 0; return "<< own str()";
    case 5: a << b.str(); x += y; if (x.size() > 200) return 0; return "a << b.str()";
    case 6: b << a.str(); y += x; if (y.size() > 200) return 0; return "b << a.str()";
    case 7: a.clear(); x.clear(); return "clear";
    case 8: { nanostl::stringstream &q = (a = nanostl::move(b)); MC_CHECK(&q == &a, "=:ref", "= does not return the stream"); x = y; y.clear(); return "a = move(b)"; }
    case 9: b = nanostl::move(a); y = x; x.clear(); return "b = move(a)";
    case 10: a.str() += t; x += t; p.k++; return "str() += char";
    case 11: a.str() = NS("reset"); x = "reset"; return "str() = reset";
    case 12: { nanostl::stringstream c; same(c.str(), RS(), "stringstream()"); c << b.str() << t; same(c.str(), y + t, "fresh stream"); a = nanostl::move(c); same(c.str(), RS(), "moved-from stream"); x = y + t; p.k++; return "a = move(fresh)"; }
    case 13: { NS s = a.str(); a << "tail"; same(s, x, "copy of str()"); x += "tail"; return "copy str, << tail"; }
  }
  return 0;
}
static uint64_t canon(const P &p) { uint64_t h = mc::hash_bytes(p.r[0].data(), p.r[0].size()); return mc::hash_bytes(p.r[1].data(), p.r[1].size(), h); }
static int g_depth;
template <bool BLIND> static void seq(mc::Chooser &c) {  // BLIND: nothing is looked at before the end, except by the operations themselves
  P p;
  int depth = BLIND ? 2 + c.choose(g_depth - 1) : g_depth;
  for (int d = 0; d < depth; d++) {
    const char *n = apply(p, c.choose(NOPS));
    if (!n) throw mc::Prune();
    c.log("%s -> \"%s\" / \"%s\"", n, p.r[0].c_str(), p.r[1].c_str());
    c.step();
    if (!BLIND || d == depth - 1) { same(p.s[0].str(), p.r[0], n); same(p.s[1].str(), p.r[1], n); }
    c.state(canon(p));
  }
  c.outcome(canon(p));
}
static void manyins(uint64_t n) {
  nanostl::stringstream s; RS r;
  for (uint64_t i = 0; i < n; i++) { char t[8]; snprintf(t, sizeof t, "%d", (int)i); s << t; r += t; }
  same(s.str(), r, "<< (many)");
  mc::nontrivial(n > 1);
}
// one insertion of each large length after another
static void bigins(uint64_t x) {
  static const int L[] = {0, 1, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096, 10000, 32767, 32768, 65535, 65536, 65537};
  nanostl::stringstream s, u; RS r;
  int q[3] = {L[x % 21], L[x / 21 % 21], L[x / 441]};
  for (int j = 0; j < 3; j++) { RS t; for (int i = 0; i < q[j]; i++) t += (char)('A' + (i * 3 + j + i / 29) % 29); if (j & 1) { NS n(t.c_str()); s << n; } else s << t.c_str(); r += t; }
  same(s.str(), r, "<< (large)");
  u = nanostl::move(s); same(u.str(), r, "move (large)"); same(s.str(), RS(), "moved-from (large)");
  s << u.str() << "end"; same(s.str(), r + "end", "<< str() (large)"); u.clear(); same(u.str(), RS(), "clear (large)");
  mc::nontrivial(); mc::say("texts of %d, %d, %d characters", q[0], q[1], q[2]);
}
static void setup() {
  mc::range("stringstream/large", bigins, 0, 21 * 21 * (mc::thorough() ? 21 : 6), "three texts of every combination of 21 lengths up to 65537 (third one: 6 lengths; thorough 21)");
  g_depth = mc::thorough() ? 6 : 5;
  mc::tree("stringstream/unobserved", seq<true>, "every sequence of 2 to 5 (thorough 6) operations, looked at only by the operations and at the end");
  mc::tree("stringstream/sequences", seq<false>, "every sequence of 5 (thorough 6) operations out of 14, two streams");
  mc::range("stringstream/many", manyins, 0, mc::thorough() ? 2000 : 500, "n insertions, every n");
}
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
