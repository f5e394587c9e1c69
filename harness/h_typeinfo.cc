// type_info comparison, one binary per comparison implementation (IMPL 1: one descriptor per type,
// 2: copies possible, 3: the descriptor says which), every pair of descriptors.
#define _LIBCPP_TYPEINFO_COMPARISON_IMPLEMENTATION IMPL
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "mc.hpp"
#include "nanotype_traits.h"
#include "nanocommon.h"
#include "nanocstddef.h"
#include "nanotypeinfo.h"
nanostl::type_info::~type_info() {}
struct Desc : nanostl::type_info { explicit Desc(const char *n) : nanostl::type_info(n) {} };
struct Name { const char *p; bool shared; std::string text; };  // shared: other copies of this name may exist
static std::vector<Name> U;
static char *g_mem; static size_t g_used;
static const uintptr_t kBit = (uintptr_t)1 << 63;
static const char *put(const std::string &s) { char *q = g_mem + g_used; memcpy(q, s.c_str(), s.size() + 1); g_used += s.size() + 1; return q; }
static void add(const std::string &s, bool shared) {
  const char *p = put(s);
  if (shared && IMPL == 3) p = (const char *)((uintptr_t)p | kBit);
  Name n = {p, shared, s}; U.push_back(n);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// the ideal: -1, 0, 1
static int ideal(const Name &a, const Name &b) {
  if (IMPL == 2 || (IMPL == 3 && a.shared && b.shared)) return sgn(strcmp(a.text.c_str(), b.text.c_str()));
  return a.p == b.p ? 0 : (uintptr_t)a.p < (uintptr_t)b.p ? -1 : 1;
}
static void one(const Name &x, const Name &y) {
  Desc a(x.p), b(y.p), a2(x.p);
  const nanostl::type_info &ta = a, &tb = b;
  int e = ideal(x, y);
  mc::say("\"%s\"%s and \"%s\"%s", x.text.c_str(), x.shared ? " (shared)" : "", y.text.c_str(), y.shared ? " (shared)" : "");
  MC_CHECK((ta == tb) == (e == 0), "==", "descriptors of \"%s\" and \"%s\" compare %s", x.text.c_str(), y.text.c_str(), ta == tb ? "equal" : "different");
  MC_CHECK((ta != tb) == (e != 0), "!=", "!= of the descriptors of \"%s\" and \"%s\" is wrong", x.text.c_str(), y.text.c_str());
  MC_CHECK(ta.before(tb) == (e < 0) && tb.before(ta) == (e > 0), "before", "the order of the descriptors of \"%s\" and \"%s\" is wrong", x.text.c_str(), y.text.c_str());
  MC_CHECK(e != 0 || ta.hash_code() == tb.hash_code(), "hash", "equal descriptors of \"%s\" have different hash codes", x.text.c_str());
  MC_CHECK(ta == a2 && ta == ta && !ta.before(a2) && ta.hash_code() == a2.hash_code(), "self", "a descriptor of \"%s\" differs from another one with the same name object", x.text.c_str());
  MC_CHECK(x.text == ta.name() && y.text == tb.name(), "name", "name() of \"%s\" is \"%s\"", x.text.c_str(), ta.name());
  mc::nontrivial(x.p != y.p);
}
static void pairs(uint64_t i) { one(U[i / U.size()], U[i % U.size()]); }
// sorting any three by before() gives the same total order, whatever order they come in
static std::vector<size_t> S;
static bool lt(size_t a, size_t b) { Desc x(U[a].p), y(U[b].p); return x.before(y); }
static void triples(uint64_t i) {
  size_t n = S.size(), a = S[i % n], b = S[i / n % n], c = S[i / n / n];
  Desc x(U[a].p), y(U[b].p), z(U[c].p);
  mc::say("\"%s\" \"%s\" \"%s\"", U[a].text.c_str(), U[b].text.c_str(), U[c].text.c_str());
  if (lt(a, b) && lt(b, c)) MC_CHECK(lt(a, c), "transitive", "the order of the descriptors is not transitive");
  if (x == y && y == z) MC_CHECK(x == z, "transitive-eq", "equality of descriptors is not transitive");
  if (x == y) MC_CHECK(lt(a, c) == lt(b, c) && lt(c, a) == lt(c, b), "congruent", "equal descriptors are ordered differently");
  MC_CHECK((int)lt(a, b) + (int)lt(b, a) + (int)(x == y) == 1, "trichotomy", "not exactly one of before, after, equal");
  mc::nontrivial(a != b && b != c);
}
// long names with a common prefix, differing at one place
static void longer(uint64_t i) {
  static const unsigned char V[] = {1, 'a', 127, 128, 255};
  uint64_t n = i % 300, u = i / 300 % 6, v = i / 1800 % 6, kind = i / 10800;
  std::string p; for (uint64_t k = 0; k < n; k++) p += (char)(1 + k * 37 % 255);
  std::string s = p, t = p; if (u) s += (char)V[u - 1]; if (v) t += (char)V[v - 1];
  size_t mark = g_used, keep = U.size();
  add(s, kind & 1); add(t, kind & 2); Name x = U[keep], y = U[keep + 1]; U.resize(keep);
  one(x, y); one(y, x);
  g_used = mark;
}
static void setup() {
  g_mem = (char *)malloc(8 << 20);
  std::vector<std::string> names; names.push_back("");
  static const unsigned char al[] = {1, 'N', 'i', 127, 128, 255};
  size_t b = 0, len = mc::thorough() ? 4 : 3;
  for (size_t l = 0; l < len; l++) { size_t e = names.size(); for (size_t i = b; i < e; i++) for (int c = 0; c < 6; c++) names.push_back(names[i] + (char)al[c]); b = e; }
  for (const std::string &s : names) add(s, true);
  if (IMPL == 3) for (const std::string &s : names) add(s, false);
  for (size_t i = names.size(); i-- > 0;) if (IMPL != 1) add(names[i], true);  // second copies, in the opposite address order
  for (size_t i = 0; i < U.size(); i += U.size() / 60) S.push_back(i);
  if (IMPL != 1) for (size_t i = 0, n = S.size(); i < n; i++) S.push_back(U.size() - 1 - i * 3);
  std::string k = std::string("typeinfo") + (char)('0' + IMPL);
  mc::range(k + "/pairs", pairs, 0, (uint64_t)U.size() * U.size(), "every ordered pair of descriptors; names of length <= 3 (thorough 4) over 6 characters, in two copies where copies may exist");
  mc::range(k + "/triples", triples, 0, (uint64_t)S.size() * S.size() * S.size(), "every triple of descriptors out of a spread of them");
  mc::range(k + "/long", longer, 0, 10800 * (IMPL == 3 ? 4 : 1), "names with common prefixes of every length < 300, every combination of differing ends");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
