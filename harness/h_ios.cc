// S04: output streams.  Standard output is redirected into a memory file for the time of an execution.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
#include <sys/mman.h>
#include "mc.hpp"
#define NANOSTL_IMPLEMENTATION
#include "nanoiostream.h"

using mc::Chooser;
static int g_mem = -1, g_save = -1;
struct Capture {
  size_t pos = 0;
  Capture() {
    fflush(stdout);
    if (g_mem < 0) g_mem = memfd_create("out", 0);
    if (g_save < 0) g_save = dup(1);
    if (ftruncate(g_mem, 0)) {}
    lseek(g_mem, 0, SEEK_SET);
    dup2(g_mem, 1);
  }
  ~Capture() { fflush(stdout); dup2(g_save, 1); }
  std::string fresh() {
    fflush(stdout);
    off_t e = lseek(g_mem, 0, SEEK_END);
    std::string s((size_t)e - pos, 0);
    if (!s.empty() && pread(g_mem, &s[0], s.size(), pos) < 0) s = "?";
    pos = e;
    return s;
  }
};

static std::string text(const nanostl::string &s) { return std::string(s.c_str()); }
struct Item { const char *name; std::function<void(nanostl::ostream &)> put; std::string want; };
template <class T> static Item num(const char *n, T v, std::string w) { return {n, [v](nanostl::ostream &o) { nanostl::ostream &r = (o << v); MC_CHECK(&r == &o, "chain", "insertion does not return its stream"); }, w}; }
static std::vector<Item> items() {
  std::vector<Item> v;
  v.push_back(num("int 0", 0, "0"));
  v.push_back(num("INT_MIN", INT_MIN, "-2147483648"));
  v.push_back(num("UINT_MAX", UINT_MAX, "4294967295"));
  v.push_back(num<short>("SHRT_MIN", SHRT_MIN, "-32768"));
  v.push_back(num<unsigned short>("USHRT_MAX", USHRT_MAX, "65535"));
  v.push_back(num("true", true, "1"));
  v.push_back(num("LLONG_MIN", LLONG_MIN, "-9223372036854775808"));
  v.push_back(num("ULLONG_MAX", ULLONG_MAX, "18446744073709551615"));
  v.push_back(num("float", -2.75f, text(nanostl::to_string(-2.75f))));
  v.push_back(num("double", 0.1, text(nanostl::to_string(0.1))));
  v.push_back(num<const char *>("C text", "a%sb%n\\", "a%sb%n\\"));
  v.push_back(num<const char *>("empty C text", "", ""));
  v.push_back(num("string", nanostl::string("string 1;\n"), "string 1;\n"));
  v.push_back(num("empty string", nanostl::string(), ""));
  v.push_back(num("null pointer constant", nanostl::nullptr_t(0), "nullptr"));
  return v;
}
static const std::vector<Item> &it() { static std::vector<Item> v = items(); return v; }
static std::string show(const std::string &s) { return s.size() < 200 ? s : s.substr(0, 100) + "..." + s.substr(s.size() - 60); }
#define SAME(got, want, sig, what) do { std::string g_ = (got), w_ = (want); MC_CHECK(g_ == w_, sig, "%s: printed \"%s\" (%zu), should be \"%s\" (%zu)", what, show(g_).c_str(), g_.size(), show(w_).c_str(), w_.size()); } while (0)

static void seq(Chooser &c, int depth, int streams, int nitems) {
  nanostl::ostream *os[2] = {new nanostl::ostream, streams > 1 ? &nanostl::cout : NULL};
  std::string pend[2];
  {
    Capture cap;
    nanostl::cout.flush();  // a failed execution before this one may have left text in it
    cap.fresh();
    os[0]->flush();
    SAME(cap.fresh(), "", "idle", "flush of an empty stream");
    for (int d = 0; d < depth; d++) {
      int s = streams > 1 ? c.choose(2) : 0;
      int k = c.choose(nitems + 1);
      c.step();
      if (k == nitems) {
        c.log("stream %d: flush", s);
        nanostl::ostream &r = os[s]->flush();
        MC_CHECK(&r == os[s], "chain", "flush does not return its stream");
        SAME(cap.fresh(), pend[s], "flush", "flush");
        pend[s].clear();
      } else {
        c.log("stream %d: << %s", s, it()[k].name);
        it()[k].put(*os[s]);
        pend[s] += it()[k].want;
        SAME(cap.fresh(), "", "early", "insertion");
      }
      c.state(mc::hash_bytes(pend[0].data(), pend[0].size()) * 31 + mc::hash_bytes(pend[1].data(), pend[1].size()));
    }
    for (int s = streams - 1; s >= 0; s--) { os[s]->flush(); SAME(cap.fresh(), pend[s], "flush", "last flush"); }
    for (int s = 0; s < streams; s++) { os[s]->flush(); SAME(cap.fresh(), "", "reprint", "flush without new text"); }
    c.outcome(mc::hash_bytes(pend[0].data(), pend[0].size()) ^ pend[1].size());
  }
  delete os[0];
}
static void seq1(Chooser &c) { seq(c, mc::thorough() ? 5 : 4, 1, (int)it().size()); }
static void seq2(Chooser &c) { seq(c, mc::thorough() ? 4 : 3, 2, (int)it().size()); }

// one value of each type at a time, over boundary values
static std::vector<long long> values() {
  std::vector<long long> v;
  for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) { v.push_back((long long)((1ull << b) + d)); v.push_back(-(long long)((1ull << b) + d)); }
  long long p = 1;
  for (int e = 0; e < 19; e++) { for (int d = -1; d <= 1; d++) for (int m = 1; m < 10; m++) { v.push_back((long long)((unsigned long long)p * m + d)); v.push_back(-(long long)((unsigned long long)p * m + d)); } if (e < 18) p *= 10; }
  for (int i = -300; i < 300; i++) v.push_back(i);
  return v;
}
static const std::vector<long long> &val() { static std::vector<long long> v = values(); return v; }
static void one_value(uint64_t i) {
  long long x = val()[i];
  nanostl::ostream os;
  Capture cap;
  std::string w;
#define PUT(T, v) os << (T)(v); w += std::to_string((T)(v)); os << ";"; w += ";";
  PUT(int, x) PUT(unsigned int, x) PUT(short, x) PUT(unsigned short, x) PUT(long long, x) PUT(unsigned long long, x)
  os << (x != 0); w += x ? "1" : "0";
  os.flush();
  SAME(cap.fresh(), w, "integers", "integers of every width");
  float f = (float)x / 7; double d = (double)x / 11;
  os << f << "/" << d << "/" << nanostl::to_string(f) << "\n";
  os.flush();
  w = text(nanostl::to_string(f)) + "/" + text(nanostl::to_string(d)) + "/" + text(nanostl::to_string(f)) + "\n";
  SAME(cap.fresh(), w, "reals", "float, double and text");
}
static const int LEN[] = {0, 1, 2, 7, 8, 15, 16, 17, 31, 63, 64, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16385, 65535, 65536, 65537, 200000};
enum { NLEN = sizeof LEN / sizeof *LEN };
static void large(uint64_t i) {
  int a = LEN[i % NLEN], b = LEN[i / NLEN];
  std::string A, B;
  for (int k = 0; k < a; k++) A += (char)('!' + (k * 7 + k / 90) % 94);
  for (int k = 0; k < b; k++) B += (char)(128 + (k * 5 + k / 120) % 127);
  nanostl::ostream os;
  Capture cap;
  os << A.c_str() << nanostl::string(B.c_str());
  os.flush();
  SAME(cap.fresh(), A + B, "large", "two long texts");
  os << nanostl::string(A.c_str()); os.flush(); os << B.c_str(); os.flush();
  SAME(cap.fresh(), A + B, "large", "two long texts flushed separately");
}
static void many(uint64_t i) {
  nanostl::ostream os;
  Capture cap;
  std::string w;
  for (uint64_t k = 0; k < i; k++) { it()[(k * 7 + i) % it().size()].put(os); w += it()[(k * 7 + i) % it().size()].want; }
  os.flush();
  SAME(cap.fresh(), w, "many", "many insertions");
}
// every text of one or two bytes, and every text of up to five out of eight characters, alone between two flushes
static void chars(uint64_t i) {
  nanostl::ostream os;
  Capture cap;
  std::string w;
  uint64_t n = i < 255 ? 256 : 8 * 8;
  for (uint64_t j = 0; j < n; j++) {
    if (i < 255) { w.assign(1, (char)(i + 1)); if (j) w += (char)j; }
    else { static const char A[] = "\n%a\\\r\ts"; w.clear(); uint64_t x = (i - 255) * 64 + j; for (int k = 0; k < 5; k++, x /= 8) if (x % 8) w += A[x % 8 - 1]; else break; }
    if (j & 1) os << w.c_str(); else os << nanostl::string(w.c_str());
    os.flush();
    SAME(cap.fresh(), w, "chars", "short text");
  }
}
// reals without a finite value, zeros and the ends of the range
static void reals(uint64_t i) {
  static const double D[] = {0.0, -0.0, 1.0, -1.0, 1e300 * 1e300, -1e300 * 1e300, 1e300 * 1e300 * 0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e22, 123456789.0, 1e15, 1e16, 1e17, 0.3};
  static const float F[] = {0.0f, -0.0f, 1.0f, -1.0f, 1e38f * 10, -1e38f * 10, 1e38f * 10 * 0, 1e-45f, 3.4028235e38f, 1.17549435e-38f, 1e10f, 123456789.0f, 8388608.0f, 16777216.0f, 1e7f, 0.3f};
  nanostl::ostream os;
  Capture cap;
  double d = D[i % 16]; float f = F[i / 16];
  os << d << f; os.flush();
  SAME(cap.fresh(), text(nanostl::to_string(d)) + text(nanostl::to_string(f)), "reals", "double and float");
  os << f; os.flush(); os << d; os.flush();
  SAME(cap.fresh(), text(nanostl::to_string(f)) + text(nanostl::to_string(d)), "reals", "float and double");
}
static void setup() {
  it(); val();
  mc::range("ostream/chars", chars, 0, 255 + 512, "every text of one or two bytes and every text of up to five out of seven special characters, alone between two flushes", 10);
  mc::range("ostream/reals", reals, 0, 256, "every pair of 16 special doubles and floats", 10);
  mc::tree("ostream/sequences", seq1, "one stream, every sequence of 4 (thorough 5) operations out of 15 insertions and flush", true, 5);
  mc::tree("ostream/two", seq2, "an own stream and the predefined one, every sequence of 3 (thorough 4) operations", true, 5);
  mc::range("ostream/values", one_value, 0, val().size(), "every boundary value of every number type", 10);
  mc::range("ostream/large", large, 0, (uint64_t)NLEN * NLEN, "every pair of 29 text lengths up to 200000", 10);
  mc::range("ostream/many", many, 0, mc::thorough() ? 1500 : 400, "n insertions for every n below 400 (thorough 1500)", 10);
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
