// nanotype_traits against the compiler: every trait on every type of a universe (unary), every ordered pair (binary).
#include <new>
#include <string>
#include <type_traits>
#include <vector>
#include "mc.hpp"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
namespace N = nanostl;
struct Empty {}; struct Pod { int a; char b; }; struct Base { virtual ~Base() {} int x; }; struct Derived : Base {}; struct Unrelated { explicit Unrelated(int); };
struct Abstract { virtual void f() = 0; virtual ~Abstract() {} };
struct NoDefault { NoDefault(int); }; struct NoCopy { NoCopy(); NoCopy(const NoCopy &) = delete; NoCopy &operator=(const NoCopy &) = delete; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly &&); MoveOnly &operator=(MoveOnly &&); };
struct CopyOnly { CopyOnly(); CopyOnly(const CopyOnly &); CopyOnly &operator=(const CopyOnly &); };
struct Converts { operator int() const; }; struct FromInt { FromInt(int); }; struct ExplicitFromInt { explicit ExplicitFromInt(int); };
struct PrivateDtor { PrivateDtor(); private: ~PrivateDtor(); }; struct DeletedDtor { ~DeletedDtor() = delete; };
struct ExplicitDefault { explicit ExplicitDefault(); };
struct Final final {}; union Un { int a; float b; }; enum En { e0 }; enum class EC : char { a };
struct NonTrivial { NonTrivial(); NonTrivial(const NonTrivial &); ~NonTrivial(); int v; }; struct BitEmpty { int : 0; };
struct ConstMember { const int c; ConstMember(); }; struct AssignOnly { AssignOnly &operator=(int); };
struct EmptyDerived : Empty {}; struct EmptyVirtual { virtual void f(); };
#define TYPES(X) \
  X(void) X(const void) X(bool) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(const int) X(volatile int) X(const volatile int) \
  X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double) X(long double) X(wchar_t) X(std::nullptr_t) \
  X(int *) X(const int *) X(int *const) X(void *) X(int **) X(int &) X(const int &) X(int &&) X(int[3]) X(const int[3]) X(int[]) X(int[2][3]) X(int (&)[3]) \
  X(int()) X(int (*)(int)) X(int (&)()) X(int Pod::*) X(int (Pod::*)()) X(int (Pod::*)() const) \
  X(Empty) X(Pod) X(const Pod) X(Base) X(Derived) X(Base *) X(Derived *) X(const Derived *) X(Derived &) X(const Base &) X(Unrelated) X(NoDefault) X(NoCopy) X(MoveOnly) X(CopyOnly) \
  X(Converts) X(FromInt) X(ExplicitFromInt) X(Final) X(Un) X(En) X(EC) X(NonTrivial) X(BitEmpty) X(ConstMember) X(AssignOnly) X(EmptyDerived) X(EmptyVirtual) X(Abstract) X(PrivateDtor) X(DeletedDtor) X(ExplicitDefault)
struct Row { std::string trait, type; int got, want; };
static std::vector<Row> R1, R2;
struct TN { template <class T> static const char *nm() { return __PRETTY_FUNCTION__; } };
template <class T> static std::string tn() { std::string s = TN::nm<T>(); size_t p = s.find("T = "); size_t e = s.rfind(']'); return s.substr(p + 4, e - p - 4); }
template <class A, class B> struct eq { enum { value = std::is_same<A, B>::value }; };
template <class T> static void unary() {
  std::string n = tn<T>();
#define U_(name) R1.push_back(Row{#name, n, N::name<T>::value, std::name<T>::value});
#define U2(mine, theirs) R1.push_back(Row{#mine, n, N::mine<T>::value, std::theirs<T>::value});
#define M_(name) R1.push_back(Row{#name, n, eq<typename N::name<T>::type, typename std::name<T>::type>::value, 1});
// one-sided: a "nothrow"/"trivial" answer may be conservative, it must never be wrongly yes
#define S_(name) R1.push_back(Row{#name, n, N::name<T>::value && !std::name<T>::value, 0});
  U_(is_void) U_(is_array) U_(is_integral) U_(is_floating_point) U_(is_arithmetic) U_(is_signed) U_(is_unsigned) U_(is_lvalue_reference) U_(is_rvalue_reference) U_(is_reference)
  U_(is_const) U_(is_function) U_(is_destructible) U_(is_default_constructible) U_(is_copy_constructible) U_(is_move_constructible) U_(is_copy_assignable) U_(is_move_assignable)
  U_(is_union) U_(is_class) U_(is_enum) U_(is_pointer) U_(is_member_pointer) U_(is_member_function_pointer) U_(is_scalar) U_(is_object) U_(is_empty) U_(is_abstract)
  M_(remove_const) M_(remove_volatile) M_(remove_cv) M_(remove_extent) M_(remove_all_extents) M_(remove_reference) M_(add_pointer) M_(decay) M_(add_lvalue_reference) M_(add_rvalue_reference) M_(add_const)
  S_(is_nothrow_default_constructible) S_(is_nothrow_copy_constructible) S_(is_nothrow_move_constructible) S_(is_nothrow_copy_assignable) S_(is_nothrow_move_assignable)
  U_(is_trivially_default_constructible) U_(is_trivially_copy_constructible) U_(is_trivially_move_constructible)
  R1.push_back(Row{"conditional<true>", n, eq<typename N::conditional<true, T, Row>::type, T>::value, 1});
  R1.push_back(Row{"conditional<false>", n, eq<typename N::conditional<false, Row, T>::type, T>::value, 1});
  R1.push_back(Row{"enable_if<true>", n, eq<typename N::enable_if<true, T>::type, T>::value, 1});
}
template <class A, class B, class = void> struct std_common { typedef Row type; };
template <class A, class B> struct std_common<A, B, decltype((void)sizeof(typename std::common_type<A, B>::type *))> { typedef typename std::common_type<A, B>::type type; };
template <class A, class B, class = void> struct my_common { typedef Row type; };
template <class A, class B> struct my_common<A, B, decltype((void)sizeof(typename N::common_type<A, B>::type *))> { typedef typename N::common_type<A, B>::type type; };
// gcc answers no for abstract targets; the definition is whether the expression is well formed
template <class A, class B, class = void> struct assignable { enum { value = 0 }; };
template <class A, class B> struct assignable<A, B, decltype((void)(std::declval<A>() = std::declval<B>()))> { enum { value = 1 }; };
template <class A, class B> static void pair_() {
  std::string n = tn<A>() + ", " + tn<B>();
  R2.push_back(Row{"is_same", n, N::is_same<A, B>::value, std::is_same<A, B>::value});
  R2.push_back(Row{"is_convertible", n, N::is_convertible<A, B>::value, std::is_convertible<A, B>::value});
  R2.push_back(Row{"is_assignable", n, N::is_assignable<A, B>::value, assignable<A, B>::value});
  R2.push_back(Row{"is_assignable<A&,B>", n, N::is_assignable<typename std::add_lvalue_reference<A>::type, B>::value, std::is_assignable<typename std::add_lvalue_reference<A>::type, B>::value});
  R2.push_back(Row{"is_constructible", n, N::is_constructible<A, B>::value, std::is_constructible<A, B>::value});
  R2.push_back(Row{"is_nothrow_constructible", n, N::is_nothrow_constructible<A, B>::value && !std::is_nothrow_constructible<A, B>::value, 0});
  R2.push_back(Row{"is_nothrow_assignable", n, N::is_nothrow_assignable<A, B>::value && !std::is_nothrow_assignable<A, B>::value, 0});
}
template <class A, class B> static void common_() {
  R2.push_back(Row{"common_type", tn<A>() + ", " + tn<B>(), eq<typename my_common<A, B>::type, typename std_common<A, B>::type>::value, 1});
}
template <unsigned L, unsigned A> static void storage() {
  typedef typename N::aligned_storage<L, A>::type S;
  char b[64]; snprintf(b, sizeof b, "<%u,%u>", L, A);
  R1.push_back(Row{"aligned_storage:size", b, sizeof(S) >= L && sizeof(S) % A == 0, 1});
  R1.push_back(Row{"aligned_storage:align", b, __alignof__(S) % A == 0, 1});
}
template <unsigned L> static void storages() {
  storage<L, 1>(); storage<L, 2>(); storage<L, 4>(); storage<L, 8>(); storage<L, 16>(); storage<L, 32>(); storage<L, 64>();
  typedef typename N::aligned_storage<L>::type S; struct T { char c[L]; };
  char b[64]; snprintf(b, sizeof b, "<%u>", L);
  R1.push_back(Row{"aligned_storage:default", b, sizeof(S) >= L && __alignof__(S) >= (L >= 16 ? 16 : L >= 8 ? 8 : L >= 4 ? 4 : L >= 2 ? 2 : 1), 1});
}
template <unsigned L> struct St { static void go() { St<L - 1>::go(); storages<L>(); } };
template <> struct St<0> { static void go() {} };
template <class T, bool mine> struct Outer {
#define X(U) pair_<T, U>();
  static void go() { TYPES(X) }
#undef X
};
template <class T> struct Outer<T, false> { static void go() {} };
#define COMMON(X) X(bool) X(char) X(short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double) X(int &) X(const int &) X(int *) X(const int *) X(void *) X(std::nullptr_t) X(Base *) X(Derived *) X(Empty) X(const Pod &) X(Pod) X(Converts) X(FromInt) X(int[3]) X(En)
template <class T> struct COuter {
#define X(U) common_<T, U>();
  static void go() { COMMON(X) }
#undef X
};
static void row(const std::vector<Row> &v, uint64_t i) {
  const Row &r = v[i];
  mc::say("%s<%s> = %d", r.trait.c_str(), r.type.c_str(), r.want);
  mc::nontrivial(r.want != 0);
  MC_CHECK(r.got == r.want, r.trait, "%s<%s> is %d, the language says %d", r.trait.c_str(), r.type.c_str(), r.got, r.want);
}
static void un(uint64_t i) { row(R1, i); }
static void bi(uint64_t i) { row(R2, i); }
// forward / move / move_if_noexcept / declval value categories, on every type and category
struct NT { NT(); NT(const NT &); NT(NT &&) noexcept; };
static void cats(uint64_t) {
  int x = 1; const int cx = 2; MoveOnly *mo = 0; NT *nt = 0; CopyOnly *co = 0;
#define CAT(e, T) MC_CHECK((std::is_same<decltype(e), T>::value), "category", "%s has the wrong type", #e)
  CAT(N::move(x), int &&); CAT(N::move(cx), const int &&); CAT(N::forward<int &>(x), int &); CAT(N::forward<int>(x), int &&); CAT(N::forward<const int &>(x), const int &); CAT(N::forward<int>(3), int &&);
  CAT(N::declval<int>(), int &&); CAT(N::declval<int &>(), int &); CAT(N::declval<const Abstract &>(), const Abstract &); CAT(N::move_if_noexcept(*mo), MoveOnly &&);
  CAT(N::move(*co), CopyOnly &&);
  (void)nt;
  MC_CHECK(&N::forward<int &>(x) == &x, "forward", "forward does not return its argument");
  int a = 1, b = 2; N::swap(a, b); MC_CHECK(a == 2 && b == 1, "swap", "swap");
}
static void setup() {
#if PART == 0
#define X(T) unary<T>();
  TYPES(X)
#undef X
#define X(T) COuter<T>::go();
  COMMON(X)
#undef X
  St<48>::go();
  mc::range("traits/unary", un, 0, R1.size(), "every unary trait and transformation on each of 73 types; aligned storage for every size 1..48 and alignment 1..64");
  mc::range("traits/common", bi, 0, R2.size(), "common_type on every ordered pair of 26 types");
  mc::range("traits/categories", cats, 0, 1, "value categories of move, forward, declval, move_if_noexcept");
#else
#define X(T) Outer<T, __COUNTER__ % 4 + 1 == PART>::go();
  TYPES(X)
#undef X
  static char name[32]; snprintf(name, sizeof name, "traits/pairs%d", PART);
  mc::range(name, bi, 0, R2.size(), "every binary trait on every ordered pair of the 73 types (one quarter of the first types per program)");
#endif
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
