/* P29: integer comparisons of mixed signedness, extrema, power-of-two test and conversions.
   VM-VARIANTS: asan plain
   VM-SAN-FLAGS: -O0 */
#include "vm.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/IntegralComparisons.h>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/Max.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
#include <tuple>

namespace {
__extension__ using Z = __int128;
std::string str(Z v) { bool const neg = v < 0; unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v); std::string s; do { s.insert(s.begin(), char('0' + unsigned(u % 10))); u /= 10; } while (u); return neg ? "-" + s : s; }
struct Env { vm::Rng & r; std::uint64_t sig = 0; unsigned ops = 0; };
/* Values around the places where signedness and promotion matter, for any type. */
template <typename T> T value(vm::Rng & r) {
    using L = std::numeric_limits<T>;
    switch (r.below(8)) {
    case 0: return T(L::max() - T(r.below(2)));
    case 1: return T(L::min() + T(r.below(2)));
    case 2: return T(Z(r.below(5)) - 2);
    case 3: return T(Z(1) << r.below(64));
    case 4: return T((Z(1) << r.below(64)) - Z(r.below(2)) - 1);
    case 5: return T(-(Z(1) << r.below(64)) + Z(r.below(3)) - 1);
    case 6: return T(r.word());
    default: return T(r.next());
    }
}
template <typename T> char const * tn() { return std::is_same<T, bool>::value ? "bool" : std::is_signed<T>::value ? (sizeof(T) == 1 ? "s8" : sizeof(T) == 2 ? "s16" : sizeof(T) == 4 ? "s32" : "s64") : (sizeof(T) == 1 ? "u8" : sizeof(T) == 2 ? "u16" : sizeof(T) == 4 ? "u32" : "u64"); }
template <typename A, typename B> void compare(Env & e, A a, B b) {
    Z const x = Z(a), y = Z(b);
    e.ops += 8; e.sig = vm::mix(e.sig ^ std::uint64_t(x) ^ vm::mix(std::uint64_t(y) + sizeof(A) * 16 + sizeof(B)));
#define ONE(f, want) VM_CHECK(sharemind::integral ## f(a, b) == (want), #f, "integral" #f "(%s %s, %s %s) is not %d", tn<A>(), str(x).c_str(), tn<B>(), str(y).c_str(), int(want));
    ONE(Less, x < y) ONE(LessThan, x < y) ONE(LessEqual, x <= y) ONE(Equal, x == y) ONE(NotEqual, x != y) ONE(GreaterEqual, x >= y) ONE(Greater, x > y) ONE(GreaterThan, x > y)
#undef ONE
}
template <typename T> void single(Env & e, T t) {
    Z const x = Z(t);
    e.ops += 7;
#define ONE(f, want) VM_CHECK(sharemind::f(t) == (want), #f, #f "(%s %s) is not %d", tn<T>(), str(x).c_str(), int(want));
    ONE(integralPositive, x > 0) ONE(integralNegative, x < 0) ONE(integralNonNegative, x >= 0) ONE(integralNonPositive, x <= 0) ONE(integralZero, x == 0) ONE(integralNonZero, x != 0)
    bool pow = false; for (unsigned i = 0; i < 64; ++i) if (x == (Z(1) << i)) pow = true;
    ONE(isPowerOfTwo, pow)
#undef ONE
}
template <typename T, std::enable_if_t<std::is_signed<T>::value, int> = 0> void convertSigned(Env & e, T t) {
    auto const u = sharemind::signedToUnsigned(t); static_assert(std::is_same<decltype(u), std::make_unsigned_t<T> const>::value, "");
    Z const want = t < 0 ? Z(t) + (Z(1) << (sizeof(T) * 8)) : Z(t); ++e.ops;
    VM_CHECK(Z(u) == want, "signedToUnsigned", "signedToUnsigned(%s) is %s", str(t).c_str(), str(u).c_str());
}
template <typename T, std::enable_if_t<!std::is_signed<T>::value, int> = 0> void convertSigned(Env &, T) {}
template <typename T, std::enable_if_t<!std::is_same<T, bool>::value, int> = 0> void convert(Env & e, T t) {
    convertSigned(e, t);
    Z const m = Z(1) << (sizeof(T) * 8), x = Z(t);
    auto && s = sharemind::toSigned(t); auto && u = sharemind::toUnsigned(t);
    static_assert(std::is_signed<std::decay_t<decltype(s)> >::value && sizeof(s) == sizeof(T) && std::is_unsigned<std::decay_t<decltype(u)> >::value && sizeof(u) == sizeof(T), "");
    e.ops += 2;
    VM_CHECK(Z(s) == (x >= m / 2 ? x - m : x), "toSigned", "toSigned(%s %s) is %s", tn<T>(), str(x).c_str(), str(s).c_str());
    VM_CHECK(Z(u) == (x < 0 ? x + m : x), "toUnsigned", "toUnsigned(%s %s) is %s", tn<T>(), str(x).c_str(), str(u).c_str());
}
template <typename T, std::enable_if_t<std::is_same<T, bool>::value, int> = 0> void convert(Env &, T) {}
template <typename T> void enums(Env & e, T t) {
    enum class E : T {}; enum F : T {};
    e.ops += 5;
    E const x = E(t); F f = F(t);
    auto const a = sharemind::enumToUnderlying(x); auto const b = sharemind::maybeEnumToUnderlying(x); auto const c = sharemind::maybeEnumToUnderlying(f); auto const d = sharemind::maybeEnumToUnderlying(t); auto const g = sharemind::maybeEnumToUnderlying(E(t));
    static_assert(std::is_same<decltype(a), T const>::value && std::is_same<decltype(b), T const>::value && std::is_same<decltype(c), T const>::value && std::is_same<decltype(d), T const>::value && std::is_same<decltype(g), T const>::value, "");
    VM_CHECK(a == t && b == t && c == t && d == t && g == t, "enum", "the underlying value of enumerator %s of %s is %s, %s, %s, %s, %s", str(t).c_str(), tn<T>(), str(a).c_str(), str(b).c_str(), str(c).c_str(), str(d).c_str(), str(g).c_str());
}
template <typename T> void extrema(Env & e) {
    vm::Rng & r = e.r; T v[6]; for (T & x : v) x = r.chance(1, 4) ? v[0] = value<T>(r) : value<T>(r);
    if (r.chance(1, 3)) v[r.below(6)] = v[r.below(6)];
    Z mn[7], mx[7]; mn[1] = mx[1] = Z(v[0]); for (int i = 1; i < 6; ++i) { mn[i + 1] = Z(v[i]) < mn[i] ? Z(v[i]) : mn[i]; mx[i + 1] = Z(v[i]) > mx[i] ? Z(v[i]) : mx[i]; }
    T const before[6] = {v[0], v[1], v[2], v[3], v[4], v[5]}; e.ops += 12;
#define ONE(k, ...) { auto const a = sharemind::min(__VA_ARGS__); auto const b = sharemind::max(__VA_ARGS__); static_assert(std::is_same<decltype(a), T const>::value && std::is_same<decltype(b), T const>::value, ""); \
    VM_CHECK(Z(a) == mn[k], "min", "the minimum of %d values of %s starting with %s, %s is %s, not %s", k, tn<T>(), str(v[0]).c_str(), str(v[1]).c_str(), str(a).c_str(), str(mn[k]).c_str()); \
    VM_CHECK(Z(b) == mx[k], "max", "the maximum of %d values of %s starting with %s, %s is %s, not %s", k, tn<T>(), str(v[0]).c_str(), str(v[1]).c_str(), str(b).c_str(), str(mx[k]).c_str()); }
    ONE(1, v[0]) ONE(2, v[0], v[1]) ONE(3, v[0], T(v[1]), v[2]) ONE(4, v[0], v[1], before[2], v[3]) ONE(5, T(v[0]), v[1], v[2], v[3], v[4]) ONE(6, v[0], v[1], v[2], v[3], v[4], T(v[5]))
#undef ONE
    VM_CHECK(std::memcmp(v, before, sizeof(v)) == 0, "min", "finding the extrema changed the arguments");
}
using Types = std::tuple<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t>;
constexpr std::size_t nTypes = std::tuple_size<Types>::value;
template <typename A, typename B> void cell(Env & e, std::uint64_t round) {
    for (int i = 0; i < 6; ++i) {
        A const a = value<A>(e.r); B const b = e.r.chance(1, 4) ? B(a) : value<B>(e.r);
        compare(e, a, b);
    }
    if (sizeof(A) == 1 && sizeof(B) == 1) { /* exhaustively, a few rows per visit */
        for (unsigned k = 0; k < 4; ++k) { A const a = A(std::uint8_t(round * 4 + k)); for (unsigned j = 0; j < 256; ++j) compare(e, a, B(std::uint8_t(j))); }
    }
}
using Cell = void (*)(Env &, std::uint64_t);
template <std::size_t ... Is> std::array<Cell, sizeof...(Is)> cells(std::index_sequence<Is...>) { return {{&cell<std::tuple_element_t<Is / nTypes, Types>, std::tuple_element_t<Is % nTypes, Types> > ...}}; }
template <typename A> void unary(Env & e, std::uint64_t round) {
    for (int i = 0; i < 8; ++i) { A const a = value<A>(e.r); e.sig = vm::mix(e.sig ^ std::uint64_t(a)); single(e, a); convert(e, a); enums(e, a); extrema<A>(e); }
    if (sizeof(A) <= 2) for (unsigned k = 0; k < 1024; ++k) { A const a = A(std::uint16_t(round * 1024 + k)); single(e, a); convert(e, a); }
}
template <std::size_t ... Is> std::array<Cell, sizeof...(Is)> unaries(std::index_sequence<Is...>) { return {{&unary<std::tuple_element_t<Is, Types> > ...}}; }

struct Text { std::string s; bool operator<(Text const & o) const { return s < o.s; } bool operator>(Text const & o) const { return s > o.s; } bool operator==(Text const & o) const { return s == o.s; } };
/* The same functions also have to work at compile time. */
static_assert(sharemind::integralLess(-1, 0u) && !sharemind::integralLess(0u, -1) && sharemind::integralGreater(~0ull, -1ll) && !sharemind::integralEqual(-1, ~0u) && sharemind::integralNegative(-5) && sharemind::isPowerOfTwo(64) && sharemind::min(3, 1, 2) == 1 && sharemind::max(3, 1, 2) == 3, "");
}
VM_SCENARIO(pairs, "asan plain", 600, 120000, 3, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        static auto const table = cells(std::make_index_sequence<nTypes * nTypes>());
        vm::describe("all pairs of types");
        Env e{r}; for (auto c : table) c(e, i);
        vm::event("type pairs", table.size()); vm::event("comparisons", e.ops); vm::signature(e.sig);
    });
}
VM_SCENARIO(single_values, "asan plain", 1200, 120000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        static auto const table = unaries(std::make_index_sequence<nTypes>());
        vm::describe("all types");
        Env e{r}; for (auto c : table) c(e, i);
        vm::event("tests of one value", e.ops); vm::signature(e.sig);
    });
}
VM_SCENARIO(extrema_of_objects, "asan plain", 3000, 300000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        Text a[5]; std::uint64_t sig = 0; for (auto & s : a) { s.s = std::string(r.below(40), char('a' + r.below(3))); sig = vm::mix(sig ^ vm::hashStr(s.s)); }
        vm::describe("objects");
        Text const want = *std::min_element(a, a + 5), top = *std::max_element(a, a + 5), c0 = a[0];
        VM_CHECK(sharemind::min(a[0], a[1], a[2], a[3], a[4]) == want && sharemind::max(a[0], a[1], a[2], a[3], a[4]) == top && a[0] == c0, "min", "wrong extremum of objects");
        double d[4]; for (auto & x : d) x = double(std::int64_t(r.word())) / 7;
        VM_CHECK(sharemind::min(d[0], d[1], d[2], d[3]) == *std::min_element(d, d + 4) && sharemind::max(d[0], d[1], d[2], d[3]) == *std::max_element(d, d + 4), "min", "wrong extremum of floating point numbers");
        vm::event("object extrema", 4); vm::signature(sig);
    });
}
