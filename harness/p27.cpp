/* P27: wide unsigned integers.
   VM-VARIANTS: asan plain
   VM-SAN-FLAGS: -O0 */
#include "vm.hpp"
#include <iomanip>
#include <memory>
#include <sharemind/uint_t.h>
#include <sstream>

namespace {
using sharemind::uint_t; using sharemind::uint128_t;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
struct Env { vm::Rng & r; u64 sig = 0; unsigned ops = 0, divs = 0; bool exhaustive = false; unsigned ex = 0, ey = 0; };

/* The reference: 1088-bit integers, bit by bit division (all moduli are smaller powers of two). */
#define VM_REF __attribute__((noinline, optimize("O2"), no_sanitize("address", "undefined")))
struct Z {
    static constexpr int W = 34; u32 w[W];
    VM_REF Z(long long v = 0) { for (int i = 0; i < W; ++i) { w[i] = i < 2 ? u32(u64(v) >> (32 * i)) : v < 0 ? ~u32(0) : 0; } }
    static VM_REF Z of(u64 v) { Z z; z.w[0] = u32(v); z.w[1] = u32(v >> 32); return z; }
    VM_REF Z operator+(Z const & o) const { Z z; u64 c = 0; for (int i = 0; i < W; ++i) { c += u64(w[i]) + o.w[i]; z.w[i] = u32(c); c >>= 32; } return z; }
    VM_REF Z operator~() const { Z z; for (int i = 0; i < W; ++i) z.w[i] = ~w[i]; return z; }
    VM_REF Z operator-(Z const & o) const { return *this + ~o + Z(1); }
    VM_REF Z operator*(Z const & o) const { Z z; for (int i = 0; i < W; ++i) { u64 c = 0; for (int j = 0; i + j < W; ++j) { c += u64(w[i]) * o.w[j] + z.w[i + j]; z.w[i + j] = u32(c); c >>= 32; } } return z; }
    VM_REF Z operator&(Z const & o) const { Z z; for (int i = 0; i < W; ++i) z.w[i] = w[i] & o.w[i]; return z; }
    VM_REF Z operator|(Z const & o) const { Z z; for (int i = 0; i < W; ++i) z.w[i] = w[i] | o.w[i]; return z; }
    VM_REF Z operator^(Z const & o) const { Z z; for (int i = 0; i < W; ++i) z.w[i] = w[i] ^ o.w[i]; return z; }
    VM_REF Z operator<<(unsigned s) const { Z z; for (int i = W - 1; i >= 0; --i) { int const k = i - int(s / 32); u64 v = k >= 0 ? u64(w[k]) << 32 : 0; if (k > 0) v |= w[k - 1]; z.w[i] = u32((v << (s % 32)) >> 32); } return z; }
    VM_REF Z operator>>(unsigned s) const { Z z; for (int i = 0; i < W; ++i) { int const k = i + int(s / 32); u64 v = k < W ? w[k] : 0; if (k + 1 < W) v |= u64(w[k + 1]) << 32; z.w[i] = u32(v >> (s % 32)); } return z; }
    VM_REF bool operator==(Z const & o) const { for (int i = 0; i < W; ++i) if (w[i] != o.w[i]) return false; return true; }
    VM_REF bool operator<(Z const & o) const { for (int i = W; i-- > 0;) if (w[i] != o.w[i]) return w[i] < o.w[i]; return false; }
    bool operator!=(Z const & o) const { return !(*this == o); } bool operator>(Z const & o) const { return o < *this; } bool operator<=(Z const & o) const { return !(o < *this); } bool operator>=(Z const & o) const { return !(*this < o); }
    VM_REF bool bit(unsigned i) const { return (w[i / 32] >> (i % 32)) & 1u; }
    VM_REF void divide(Z const & d, Z & q, Z & r) const { q = Z(); r = Z(); for (int i = W * 32; i-- > 0;) { if (r == Z() && q == Z() && !bit(unsigned(i))) continue; r = r << 1; if (bit(unsigned(i))) r.w[0] |= 1u; if (r >= d) { r = r - d; q.w[i / 32] |= 1u << (i % 32); } } }
    Z operator/(Z const & o) const { Z q, r; divide(o, q, r); return q; }
    VM_REF Z operator%(Z const & o) const { /* powers of two quickly */ Z const m = o - Z(1); if ((o & m) == Z()) return *this & m; Z q, r; divide(o, q, r); return r; }
    Z & operator+=(Z const & o) { return *this = *this + o; } Z & operator-=(Z const & o) { return *this = *this - o; } Z & operator|=(Z const & o) { return *this = *this | o; }
    Z & operator<<=(unsigned s) { return *this = *this << s; } Z & operator>>=(unsigned s) { return *this = *this >> s; }
    VM_REF unsigned shortDiv(unsigned d) { u64 r = 0; for (int i = W; i-- > 0;) { r = (r << 32) | w[i]; w[i] = u32(r / d); r %= d; } return unsigned(r); }
    VM_REF std::string str() const { return digits(*this, 10, false); }
    static VM_REF std::string digits(Z v, unsigned base, bool upper) { if (v == Z()) return "0"; std::string s; while (v != Z()) { unsigned const d = v.shortDiv(base); s.insert(s.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10))); } return s; }
};
Z two(unsigned n) { return Z(1) << n; }
/* Operands with the patterns at which carries, borrows and partial blocks go wrong. */
Z operand(vm::Rng & r, unsigned n, unsigned block) {
    Z v = 0; unsigned const kind = unsigned(r.below(10));
    switch (kind) {
    case 0: v = Z::of(r.below(20)); break;
    case 1: v = two(n) - 1 - Z::of(r.below(20)); break;
    case 2: v = two(unsigned(r.below(n))); if (r.flip()) v -= 1; break;
    case 3: v = two(n) - two(unsigned(r.below(n))); break;
    case 4: { unsigned const a = unsigned(r.below(n)), b = unsigned(r.below(n)); v = two(a) + two(b); if (r.flip()) v += two(n) - 1; break; }
    case 5: for (unsigned i = 0; i < n; i += block) v |= Z::of(r.flip() ? 0 : (u64(0) - 1) >> (64 - block)) << i; break;
    case 6: for (unsigned i = 0; i < n; i += block) v |= Z::of((r.word() >> (64 - block))) << i; break;
    case 7: v = Z::of(r.next()) >> unsigned(r.below(64)); break;
    default: for (unsigned i = 0; i < n; i += 64) v |= Z::of(r.next()) << i; if (r.chance(1, 3)) v >>= unsigned(r.below(n)); break;
    }
    return v & (two(n) - 1);
}
u64 low(Z const & v) { return v.w[0] | (u64(v.w[1]) << 32); }

template <unsigned N, typename B> struct Uint {
    using U = uint_t<N, B>;
    static Z mask() { return two(N) - 1; }
    static U make(Z const & v) {
        auto const gen = [&v](B * b, B * e) { unsigned s = 0; for (; b != e; ++b, s += unsigned(sizeof(B) * 8)) *b = B(low(v >> s)); };
        return U(gen);
    }
    static Z val(U const & u) { Z v = 0; for (std::size_t i = U::num_of_blocks; i-- > 0;) { v <<= unsigned(sizeof(B) * 8); v |= Z::of(u64(u.block(i))); } return v; }
    static std::string str(Z const & v) { return v.str(); }
    static void is(Env & e, U const & got, Z const & want, char const * what, Z const & x, Z const & y) {
        ++e.ops; Z const g = val(got);
        VM_CHECK(g == want, g > mask() ? "unused-bits" : what, "uint_t<%u, %zu bits>: %s of %s and %s gives %s, not %s", N, sizeof(B) * 8, what, str(x).c_str(), str(y).c_str(), str(g).c_str(), str(want).c_str());
    }
    template <typename T> static void fromInt(Env & e, T v) {
        Z const zv = v < T(0) || sizeof(T) < 8 ? Z(static_cast<long long>(v)) : Z::of(u64(v)), want = zv & mask();
        T lv = v; T const cv = v; U a(lv), b(cv), c(T(v + T(0))), d = v, f; f = cv; U g(make(mask())); g = lv;
        for (U const & u : {a, b, c, d, f, g}) is(e, u, want, "conversion", zv, 0);
    }
    template <typename T> static void toInt(Env & e, U const & u, Z const & x) {
        std::integral_constant<bool, (sizeof(T) * 8 < N)> const ok{}; toIntIf<T>(e, u, x, ok);
        T const d = u.template demote<T>(); VM_CHECK(d == T(low(x)), "demote", "demoting %s to %zu bits gives %llu", str(x).c_str(), sizeof(T) * 8, static_cast<unsigned long long>(d)); ++e.ops;
    }
    template <typename T> static void toIntIf(Env & e, U const & u, Z const & x, std::true_type) { T const d = sharemind::demote_integer<T>(u); VM_CHECK(d == T(low(x)), "demote", "demote_integer of %s gives %llu", str(x).c_str(), static_cast<unsigned long long>(d)); ++e.ops; }
    template <typename T> static void toIntIf(Env &, U const &, Z const &, std::false_type) {}
    template <unsigned N2, typename B2> static void toUint(Env & e, U const & u, Z const & x) {
        using V = uint_t<N2, B2>; V a(u); U lv(u); V b(lv), c; c = u; V d(Uint<N2, B2>::make(Uint<N2, B2>::mask())); d = lv;
        Z const want = x & Uint<N2, B2>::mask();
        for (V const & v : {a, b, c, d}) Uint<N2, B2>::is(e, v, want, "conversion", x, N2);
        Uint<N2, B2>::is(e, u.template demote_to_other_uint_t<N2, B2>(), want, "demote", x, N2);
        toUintIf<N2, B2>(e, u, x, std::integral_constant<bool, (N2 < N)>());
    }
    template <unsigned N2, typename B2> static void toUintIf(Env & e, U const & u, Z const & x, std::true_type) { Uint<N2, B2>::is(e, sharemind::demote_integer<uint_t<N2, B2> >(u), x & Uint<N2, B2>::mask(), "demote", x, N2); }
    template <unsigned N2, typename B2> static void toUintIf(Env &, U const &, Z const &, std::false_type) {}
    template <bool Big> static std::enable_if_t<Big> to128(Env & e, U const & u, Z const & x) {
        uint128_t const d = sharemind::demote_integer<uint128_t>(u); VM_CHECK(d.upper() == low(x >> 64) && d.lower() == low(x), "demote", "demoting %s to uint128_t", str(x).c_str()); ++e.ops; }
    template <bool Big> static std::enable_if_t<!Big> to128(Env &, U const &, Z const &) {}
    template <bool Small> static std::enable_if_t<Small> fromWide(Env & e, u64 v) { is(e, sharemind::demote_integer<U>(v), Z::of(v) & mask(), "demote", Z::of(v), N); }
    template <bool Small> static std::enable_if_t<!Small> fromWide(Env &, u64) {}

    static void print(Env & e, U const & u, Z const & x) {
        for (unsigned base : {10u, 16u, 8u}) for (int fl = 0; fl < 4; ++fl) {
            if (N > 130 && !e.r.chance(1, 4)) continue;
            std::ostringstream o; if (base == 16) o << std::hex; if (base == 8) o << std::oct; if (fl & 1) o << std::uppercase; if ((fl & 2) && x != 0) o << std::showpos;
            auto const flags = o.flags(); o << "<" << u << ">";
            std::string const want = std::string("<") + ((fl & 2) && x != 0 ? "+" : "") + Z::digits(x, base, (fl & 1) != 0) + ">";
            VM_CHECK(o.str() == want && o.flags() == flags, "print", "uint_t<%u, %zu bits> %s prints as %s in base %u", N, sizeof(B) * 8, str(x).c_str(), o.str().c_str(), base); ++e.ops;
        }
        std::ostringstream o; u.dump_blocks(o);
    }
    static void run(Env & e) {
        vm::Rng & r = e.r;
        Z const x = e.exhaustive ? Z(e.ex) & mask() : operand(r, N, unsigned(sizeof(B) * 8)), y = e.exhaustive ? Z(e.ey) & mask() : r.chance(1, 12) ? x : operand(r, N, unsigned(sizeof(B) * 8)), m = two(N);
        vm::describe(vm::format("uint_t<%u, %zu bits> x=%s y=%s", N, sizeof(B) * 8, str(x).substr(0, 80).c_str(), str(y).substr(0, 80).c_str()));
        U const a = make(x), b = make(y); U w;
        is(e, a, x, "generator", x, 0); is(e, w, 0, "default", 0, 0);
        { U c(a); is(e, c, x, "copy", x, 0); U d(std::move(c)); is(e, d, x, "move", x, 0); w = d; is(e, w, x, "assignment", x, 0); w = std::move(d); is(e, w, x, "assignment", x, 0); w = static_cast<U const &>(w); is(e, w, x, "self-assignment", x, 0); }
#define BIN(op, expr, what) is(e, a op b, (expr), what, x, y); w = a; is(e, w op ## = b, (expr), what, x, y); is(e, w, (expr), what, x, y);
        BIN(+, (x + y) % m, "sum") BIN(-, (m + x - y) % m, "difference") BIN(*, (x * y) % m, "product") BIN(&, x & y, "and") BIN(|, x | y, "or") BIN(^, x ^ y, "xor")
        w = a; w += w; is(e, w, (x + x) % m, "sum", x, x); w = a; w -= w; is(e, w, 0, "difference", x, x); w = a; w *= w; is(e, w, (x * x) % m, "product", x, x);
        is(e, -a, (m - x) % m, "negation", x, 0); is(e, ~a, m - 1 - x, "complement", x, 0);
        VM_CHECK(!a == (x == 0), "not", "!%s", str(x).c_str());
        w = a; is(e, ++w, (x + 1) % m, "increment", x, 1); is(e, w++, (x + 1) % m, "increment", x, 1); is(e, w, (x + 2) % m, "increment", x, 2);
        w = a; is(e, --w, (x + m - 1) % m, "decrement", x, 1); is(e, w--, (x + m - 1) % m, "decrement", x, 1); is(e, w, (x + m + m - 2) % m, "decrement", x, 2);
        VM_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "compare", "uint_t<%u, %zu bits>: comparing %s and %s", N, sizeof(B) * 8, str(x).c_str(), str(y).c_str()); ++e.ops;
        /* division: two slow operations, less often for long numbers */
        if (N <= 70 || r.chance(70, N)) {
            if (y == 0) {
                int caught = 0; try { (void) (a / b); } catch (typename U::division_by_zero_error const & x) { caught += std::strcmp(x.what(), "Division by zero") == 0; } try { (void) (a % b); } catch (std::runtime_error const &) { ++caught; } try { (void) divMod(a, b); } catch (typename U::division_by_zero_error const &) { ++caught; }
                w = a; try { w /= b; } catch (typename U::division_by_zero_error const &) { ++caught; } try { w %= b; } catch (typename U::division_by_zero_error const &) { ++caught; }
                VM_CHECK(caught == 5, "zero-division", "only %d of 5 divisions by zero throw division_by_zero_error", caught); is(e, w, x, "failed division", x, 0);
            } else {
                BIN(/, x / y, "quotient") BIN(%, x % y, "remainder")
                auto const d = divMod(a, b); is(e, d.quot, x / y, "quotient", x, y); is(e, d.rem, x % y, "remainder", x, y); ++e.divs;
            }
            print(e, a, x);
        }
        for (unsigned k = 0; k < 4; ++k) {
            unsigned const s = k == 0 ? 0 : k == 1 ? N - 1 : unsigned(r.flip() ? r.below(N) : std::min<u64>(N - 1, r.below(N / (sizeof(B) * 8) + 1) * sizeof(B) * 8 + r.below(2)));
            Z const l = (x << s) % m, rt = x >> s;
            is(e, a << u64(s), l, "left shift", x, s); is(e, a >> u64(s), rt, "right shift", x, s);
            w = a; w <<= u64(s); is(e, w, l, "left shift", x, s); w = a; w >>= u64(s); is(e, w, rt, "right shift", x, s); w = a; w <<= int(s); is(e, w, l, "left shift", x, s); w = a; w >>= int(s); is(e, w, rt, "right shift", x, s);
            if (Z(s) < m) { U const us = make(Z(s)); is(e, a << us, l, "left shift", x, s); is(e, a >> us, rt, "right shift", x, s); w = a; w <<= us; is(e, w, l, "left shift", x, s); w = a; w >>= us; is(e, w, rt, "right shift", x, s); }
            bool const bit = x.bit(s);
            w = a; U const & cw = w; VM_CHECK(cw[s] == bit && bool(w[s]) == bit && ~w[s] == !bit, "bit", "bit %u of %s", s, str(x).c_str());
            Z const on = x | two(s), off = on - two(s), flipped = bit ? off : on;
            w[s] = true; is(e, w, on, "set bit", x, s); w[s] = false; is(e, w, off, "clear bit", x, s); w = a; w[s].flip(); is(e, w, flipped, "flip bit", x, s);
            w = a; w[s] |= false; w[s] &= true; w[s] ^= false; w[s] -= false; is(e, w, x, "bit", x, s);
            w = a; w[s] |= true; is(e, w, on, "set bit", x, s); w[s] &= false; is(e, w, off, "clear bit", x, s); w = a; w[s] ^= true; is(e, w, flipped, "flip bit", x, s); w = a; w[s] -= true; is(e, w, off, "clear bit", x, s);
            unsigned const t = unsigned(r.below(N)); w = a; w[s] = w[t]; is(e, w, x.bit(t) ? on : off, "copy bit", x, s);
            U other(b); w = a; w[s] = other[t]; is(e, w, y.bit(t) ? on : off, "copy bit", x, s); is(e, other, y, "copy bit", y, t);
        }
        u64 const v = r.word();
        switch (r.below(5)) {
        case 0: fromInt<u8>(e, u8(v)); fromInt<int>(e, int(u32(v))); break; case 1: fromInt<u64>(e, v); fromInt<signed char>(e, static_cast<signed char>(v)); break;
        case 2: fromInt<std::int64_t>(e, std::int64_t(v)); fromInt<bool>(e, v & 1); break; case 3: fromInt<u16>(e, u16(v)); fromInt<short>(e, short(v)); break;
        default: fromInt<u32>(e, u32(v)); fromInt<char>(e, char(v)); break;
        }
        { u64 const hi = r.word(); uint128_t const q(hi, v); Z const want = ((Z::of(hi) << 64) | Z::of(v)) & mask(); U c(q), d; d = q; is(e, c, want, "conversion from uint128_t", want, 0); is(e, d, want, "conversion from uint128_t", want, 0); }
        { U c(make(x)); c.clear_unused_bits(); is(e, c, x, "clear_unused_bits()", x, 0); }
        toInt<u8>(e, a, x); toInt<u16>(e, a, x); toInt<u32>(e, a, x); toInt<u64>(e, a, x); VM_CHECK(sharemind::demote_integer<bool>(a) == (x != 0), "demote", "demoting %s to bool", str(x).c_str());
        to128<(N > 128)>(e, a, x); fromWide<(N < 64)>(e, v);
        toUint<1, u8>(e, a, x); toUint<7, u8>(e, a, x); toUint<33, u16>(e, a, x); toUint<64, u64>(e, a, x); toUint<100, u32>(e, a, x); toUint<300, u64>(e, a, x); toUint<N, u8>(e, a, x); toUint<N, u64>(e, a, x);
        /* mixed with primitives, as in a + 1 */
        is(e, a + 5, (x + Z(5) % m) % m, "sum", x, 5); is(e, 7 + a, (x + Z(7) % m) % m, "sum", x, 7); is(e, a * 3u, (x * Z(3)) % m, "product", x, 3); is(e, a - v, (m + x - Z::of(v) % m) % m, "difference", x, Z::of(v)); VM_CHECK((a == v) == (x == Z::of(v) % m) && (a < v) == (x < Z::of(v) % m), "compare", "comparing %s with a primitive", str(x).c_str());
        is(e, a, x, "operands", x, y); is(e, b, y, "operands", x, y);
        e.sig = vm::mix(e.sig ^ low(x) ^ vm::mix(low(y)) ^ N);
    }
};
using Runner = void (*)(Env &);
Runner const runners[] = {
    Uint<1, u8>::run, Uint<2, u8>::run, Uint<3, u8>::run, Uint<4, u8>::run, Uint<5, u16>::run, Uint<7, u8>::run, Uint<8, u8>::run, Uint<9, u8>::run, Uint<12, u8>::run, Uint<16, u8>::run, Uint<17, u16>::run,
    Uint<16, u16>::run, Uint<24, u8>::run, Uint<32, u16>::run, Uint<32, u32>::run, Uint<33, u32>::run, Uint<63, u64>::run, Uint<64, u64>::run, Uint<64, u8>::run, Uint<65, u64>::run, Uint<96, u32>::run, Uint<127, u64>::run,
    Uint<128, u64>::run, Uint<128, u32>::run, Uint<129, u64>::run, Uint<192, u64>::run, Uint<256, u64>::run, Uint<300, u32>::run, Uint<800, u64>::run
};
constexpr std::size_t numRunners = sizeof(runners) / sizeof(*runners);
}
namespace {
void wide(vm::Rng & r, std::uint64_t i) {
    Env e{r}; std::size_t const k = std::size_t(i % numRunners);
    for (unsigned n = k < 17 ? 12 : k < 25 ? 4 : 1; n > 0; --n) runners[k](e);
    vm::event("operations", e.ops); vm::event("divisions", e.divs); vm::signature(e.sig);
}
}
VM_SCENARIO(wide_integers, "plain", 11600, 1160000, 4, 1) { vm::runCases(wide); }
VM_SCENARIO(wide_integers_sanitized, "asan", 725, 58000, 4, 1) { vm::runCases(wide); }
/* Every pair of operands of the short widths. */
VM_SCENARIO(all_short_pairs, "plain", 1024, 65536, 4, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        Env e{r}; e.exhaustive = true;
        /* 5 bits: all 1024 pairs; 8 bits in the thorough tier: all 65536 pairs */
        e.ex = unsigned(i % 32); e.ey = unsigned(i / 32 % 32);
        if (i < 1024) { Uint<5, u16>::run(e); Uint<5, u8>::run(e); if (i < 256 * 4) { e.ex = unsigned(i % 16); e.ey = unsigned(i / 16 % 16); Uint<4, u8>::run(e); e.ex &= 7; e.ey &= 7; Uint<3, u8>::run(e); e.ex &= 3; e.ey &= 3; Uint<2, u8>::run(e); e.ex &= 1; e.ey &= 1; Uint<1, u8>::run(e); } }
        e.ex = unsigned(i * 977 % 65536 / 256); e.ey = unsigned(i * 977 % 256); Uint<8, u8>::run(e);
        vm::event("operations", e.ops); vm::event("divisions", e.divs); vm::signature(e.sig);
    });
}
