/* P28: 128-bit unsigned integers.
   VM-VARIANTS: asan plain */
#include "vm.hpp"
#include <iomanip>
#include <sharemind/uint128_t.h>
#include <sstream>

namespace {
using sharemind::uint128_t;
using u64 = std::uint64_t;
__extension__ using Z = unsigned __int128;
Z z(u64 hi, u64 lo) { return (Z(hi) << 64) | lo; }
Z val(uint128_t const & u) { return z(u.upper(), u.lower()); }
std::string str(Z v, unsigned base = 10, bool upper = false) { if (!v) return "0"; std::string s; while (v) { unsigned const d = unsigned(v % base); s.insert(s.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10))); v /= base; } return s; }
Z operand(vm::Rng & r) {
    switch (r.below(12)) {
    case 0: return r.below(20); case 1: return Z(0) - 1 - r.below(20); case 2: return (Z(1) << r.below(128)) - r.below(3); case 3: return ~((Z(1) << r.below(128)) - 1);
    case 4: return (Z(1) << r.below(128)) + (Z(1) << r.below(128)); case 5: return z(r.flip() ? 0 : ~u64(0), r.flip() ? 0 : ~u64(0)) ^ r.below(3); case 6: return r.next(); case 7: return Z(r.next()) << 64;
    case 8: { Z v = 0; for (int i = 0; i < 4; ++i) v = (v << 32) | (r.flip() ? (r.flip() ? 0u : 0xffffffffu) : std::uint32_t(r.next())); return v; }
    case 9: return z(r.word(), r.word()); default: { Z const v = z(r.next(), r.next()); return r.flip() ? v : v >> r.below(128); } }
}
struct Env { vm::Rng & r; unsigned ops = 0; };
void is(Env & e, uint128_t const & got, Z want, char const * what, Z x, Z y) { ++e.ops; VM_CHECK(val(got) == want, what, "%s of %s and %s gives %s, not %s", what, str(x).c_str(), str(y).c_str(), str(val(got)).c_str(), str(want).c_str()); }
template <typename T> void fromInt(Env & e, T v) { Z const want = static_cast<Z>(v); uint128_t a(v), b(7, 9); b = v; is(e, a, want, "conversion", want, 0); is(e, b, want, "conversion", want, 0); uint128_t const c = v; is(e, c, want, "conversion", want, 0); }
template <typename T> void demote(Env & e, uint128_t const & a, Z x) { ++e.ops; T const d = sharemind::demote_integer<T>(a); VM_CHECK(d == static_cast<T>(x), "demote", "demoting %s to %zu bits gives %llu", str(x).c_str(), sizeof(T) * 8, static_cast<unsigned long long>(d)); }
template <typename T, typename U> void demotePrimitive(Env & e, U v) { ++e.ops; T const d = sharemind::demote_integer<T>(v); VM_CHECK(d == static_cast<T>(v), "demote", "demoting %lld to %zu bits gives %lld", static_cast<long long>(v), sizeof(T) * 8, static_cast<long long>(d)); }
void one(vm::Rng & r, std::uint64_t & sig, unsigned & ops) {
    Env e{r}; Z const x = operand(r), y = r.chance(1, 12) ? x : operand(r);
    vm::describe("x=" + str(x) + " y=" + str(y));
    uint128_t const a(u64(x >> 64), u64(x)), b(u64(y >> 64), u64(y)); uint128_t w(1, 2);
    is(e, a, x, "value", x, 0); { uint128_t c(a); is(e, c, x, "copy", x, 0); w = a; is(e, w, x, "assignment", x, 0); w = static_cast<uint128_t const &>(w); is(e, w, x, "self-assignment", x, 0); }
#define BIN(op, want, what) is(e, a op b, (want), what, x, y); w = a; is(e, w op ## = b, (want), what, x, y); is(e, w, (want), what, x, y);
    BIN(+, x + y, "sum") BIN(-, x - y, "difference") BIN(*, x * y, "product") BIN(&, x & y, "and") BIN(|, x | y, "or") BIN(^, x ^ y, "xor")
    w = a; w += w; is(e, w, x + x, "sum", x, x); w = a; w *= w; is(e, w, x * x, "product", x, x); w = a; w -= w; is(e, w, 0, "difference", x, x);
    is(e, -a, Z(0) - x, "negation", x, 0); is(e, ~a, ~x, "complement", x, 0); VM_CHECK(!a == !x, "not", "!%s", str(x).c_str());
    w = a; is(e, ++w, x + 1, "increment", x, 1); is(e, w++, x + 1, "increment", x, 1); is(e, w, x + 2, "increment", x, 2);
    w = a; is(e, --w, x - 1, "decrement", x, 1); is(e, w--, x - 1, "decrement", x, 1); is(e, w, x - 2, "decrement", x, 2);
    VM_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "compare", "comparing %s and %s", str(x).c_str(), str(y).c_str());
    if (!y) {
        int caught = 0; try { (void) (a / b); } catch (uint128_t::division_by_zero_error const & x) { caught += std::strcmp(x.what(), "Division by zero") == 0; } try { (void) (a % b); } catch (std::runtime_error const &) { ++caught; }
        w = a; try { w /= b; } catch (uint128_t::division_by_zero_error const &) { ++caught; } try { w %= b; } catch (uint128_t::division_by_zero_error const &) { ++caught; }
        VM_CHECK(caught == 4, "zero-division", "only %d of 4 divisions by zero throw", caught); is(e, w, x, "failed division", x, 0);
    } else { BIN(/, x / y, "quotient") BIN(%, x % y, "remainder") is(e, (a / b) * b + a % b, x, "division identity", x, y); VM_CHECK(a % b < b, "remainder", "the remainder is not below the divisor"); }
    for (unsigned k = 0; k < 5; ++k) {
        unsigned const s = k == 0 ? 0 : k == 1 ? 127 : k == 2 ? 63 + unsigned(r.below(3)) : unsigned(r.below(128));
        is(e, a << s, x << s, "left shift", x, s); is(e, a >> s, x >> s, "right shift", x, s); w = a; is(e, w <<= s, x << s, "left shift", x, s); w = a; is(e, w >>= s, x >> s, "right shift", x, s);
    }
    u64 const v = r.word(); fromInt(e, v); fromInt(e, std::int64_t(v)); fromInt(e, std::uint32_t(v)); fromInt(e, int(std::uint32_t(v))); fromInt(e, std::uint8_t(v)); fromInt(e, short(v)); fromInt(e, bool(v & 1));
    demote<u64>(e, a, x); demote<std::uint32_t>(e, a, x); demote<std::uint16_t>(e, a, x); demote<std::uint8_t>(e, a, x); VM_CHECK(sharemind::demote_integer<bool>(a) == (x != 0), "demote", "demoting %s to bool", str(x).c_str());
    demotePrimitive<std::uint32_t>(e, v); demotePrimitive<std::uint16_t>(e, v); demotePrimitive<std::uint8_t>(e, std::uint16_t(v)); demotePrimitive<bool>(e, v); demotePrimitive<bool>(e, std::uint8_t(v)); demotePrimitive<std::int8_t>(e, std::int64_t(v)); demotePrimitive<std::uint8_t>(e, std::int32_t(v));
    is(e, a + 5, x + 5, "sum", x, 5); is(e, a - v, x - v, "difference", x, v); is(e, 3u * a, x * 3, "product", x, 3); VM_CHECK((a == v) == (x == v) && (a < v) == (x < v), "compare", "comparing %s with a primitive", str(x).c_str());
    for (unsigned base : {10u, 16u, 8u}) {
        bool const up = r.flip(), pos = r.chance(1, 3) && x; std::ostringstream o; if (base == 16) o << std::hex; if (base == 8) o << std::oct; if (up) o << std::uppercase; if (pos) o << std::showpos;
        auto const fl = o.flags(); o << "<" << a << ">"; VM_CHECK(o.str() == "<" + std::string(pos ? "+" : "") + str(x, base, up) + ">" && o.flags() == fl, "print", "%s prints as %s in base %u", str(x).c_str(), o.str().c_str(), base); ++e.ops;
    }
    is(e, a, x, "operands", x, y); is(e, b, y, "operands", x, y);
    sig = vm::mix(sig ^ u64(x) ^ vm::mix(u64(x >> 64) ^ vm::mix(u64(y) ^ vm::mix(u64(y >> 64))))); ops += e.ops;
}
}
VM_SCENARIO(pairs, "asan plain", 12000, 1200000, 3, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) { std::uint64_t sig = 0; unsigned ops = 0; for (int i = 0; i < 8; ++i) one(r, sig, ops); vm::event("operations", ops); vm::signature(sig); });
}
