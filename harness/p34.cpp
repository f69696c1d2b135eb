/* P34: UUIDs and strong types.
   VM-VARIANTS: asan plain */
#include "vm.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sharemind/StrongType.h>
#include <sharemind/Uuid.h>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace {
using sharemind::Uuid;
using Bytes = std::array<unsigned char, 16>;
Bytes bytes(Uuid const & u) { Bytes b; std::copy(u.begin(), u.end(), b.begin()); return b; }
Uuid uuid(Bytes const & b) { Uuid u; std::copy(b.begin(), b.end(), u.begin()); return u; }
Bytes random(vm::Rng & r) {
    Bytes b;
    switch (r.below(5)) {
    case 0: b.fill(static_cast<unsigned char>(r.flip() ? 0 : 0xff)); b[r.below(16)] = static_cast<unsigned char>(r.next()); break;
    case 1: for (auto & x : b) x = static_cast<unsigned char>("\x00\x7f\x80\xff"[r.below(4)]); break;
    case 2: for (auto & x : b) x = static_cast<unsigned char>(r.below(3)); break;
    default: for (auto & x : b) x = static_cast<unsigned char>(r.next()); break;
    }
    return b;
}
std::string print(Bytes const & b) { std::string s; for (std::size_t i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) s += '-'; s += "0123456789abcdef"[b[i] >> 4]; s += "0123456789abcdef"[b[i] & 15]; } return s; }
int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool wellFormed(std::string const & s, Bytes & b) {
    if (s.size() != 36) return false;
    std::size_t k = 0; for (std::size_t i = 0; i < 36; ) { if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i++] != '-') return false; continue; } int const h = hex(s[i]), l = hex(s[i + 1]); if (h < 0 || l < 0) return false; b[k++] = static_cast<unsigned char>(h * 16 + l); i += 2; }
    return true;
}
void parse(std::string const & s) {
    Bytes want; bool const ok = wellFormed(s, want); bool got = false; Uuid u;
    try { u = sharemind::uuidFromString(s); got = true; } catch (boost::bad_lexical_cast const &) {}
    VM_CHECK(got == ok, ok ? "refused" : "accepted", "the text %s is %s", vm::jsonStr(s).c_str(), ok ? "a UUID, but refused" : "not a UUID, but taken for one");
    if (ok) VM_CHECK(bytes(u) == want, "parse", "the text %s gives the UUID %s", s.c_str(), print(bytes(u)).c_str());
    vm::event(ok ? "texts_read" : "texts_refused");
}
/* RFC 4122 version 5, over an SHA-1 of our own. */
Bytes nameBased(Bytes const & ns, std::string const & name) {
    std::vector<unsigned char> m(ns.begin(), ns.end()); m.insert(m.end(), name.begin(), name.end()); std::uint64_t const bits = m.size() * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 7; i >= 0; --i) m.push_back(static_cast<unsigned char>(bits >> (8 * i)));
    std::uint32_t h[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u}; auto const rol = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (std::size_t o = 0; o < m.size(); o += 64) { std::uint32_t w[80]; for (int i = 0; i < 16; ++i) w[i] = std::uint32_t(m[o + 4 * i]) << 24 | std::uint32_t(m[o + 4 * i + 1]) << 16 | std::uint32_t(m[o + 4 * i + 2]) << 8 | m[o + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; ++i) { std::uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999u; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1u; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdcu; } else { f = b ^ c ^ d; k = 0xca62c1d6u; } std::uint32_t const t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    Bytes r; for (int i = 0; i < 16; ++i) r[std::size_t(i)] = static_cast<unsigned char>(h[i / 4] >> (24 - 8 * (i % 4))); r[6] = static_cast<unsigned char>((r[6] & 0x0f) | 0x50); r[8] = static_cast<unsigned char>((r[8] & 0x3f) | 0x80); return r;
}
}
VM_SCENARIO(uuids, "asan plain", 10000, 500000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        Bytes const a = random(r); Bytes b = random(r); if (r.chance(1, 3)) { b = a; if (r.flip()) b[r.below(16)] ^= static_cast<unsigned char>(1u << r.below(8)); }
        Uuid const u = uuid(a), v = uuid(b), w(u); Uuid x; x = v; std::string const s = sharemind::uuidToString(u);
        vm::describe(vm::format("%s and %s", print(a).c_str(), print(b).c_str()));
        VM_CHECK(s == print(a), "print", "the UUID %s is printed as %s", print(a).c_str(), vm::jsonStr(s).c_str());
        VM_CHECK(bytes(w) == a && bytes(x) == b && sharemind::uuidFromString(s) == u, "round-trip", "the UUID %s does not survive printing, parsing or copying", print(a).c_str());
        VM_CHECK((u == v) == (a == b) && (u != v) == (a != b) && (u < v) == (a < b) && (v < u) == (b < a) && (u <= v) == (a <= b) && (u >= v) == (a >= b) && (u > v) == (a > b), "order", "comparison of %s and %s disagrees with that of their bytes", print(a).c_str(), print(b).c_str());
        std::hash<Uuid> const h{}; VM_CHECK(h(u) == h(w) && h(v) == h(x) && (a != b || h(u) == h(v)), "hash", "equal UUIDs hash differently");
        std::string t = s; for (char & c : t) if (r.chance(1, 3)) c = char(std::toupper(c));
        parse(t);
        for (unsigned k = 0; k < 4; ++k) { std::string m = t; 
            for (std::size_t n = r.size(2) + 1; n--; ) { std::size_t const at = r.below(m.size() + 1); char const c = r.flip() ? "-gG{} \n\t0aF+_x\0:"[r.below(16)] : char(r.below(256));
                switch (r.below(7)) { case 0: m.insert(at, 1, c); break; case 1: if (at < m.size()) m.erase(at, 1); break; case 2: m.resize(r.below(40), c); break; case 3: if (at < m.size()) std::swap(m[at], m[r.below(m.size())]); break; case 4: m.erase(std::remove(m.begin(), m.end(), '-'), m.end()); break; case 5: m = r.flip() ? "{" + m + "}" : r.flip() ? " " + m : m + " "; break; default: if (at < m.size()) m[at] = c; break; } }
            parse(m); }
        vm::signature(vm::hashStr(s) ^ vm::hashStr(t));
    });
}
VM_SCENARIO(uuid_sets, "asan", 400, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::size_t const n = 1 + r.below(300); vm::describe(vm::format("%zu UUIDs", n)); std::map<Bytes, int> m; std::map<Uuid, int> o; std::unordered_map<Uuid, int> u; std::set<std::size_t> hashes; std::set<Bytes> distinct;
        for (std::size_t k = 0; k < n; ++k) { Bytes b = r.chance(1, 4) && !m.empty() ? m.begin()->first : random(r); if (r.chance(1, 3)) b[r.below(16)] = static_cast<unsigned char>(r.below(4)); int const v = int(r.word()); m[b] = v; o[uuid(b)] = v; u[uuid(b)] = v; distinct.insert(b); hashes.insert(std::hash<Uuid>()(uuid(b))); if (r.chance(1, 5)) { m.erase(b); o.erase(uuid(b)); u.erase(uuid(b)); } }
        VM_CHECK(m.size() == o.size() && m.size() == u.size(), "sets", "%zu UUIDs, %zu in the ordered, %zu in the hashed map", m.size(), o.size(), u.size());
        auto it = o.begin(); for (auto const & p : m) { VM_CHECK(bytes(it->first) == p.first && it->second == p.second, "sets", "the ordered map is in another order than the bytes"); ++it; auto const f = u.find(uuid(p.first)); VM_CHECK(f != u.end() && f->second == p.second, "sets", "the UUID %s is not found in the hashed map", print(p.first).c_str()); }
        VM_CHECK(hashes.size() + 2 + distinct.size() / 10 >= distinct.size(), "hash", "%zu different UUIDs have %zu different hashes", distinct.size(), hashes.size());
        vm::event("uuids", n); vm::signature(i);
    });
}
VM_SCENARIO(names, "asan plain", 1500, 60000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::string s(r.size(200), ' '); for (char & c : s) c = char(1 + r.below(255)); vm::describe(vm::jsonStr(s));
        Bytes ns; { std::string const t = "Sharemind~(^_^)~"; std::copy(t.begin(), t.end(), ns.begin()); }
        VM_CHECK(bytes(sharemind::sharemindNamespaceUuid) == ns, "namespace", "the namespace UUID is %s", print(bytes(sharemind::sharemindNamespaceUuid)).c_str());
        Bytes const want = nameBased(ns, s); sharemind::SharemindUuidGenerator g;
        auto const is = [&](Uuid const & u, char const * how) { VM_CHECK(bytes(u) == want, "name", "the UUID of the name %s (%s) is %s, should be %s", vm::jsonStr(s).c_str(), how, print(bytes(u)).c_str(), print(want).c_str()); VM_CHECK(u.version() == Uuid::version_name_based_sha1 && u.variant() == Uuid::variant_rfc_4122, "name", "not a name based UUID"); };
        is(sharemind::generateSharemindNameUuid(s), "string"); is(sharemind::generateSharemindNameUuid(s.c_str()), "characters"); is(sharemind::generateSharemindNameUuid(static_cast<void const *>(s.data()), s.size()), "bytes"); is(g(s), "generator"); is(g(s), "generator again"); { auto g2 = g; is(g2(s), "copied generator"); }
        vm::event("names"); vm::signature(vm::hashStr(s));
    });
}
/* ---- strong types */
namespace {
using namespace sharemind;
struct Sink { std::string s; template <typename T> Sink & operator<<(T const & t) { std::ostringstream o; o << t; s += "<" + o.str() + ">"; return *this; } };
struct TagA; struct TagB;
template <typename T, typename Tag> using Plain = StrongType<T, Tag, StrongTypeHashable, StrongTypeFullyComparable, StrongTypeSwappable, StrongTypeStreamable>;
template <typename T> using Other = StrongType<T, TagB>;
template <typename T> using Number = StrongType<T, TagA, StrongTypeHashable, StrongTypeFullyComparable, StrongTypeSwappable, StrongTypeStreamable, StrongTypeStreamableTo<Sink>, StrongTypeIncrementable, StrongTypeDecrementable,
    StrongTypeAddAssignable, StrongTypeSubAssignable, StrongTypeMulAssignable, StrongTypeDivAssignable, StrongTypeAddAssignableWith<T>, StrongTypeSubAssignableWith<T>, StrongTypeMulAssignableWith<T>, StrongTypeDivAssignableWith<T>,
    StrongTypeAddAssignableWith<Other<T> >, StrongTypeSubAssignableWith<Other<T> >, StrongTypeMulAssignableWith<Other<T> >, StrongTypeDivAssignableWith<Other<T> > >;
template <typename T> using Integer = StrongType<T, TagA, StrongTypeHashable, StrongTypeFullyComparable, StrongTypeModAssignable, StrongTypeXorAssignable, StrongTypeAndAssignable, StrongTypeOrAssignable, StrongTypeModAssignableWith<T>, StrongTypeXorAssignableWith<T>,
    StrongTypeAndAssignableWith<T>, StrongTypeOrAssignableWith<T>, StrongTypeModAssignableWith<Other<T> >, StrongTypeXorAssignableWith<Other<T> >, StrongTypeAndAssignableWith<Other<T> >, StrongTypeOrAssignableWith<Other<T> >, StrongTypePreIncrementable, StrongTypePostDecrementable>;
template <typename T, bool = std::is_floating_point<T>::value> struct Draw { static T get(vm::Rng & r) { using L = std::numeric_limits<T>; switch (r.below(5)) { case 0: return L::max(); case 1: return L::min(); case 2: return T(r.below(3)); default: return T(r.word()); } } };
template <typename T> struct Draw<T, true> { static T get(vm::Rng & r) { using L = std::numeric_limits<T>; switch (r.below(8)) { case 0: return L::quiet_NaN(); case 1: return L::infinity(); case 2: return -L::infinity(); case 3: return T(0) * (r.flip() ? T(1) : T(-1)); default: return T(std::int64_t(r.word())) / T(1 + r.below(1000)); } } };
template <typename T> bool identical(T a, T b) { return a == b || (a != a && b != b); }
template <typename S, typename T> void compares(T x, T y) {
    S const a(x), b(y);
#define CMP(op) VM_CHECK((a op b) == (x op y), "strong-compare", "strong types compare " #op " %d, their values %d", int(a op b), int(x op y));
    CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
    std::hash<T> const h{}; std::hash<S> const hs{}; VM_CHECK(hs(a) == h(x) && a.hash() == h(x) && hs(b) == b.hash(), "strong-hash", "a strong type hashes to another value than what it holds");
}
template <typename S, typename T> void swaps(T x, T y) {
    S a(x), b(y); swap(a, b); VM_CHECK(identical(a.get(), y) && identical(b.get(), x), "strong-swap", "swap()"); std::swap(a, b); VM_CHECK(identical(a.get(), x) && identical(b.get(), y), "strong-swap", "std::swap()");
    using std::swap; swap(a, a); VM_CHECK(identical(a.get(), x), "strong-swap", "swap() with itself"); S c(a); c = b; S d(std::move(c)); VM_CHECK(identical(d.get(), y), "strong-copy", "a copy has another value"); d.get() = x; VM_CHECK(identical(static_cast<S const &>(d).get(), x), "strong-copy", "writing through get()");
    std::ostringstream o, p; o << std::hex << a << ' ' << b; p << std::hex << x << ' ' << y; VM_CHECK(o.str() == p.str(), "strong-stream", "a strong type prints as %s, its value as %s", o.str().c_str(), p.str().c_str());
}
template <typename S, typename T> void neverMix() {
    struct X { bool bad; char const * what; };
    for (X const & x : {X{std::is_convertible<T, S>::value, "a value converts to it implicitly"}, X{std::is_convertible<S, T>::value, "it converts to its value implicitly"}, X{std::is_constructible<T, S>::value, "it converts to its value"},
                        X{std::is_constructible<S, Other<T> >::value, "it is made from another strong type"}, X{std::is_assignable<S &, T>::value, "a value is assigned to it"}, X{std::is_assignable<S &, Other<T> >::value, "another strong type is assigned to it"}})
        VM_CHECK(!x.bad, "strong-mix", "a strong type mixes: %s", x.what);
    VM_CHECK(IsStrongType<S>::value && !IsStrongType<T>::value && (IsStrongTypeOf<S, T>::value) && !(IsStrongTypeOf<S, TagA>::value), "strong-mix", "IsStrongType");
}
template <typename T> T safe(T x, unsigned op, T y) { /* operands with a defined result, or itself */
    using W = typename std::conditional<std::is_floating_point<T>::value, long double, __int128>::type; using L = std::numeric_limits<T>;
    if (std::is_floating_point<T>::value) return y;
    if (op >= 3) return y == T(0) || (y == T(-1) && L::is_signed) ? T(1) : y;
    W const a = W(x), b = W(y), z = op == 0 ? a + b : op == 1 ? a - b : a * b;
    if (sizeof(T) < sizeof(int)) return y; if (!L::is_signed) return y;
    return z > W(L::max()) || z < W(L::min()) ? T(0) : y;
}
template <typename T> void numbers(vm::Rng & r, char const * type) {
    using S = Number<T>; T x = Draw<T>::get(r); T const y0 = Draw<T>::get(r); vm::describe(vm::format("strong %s", type)); compares<S, T>(x, y0); swaps<S, T>(x, y0); neverMix<S, T>(); if (r.chance(1, 3)) compares<S, T>(x, x);
    S a(x); std::uint64_t sig = std::hash<T>()(x);
    for (unsigned k = 0; k < 20; ++k) {
        unsigned const op = unsigned(r.below(4)), kind = unsigned(r.below(3)); T const y = safe<T>(x, op, Draw<T>::get(r)); S const b(y); Other<T> const c(y); S * back = nullptr;
#define OP(o) x = T(x o y); back = kind == 0 ? &(a o##= b) : kind == 1 ? &(a o##= y) : &(a o##= c);
        switch (op) { case 0: OP(+) break; case 1: OP(-) break; case 2: OP(*) break; default: OP(/) break; }
        VM_CHECK(back == &a, "strong-arithmetic", "an assignment operator returns something else"); VM_CHECK(identical(a.get(), x), "strong-arithmetic", "operator %c= of strong %s gives another value than on the value", "+-*/"[op], type); VM_CHECK(identical(b.get(), y) && identical(c.get(), y), "strong-arithmetic", "the right operand changed");
        sig = vm::mix(sig ^ std::hash<T>()(x));
    }
    if (!std::numeric_limits<T>::is_signed || (double(x) < 100 && double(x) > -100)) {} else { x = T(5); a = S(x); }
    S b = a++; VM_CHECK(identical(b.get(), x), "strong-increment", "a++ returns something else"); ++x; VM_CHECK(identical(a.get(), x), "strong-increment", "a++"); S & c = ++a; ++x; VM_CHECK(&c == &a && identical(a.get(), x), "strong-increment", "++a");
    b = a--; VM_CHECK(identical(b.get(), x), "strong-increment", "a-- returns something else"); --x; VM_CHECK(identical(a.get(), x), "strong-increment", "a--"); S & d = --a; --x; VM_CHECK(&d == &a && identical(a.get(), x), "strong-increment", "--a");
    Sink sink, plain; sink << a << "," << b; plain << x << ","; VM_CHECK(sink.s.compare(0, plain.s.size(), plain.s) == 0, "strong-stream", "streamed to another stream as %s", sink.s.c_str());
    vm::event("operations", 30); vm::signature(sig);
}
template <typename T> void integers(vm::Rng & r, char const * type) {
    using S = Integer<T>; T x = Draw<T>::get(r); compares<S, T>(x, Draw<T>::get(r)); S a(x); vm::describe(vm::format("strong bits of %s", type)); std::uint64_t sig = std::hash<T>()(x);
    for (unsigned k = 0; k < 20; ++k) {
        unsigned const op = unsigned(r.below(4)), kind = unsigned(r.below(3)); T y = Draw<T>::get(r); if (op == 0) y = safe<T>(x, 3, y); S const b(y); Other<T> const c(y); S * back = nullptr;
        switch (op) { case 0: OP(%) break; case 1: OP(^) break; case 2: OP(&) break; default: OP(|) break; }
        VM_CHECK(back == &a && a.get() == x && b.get() == y, "strong-arithmetic", "operator %c= of strong %s gives another value than on the value", "%^&|"[op], type); sig = vm::mix(sig ^ std::hash<T>()(x));
    }
    if (!std::is_same<T, bool>::value && x != std::numeric_limits<T>::max()) { ++a; ++x; VM_CHECK(a.get() == x, "strong-increment", "++a"); S const old(a--); VM_CHECK(old.get() == x, "strong-increment", "a-- returns something else"); --x; VM_CHECK(a.get() == x, "strong-increment", "a--"); }
    vm::event("operations", 20); vm::signature(sig);
}
/* Arithmetic with values of other types happens as on the values themselves, in their common type. */
template <typename T, typename U> void mixed(vm::Rng & r, char const * types) {
    using O = StrongType<U, TagB>;
    using S = StrongType<T, TagA, StrongTypeFullyComparable, StrongTypeAddAssignableWith<U>, StrongTypeSubAssignableWith<U>, StrongTypeMulAssignableWith<U>, StrongTypeDivAssignableWith<U>, StrongTypeAddAssignableWith<O>, StrongTypeSubAssignableWith<O>, StrongTypeMulAssignableWith<O>, StrongTypeDivAssignableWith<O> >;
    T x = T(r.below(100)); S a(x); std::uint64_t sig = 0; vm::describe(vm::format("strong %s", types));
    for (unsigned k = 0; k < 12; ++k) {
        U const y = std::is_floating_point<U>::value ? U(long(r.below(64)) + 3) / U(8) : U(1 + r.below(r.flip() ? 3 : 1000)); O const c(y); S * back = nullptr; unsigned const op = unsigned(r.below(4)), kind = unsigned(r.below(2));
        long double const z = op == 0 ? (long double) x + y : op == 1 ? (long double) x - y : op == 2 ? (long double) x * y : (long double) x / y;
        if (!(z < 2e9L && z > -2e9L) || (std::is_floating_point<U>::value && (z >= (long double) std::numeric_limits<T>::max() || z <= (long double) std::numeric_limits<T>::lowest())) ) { x = T(r.below(100)); a = S(x); continue; }
#define MOP(o) back = kind ? &(a o y) : &(a o c); x o y;
        switch (op) { case 0: MOP(+=) break; case 1: MOP(-=) break; case 2: MOP(*=) break; default: MOP(/=) break; }
#undef MOP
        VM_CHECK(back == &a && identical(a.get(), x) && c.get() == y, "strong-arithmetic", "operator %c= of %s gives another value than on the value", "+-*/"[op], types); sig = vm::mix(sig ^ std::uint64_t(x) ^ op);
    }
    vm::event("mixed_operations", 12); vm::signature(sig);
}
template <typename T> void pointers(vm::Rng & r, T * base, std::size_t n) {
    using S = Plain<T *, TagA>; std::size_t const i = r.below(n), j = r.below(n); compares<S, T *>(base + i, base + j); swaps<S, T *>(base + i, base + j); neverMix<S, T *>();
    std::unordered_set<S> u; std::set<T *> m; std::set<S> o; for (unsigned k = 0; k < 20; ++k) { T * const p = base + r.below(n); u.insert(S(p)); m.insert(p); o.insert(S(p)); } VM_CHECK(u.size() == m.size() && o.size() == m.size(), "strong-sets", "%zu pointers, %zu hashed", m.size(), u.size()); for (T * p : m) VM_CHECK(u.count(S(p)) && o.count(S(p)), "strong-sets", "a strong pointer is not found"); auto it = o.begin(); for (T * p : m) { VM_CHECK(it->get() == p, "strong-sets", "strong pointers in another order"); ++it; }
    vm::event("operations", 20); vm::signature(i * 100 + j);
}
}
VM_SCENARIO(strong_types, "asan plain", 12000, 500000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        if (r.chance(1, 6)) switch (r.below(6)) { case 0: return mixed<int, double>(r, "int and double"); case 1: return mixed<unsigned char, int>(r, "unsigned char and int"); case 2: return mixed<short, std::int64_t>(r, "short and int64"); case 3: return mixed<std::int64_t, float>(r, "int64 and float"); case 4: return mixed<double, int>(r, "double and int"); default: return mixed<unsigned char, std::uint64_t>(r, "unsigned char and uint64"); }
        switch (i % 14u) {
        case 0: return numbers<int>(r, "int"); case 1: return numbers<unsigned>(r, "unsigned"); case 2: return numbers<std::int64_t>(r, "int64"); case 3: return numbers<std::uint64_t>(r, "uint64"); case 4: return numbers<double>(r, "double"); case 5: return numbers<float>(r, "float");
        case 6: return numbers<short>(r, "short"); case 7: return numbers<unsigned char>(r, "unsigned char"); case 8: return integers<int>(r, "int"); case 9: return integers<std::uint64_t>(r, "uint64"); case 10: return integers<unsigned char>(r, "unsigned char"); case 11: return integers<short>(r, "short"); case 12: return integers<std::int64_t>(r, "int64");
        default: { static int v[50]; vm::describe("strong pointers"); return pointers<int>(r, v, 50); }
        }
    });
}
