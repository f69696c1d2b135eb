/* P26: unaligned pointers and references, byte order conversion.
   VM-VARIANTS: asanal plain
   VM-SAN-FLAGS: -O0 */
#include "vm.hpp"
#include <memory>
#include <sharemind/ConstUnalignedReference.h>
#include <sharemind/EndianMacros.h>
#include <sharemind/PotentiallyVoidTypeInfo.h>
#include <sharemind/StrongType.h>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
#include <sys/mman.h>
#include <type_traits>

namespace {
using namespace sharemind;
using u8 = unsigned char;
using Bytes = std::vector<u8>;
struct Tri { u8 a[3]; };
struct Pod { std::uint32_t x; std::uint16_t y, z; double d; };
template <typename T> T value(vm::Rng & r) { T v; u8 b[sizeof(T)]; for (u8 & x : b) x = u8(r.next()); std::memcpy(&v, b, sizeof(T)); return v; }
template <> bool value<bool>(vm::Rng & r) { return r.flip(); }
template <> double value<double>(vm::Rng & r) { return double(std::int64_t(r.word())) / 3.0; }
template <> float value<float>(vm::Rng & r) { return float(std::int64_t(r.word())) / 3.0f; }
template <typename T> bool same(T const & a, void const * b) { return std::memcmp(&a, b, sizeof(T)) == 0; }

struct Env { vm::Rng & r; std::uint64_t sig = 0; unsigned reads = 0, writes = 0, moves = 0; };

/* Assigning values of other arithmetic types converts them as assigning to a T does. */
template <typename T, bool = std::is_arithmetic<T>::value> struct Convert { static void one(Env &, UnalignedPointer<T>, std::size_t, u8 *) {} };
template <typename T> struct Convert<T, true> {
    template <typename U> static void from(Env & e, UnalignedPointer<T> p, std::size_t k, u8 * m, bool viaRef) {
        U u = value<U>(e.r); if (std::is_floating_point<U>::value) u = U(e.r.below(100)); if (std::is_floating_point<T>::value && sizeof(U) > 2) u = U(e.r.below(100));
        T const want = static_cast<T>(u); U const cu = u;
        if (viaRef) { u8 raw[sizeof(U) + 1]; std::memcpy(raw + 1, &u, sizeof(U)); UnalignedPointer<U> q(raw + 1); if (e.r.flip()) p[k] = *q; else { UnalignedPointer<U const> const c(raw + 1); p[k] = c[0]; } }
        else if (e.r.flip()) p[k] = u; else if (e.r.flip()) p[k] = cu; else p[k] = U(u);
        std::memcpy(m, &want, sizeof(T)); ++e.writes;
    }
    static void one(Env & e, UnalignedPointer<T> p, std::size_t k, u8 * m) {
        bool const v = e.r.flip();
        switch (e.r.below(8)) { case 0: from<std::int8_t>(e, p, k, m, v); break; case 1: from<std::uint16_t>(e, p, k, m, v); break; case 2: from<std::int32_t>(e, p, k, m, v); break; case 3: from<std::uint64_t>(e, p, k, m, v); break;
        case 4: from<double>(e, p, k, m, v); break; case 5: from<bool>(e, p, k, m, v); break; case 6: from<float>(e, p, k, m, v); break; default: from<std::int64_t>(e, p, k, m, v); }
    }
};
template <typename T> void pointers(Env & e) {
    vm::Rng & r = e.r;
    using P = UnalignedPointer<T>; using C = UnalignedPointer<T const>;
    static_assert(std::is_same<typename P::value_type, T>::value, "");
    std::size_t const n = 1 + r.below(r.chance(1, 20) ? 400 : 12), pad = r.below(17), tail = 0;
    std::unique_ptr<u8[]> mem(new u8[pad + n * sizeof(T) + tail]);
    for (std::size_t i = 0; i < pad; ++i) mem[i] = u8(r.next());
    u8 * const base = mem.get() + pad;
    for (std::size_t i = 0; i < n; ++i) { T const v = value<T>(r); std::memcpy(base + i * sizeof(T), &v, sizeof(T)); }
    Bytes model(mem.get(), mem.get() + pad + n * sizeof(T)); u8 * const m = model.data() + pad;
    auto const addr = [base](std::size_t i) { return base + i * sizeof(T); };
    P p(base), q(base); std::size_t ip = 0, iq = 0; C c(base); std::size_t ic = 0;
    auto const read = [&](std::size_t i, T const & got, char const * what) { VM_CHECK(same(got, m + i * sizeof(T)), "read", "%s at element %zu of %zu (address %% 16 = %zu) gives another value than is there", what, i, n, std::size_t(reinterpret_cast<std::uintptr_t>(addr(i)) % 16)); ++e.reads; };
    auto const bytes = [&](char const * what) { VM_CHECK(std::memcmp(mem.get(), model.data(), model.size()) == 0, "bytes", "after %s the memory differs from what was written", what); };
    auto const where = [&](char const * what) {
        VM_CHECK(static_cast<void *>(p) == addr(ip) && static_cast<void *>(q) == addr(iq) && static_cast<void const *>(c) == addr(ic), "position", "after %s a pointer is not at element %zu/%zu/%zu of %zu", what, ip, iq, ic, n);
        VM_CHECK(bool(p) && bool(c), "null", "a pointer to an element is false");
    };
    unsigned const ops = 20 + unsigned(r.below(60));
    for (unsigned k = 0; k < ops; ++k) {
        unsigned const op = unsigned(r.below(24)); e.sig = vm::mix(e.sig ^ (op + 64 * sizeof(T) + ip * 1024));
        switch (op) {
        case 0: if (ip < n) { P & x = ++p; VM_CHECK(&x == &p, "self", "++ returns another object"); ++ip; } break;
        case 1: if (ip > 0) { P & x = --p; VM_CHECK(&x == &p, "self", "-- returns another object"); --ip; } break;
        case 2: if (ip < n) { P const x = p++; VM_CHECK(static_cast<void *>(x) == addr(ip), "position", "postfix ++ does not return the old position"); ++ip; } break;
        case 3: if (ip > 0) { P const x = p--; VM_CHECK(static_cast<void *>(x) == addr(ip), "position", "postfix -- does not return the old position"); --ip; } break;
        case 4: { std::size_t const d = r.below(n - ip + 1); P & x = p += d; VM_CHECK(&x == &p, "self", "+= returns another object"); ip += d; break; }
        case 5: { std::size_t const d = r.below(ip + 1); P & x = p -= d; VM_CHECK(&x == &p, "self", "-= returns another object"); ip -= d; break; }
        case 6: { std::size_t const d = r.below(n - ip + 1); q = p + d; iq = ip + d; break; }
        case 7: { std::size_t const d = r.below(n - ip + 1); q = d + p; iq = ip + d; break; }
        case 8: { std::size_t const d = r.below(ip + 1); q = p - d; iq = ip - d; break; }
        case 9: c = C(static_cast<void *>(p)); ic = ip; break;
        case 10: { P const t(p); p = q; q = t; std::swap(ip, iq); break; }
        case 11: if (ic < n) { if (r.flip()) ++c; else c++; ++ic; } break;
        case 12: if (ic > 0) { if (r.flip()) --c; else c--; --ic; } break;
        case 13: { std::size_t const d = r.below(n - ic + 1); c += d; ic += d; break; }
        case 14: if (ip < n) { T const v = value<T>(r); *p = v; std::memcpy(m + ip * sizeof(T), &v, sizeof(T)); ++e.writes; } break;
        case 15: { std::size_t const i = r.below(n); if (i >= ip) { T v = value<T>(r); p[i - ip] = v; std::memcpy(m + i * sizeof(T), &v, sizeof(T)); ++e.writes; } break; }
        case 16: if (ip < n && iq < n) { auto const kept = *q; auto lv = *q; switch (r.below(3)) { case 0: *p = *q; break; case 1: *p = kept; break; default: *p = lv; } std::memmove(m + ip * sizeof(T), m + iq * sizeof(T), sizeof(T)); ++e.writes; } break;
        case 17: if (ip < n && ic < n) { auto const ref = *p; auto const from = *c; typename P::reference w = ref; w = from; std::memmove(m + ip * sizeof(T), m + ic * sizeof(T), sizeof(T)); ++e.writes; read(ip, ref, "a reference"); } break;
        case 18: if (ip < n) { UnalignedReference<T> x(static_cast<void *>(p)); T v = value<T>(r); UnalignedReference<T> & y = (x = T(v)); VM_CHECK(&y == &x, "self", "assigning returns another object"); std::memcpy(m + ip * sizeof(T), &v, sizeof(T)); ++e.writes;
                  ConstUnalignedReference<T> const z(static_cast<void *>(p)); read(ip, z, "a const reference"); } break;
        case 19: if (ip < n) { Convert<T>::one(e, p, 0, m + ip * sizeof(T)); } break;
        case 20: if (ip < n && iq < n) { T const a = *p, b = *q; *p = b; *q = a; /* swap through values */ Bytes t(m + ip * sizeof(T), m + (ip + 1) * sizeof(T)); std::memmove(m + ip * sizeof(T), m + iq * sizeof(T), sizeof(T)); std::memcpy(m + iq * sizeof(T), t.data(), sizeof(T)); } break;
        case 21: { std::size_t i = 0; for (C x(base); x < C(addr(n)); ++x, ++i) read(i, *x, "iterating"); VM_CHECK(i == n, "position", "iterating visits %zu of %zu elements", i, n); break; }
        default: if (ip < n) { read(ip, *p, "*p"); read(ip, p[0], "p[0]"); std::size_t const i = ip + r.below(n - ip); read(i, p[i - ip], "p[i]"); read(i, *(p + (i - ip)), "*(p + i)"); } if (ic < n) read(ic, *c, "*const p");
        }
        ++e.moves; bytes("an operation"); where("an operation");
        VM_CHECK((p == q) == (ip == iq) && (p != q) == (ip != iq) && (p < q) == (ip < iq) && (p <= q) == (ip <= iq) && (p > q) == (ip > iq) && (p >= q) == (ip >= iq), "compare", "comparing pointers to elements %zu and %zu", ip, iq);
        VM_CHECK((p == c) == (ip == ic) && (p != c) == (ip != ic) && (c < p) == (ic < ip) && (c <= p) == (ic <= ip) && (p > c) == (ip > ic) && (p >= c) == (ip >= ic), "compare", "comparing pointers to elements %zu and %zu", ip, ic);
        VM_CHECK(p - q == std::ptrdiff_t(ip) - std::ptrdiff_t(iq) && q - p == std::ptrdiff_t(iq) - std::ptrdiff_t(ip) && p - c == std::ptrdiff_t(ip) - std::ptrdiff_t(ic) && c - p == std::ptrdiff_t(ic) - std::ptrdiff_t(ip), "distance", "the distance between elements %zu, %zu and %zu", ip, iq, ic);
    }
    P const null(nullptr); VM_CHECK(!null && null == P(nullptr) && null != p, "null", "a null pointer is not null");
}
void voidInfo(Env & e) {
    vm::Rng & r = e.r; std::size_t const n = 1 + r.below(40);
    std::unique_ptr<std::uint32_t[]> a(new std::uint32_t[n]), b(new std::uint32_t[n]); for (std::size_t i = 0; i < n; ++i) { a[i] = std::uint32_t(r.next()); b[i] = 0; }
    std::size_t const i = r.below(n + 1), j = r.below(n + 1); std::uint32_t * const t = a.get(); void * const v = t; std::uint32_t const * const ct = t; void const * const cv = t;
    VM_CHECK(ptrAdd(t, i) == t + i && ptrAdd(ct, i) == t + i && ptrAdd(v, i) == static_cast<char *>(v) + i && ptrAdd(cv, i) == static_cast<char *>(v) + i, "void", "ptrAdd()");
    VM_CHECK(ptrSub(t + i, i) == t && ptrSub(ptrAdd(v, i), i) == v && ptrSub(ptrAdd(cv, i), i) == cv, "void", "ptrSub()");
    VM_CHECK(ptrDist(t + i, t + j) == std::ptrdiff_t(j) - std::ptrdiff_t(i) && ptrDist(ptrAdd(cv, i), ptrAdd(cv, j)) == std::ptrdiff_t(j) - std::ptrdiff_t(i), "void", "ptrDist()");
    VM_CHECK(sizeOf<void>() == 1 && sizeOf<void const>() == 1 && sizeOf<std::uint32_t>() == 4 && sizeOf<Pod>() == sizeof(Pod), "void", "sizeOf()");
    static_assert(std::is_same<AllocType<void>, unsigned char>::value && std::is_same<AllocType<void const>, unsigned char>::value && std::is_same<AllocType<int const>, int>::value, "");
    sharemind::copy<std::uint32_t>(t, b.get(), i); for (std::size_t k = 0; k < n; ++k) VM_CHECK(b[k] == (k < i ? a[k] : 0u), "void", "copy() of %zu elements", i);
    for (std::size_t k = 0; k < n; ++k) b[k] = 0;
    std::size_t const nb = r.below(n * 4 + 1); sharemind::copy<void>(t, b.get(), nb);
    for (std::size_t k = 0; k < n * 4; ++k) VM_CHECK(reinterpret_cast<u8 *>(b.get())[k] == (k < nb ? reinterpret_cast<u8 *>(t)[k] : 0u), "void", "copy() of %zu bytes", nb);
}
}
VM_SCENARIO(unaligned, "asanal plain", 60000, 3000000, 3, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        Env e{r}; vm::describe(vm::format("type %u", unsigned(i % 14)));
        switch (i % 14) {
        case 0: pointers<std::uint8_t>(e); break; case 1: pointers<std::int16_t>(e); break; case 2: pointers<std::uint32_t>(e); break; case 3: pointers<std::int64_t>(e); break;
        case 4: pointers<double>(e); break; case 5: pointers<float>(e); break; case 6: pointers<Tri>(e); break; case 7: pointers<Pod>(e); break; case 8: pointers<bool>(e); break;
        case 9: pointers<void *>(e); break; case 10: pointers<std::uint64_t>(e); break; case 11: pointers<char>(e); break; case 12: pointers<std::uint16_t>(e); break; default: voidInfo(e); break;
        }
        vm::event("reads", e.reads); vm::event("writes", e.writes); vm::event("moves", e.moves); vm::signature(e.sig ^ (i % 14 == 13 ? r.next() : 0));
    });
}
namespace {
/* Elements far apart: gigabytes of address space of which only the pages used are there. */
struct Space {
    std::size_t size = std::size_t(1) << 37; u8 * base;
    Space() { for (;; size /= 2) { void * const m = ::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m != MAP_FAILED) { base = static_cast<u8 *>(m); return; } if (size < 4096) std::abort(); } }
    ~Space() { ::munmap(base, size); }
};
struct Wide { u8 a[200]; };
template <typename T> void far(vm::Rng & r, Space & s, std::uint64_t & sig) {
    using P = UnalignedPointer<T>; std::size_t const first = r.below(17), n = (s.size - 64) / sizeof(T); u8 * const base = s.base + first; P const begin(base);
    std::vector<std::pair<std::size_t, T>> at; P p(base); std::size_t ip = 0;
    for (unsigned k = 0; k < 12; ++k) {
        std::size_t i = 0;
        switch (r.below(5)) { case 0: i = r.next() % n; break; case 1: i = ((std::size_t(1) << r.below(38)) + r.below(5) - 2) % n; break; case 2: i = n - 1 - r.below(3); break; case 3: i = ip; break;
        default: { std::size_t const up = (std::size_t(1) << 32) * (1 + r.below(s.size >> 32 ? s.size >> 32 : 1)); std::uintptr_t const b = reinterpret_cast<std::uintptr_t>(base), want = ((b + up) >> 32) << 32; if (want > b && (want - b) % sizeof(T) == 0) i = ((want - b) / sizeof(T)) % n; else i = r.next() % n; } } /* where the low half of the address is all zeroes */
        P q(base); std::size_t const was = ip;
        switch (r.below(6)) { case 0: q = begin + i; break; case 1: q = i + begin; break; case 2: q = begin; q += i; break; case 3: q = p; if (i >= ip) q += i - ip; else q -= ip - i; break; case 4: q = i >= ip ? p + (i - ip) : p - (ip - i); break; default: { P const end(base + n * sizeof(T)); q = end - (n - i); } }
        sig = vm::mix(sig ^ i);
        VM_CHECK(static_cast<void *>(q) == base + i * sizeof(T), "far", "a step of %zu elements from element %zu ends elsewhere", i, was);
        VM_CHECK(bool(q) && !(!q) && q - begin == std::ptrdiff_t(i) && begin - q == -std::ptrdiff_t(i) && q - p == std::ptrdiff_t(i) - std::ptrdiff_t(ip), "far", "the distance to element %zu of %zu from 0 and from %zu", i, n, ip);
        VM_CHECK((q < p) == (i < ip) && (q <= p) == (i <= ip) && (q > p) == (i > ip) && (q >= p) == (i >= ip) && (q == p) == (i == ip) && (q != p) == (i != ip), "far", "comparing elements %zu and %zu", i, ip);
        T const v = value<T>(r);
        if (at.size() < 6) { begin[i] = v; bool known = false; for (auto & a : at) if (a.first == i) { a.second = v; known = true; } if (!known) at.emplace_back(i, v); }
        p = q; ip = i;
    }
    for (auto const & a : at) VM_CHECK(same(a.second, base + a.first * sizeof(T)) && same(static_cast<T>(begin[a.first]), &a.second), "far", "element %zu has not kept its value", a.first);
    for (auto const & a : at) std::memset(base + a.first * sizeof(T), 0, sizeof(T));
    vm::event("far_steps", 12);
}
/* Elements that overlap: the one assigned to gets the value that the other one had. */
template <typename T> void overlap(vm::Rng & r) {
    std::unique_ptr<u8[]> mem(new u8[3 * sizeof(T)]); for (std::size_t i = 0; i < 3 * sizeof(T); ++i) mem[i] = u8(r.next());
    std::size_t const a = r.below(2 * sizeof(T) + 1), b = r.chance(1, 8) ? a : r.below(2 * sizeof(T) + 1); Bytes want(mem.get(), mem.get() + 3 * sizeof(T)); std::memmove(want.data() + a, want.data() + b, sizeof(T));
    UnalignedPointer<T> const p(mem.get() + a), q(mem.get() + b); UnalignedPointer<T const> const c(mem.get() + b);
    switch (r.below(4)) { case 0: *p = *q; break; case 1: p[0] = *c; break; case 2: { auto const from = *q; *p = from; break; } default: { T const v = *q; *p = v; } }
    VM_CHECK(std::memcmp(mem.get(), want.data(), want.size()) == 0, "overlap", "an element at %zu assigned from one at %zu, both %zu bytes long", a, b, sizeof(T));
    vm::event("overlaps");
}
}
VM_SCENARIO(distances, "asanal plain", 1500, 60000, 1, 1) {
    Space s;
    vm::runCases([&s](vm::Rng & r, std::uint64_t i) {
        std::uint64_t sig = i; vm::describe(vm::format("type %u", unsigned(i % 5)));
        switch (i % 5) { case 0: far<u8>(r, s, sig); break; case 1: far<std::uint16_t>(r, s, sig); break; case 2: far<double>(r, s, sig); break; case 3: far<Tri>(r, s, sig); break; default: far<Wide>(r, s, sig); }
        for (unsigned k = 0; k < 8; ++k) { overlap<Wide>(r); overlap<std::uint64_t>(r); overlap<Tri>(r); overlap<Pod>(r); }
        ::madvise(s.base, s.size, MADV_DONTNEED); vm::signature(sig);
    });
}
namespace {
struct Tag; 
template <typename T> void order(T const v) {
    using U = std::make_unsigned_t<T>; using S = StrongType<T, Tag>;
    u8 be[sizeof(T)], le[sizeof(T)]; U u; std::memcpy(&u, &v, sizeof v);
    for (std::size_t i = 0; i < sizeof(T); ++i) le[i] = be[sizeof(T) - 1 - i] = u8(std::uint64_t(u) >> (8 * i));
    T b, l, s; std::memcpy(&b, be, sizeof b); std::memcpy(&l, le, sizeof l);
    auto const name = [] { return vm::format("%s%zu", std::is_signed<T>::value ? "int" : "uint", sizeof(T) * 8); };
#define IS(expr, bytes) s = (expr); VM_CHECK(std::memcmp(&s, bytes, sizeof s) == 0, "order", #expr " of %s %lld", name().c_str(), static_cast<long long>(v));
    IS(hostToBigEndian(v), be) IS(hostToLittleEndian(v), le) IS(hostToSharemindNetOrder(v), le)
    IS(bigEndianToHost(b), &v) IS(littleEndianToHost(l), &v) IS(sharemindNetToHostOrder(l), &v)
    IS(hostToBigEndian(S(v)).get(), be) IS(hostToLittleEndian(S(v)).get(), le) IS(hostToSharemindNetOrder(S(v)).get(), le)
    IS(bigEndianToHost(S(b)).get(), &v) IS(littleEndianToHost(S(l)).get(), &v) IS(sharemindNetToHostOrder(S(l)).get(), &v)
#undef IS
    static_assert(std::is_same<decltype(hostToBigEndian(v)), T>::value && std::is_same<decltype(bigEndianToHost(v)), T>::value && std::is_same<decltype(hostToLittleEndian(v)), T>::value && std::is_same<decltype(littleEndianToHost(v)), T>::value && std::is_same<decltype(hostToSharemindNetOrder(v)), T>::value && std::is_same<decltype(sharemindNetToHostOrder(v)), T>::value, "");
}
}
VM_SCENARIO(byte_order, "asanal plain", 700, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::describe(vm::format("block %llu", static_cast<unsigned long long>(i)));
        std::uint64_t h = 0;
        for (unsigned k = 0; k < 256; ++k) {
            order(std::uint8_t(k)); order(std::int8_t(k));
            std::uint16_t const w = std::uint16_t((i % 256) * 256 + k); order(w); order(std::int16_t(w));
            std::uint64_t const a = r.word(), b = r.next(), c = std::uint64_t(1) << (k % 64), d = std::uint64_t(k) << (8 * (i % 8));
            for (std::uint64_t x : {a, b, c, d}) { order(std::uint32_t(x)); order(std::int32_t(std::uint32_t(x))); order(x); order(std::int64_t(x)); h = vm::mix(h ^ x); }
        }
        vm::event("values", 256 * 20); vm::signature(h);
    });
}
