/* P25: packed structures, static and dynamic.
   VM-VARIANTS: asanal plain
   VM-SAN-FLAGS: -O0 */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <array>
#include <memory>
#include <new>
#include <sharemind/ConstPackedStructAccessor.h>
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/DynamicPackingInfo.h>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackingInfo.h>
#include <sharemind/PackedStruct.h>
#include <sharemind/PackedStructAccessor.h>
#include <sharemind/PackingInfo.h>
#include <type_traits>
#include <utility>

namespace {
using namespace sharemind;
using u8 = unsigned char;
using Bytes = std::vector<u8>;
struct Tri { u8 a[3]; };
struct Pod { std::uint32_t x; std::uint16_t y, z; double d; };
struct Big { std::uint64_t q[9]; };
enum class En : std::uint16_t {};
static_assert(sizeof(Tri) == 3 && sizeof(Pod) == 16, "");

/* A value of T with random bytes (and a valid representation). */
template <typename T> T value(vm::Rng & r) { T v; u8 b[sizeof(T)]; for (u8 & x : b) x = u8(r.next()); std::memcpy(&v, b, sizeof(T)); return v; }
template <> bool value<bool>(vm::Rng & r) { return r.flip(); }
template <> double value<double>(vm::Rng & r) { return double(std::int64_t(r.word())) / 3.0; }
template <> float value<float>(vm::Rng & r) { return float(std::int64_t(r.word())) / 3.0f; }
template <typename T> bool sameBytes(T const & a, void const * b) { return std::memcmp(&a, b, sizeof(T)) == 0; }
u8 const * at(void const * p) { return static_cast<u8 const *>(p); }

/* Red-zoned buffer: its data starts at an arbitrary address and ends where the allocation ends. */
struct Buffer {
    std::size_t pad, size; std::unique_ptr<u8[]> mem; Bytes before;
    Buffer(vm::Rng & r, std::size_t n) : pad(r.below(17)), size(n), mem(new u8[pad + n]) { for (std::size_t i = 0; i < pad + n; ++i) mem[i] = u8(r.next()); before.assign(mem.get(), mem.get() + pad); }
    u8 * p() { return mem.get() + pad; }
    void check(Bytes const & model, char const * what) {
        VM_CHECK(pad == 0 || std::memcmp(mem.get(), before.data(), pad) == 0, "neighbours", "%s changed bytes before the structure", what);
        VM_CHECK(size == 0 || std::memcmp(p(), model.data(), size) == 0, "bytes", "after %s the structure's bytes differ from those written", what);
    }
};
struct Ctx { vm::Rng & r; std::uint64_t & sig; unsigned writes = 0, reads = 0, failed = 0; };

/* ------------------------------------------------- compile-time layouts */
template <typename S, typename Idx, typename ... Ts> struct StaticImpl;
template <typename S, std::size_t ... Is, typename ... Ts>
struct StaticImpl<S, std::index_sequence<Is...>, Ts...> {
    using Info = PackingInfo<Ts...>;
    using Acc = PackedStructAccessor<Ts...>;
    using CAcc = ConstPackedStructAccessor<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    using Prog = void (*)(Ctx &, Buffer &, Bytes &, std::size_t);

    template <std::size_t I> static void writeOne(Ctx & c, Buffer & b, Bytes & model, std::size_t off) {
        using T = TemplateGetTypeParam_t<I, Ts...>;
        T const v = value<T>(c.r); S & s = *reinterpret_cast<S *>(b.p()); Acc a(b.p()); Acc const & ca = a;
        unsigned const how = unsigned(c.r.below(13));
        switch (how) {
        case 0: s.template set<I>(v); break;
        case 1: s.template ref<I>() = v; break;
        case 2: *s.template ptr<I>() = v; break;
        case 3: s.refs().template set<I>(v); break;
        case 4: a.template set<I>(v); break;
        case 5: a.template ref<I>() = v; break;
        case 6: ca.template ptr<I>()[0] = v; break;
        case 7: Info::template set<I>(b.p(), v); break;
        case 8: Info::template ref<I>(b.p()) = v; break;
        case 9: *Info::template ptr<I>(b.p()) = v; break;
        case 10: std::memcpy(s.template voidPtr<I>(), &v, sizeof(T)); break;
        case 11: std::memcpy(Info::template voidPtr<I>(b.p()), &v, sizeof(T)); break;
        default: { T const other = value<T>(c.r); auto const ref = s.template ref<I>(); s.template set<I>(other); s.template ref<I>() = v; T const back = ref; VM_CHECK(sameBytes(back, &v), "ref", "a reference does not follow its field"); }
        }
        std::memcpy(model.data() + off, &v, sizeof(T)); ++c.writes; c.sig = vm::mix(c.sig ^ (I * 64 + how));
    }
    template <std::size_t I> static void readOne(Ctx & c, Buffer & b, Bytes & model, std::size_t off) {
        using T = TemplateGetTypeParam_t<I, Ts...>;
        S & s = *reinterpret_cast<S *>(b.p()); S const & cs = s; Acc const a(b.p()); CAcc const k(a), k2(b.p());
        u8 const * const m = model.data() + off;
        auto const is = [&](T const & got, char const * what) { VM_CHECK(sameBytes(got, m), "read", "%s of field %zu gives another value than was written", what, I); ++c.reads; };
        is(s.template get<I>(), "get()"); is(cs.template ref<I>(), "const ref()"); is(s.template ref<I>(), "ref()"); is(cs.template cref<I>(), "cref()");
        is(*cs.template ptr<I>(), "const ptr()"); is(*cs.template constPtr<I>(), "constPtr()"); is(*s.template ptr<I>(), "ptr()");
        is(a.template get<I>(), "accessor get()"); is(a.template ref<I>(), "accessor ref()"); is(a.template cref<I>(), "accessor cref()"); is(*a.template constPtr<I>(), "accessor constPtr()");
        is(k.template get<I>(), "const accessor get()"); is(k.template ref<I>(), "const accessor ref()"); is(k2.template cref<I>(), "const accessor cref()"); is(*k2.template ptr<I>(), "const accessor ptr()");
        is(s.refs().template get<I>(), "refs().get()"); is(cs.refs().template get<I>(), "const refs().get()"); is(cs.crefs().template get<I>(), "crefs().get()");
        is(Info::template get<I>(b.p()), "info get()"); is(Info::template cref<I>(b.p()), "info cref()"); is(*Info::template constPtr<I>(b.p()), "info constPtr()");
        u8 const * const w = b.p() + off;
        VM_CHECK(at(s.template voidPtr<I>()) == w && at(cs.template voidPtr<I>()) == w && at(cs.template constVoidPtr<I>()) == w
                 && at(a.template voidPtr<I>()) == w && at(a.template constVoidPtr<I>()) == w && at(k.template voidPtr<I>()) == w && at(k.template constVoidPtr<I>()) == w
                 && at(Info::template voidPtr<I>(b.p())) == w && at(Info::template constVoidPtr<I>(b.p())) == w,
                 "offset", "field %zu is not at offset %zu", I, off);
        VM_CHECK(at(static_cast<void *>(s.template ptr<I>())) == w && at(static_cast<void const *>(cs.template ptr<I>())) == w, "offset", "the pointer to field %zu is not at offset %zu", I, off);
    }
    template <std::size_t I> static void shape(std::array<std::size_t, N + 1> const & off) {
        VM_CHECK(Info::template ElemOffset<I>::value == off[I] && S::template ElemOffset<I>::value == off[I] && Acc::template ElemOffset<I>::value == off[I], "offset", "ElemOffset<%zu> is %zu, not %zu", I, std::size_t(Info::template ElemOffset<I>::value), off[I]);
        VM_CHECK(Info::template PrefixType<I>::size() == off[I] && Info::template SuffixType<I>::size() == off[N] - off[N - I], "prefix", "prefix or suffix at field %zu has a wrong size", I);
        VM_CHECK(sizeof(typename S::template SuffixType<I + 1u>) == off[N] - off[N - I - 1u] && sizeof(typename S::template PrefixType<I + 1u>) == off[I + 1u], "prefix", "suffix structure at field %zu has a wrong size", I);
    }
    static void run(vm::Rng & r, std::uint64_t & sig, Ctx & c) {
        (void) sig;
        std::array<std::size_t, N> const sizes{{sizeof(Ts)...}};
        std::array<std::size_t, N + 1> off; off[0] = 0; for (std::size_t i = 0; i < N; ++i) off[i + 1] = off[i] + sizes[i];
        std::size_t const total = off[N];
        int const x[] = {(shape<Is>(off), 0)...}; (void) x;
        VM_CHECK(sizeof(S) == total && alignof(S) == 1u && S::size() == total && S::staticSize() == total && S::minSizeInBytes() == total && S::maxSizeInBytes() == total
                 && Info::size() == total && Info::minSizeInBytes() == total && Info::maxSizeInBytes() == total && Info::sizeInBytes() == total && Acc::size() == total && CAcc::size() == total,
                 "size", "structure of %zu fields has size %zu (reported %zu), not %zu", N, sizeof(S), std::size_t(S::size()), total);
        VM_CHECK(S::numFields() == N && Info::numFields() == N && !S::hasDynamicFields() && S::numDynamicFields() == 0 && !Info::hasDynamicFields(), "size", "number of fields");
        static Prog const writers[] = {&StaticImpl::template writeOne<Is>...}, readers[] = {&StaticImpl::template readOne<Is>...};
        Buffer b(r, total), other(r, total); Bytes model(b.p(), b.p() + total), model2(other.p(), other.p() + total);
        auto const all = [&] { for (std::size_t i = 0; i < N; ++i) readers[i](c, b, model, off[i]); b.check(model, "reading"); };
        unsigned const n = 10 + unsigned(r.below(40));
        /* valid representations (bool) everywhere first */
        for (std::size_t i = 0; i < N; ++i) { writers[i](c, b, model, off[i]); b.check(model, "initializing"); writers[i](c, other, model2, off[i]); }
        for (unsigned i = 0; i < n; ++i) {
            std::size_t const f = r.below(N); S & s = *reinterpret_cast<S *>(b.p()); S & o = *reinterpret_cast<S *>(other.p());
            switch (r.below(12)) {
            case 0: { S const copy(s); writers[f](c, b, model, off[f]); b.check(model, "writing a field");
                      s = copy; std::memcpy(model.data(), &copy, total); b.check(model, "assigning a copy");
                      VM_CHECK(s == copy && !(s != copy), "equality", "a structure differs from its copy"); break; }
            case 1: o = s; model2 = model; VM_CHECK(o == s && s == o && !(o != s), "equality", "a structure differs from its copy");
                    { std::size_t const g = r.below(N); writers[g](c, other, model2, off[g]); } break;
            case 2: { S const copy(std::move(s)); VM_CHECK(std::memcmp(&copy, model.data(), total) == 0, "copy", "a copy has other bytes"); break; }
            case 3: { Acc a(b.p()), a2(other.p()); CAcc k(a), k2(other.p());
                      bool const e = model == model2; VM_CHECK((a == a2) == e && (a != a2) == !e && (k == k2) == e && (k != k2) == !e, "equality", "comparison through accessors");
                      a = a2; k = k2; VM_CHECK(a.data() == other.p() && a.constData() == other.p() && k.data() == other.p() && k.constData() == other.p(), "rebind", "assigning an accessor does not rebind it");
                      b.check(model, "rebinding an accessor"); break; }
            case 4: { S const & cs = s; u8 const * const p = b.p();
                      VM_CHECK(at(s.data()) == p && at(cs.data()) == p && at(cs.constData()) == p && s.dataUint8() == p && cs.dataUint8() == p && cs.constDataUint8() == p && at(s.dataChar()) == p && at(cs.dataChar()) == p && at(cs.constDataChar()) == p && s.dataUnsignedChar() == p && cs.dataUnsignedChar() == p && cs.constDataUnsignedChar() == p, "data", "data() is not where the structure is");
                      u8 const * const e = p + total; Acc a(b.p()); CAcc const k(b.p());
                      VM_CHECK(at(s.endVoidPtr()) == e && at(cs.endVoidPtr()) == e && at(cs.endConstVoidPtr()) == e && at(a.endVoidPtr()) == e && at(a.endConstVoidPtr()) == e && at(k.endVoidPtr()) == e && at(Info::endVoidPtr(b.p())) == e && at(Info::endVoidPtr(p)) == e && at(Info::endConstVoidPtr(p)) == e, "end", "the end of the structure is not %zu bytes after its start", total); break; }
            default: writers[f](c, b, model, off[f]); b.check(model, "writing a field");
            }
            bool const e = model == model2;
            VM_CHECK((s == o) == e && (s != o) == !e, "equality", "structures with %s bytes compare %s", e ? "equal" : "different", e ? "different" : "equal");
            readers[f](c, b, model, off[f]);
            other.check(model2, "operations on another structure");
            if (i % 8 == 0) all();
        }
        all();
    }
};
template <typename ... Ts> void staticRun(vm::Rng & r, std::uint64_t & sig, Ctx & c) {
    static_assert(std::is_same<PackedStruct<Ts...>, MaybeDynamicPackedStruct<Ts...> >::value && std::is_same<PackingInfo<Ts...>, MaybeDynamicPackingInfo<Ts...> >::value, "");
    StaticImpl<PackedStruct<Ts...>, std::index_sequence_for<Ts...>, Ts...>::run(r, sig, c);
}
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using Runner = void (*)(vm::Rng &, std::uint64_t &, Ctx &);
Runner const statics[] = {
    staticRun<u8>, staticRun<u64>, staticRun<char, i32, double>, staticRun<u8, u16, u32, u64>, staticRun<u64, u32, u16, u8>, staticRun<Tri, i64, Tri, float, Tri>,
    staticRun<bool, bool, i16, bool, Pod, char>, staticRun<char, Big, i16, Big>, staticRun<u8, u8, u8, u8, u8, u8, u8, u8, u8, double, u8>,
    staticRun<void *, char, void const *, En, En>, staticRun<i8, i64, i8, i32, i8, i16, i8, float, i8, double, i8, Tri, i8, Pod, i8>, staticRun<i16, Big, u8>, staticRun<i32, i32, i32>
};
}
VM_SCENARIO(static_layouts, "asanal plain", 6500, 260000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::uint64_t sig = vm::mix(i % (sizeof(statics) / sizeof(*statics)));
        Ctx c{r, sig};
        vm::describe(vm::format("layout %zu", std::size_t(i % (sizeof(statics) / sizeof(*statics)))));
        std::size_t const k = std::size_t(i % (sizeof(statics) / sizeof(*statics)));
        statics[k](r, sig, c);
        vm::event("writes", c.writes); vm::event("reads", c.reads); vm::signature(sig);
    });
}

/* ------------------------------------------------------- run-time layouts */
namespace {
template <typename T> struct Kind {
    static constexpr bool dynamic = false; using E = T;
    static std::size_t bytes(std::size_t const *&) { return sizeof(T); }
    static constexpr std::size_t lo = 1, hi = 1, esize = sizeof(T);
};
template <std::size_t Lo, std::size_t Hi> struct Kind<DynamicFieldPlaceholder<Lo, Hi> > {
    static constexpr bool dynamic = true; using E = void; static constexpr std::size_t lo = Lo, hi = Hi, esize = 1;
    static std::size_t bytes(std::size_t const *& s) { return *s++; }
};
template <typename T, std::size_t Lo, std::size_t Hi> struct Kind<DynamicVectorFieldPlaceholder<T, Lo, Hi> > {
    static constexpr bool dynamic = true; using E = T; static constexpr std::size_t lo = Lo, hi = Hi, esize = sizeof(T);
    static std::size_t bytes(std::size_t const *& s) { return *s++ * sizeof(T); }
};
template <bool D> struct Limits { template <typename K> static void add(std::vector<std::pair<std::size_t, std::size_t> > &) {} };
template <> struct Limits<true> { template <typename K> static void add(std::vector<std::pair<std::size_t, std::size_t> > & v) { v.push_back({std::size_t(K::lo), std::size_t(K::hi)}); } };

struct Layout { std::vector<std::size_t> off; std::vector<std::size_t> counts; };

template <std::size_t D> struct Call;
#define VM_CALL(n, ...) template <> struct Call<n> { template <typename F> static auto with(std::vector<std::size_t> const & a, F const & f) -> decltype(f(__VA_ARGS__)) { (void) a; return f(__VA_ARGS__); } };
VM_CALL(0) VM_CALL(1, std::size_t(a[0])) VM_CALL(2, std::size_t(a[0]), std::size_t(a[1])) VM_CALL(3, std::size_t(a[0]), std::size_t(a[1]), std::size_t(a[2])) VM_CALL(4, std::size_t(a[0]), std::size_t(a[1]), std::size_t(a[2]), std::size_t(a[3]))
#undef VM_CALL

template <typename ... Ts> struct Dyn {
    using S = DynamicPackedStruct<Ts...>;
    using Info = DynamicPackingInfo<Ts...>;
    using Arr = typename Info::AccumArrayType;
    static constexpr std::size_t N = sizeof...(Ts);
    static constexpr std::size_t countDyn() { std::size_t n = 0; bool const d[] = {Kind<Ts>::dynamic...}; for (bool x : d) n += x; return n; }
    static constexpr std::size_t D = countDyn();
    struct Obj { std::unique_ptr<S> s; Layout l; Bytes m; };

    static Layout layout(std::vector<std::size_t> const & counts) {
        Layout l; l.counts = counts; l.off.push_back(0);
        std::size_t const * p = counts.data();
        std::size_t const x[] = {(l.off.push_back(l.off.back() + Kind<Ts>::bytes(p)), std::size_t(0))...}; (void) x;
        return l;
    }
    static std::vector<std::size_t> counts(vm::Rng & r) {
        std::vector<std::pair<std::size_t, std::size_t> > lim; int const x[] = {(Limits<Kind<Ts>::dynamic>::template add<Kind<Ts> >(lim), 0)...}; (void) x;
        std::vector<std::size_t> c;
        for (auto const & l : lim) { std::size_t const hi = std::min(l.second, l.first + std::size_t(r.chance(1, 150) ? 70000 : r.chance(1, 12) ? 2500 : r.chance(1, 4) ? 300 : 20)); c.push_back(r.chance(1, 4) ? l.first : l.first + r.below(hi - l.first + 1u)); }
        return c;
    }
    static std::unique_ptr<S> make(std::vector<std::size_t> const & c) { return Call<D>::with(c, [](auto ... a) { return std::unique_ptr<S>(new S(a...)); }); }
    static Arr array(std::vector<std::size_t> const & c) { return Call<D>::with(c, [](auto ... a) { return Arr(a...); }); }

    /* -- access to one field, by its kind -- */
    template <std::size_t I, typename T> struct Field { /* static field */
        static void write(Ctx & c, Obj & o) {
            T const v = value<T>(c.r); S & s = *o.s; unsigned const how = unsigned(c.r.below(4));
            switch (how) { case 0: s.template set<I>(v); break; case 1: s.template ref<I>() = v; break; case 2: *s.template ptr<I>() = v; break; default: std::memcpy(s.template voidPtr<I>(), &v, sizeof(T)); }
            std::memcpy(o.m.data() + o.l.off[I], &v, sizeof(T)); ++c.writes; c.sig = vm::mix(c.sig ^ (I * 8 + how));
        }
        static void read(Ctx & c, Obj & o) {
            S & s = *o.s; S const & k = s; u8 const * const m = o.m.data() + o.l.off[I];
            auto const is = [&](T const & got, char const * what) { VM_CHECK(sameBytes(got, m), "read", "%s of field %zu gives another value than was written", what, I); ++c.reads; };
            is(k.template get<I>(), "get()"); is(s.template get<I>(), "get()"); is(k.template cref<I>(), "cref()"); is(s.template ref<I>(), "ref()"); is(*k.template ptr<I>(), "ptr()"); is(*k.template constPtr<I>(), "constPtr()");
        }
        static void raw(Ctx & c, Arr const & a, Buffer & b, Bytes & model, std::size_t off, std::size_t) {
            T const v = value<T>(c.r); unsigned const how = unsigned(c.r.below(6));
            switch (how) { case 0: Info::template set<I>(b.p(), a, v); break; case 1: Info::template ref<I>(b.p(), a) = v; break; case 2: *Info::template ptr<I>(b.p(), a) = v; break; case 3: a.template set<I>(b.p(), v); break; case 4: a.template ref<I>(b.p()) = v; break; default: *a.template ptr<I>(b.p()) = v; }
            std::memcpy(model.data() + off, &v, sizeof(T)); b.check(model, "writing a field through packing info"); ++c.writes;
            T const g1 = Info::template get<I>(b.p(), a), g2 = Info::template cref<I>(b.p(), a), g3 = *Info::template constPtr<I>(b.p(), a), g4 = a.template get<I>(b.p()), g5 = a.template cref<I>(b.p()), g6 = *a.template constPtr<I>(b.p());
            VM_CHECK(sameBytes(g1, &v) && sameBytes(g2, &v) && sameBytes(g3, &v) && sameBytes(g4, &v) && sameBytes(g5, &v) && sameBytes(g6, &v), "read", "packing info reads another value from field %zu", I); ++c.reads;
        }
    };
    template <std::size_t I, std::size_t Lo, std::size_t Hi> struct Field<I, DynamicFieldPlaceholder<Lo, Hi> > {
        static void write(Ctx & c, Obj & o) {
            std::size_t const n = o.l.off[I + 1] - o.l.off[I]; if (!n) return;
            std::size_t const from = c.r.below(n), len = 1 + c.r.below(n - from); Bytes v(len); for (u8 & x : v) x = u8(c.r.next());
            std::memcpy(static_cast<u8 *>(c.r.flip() ? o.s->template ptr<I>() : o.s->template voidPtr<I>()) + from, v.data(), len);
            std::memcpy(o.m.data() + o.l.off[I] + from, v.data(), len); ++c.writes; c.sig = vm::mix(c.sig ^ (I * 8 + 5));
        }
        static void read(Ctx & c, Obj & o) {
            std::size_t const n = o.l.off[I + 1] - o.l.off[I]; S const & k = *o.s;
            VM_CHECK(!n || (std::memcmp(k.template constPtr<I>(), o.m.data() + o.l.off[I], n) == 0 && std::memcmp(k.template ptr<I>(), o.m.data() + o.l.off[I], n) == 0), "read", "raw field %zu has other bytes than were written", I); ++c.reads;
        }
        static void raw(Ctx & c, Arr const & a, Buffer & b, Bytes & model, std::size_t off, std::size_t n) {
            for (std::size_t i = 0; i < n; ++i) { u8 const x = u8(c.r.next()); static_cast<u8 *>(Info::template ptr<I>(b.p(), a))[i] = x; model[off + i] = x; }
            b.check(model, "writing a raw field through packing info"); ++c.writes;
        }
    };
    template <std::size_t I, typename T, std::size_t Lo, std::size_t Hi> struct Field<I, DynamicVectorFieldPlaceholder<T, Lo, Hi> > {
        static void put(Ctx & c, UnalignedPointer<T> p, u8 * m, std::size_t n) {
            if (!n) return;
            std::size_t const k = c.r.below(n); T const v = value<T>(c.r);
            switch (c.r.below(4)) { case 0: p[k] = v; break; case 1: *(p + k) = v; break; case 2: p += k; *p = v; break; default: for (std::size_t i = 0; i < k; ++i) ++p; *p = v; }
            std::memcpy(m + k * sizeof(T), &v, sizeof(T)); ++c.writes;
        }
        static void get(Ctx & c, UnalignedPointer<T const> p, u8 const * m, std::size_t n) {
            for (std::size_t i = 0; i < n; ++i) { T const a = p[i]; VM_CHECK(sameBytes(a, m + i * sizeof(T)), "read", "element %zu of %zu in vector field %zu has another value than was written", i, n, I); ++c.reads; }
        }
        static void write(Ctx & c, Obj & o) {
            std::size_t const n = (o.l.off[I + 1] - o.l.off[I]) / sizeof(T);
            if (n && c.r.chance(1, 6)) { T const v = value<T>(c.r); o.s->template ref<I>() = v; std::memcpy(o.m.data() + o.l.off[I], &v, sizeof(T)); }
            else put(c, o.s->template ptr<I>(), o.m.data() + o.l.off[I], n);
            c.sig = vm::mix(c.sig ^ (I * 8 + 6));
        }
        static void read(Ctx & c, Obj & o) {
            std::size_t const n = (o.l.off[I + 1] - o.l.off[I]) / sizeof(T); S const & k = *o.s;
            get(c, k.template constPtr<I>(), o.m.data() + o.l.off[I], n);
            if (n) { T const v = k.template cref<I>(); VM_CHECK(sameBytes(v, o.m.data() + o.l.off[I]), "read", "the reference to vector field %zu", I); }
        }
        static void raw(Ctx & c, Arr const & a, Buffer & b, Bytes & model, std::size_t off, std::size_t n) {
            n /= sizeof(T);
            put(c, Info::template ptr<I>(b.p(), a), model.data() + off, n); b.check(model, "writing a vector field through packing info");
            put(c, a.template ptr<I>(b.p()), model.data() + off, n); b.check(model, "writing a vector field through the sizes");
        }
    };
    template <std::size_t I> using F = Field<I, TemplateGetTypeParam_t<I, Ts...> >;

    template <std::size_t I> static void place(Obj & o) {
        S & s = *o.s; S const & k = s; u8 const * const w = at(s.data()) + o.l.off[I];
        VM_CHECK(s.template elemOffset<I>() == o.l.off[I], "offset", "field %zu is at offset %zu, not %zu", I, s.template elemOffset<I>(), o.l.off[I]);
        VM_CHECK(at(k.template voidPtr<I>()) == w && at(k.template constVoidPtr<I>()) == w && at(static_cast<void *>(k.template ptr<I>())) == w && at(static_cast<void const *>(k.template constPtr<I>())) == w, "offset", "a pointer to field %zu is not at its offset", I);
    }
    template <std::size_t I> static void placeRaw(Arr const & a, u8 * p, Layout const & l) {
        VM_CHECK(Info::template elemOffset<I>(a) == l.off[I] && a.template elemOffset<I>() == l.off[I], "offset", "packing info puts field %zu at offset %zu, not %zu", I, a.template elemOffset<I>(), l.off[I]);
        VM_CHECK(at(Info::template voidPtr<I>(p, a)) == p + l.off[I] && at(Info::template constVoidPtr<I>(p, a)) == p + l.off[I] && at(a.template voidPtr<I>(p)) == p + l.off[I] && at(a.template constVoidPtr<I>(p)) == p + l.off[I], "offset", "packing info points field %zu elsewhere", I);
    }
    template <std::size_t I> static void parts() {
        bool const ds[] = {Kind<Ts>::dynamic...}; std::size_t before = 0; for (std::size_t i = 0; i < I; ++i) before += ds[i];
        VM_CHECK(S::template PrefixType<I>::numFields() == I && Info::template PrefixType<I>::numFields() == I && S::template SuffixType<I>::numFields() == I && Info::template SuffixType<I>::numFields() == I, "prefix", "a prefix or suffix of %zu fields has another number of fields", I);
        VM_CHECK(S::template PrefixType<I>::numDynamicFields() == before && Info::template PrefixType<I>::numDynamicFields() == before && S::template PrefixType<I>::hasDynamicFields() == (before > 0), "prefix", "the first %zu fields have another number of dynamic fields", I);
        std::size_t after = 0; for (std::size_t i = N - I; i < N; ++i) after += ds[i];
        VM_CHECK(S::template SuffixType<I>::numDynamicFields() == after && Info::template SuffixType<I>::numDynamicFields() == after, "prefix", "the last %zu fields have another number of dynamic fields", I);
    }
    template <std::size_t ... Is> static void run(Ctx & c, std::index_sequence<Is...>) {
        vm::Rng & r = c.r;
        using Op = void (*)(Ctx &, Obj &);
        using Raw = void (*)(Ctx &, Arr const &, Buffer &, Bytes &, std::size_t, std::size_t);
        static Op const writers[] = {&F<Is>::write...}, readers[] = {&F<Is>::read...};
        static Raw const raws[] = {&F<Is>::raw...};
        { unsigned __int128 lo = 0, hi = 0, all = std::size_t(-1); unsigned __int128 const ls[] = {static_cast<unsigned __int128>(Kind<Ts>::lo) * Kind<Ts>::esize...}, hs[] = {static_cast<unsigned __int128>(Kind<Ts>::hi) * Kind<Ts>::esize...};
          for (auto x : ls) lo += x;
          for (auto x : hs) hi += x;
          std::size_t const wantLo = std::size_t(lo < all ? lo : all), wantHi = std::size_t(hi < all ? hi : all);
          VM_CHECK(S::minSizeInBytes() == wantLo && Info::minSizeInBytes() == wantLo && Arr::minSizeInBytes() == wantLo, "limits", "the smallest size is %zu (reported %zu)", wantLo, S::minSizeInBytes());
          VM_CHECK(S::maxSizeInBytes() == wantHi && Info::maxSizeInBytes() == wantHi && Arr::maxSizeInBytes() == wantHi, "limits", "the largest size is %zu (reported %zu)", wantHi, S::maxSizeInBytes());
          VM_CHECK(Arr::numFields() == N && Arr::numDynamicFields() == D && Arr::hasDynamicFields() == (D > 0), "size", "number of fields");
          int const y[] = {(parts<Is>(), 0)...}; (void) y;
          bool const ds[] = {Kind<Ts>::dynamic...}; std::size_t const bs[] = {std::size_t(ls[Is])...}; std::size_t lead = 0, leadBytes = 0; while (lead < N && !ds[lead]) leadBytes += bs[lead++];
          VM_CHECK(S::StaticPrefixType::numFields() == lead && S::StaticPrefixType::minSizeInBytes() == leadBytes && S::StaticPrefixType::maxSizeInBytes() == leadBytes && Info::StaticPrefixType::numFields() == lead && Info::StaticPrefixType::size() == leadBytes, "prefix", "the leading static fields are %zu (reported %zu)", lead, Info::StaticPrefixType::numFields()); }
        VM_CHECK(S::numFields() == N && S::numDynamicFields() == D && bool(S::hasDynamicFields()) == (D > 0) && Info::numFields() == N && Info::numDynamicFields() == D && Info::hasDynamicFields() == (D > 0), "size", "number of fields");
        auto const sync = [](Obj & o) { u8 const * const p = at(o.s->data()); o.m.assign(p, p + o.l.off[N]); };
        auto const check = [&](Obj & o, char const * what) {
            VM_CHECK(o.s->size() == o.l.off[N], "size", "after %s the structure has size %zu, not %zu", what, o.s->size(), o.l.off[N]);
            VM_CHECK(o.m.empty() || std::memcmp(o.s->data(), o.m.data(), o.m.size()) == 0, "bytes", "after %s the structure's bytes differ from those written", what);
            int const x[] = {(place<Is>(o), 0)...}; (void) x;
            S const & k = *o.s; u8 const * const e = at(o.s->data()) + o.l.off[N];
            VM_CHECK(at(o.s->endVoidPtr()) == e && at(k.endVoidPtr()) == e && at(k.endConstVoidPtr()) == e && k.data() == o.s->data() && k.constData() == o.s->data(), "end", "the end of the structure is not %zu bytes after its start", o.l.off[N]);
        };
        auto const fresh = [&] {
            Obj o; o.l = layout(counts(r)); o.s = make(o.l.counts);
            if (o.l.off[N]) std::memset(o.s->data(), 0, o.l.off[N]); /* all of it must be there, and zero is valid for all types */
            sync(o); check(o, "construction");
            for (Op w : writers) { w(c, o); check(o, "writing a field"); }
            return o;
        };
        std::vector<Obj> objs; objs.push_back(fresh()); objs.push_back(fresh());
        unsigned const n = 10 + unsigned(r.below(30));
        for (unsigned i = 0; i < n; ++i) {
            std::size_t const ia = r.below(objs.size()), ib = r.below(objs.size()); Obj & a = objs[ia]; Obj & b = objs[ib];
            unsigned const op = unsigned(r.below(16)); c.sig = vm::mix(c.sig ^ (op + 1000 + a.l.off[N] * 64));
            switch (op) {
            case 0: if (objs.size() < 4) objs.push_back(fresh()); break;
            case 1: if (objs.size() < 4) { Obj o; o.l = a.l; o.m = a.m; S const & k = *a.s; o.s.reset(r.flip() ? new S(k) : new S(*a.s)); check(o, "copying"); check(a, "being copied");
                        VM_CHECK(o.m.empty() || o.s->data() != a.s->data(), "copy", "a copy shares its bytes"); VM_CHECK(*o.s == k && !(k != *o.s), "equality", "a copy differs"); objs.push_back(std::move(o)); } break;
            case 2: { Obj o; o.l = a.l; o.m = a.m; void const * const p = a.s->data(); o.s.reset(new S(std::move(*a.s))); VM_CHECK(o.s->data() == p, "move", "moving copies the bytes"); check(o, "moving"); a = std::move(o); break; }
            case 3: { S const & k = *b.s;
                      bool thrown = false; { vm::Oom const oom(r.chance(1, 3) ? 1 : 0); try { *a.s = k; } catch (std::bad_alloc const &) { thrown = true; } if (vm::Oom::fired()) ++c.failed; VM_CHECK(!thrown || vm::Oom::fired(), "exception", "std::bad_alloc without a reason"); }
                      if (thrown) { check(a, "an assignment which ran out of memory"); break; }
                      a.l = b.l; a.m = b.m; check(a, ia == ib ? "self-assignment" : "copy assignment"); check(b, "being assigned from");
                      VM_CHECK(ia == ib || a.m.empty() || a.s->data() != b.s->data(), "copy", "a copy shares its bytes"); break; }
            case 4: { *a.s = *b.s; a.l = b.l; a.m = b.m; check(a, ia == ib ? "self-assignment" : "copy assignment"); check(b, "being assigned from"); break; }
            case 5: if (ia != ib) { *a.s = std::move(*b.s); a.l = b.l; a.m = b.m; check(a, "move assignment"); objs.erase(objs.begin() + long(ib)); if (objs.empty()) objs.push_back(fresh()); } break;
            case 6: { auto const p = a.s->release(); VM_CHECK(a.m.empty() || std::memcmp(p.get(), a.m.data(), a.m.size()) == 0, "release", "released bytes differ"); VM_CHECK(!a.s->data(), "release", "data is still held after release()");
                      if (ia != ib && r.flip()) { *a.s = *b.s; a.l = b.l; a.m = b.m; check(a, "copy assignment after release"); }
                      else if (ia != ib && r.flip()) { *b.s = *a.s; VM_CHECK(!b.s->data(), "release", "copying an empty structure gives a non-empty one"); S const copy(*a.s); VM_CHECK(!copy.data(), "release", "copying an empty structure gives a non-empty one"); a = fresh(); b = fresh(); }
                      else a = fresh();
                      break; }
            case 7: { std::vector<std::size_t> const & cs = a.l.counts; Arr const ar = array(cs), ar2(ar); Arr ar3(ar2), ar4 = array(b.l.counts); ar4 = ar3; Buffer buf(r, a.l.off[N]); 
                      if (a.l.off[N]) std::memset(buf.p(), 0, a.l.off[N]);
                      Bytes model(a.l.off[N], 0);
                      VM_CHECK(Info::sizeFromAccum(ar) == a.l.off[N] && ar2.structSizeInBytes() == a.l.off[N] && ar4.structSizeInBytes() == a.l.off[N], "size", "packing info gives size %zu, not %zu", Info::sizeFromAccum(ar), a.l.off[N]);
                      std::size_t const sz = Call<D>::with(cs, [](auto ... x) { return Info::sizeInBytes(x...); });
                      VM_CHECK(sz == a.l.off[N], "size", "sizeInBytes() is %zu, not %zu", sz, a.l.off[N]);
                      int const x[] = {(placeRaw<Is>(ar4, buf.p(), a.l), 0)...}; (void) x;
                      std::vector<std::size_t> out(D + 1, 77); Call<D>::with(cs, [&](auto ... y) { Info::populateAccumArray(out.data(), y...); return 0; });
                      for (std::size_t k = 0; k < D; ++k) VM_CHECK(out[k] == ar[k], "offset", "populateAccumArray() differs from the array"); VM_CHECK(out[D] == 77, "bytes", "populateAccumArray() writes too much");
                      VM_CHECK(at(Info::endVoidPtr(buf.p(), ar)) == buf.p() + a.l.off[N] && at(Info::endConstVoidPtr(buf.p(), ar)) == buf.p() + a.l.off[N] && at(ar.endConstVoidPtr(buf.p())) == buf.p() + a.l.off[N], "end", "packing info puts the end elsewhere");
                      for (unsigned rep = 0; rep < 3; ++rep) for (std::size_t k = 0; k < N; ++k) raws[k](c, ar, buf, model, a.l.off[k], a.l.off[k + 1] - a.l.off[k]);
                      break; }
            case 8: { std::vector<std::size_t> cs = a.l.counts; std::vector<std::pair<std::size_t, std::size_t> > lim; int const x[] = {(Limits<Kind<Ts>::dynamic>::template add<Kind<Ts> >(lim), 0)...}; (void) x;
                      for (std::size_t k = 0; k < D; ++k) if (r.flip()) cs[k] = r.flip() ? (r.flip() ? lim[k].first : lim[k].second) : (r.flip() ? lim[k].first - 1u : lim[k].second + 1u);
                      bool want = true; for (std::size_t k = 0; k < D; ++k) want = want && cs[k] >= lim[k].first && cs[k] <= lim[k].second;
                      bool const got = Call<D>::with(cs, [](auto ... y) { return Info::validSizes(y...); }); VM_CHECK(got == want, "valid", "validSizes() says %d, limits say %d", int(got), int(want)); break; }
            default: { std::size_t const f = r.below(N); writers[f](c, a); check(a, "writing a field"); readers[f](c, a); if (ia != ib) { check(b, "writing to another structure"); } }
            }
            for (Obj & o : objs) { check(o, "an operation"); for (Op rd : readers) rd(c, o); }
            Obj & p = objs[r.below(objs.size())]; Obj & q = objs[r.below(objs.size())]; bool const e = p.m == q.m;
            VM_CHECK((*p.s == *q.s) == e && (*p.s != *q.s) == !e, "equality", "structures with %s bytes compare %s", e ? "equal" : "different", e ? "different" : "equal");
        }
    }
    static void go(Ctx & c) { run(c, std::index_sequence_for<Ts...>()); }
};
template <typename ... Ts> void dynRun(vm::Rng &, std::uint64_t &, Ctx & c) {
    constexpr bool dyn = Dyn<Ts...>::D > 0;
    static_assert(std::is_same<MaybeDynamicPackedStruct<Ts...>, std::conditional_t<dyn, DynamicPackedStruct<Ts...>, PackedStruct<Ts...> > >::value && std::is_same<MaybeDynamicPackingInfo<Ts...>, std::conditional_t<dyn, DynamicPackingInfo<Ts...>, PackingInfo<Ts...> > >::value, "");
    Dyn<Ts...>::go(c);
}
using R = DynamicFieldPlaceholder<>; using R2 = DynamicFieldPlaceholder<3, 9>;
template <typename T> using V = DynamicVectorFieldPlaceholder<T>;
Runner const dynamics[] = {
    dynRun<R>, dynRun<V<u32> >, dynRun<u8, R>, dynRun<R, u64>, dynRun<u8, V<u64>, u16>, dynRun<i32, R, char, V<i32>, i16>, dynRun<V<Tri>, double, V<double>, u8, R, Pod>,
    dynRun<R, R, R>, dynRun<char, i16, DynamicVectorFieldPlaceholder<Pod, 1, 4>, Tri, R2, i64, char>, dynRun<V<u8>, V<u16>, V<u32>, V<u64> >, dynRun<u8, u16, u32>, dynRun<i32>, dynRun<u16, u16, R, u16, u16>,
    dynRun<DynamicFieldPlaceholder<1, 5>, u16, DynamicVectorFieldPlaceholder<u32, 2, 6> >, dynRun<DynamicVectorFieldPlaceholder<u64, 0, 3>, Tri>
};
}
VM_SCENARIO(dynamic_layouts, "asanal plain", 6500, 260000, 4, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::size_t const k = std::size_t(i % (sizeof(dynamics) / sizeof(*dynamics)));
        std::uint64_t sig = vm::mix(k + 100); Ctx c{r, sig};
        vm::describe(vm::format("layout %zu", k));
        dynamics[k](r, sig, c);
        vm::event("writes", c.writes); vm::event("out_of_memory", c.failed); vm::event("reads", c.reads); vm::signature(sig);
    });
}
