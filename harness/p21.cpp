/* P21: optional values.
   VM-VARIANTS: asan ndebug */
#include "vm.hpp"
#include <map>
#include <memory>
#include <sharemind/Optional.h>
#include <string>
#include <vector>

namespace {
using sharemind::Optional; using sharemind::nullOption; using sharemind::inPlace;
struct Boom {};
/* The n-th construction, assignment or comparison of a Thrower from now throws. */
long bomb = 0; std::uint64_t exploded = 0;
void tick() { if (bomb > 0 && --bomb == 0) { ++exploded; throw Boom(); } }

struct Source { long v; }; /* another type convertible to Thrower */
struct Thrower {
    vm::Tracked t;
    explicit Thrower(long v) : t((tick(), v)) {}
    Thrower(Source s) : t((tick(), s.v)) {}
    Thrower(std::initializer_list<long> l, long add = 0) : t((tick(), sum(l) + add)) {}
    Thrower(Thrower const & o) : t((tick(), o.t)) {}
    Thrower(Thrower && o) : t((tick(), std::move(o.t))) {}
    Thrower & operator=(Thrower const & o) { tick(); t = o.t; return *this; }
    Thrower & operator=(Thrower && o) { tick(); t = std::move(o.t); return *this; }
    Thrower & operator=(Source s) { tick(); t = vm::Tracked(s.v); return *this; }
    static long sum(std::initializer_list<long> l) { long r = 0; for (long x : l) r += x; return r; }
#define CMP(op) friend bool operator op(Thrower const & a, Thrower const & b) { tick(); return a.t.get() op b.t.get(); } \
    friend bool operator op(Thrower const & a, long b) { tick(); return a.t.get() op b; } friend bool operator op(long a, Thrower const & b) { tick(); return a op b.t.get(); }
    CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
};
struct MoveOnly { vm::Tracked t; explicit MoveOnly(long v) : t(v) {} MoveOnly(MoveOnly &&) = default; MoveOnly & operator=(MoveOnly &&) = default; };
struct Pod { long v; char pad[3]; };
/* swapped by a swap of its own; assignments may throw (the bomb), swapping does not */
struct SwapsItself {
    vm::Tracked t;
    explicit SwapsItself(long v) : t(v) {}
    SwapsItself(SwapsItself const & o) : t(o.t) {}
    SwapsItself(SwapsItself && o) noexcept : t(std::move(o.t)) {}
    SwapsItself & operator=(SwapsItself const & o) { tick(); t = o.t; return *this; }
    SwapsItself & operator=(SwapsItself && o) { tick(); t = std::move(o.t); return *this; }
    static long swaps;
    friend void swap(SwapsItself & a, SwapsItself & b) noexcept { ++swaps; if (&a == &b) return; vm::Tracked x(std::move(a.t)); a.t = std::move(b.t); b.t = std::move(x); }
};
long SwapsItself::swaps = 0;
/* movable and swappable; never to be assigned by a swap */
struct OnlySwaps {
    vm::Tracked t;
    explicit OnlySwaps(long v) : t(v) {}
    OnlySwaps(OnlySwaps && o) noexcept : t(std::move(o.t)) {}
    OnlySwaps & operator=(OnlySwaps &&) noexcept { vm::violation("own-swap", "swapping two optionals assigns their values instead of using the swap of the contained type"); return *this; }
    friend void swap(OnlySwaps & a, OnlySwaps & b) { SwapsItself::swaps++; tick(); if (&a == &b) return; vm::Tracked x(std::move(a.t)); a.t = std::move(b.t); b.t = std::move(x); }
};
struct Over { vm::Tracked t; explicit Over(long v) : t(v) {} void operator&() const = delete; }; /* overloaded address-of */
struct alignas(32) Aligned { long v; vm::Tracked t; explicit Aligned(long x) : v(x), t(x) {} };

template <typename T> struct Tr;
template <> struct Tr<Thrower> { static Thrower make(long v) { return Thrower(v); } static long get(Thrower const & t) { return t.t.get(); } static bool movedFrom(long v) { return v == -1; } };
template <> struct Tr<vm::Tracked> { static vm::Tracked make(long v) { return vm::Tracked(v); } static long get(vm::Tracked const & t) { return t.get(); } };
template <> struct Tr<MoveOnly> { static MoveOnly make(long v) { return MoveOnly(v); } static long get(MoveOnly const & t) { return t.t.get(); } };
template <> struct Tr<Over> { static Over make(long v) { return Over(v); } static long get(Over const & t) { return t.t.get(); } };
template <> struct Tr<Aligned> { static Aligned make(long v) { return Aligned(v); } static long get(Aligned const & t) { VM_CHECK(reinterpret_cast<std::uintptr_t>(&t) % 32 == 0, "alignment", "value not aligned"); return t.t.get(); } };
template <> struct Tr<Pod> { static Pod make(long v) { return Pod{v, {1, 2, 3}}; } static long get(Pod const & t) { return t.v; } };
template <> struct Tr<int> { static int make(long v) { return int(v); } static long get(int t) { return t; } };
template <> struct Tr<bool> { static bool make(long v) { return v & 1; } static long get(bool t) { return t; } };
template <> struct Tr<std::string> { static std::string make(long v) { return "string with a value number " + std::to_string(v); } static long get(std::string const & s) { return s.size() < 27 ? -1 : std::stol(s.substr(27)); } };
template <> struct Tr<std::unique_ptr<long> > { static std::unique_ptr<long> make(long v) { return std::unique_ptr<long>(new long(v)); } static long get(std::unique_ptr<long> const & p) { return p ? *p : -1; } };
template <> struct Tr<Optional<int> > { static Optional<int> make(long v) { return v % 4 == 0 ? Optional<int>() : Optional<int>(int(v)); } static long get(Optional<int> const & o) { return o ? *o : -2; } };

struct Model { bool on; long v; bool known; /* value known (not moved from) */ };
template <typename T, bool = std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value> struct Copy {
    static void construct(Optional<T> * at, Optional<T> const & o) { new (at) Optional<T>(o); }
    static void assign(Optional<T> & a, Optional<T> const & b) { a = b; }
    static void fromValue(Optional<T> & a, T const & v) { a = v; }
    static T valueOr(Optional<T> const & a, T d) { return a.valueOr(std::move(d)); }
    static void valueOrConstruct(Optional<T> const & a, long d, long expect) { T const t = a.valueOrConstruct(Tr<T>::make(d)); VM_CHECK(Tr<T>::get(t) == expect, "valueOr", "valueOrConstruct gives %ld, expected %ld", Tr<T>::get(t), expect); }
    enum { yes = 1 };
};
template <typename T> struct Copy<T, false> {
    static void construct(Optional<T> *, Optional<T> const &) {} static void assign(Optional<T> &, Optional<T> const &) {}
    static void fromValue(Optional<T> & a, T & v) { a = std::move(v); }
    static T valueOr(Optional<T> const &, T d) { return d; } static void valueOrConstruct(Optional<T> const &, long, long) {}
    enum { yes = 0 };
};

template <typename T> void history(vm::Rng & r) {
    using O = Optional<T>;
    static_assert(std::is_copy_constructible<O>::value == std::is_copy_constructible<T>::value, "");
    bool const throwing = std::is_same<T, Thrower>::value;
    unsigned const ops = unsigned(20 + r.below(100));
    vm::LiveBalance balance;
    bomb = 0; exploded = 0;
    std::uint64_t sig = 0;
    long next = 10;
    auto const val = [](long v) { return Tr<T>::get(Tr<T>::make(v)); };
    {
        /* optionals live in raw storage so that they can be constructed and destroyed at will */
        struct Slot { typename std::aligned_storage<sizeof(O), alignof(O)>::type mem; O & o() { return *reinterpret_cast<O *>(&mem); } };
        Slot slots[3]; Model model[3];
        for (unsigned k = 0; k < 3; ++k) { std::memset(&slots[k].mem, 0xa5, sizeof(O)); new (&slots[k].mem) O(); model[k] = Model{false, 0, true}; }
        auto const check = [&](unsigned k, char const * op) {
            O & o = slots[k].o(); O const & c = o; Model & m = model[k];
            VM_CHECK(o.hasValue() == m.on && bool(c) == m.on, "engaged", "after %s: %s, should be %s", op, o.hasValue() ? "engaged" : "empty", m.on ? "engaged" : "empty");
            VM_CHECK((c == nullOption) == !m.on && (nullOption == c) == !m.on && (c != nullOption) == m.on && (nullOption != c) == m.on
                     && !(c < nullOption) && (nullOption < c) == m.on && (c <= nullOption) == !m.on && (nullOption <= c) && (c > nullOption) == m.on && !(nullOption > c)
                     && (c >= nullOption) && (nullOption >= c) == !m.on, "null-comparison", "after %s: comparison with nothing", op);
            if (m.on) {
                long const g = Tr<T>::get(*c);
                VM_CHECK(Tr<T>::get(*o) == g && Tr<T>::get(*o.operator->()) == g && Tr<T>::get(*c.operator->()) == g, "access", "after %s: the accessors differ", op);
                if (m.known) VM_CHECK(g == m.v, "value", "after %s: the value is %ld, should be %ld", op, g, m.v);
                auto const * const p = reinterpret_cast<char const *>(std::addressof(*c));
                VM_CHECK(p >= reinterpret_cast<char const *>(&slots[k].mem) && p + sizeof(T) <= reinterpret_cast<char const *>(&slots[k].mem + 1), "storage", "the value is outside the optional");
            }
        };
        for (unsigned i = 0; i < ops; ++i) {
            unsigned const a = unsigned(r.below(3)), b = unsigned(r.below(3)), op = unsigned(r.below(22));
            Model & m = model[a]; O & x = slots[a].o(); O & y = slots[b].o(); Model & n = model[b];
            long const v = next++;
            bomb = 0; long const vv = val(v);
            bomb = throwing && r.chance(1, 3) ? long(1 + r.below(4)) : 0;
            long const bombWas = bomb;
            char const * name = "?"; bool thrown = false;
            auto const boom = [&] { thrown = true; VM_CHECK(throwing && bombWas, "exception", "unexpected exception"); };
            switch (op) {
            case 0: name = "reset"; x.reset(); m.on = false; break;
            case 1: name = "assignment of nothing"; x = nullOption; m.on = false; break;
            case 2: case 3: name = "emplace";
                { long const s = bomb; bomb = 0; T t(Tr<T>::make(v)); bomb = s;
                  try { T & ref = x.emplace(std::move(t)); VM_CHECK(std::addressof(ref) == std::addressof(*x), "emplace", "emplace returns something else"); m = Model{true, vv, true}; } catch (Boom) { boom(); m.on = false; } }
                break;
            case 4: case 5: name = "assignment of a value";
                { bool const wasOn = m.on;
                  { long const s = bomb; bomb = 0; T t(Tr<T>::make(v)); bomb = s;
                    try { if (r.flip()) Copy<T>::fromValue(x, t); else x = std::move(t); m = Model{true, vv, true}; }
                    catch (Boom) { boom(); if (!wasOn) m.on = false; } } break; }
            case 6: case 7: name = "copy assignment"; if (!Copy<T>::yes) break;
                try { Copy<T>::assign(x, y); m.on = n.on; m.v = n.v; m.known = n.known; } catch (Boom) { boom(); } break;
            case 8: case 9: name = "move assignment"; if (a == b) break;
                try { x = std::move(y); bool const on = n.on; m = n; if (on && !std::is_trivially_copyable<T>::value) n.known = false; } catch (Boom) { boom(); } break;
            case 10: case 11: name = "copy construction"; if (!Copy<T>::yes || a == b) break;
                x.~O(); std::memset(&slots[a].mem, 0x5a, sizeof(O));
                try { Copy<T>::construct(&x, y); m = n; } catch (Boom) { boom(); bomb = 0; new (&x) O(); m = Model{false, 0, true}; } break;
            case 12: case 13: name = "move construction"; if (a == b) break;
                x.~O(); std::memset(&slots[a].mem, 0x5a, sizeof(O));
                try { new (&x) O(std::move(y)); bool const on = n.on; m = n; if (on && !std::is_trivially_copyable<T>::value) n.known = false; } catch (Boom) { boom(); bomb = 0; new (&x) O(); m = Model{false, 0, true}; } break;
            case 14: name = "in-place construction"; x.~O(); std::memset(&slots[a].mem, 0x5a, sizeof(O));
                { long const s = bomb; bomb = 0; T t(Tr<T>::make(v)); bomb = s;
                  try { if (r.flip()) new (&x) O(inPlace, std::move(t)); else new (&x) O(std::move(t)); m = Model{true, vv, true}; } catch (Boom) { boom(); bomb = 0; new (&x) O(); m = Model{false, 0, true}; } } break;
            case 15: name = "construction from nothing"; x.~O(); std::memset(&slots[a].mem, 0x5a, sizeof(O)); if (r.flip()) new (&x) O(nullOption); else new (&x) O(); m = Model{false, 0, true}; break;
            case 16: case 17: name = "swap";
                try { if (r.flip()) x.swap(y); else { using std::swap; swap(x, y); } std::swap(m, n); }
                catch (Boom) { boom(); if (m.on && n.on) m.known = n.known = false; } break;
            case 18: name = "makeOptional";
                { long const s = bomb; bomb = 0; T t(Tr<T>::make(v)); bomb = s;
                  try { O o = sharemind::makeOptional(std::move(t)); static_assert(std::is_same<decltype(sharemind::makeOptional(std::declval<T>())), O>::value, "");
                        VM_CHECK(o.hasValue() && Tr<T>::get(*o) == vv, "makeOptional", "makeOptional gives %s", o.hasValue() ? "another value" : "nothing"); } catch (Boom) { boom(); } } break;
            case 19: name = "makeOptional(inPlace)";
                { long const s = bomb; bomb = 0; T t(Tr<T>::make(v)); bomb = s;
                  try { O o = sharemind::makeOptional<T>(std::move(t)); VM_CHECK(o.hasValue() && Tr<T>::get(*o) == vv, "makeOptional", "makeOptional<T> gives another value"); } catch (Boom) { boom(); } } break;
            case 20: name = "valueOr"; if (m.on && !m.known) break;
                { bomb = 0; long const want = m.on ? m.v : vv;
                  if (Copy<T>::yes) { T const t = Copy<T>::valueOr(x, Tr<T>::make(v)); VM_CHECK(Tr<T>::get(t) == want, "valueOr", "valueOr gives %ld, expected %ld", Tr<T>::get(t), want); Copy<T>::valueOrConstruct(x, v, want); }
                  T const t = r.flip() ? std::move(x).valueOr(Tr<T>::make(v)) : std::move(x).valueOrConstruct(Tr<T>::make(v));
                  VM_CHECK(Tr<T>::get(t) == want, "valueOr", "valueOr && gives %ld, expected %ld", Tr<T>::get(t), want); if (!std::is_trivially_copyable<T>::value) m.known = false; } break;
            default: name = "self assignment"; if (!Copy<T>::yes) break; try { O & self = x; Copy<T>::assign(x, self); } catch (Boom) { boom(); } break;
            }
            bomb = 0;
            (void) thrown;
            long live = 0; for (auto const & mm : model) live += mm.on;
            if (std::is_same<T, Thrower>::value || std::is_same<T, vm::Tracked>::value || std::is_same<T, MoveOnly>::value || std::is_same<T, Over>::value || std::is_same<T, Aligned>::value)
                balance.expect(live, name);
            for (unsigned k = 0; k < 3; ++k) check(k, name);
            sig = vm::mix(sig ^ (op * 9u + a * 3u + b) ^ (std::uint64_t(thrown) << 40) ^ (std::uint64_t(live) << 50));
        }
        for (auto & s : slots) s.o().~O();
    }
    balance.expect(0, "at the end");
    vm::signature(sig); vm::event("operations", ops); vm::event("exceptions_injected", exploded);
}
template <typename T> void run() { vm::runCases([](vm::Rng & r, std::uint64_t) { history<T>(r); }); }
}
template <typename T> void swaps(vm::Rng & r, bool nothrow) {
    vm::LiveBalance balance;
    bomb = 0; exploded = 0;
    std::uint64_t sig = 0;
    {
        Optional<T> o[3]; bool on[3] = {false, false, false}; long v[3] = {0, 0, 0}; long next = 10;
        unsigned const ops = unsigned(10 + r.below(50));
        for (unsigned i = 0; i < ops; ++i) {
            unsigned const a = unsigned(r.below(3)), b = unsigned(r.below(3)), op = unsigned(r.below(4));
            if (op == 0) { o[a].emplace(++next); on[a] = true; v[a] = next; }
            else if (op == 1 && r.flip()) { o[a].reset(); on[a] = false; }
            else {
                bomb = r.flip() ? 1 : 0; long const before = SwapsItself::swaps; bool const both = on[a] && on[b]; bool thrown = false;
                try { if (r.flip()) o[a].swap(o[b]); else { using std::swap; swap(o[a], o[b]); } } catch (Boom) { thrown = true; }
                VM_CHECK(!thrown || (both && !nothrow), "exception", "swapping threw although the swap of the contained type does not");
                bool const armed = bomb > 0; bomb = 0;
                VM_CHECK(SwapsItself::swaps - before <= 1 && (a == b || !both || SwapsItself::swaps - before == 1), "own-swap", "the swap of the contained type was called %ld times for two values", SwapsItself::swaps - before);
                (void) armed;
                if (!thrown) { std::swap(on[a], on[b]); std::swap(v[a], v[b]); }
                sig = vm::mix(sig ^ (both * 2u + thrown));
            }
            for (unsigned k = 0; k < 3; ++k) {
                VM_CHECK(o[k].hasValue() == on[k], "engaged", "after a swap: %s, should be %s", o[k].hasValue() ? "engaged" : "empty", on[k] ? "engaged" : "empty");
                if (on[k]) VM_CHECK(o[k]->t.get() == v[k], "value", "after a swap: the value is %ld, should be %ld", o[k]->t.get(), v[k]);
            }
            balance.expect(long(on[0]) + on[1] + on[2], "after a swap");
        }
        static_assert(noexcept(o[0].swap(o[1])) == std::is_same<T, SwapsItself>::value, "");
    }
    balance.expect(0, "at the end");
    vm::signature(sig); vm::event("swaps_of_types_with_their_own_swap", 1); vm::event("exceptions_injected", exploded);
}
VM_SCENARIO(ownSwap, "asan ndebug", 800, 40000, 1, 1) { vm::runCases([](vm::Rng & r, std::uint64_t i) { if (i & 1) swaps<SwapsItself>(r, true); else swaps<OnlySwaps>(r, false); }); }
VM_SCENARIO(throwing, "asan ndebug", 2500, 200000, 2, 1) { run<Thrower>(); }
VM_SCENARIO(tracked, "asan", 800, 60000, 1, 1) { run<vm::Tracked>(); }
VM_SCENARIO(moveOnly, "asan", 600, 40000, 1, 1) { run<MoveOnly>(); }
VM_SCENARIO(overloadedAddress, "asan", 400, 20000, 1, 1) { run<Aligned>(); }
VM_SCENARIO(pod, "asan ndebug", 600, 40000, 1, 1) { run<Pod>(); }
VM_SCENARIO(ints, "asan ndebug", 600, 40000, 1, 1) { run<int>(); }
VM_SCENARIO(booleans, "asan ndebug", 1000, 60000, 1, 1) { run<bool>(); }
VM_SCENARIO(strings, "asan", 600, 40000, 1, 1) { run<std::string>(); }
VM_SCENARIO(uniquePointers, "asan", 600, 40000, 1, 1) { run<std::unique_ptr<long> >(); }
VM_SCENARIO(nested, "asan ndebug", 800, 40000, 1, 1) { run<Optional<int> >(); }

namespace {
template <typename A, typename B> void compareAll(Optional<A> const & a, Optional<B> const & b, bool av, long x, bool bv, long y) {
    auto const key = [](bool on, long v) { return on ? std::make_pair(1, v) : std::make_pair(0, 0L); };
    auto const p = key(av, x), q = key(bv, y);
#define C(op) VM_CHECK((a op b) == (p op q), "comparison", "%s " #op " %s gives %d", av ? std::to_string(x).c_str() : "nothing", bv ? std::to_string(y).c_str() : "nothing", int(a op b));
    C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
    vm::event("comparisons", 6);
}
template <typename A, typename V> void compareValue(Optional<A> const & a, V const & v, bool av, long x, long y) {
    auto const p = av ? std::make_pair(1, x) : std::make_pair(0, 0L), q = std::make_pair(1, y);
#define C(op) VM_CHECK((a op v) == (p op q), "comparison", "optional " #op " value gives %d", int(a op v)); VM_CHECK((v op a) == (q op p), "comparison", "value " #op " optional gives %d", int(v op a));
    C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
    vm::event("comparisons", 12);
}
}
VM_SCENARIO(comparisons, "asan ndebug", 3000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        bool const av = r.flip(), bv = r.flip(); long const x = long(r.below(4)), y = long(r.below(4));
        vm::describe(vm::format("%d:%ld against %d:%ld", av, x, bv, y));
        bomb = 0;
        Optional<int> a, a2; Optional<long> b; Optional<Thrower> t, u; Optional<std::string> s, s2;
        if (av) { a.emplace(int(x)); t.emplace(x); s.emplace(std::to_string(x)); }
        if (bv) { b.emplace(y); a2.emplace(int(y)); u.emplace(y); s2.emplace(std::to_string(y)); }
        compareAll(a, b, av, x, bv, y); compareAll(a, a2, av, x, bv, y); compareAll(t, u, av, x, bv, y); compareAll(s, s2, av, x, bv, y);
        compareValue(a, y, av, x, y); compareValue(a, int(y), av, x, y); compareValue(t, Thrower(y), av, x, y); compareValue(s, std::to_string(y), av, x, y);
        /* a comparison that throws passes the exception on */
#define THROWS(expr, when) do { bomb = 1; bool th = false; try { (void) (expr); } catch (Boom) { th = true; } bomb = 0; VM_CHECK(th == (when), "exception", "%s %s", #expr, th ? "throws" : "swallows the exception"); } while (0)
        bool const both = av && bv;
        THROWS(t == u, both); THROWS(t != u, both); THROWS(t < u, both); THROWS(t <= u, both); THROWS(t > u, both); THROWS(t >= u, both);
        THROWS(t == y, av); THROWS(t != y, av); THROWS(t < y, av); THROWS(y <= t, av); THROWS(y > t, av); THROWS(t >= y, av);
        vm::signature(std::uint64_t(av) * 100 + bv * 50 + x * 5 + y);
    });
}
VM_SCENARIO(conversions, "asan ndebug", 3000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        long const x = long(r.below(1000)), y = long(r.below(1000)); bool const av = r.flip(), bv = r.flip();
        vm::LiveBalance balance;
        bomb = 0;
        {
            Optional<int> src; if (av) src.emplace(int(x));
            Optional<int> const csrc(src);
            vm::describe(vm::format("from %s to %s", av ? "value" : "nothing", bv ? "value" : "nothing"));
            auto const ok = [&](auto const & o, char const * what) { VM_CHECK(o.hasValue() == av && (!av || *o == x), "conversion", "%s gives %s", what, o.hasValue() ? "another value" : "nothing"); };
            { Optional<long> const o(csrc); ok(o, "copy conversion"); } { Optional<long> const o = csrc; ok(o, "implicit conversion"); } { Optional<int> s2(src); Optional<long> const o(std::move(s2)); ok(o, "move conversion"); }
            { Optional<long> o; if (bv) o.emplace(y); o = csrc; ok(o, "converting assignment"); } { Optional<long> o; if (bv) o.emplace(y); o = Optional<int>(src); ok(o, "converting move assignment"); }
            /* with exceptions */
            Optional<Source> s; if (av) s.emplace(Source{x});
            bomb = r.flip() ? long(1 + r.below(2)) : 0;
            try { Optional<Thrower> const o(s); long const b = bomb; bomb = 0; VM_CHECK(o.hasValue() == av && (!av || o->t.get() == x), "conversion", "conversion to a tracked type"); bomb = b; } catch (Boom) { VM_CHECK(av, "exception", "constructed from nothing"); }
            bomb = 0;
            Optional<Thrower> o; if (bv) o.emplace(y);
            bomb = r.flip() ? long(1 + r.below(2)) : 0; bool th = false;
            try { if (r.flip()) o = s; else o = Optional<Source>(s); } catch (Boom) { th = true; }
            bomb = 0;
            bool const on = th ? bv : av;
            VM_CHECK(o.hasValue() == on && (!on || o->t.get() == (th ? y : x)), "conversion", "converting assignment of %s to %s%s", av ? "a value" : "nothing", bv ? "a value" : "nothing", th ? " that throws" : "");
            /* initializer lists */
            bomb = r.flip() ? 1 : 0; long const w = bomb; th = false;
            try { Thrower & ref = o.emplace({x, y}, 3); VM_CHECK(&ref == &*o, "emplace", "emplace(list) returns something else"); } catch (Boom) { th = true; }
            bomb = 0;
            VM_CHECK(th == (w == 1) && o.hasValue() == !th && (th || o->t.get() == x + y + 3), "emplace", "emplace(list)");
            VM_CHECK(sharemind::makeOptional<Thrower>({x, y}, 5)->t.get() == x + y + 5, "makeOptional", "makeOptional(list)");
            { Optional<std::vector<long> > v; v.emplace({x, y, x}); VM_CHECK(v->size() == 3 && (*v)[1] == y, "emplace", "emplace(list) of a vector"); }
            /* booleans given as values */
            bool const f = r.flip(); Optional<bool> const ob(f); Optional<bool> const oc = f; Optional<int> const oi(f); Optional<bool> od; od = f; auto const oe = sharemind::makeOptional(f); Optional<bool> const of(inPlace, f);
            VM_CHECK(ob.hasValue() && *ob == f, "boolean", "Optional<bool>(%d) is %s", f, ob.hasValue() ? "another value" : "empty");
            VM_CHECK(oc.hasValue() && *oc == f && od.hasValue() && *od == f && of.hasValue() && *of == f, "boolean", "Optional<bool> of %d", f);
            VM_CHECK(oi.hasValue() && *oi == int(f), "boolean", "Optional<int>(bool) is %s", oi.hasValue() ? "another value" : "empty");
            VM_CHECK(oe.hasValue() && *oe == f, "boolean", "makeOptional(%d) is %s", f, oe.hasValue() ? "another value" : "empty");
            vm::event("conversions", 8);
        }
        balance.expect(0, "after conversions");
        vm::signature(vm::mix(std::uint64_t(x * 2000 + y) * 4u + av * 2u + bv));
    });
}
namespace {
/* who was copied from and who was moved from: values given as rvalues may be moved, values given as lvalues must be left alone */
struct From { long v; bool moved; explicit From(long x) : v(x), moved(false) {} };
template <bool Explicit> struct To;
template <> struct To<false> {
    long v; char how;
    To(From const & f) : v(f.v), how('c') {} To(From && f) : v(f.v), how('m') { f.moved = true; }
    To & operator=(From const & f) { v = f.v; how = 'C'; return *this; } To & operator=(From && f) { v = f.v; how = 'M'; f.moved = true; return *this; }
};
template <> struct To<true> {
    long v; char how;
    explicit To(From const & f) : v(f.v), how('c') {} explicit To(From && f) : v(f.v), how('m') { f.moved = true; }
    To & operator=(From const & f) { v = f.v; how = 'C'; return *this; } To & operator=(From && f) { v = f.v; how = 'M'; f.moved = true; return *this; }
};
struct Self { long v; char how; explicit Self(long x) : v(x), how('n') {} Self(Self const & s) : v(s.v), how('c') {} Self(Self && s) : v(s.v), how('m') { s.v = -1; } Self & operator=(Self const & s) { v = s.v; how = 'C'; return *this; } Self & operator=(Self && s) { v = s.v; how = 'M'; if (&s != this) s.v = -1; return *this; } };
char cat(Self &) { return 'l'; } char cat(Self const &) { return 'k'; } char cat(Self &&) { return 'r'; } char cat(Self const &&) { return 'q'; }
inline void assignValue(Optional<To<false> > & o, From & f, int rv, long x) { if (rv) o = std::move(f); else o = f; VM_CHECK(o.hasValue() && o->v == x && f.moved == bool(rv) && f.v == x, "category", "assignment of a value"); }
inline void assignValue(Optional<To<true> > &, From &, int, long) {}
template <bool E> void categories(bool av, bool bv, long x, long y) {
    Optional<From> src; if (av) src.emplace(x);
    auto const see = [&](Optional<To<E> > const & o, char construct, bool movedWanted, Optional<From> const & from, char const * what) {
        VM_CHECK(o.hasValue() == av && (!av || o->v == x), "conversion", "%s gives another value", what);
        VM_CHECK(from.hasValue() == av, "conversion", "%s: the source is %s afterwards", what, av ? "empty" : "engaged");
        if (av) VM_CHECK(o->how == construct && from->moved == movedWanted && from->v == x, "category", "%s: made by '%c', expected '%c'; source %smoved from", what, o->how, construct, from->moved ? "" : "not ");
    };
    { Optional<From> s(src); Optional<From> const & c = s; Optional<To<E> > const o(c); see(o, 'c', false, s, "conversion of a constant"); }
    { Optional<From> s(src); Optional<To<E> > const o(s); see(o, 'c', false, s, "conversion of an lvalue"); }
    { Optional<From> s(src); Optional<To<E> > const o(std::move(s)); see(o, 'm', true, s, "conversion of an rvalue"); }
    for (int lv = 0; lv < 3; ++lv) {
        Optional<From> s(src); Optional<From> const & c = s;
        Optional<To<E> > o; if (bv) o.emplace(From(y));
        if (lv == 0) o = c; else if (lv == 1) o = s; else o = std::move(s);
        see(o, lv == 2 ? (bv ? 'M' : 'm') : (bv ? 'C' : 'c'), lv == 2, s, lv == 0 ? "assignment of a constant" : lv == 1 ? "assignment of an lvalue" : "assignment of an rvalue");
    }
    for (int rv = 0; rv < 2; ++rv) {
        From f(x); Optional<To<E> > o; if (bv) o.emplace(From(y));
        assignValue(o, f, rv, x);
        From g(y); Optional<To<E> > p; To<E> & ref = rv ? p.emplace(std::move(g)) : p.emplace(g);
        VM_CHECK(ref.v == y && ref.how == (rv ? 'm' : 'c') && g.moved == bool(rv), "category", "emplace: made by '%c'", ref.how);
        From h(y); Optional<To<E> > q(inPlace, h); Optional<To<E> > t(inPlace, std::move(h));
        VM_CHECK(q->how == 'c' && t->how == 'm', "category", "in-place construction: made by '%c' and '%c'", q->how, t->how);
    }
}
}
VM_SCENARIO(valueCategories, "asan ndebug", 400, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        bool const av = i & 1, bv = i & 2; long const x = long(r.below(1000000)), y = long(r.below(1000000));
        if (i & 4) categories<true>(av, bv, x, y); else categories<false>(av, bv, x, y);
        Optional<Self> s; if (av) s.emplace(x);
        Optional<Self> const & c = s;
        if (av) {
            VM_CHECK(cat(*s) == 'l' && cat(*c) == 'k' && cat(*std::move(s)) == 'r' && cat(*std::move(c)) == 'q', "category", "the contained value is accessed as '%c' '%c' '%c' '%c'", cat(*s), cat(*c), cat(*std::move(s)), cat(*std::move(c)));
            Self const k = *s; VM_CHECK(k.how == 'c' && s->v == x, "category", "copied out by '%c'", k.how);
        }
        { Self const v = s.valueOr(Self(y)); VM_CHECK(v.v == (av ? x : y) && s.hasValue() == av && (!av || (s->v == x && v.how != 'n')), "category", "valueOr of an lvalue"); }
        { Self const v = s.valueOrConstruct(y); VM_CHECK(v.v == (av ? x : y) && s.hasValue() == av && (!av || s->v == x), "category", "valueOrConstruct of an lvalue"); }
        { Self const d(y); Self const v = s.valueOr(d); VM_CHECK(v.v == (av ? x : y) && d.v == y, "category", "valueOr with an lvalue default changes it"); }
        { Optional<Self> t(s); VM_CHECK(t.hasValue() == av && (!av || (t->v == x && t->how == 'c' && s->v == x)), "category", "a copy"); Self const v = std::move(t).valueOr(Self(y)); VM_CHECK(v.v == (av ? x : y) && t.hasValue() == av && (!av || t->v == -1), "category", "valueOr of an rvalue copies"); }
        { Optional<Self> t(s); Self const v = std::move(t).valueOrConstruct(y); VM_CHECK(v.v == (av ? x : y) && t.hasValue() == av && (!av || t->v == -1), "category", "valueOrConstruct of an rvalue copies"); }
        { Optional<Self> t(s), u(std::move(t)); VM_CHECK(u.hasValue() == av && t.hasValue() == av && (!av || (u->how == 'm' && t->v == -1 && u->v == x)), "category", "move construction"); Optional<Self> w; if (bv) w.emplace(y); w = u; VM_CHECK(w.hasValue() == av && (!av || (w->how == (bv ? 'C' : 'c') && u->v == x && w->v == x)), "category", "copy assignment"); Optional<Self> z; if (bv) z.emplace(y); z = std::move(w); VM_CHECK(z.hasValue() == av && (!av || (z->how == (bv ? 'M' : 'm') && w->v == -1 && z->v == x)), "category", "move assignment"); }
        vm::event("conversions", 12); vm::signature(vm::mix(std::uint64_t(x) * 8u + (i & 7u)));
    });
}
