/* P37: self-sharing, tuple application, null-free tuples, checked returns, time.
   VM-VARIANTS: asan tsan ndebug */
#include "vm.hpp"
#include <array>
#include <functional>
#include <memory>
#include <sharemind/ApplyTuples.h>
#include <sharemind/AssertReturn.h>
#include <sharemind/EnableSharedFromThis.h>
#include <sharemind/FunctionTraits.h>
#include <sharemind/MicrosecondTime.h>
#include <sharemind/NoNullTuple.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <tuple>

namespace {
struct FakeTime { bool on, fail; timeval t; };
FakeTime & fakeTime() { static thread_local FakeTime v{false, false, {0, 0}}; return v; }
}
/* The clock as the scenario wants it. */
extern "C" int gettimeofday(timeval * t, void *) noexcept {
    if (!fakeTime().on) { timespec s; ::clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
    if (fakeTime().fail) { errno = EPERM; return -1; }
    *t = fakeTime().t; return 0;
}
namespace {
using namespace sharemind;
struct Seen { bool sharedThrew = false, weakEmpty = false, aliasEmpty = false; };
struct Node: EnableSharedFromThis<Node> {
    vm::Tracked t; long part[3]; Seen ctor; Seen * dtor = nullptr; Node * child = nullptr;
    explicit Node(long v): t(v) { for (int i = 0; i < 3; ++i) part[i] = v + i; look(ctor); }
    ~Node() { if (dtor) look(*dtor); }
    void look(Seen & s) {
        try { (void) this->sharedFromThis(); } catch (std::bad_weak_ptr const &) { s.sharedThrew = true; }
        s.weakEmpty = this->weakFromThis().expired() && !this->weakFromThis().lock(); s.aliasEmpty = this->weakFromThis(&part[0]).expired();
    }
};
struct Derived: Node { using Node::Node; int extra = 7; };
template <typename A, typename B> bool sameOwner(A const & a, B const & b) { return !a.owner_before(b) && !b.owner_before(a); }
}
VM_SCENARIO(sharing, "asan ndebug", 3000, 150000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) { /* histories over one or several shared objects */
        vm::LiveBalance b; std::uint64_t sig = 0;
        {
            struct Obj { Seen dtor; std::vector<std::shared_ptr<Node> > owners; std::vector<std::shared_ptr<Node const> > consts; std::vector<std::shared_ptr<long> > parts; std::vector<std::shared_ptr<long const> > constParts; std::vector<std::weak_ptr<Node> > weaks; std::vector<std::weak_ptr<long> > weakParts; std::vector<std::weak_ptr<Node const> > constWeaks; std::vector<std::weak_ptr<long const> > constWeakParts; Node * raw; long v; };
            std::vector<std::unique_ptr<Obj> > os; vm::describe("sharing objects from themselves");
            for (std::size_t n = 1 + r.below(3); n--; ) {
                std::unique_ptr<Obj> o(new Obj); o->v = long(r.below(100000)); std::shared_ptr<Node> p;
                if (r.flip()) p = std::make_shared<Node>(o->v); else if (r.flip()) p = std::make_shared<Derived>(o->v); else p.reset(new Derived(o->v));
                p->dtor = &o->dtor; o->raw = p.get(); o->owners.push_back(std::move(p)); VM_CHECK(o->raw->ctor.sharedThrew && o->raw->ctor.weakEmpty && o->raw->ctor.aliasEmpty, "constructing", "during construction, the object claims to be shared"); os.push_back(std::move(o));
            }
            for (unsigned k = 0; k < 60; ++k) {
                Obj & o = *os[r.below(os.size())]; std::size_t const strong = o.owners.size() + o.consts.size() + o.parts.size() + o.constParts.size(); unsigned const op = unsigned(r.below(14)); sig = vm::mix(sig ^ op ^ (strong << 8));
                auto const drop = [&](auto & v) { if (!v.empty()) { std::size_t const at = r.below(v.size()); std::swap(v[at], v.back()); v.pop_back(); } };
                if (strong == 0) { /* gone: what is left must say so */
                    VM_CHECK(o.dtor.sharedThrew && o.dtor.weakEmpty && o.dtor.aliasEmpty, "destroying", "during destruction, the object can still be shared");
                    for (auto const & w : o.weaks) VM_CHECK(w.expired() && !w.lock(), "expired", "a weak pointer outlives its object"); for (auto const & w : o.weakParts) VM_CHECK(!w.lock(), "expired", "a weak pointer to a part outlives the object"); for (auto const & w : o.constWeaks) VM_CHECK(!w.lock(), "expired", "a weak pointer outlives its object"); for (auto const & w : o.constWeakParts) VM_CHECK(!w.lock(), "expired", "a weak pointer to a part outlives the object");
                    vm::event("expired"); continue;
                }
                Node & n = *o.raw; Node const & c = n; long const i = long(r.below(3)); long want = long(strong);
                switch (op) {
                case 0: o.owners.push_back(n.sharedFromThis()); ++want; VM_CHECK(o.owners.back().get() == &n, "self", "sharedFromThis() points elsewhere"); break;
                case 1: o.consts.push_back(c.sharedFromThis()); ++want; VM_CHECK(o.consts.back().get() == &c, "self", "sharedFromThis() const points elsewhere"); break;
                case 2: o.parts.push_back(n.sharedFromThis(&n.part[i])); ++want; VM_CHECK(o.parts.back().get() == &n.part[i], "alias", "sharedFromThis(p) points elsewhere"); break;
                case 3: o.constParts.push_back(c.sharedFromThis(&c.part[i])); ++want; VM_CHECK(o.constParts.back().get() == &c.part[i], "alias", "sharedFromThis(p) const points elsewhere"); break;
                case 4: o.weaks.push_back(n.weakFromThis()); VM_CHECK(o.weaks.back().lock().get() == &n, "weak", "weakFromThis() points elsewhere"); break;
                case 5: o.weakParts.push_back(n.weakFromThis(&n.part[i])); VM_CHECK(o.weakParts.back().lock().get() == &n.part[i], "weak", "weakFromThis(p) points elsewhere"); break;
                case 6: o.constWeaks.push_back(c.weakFromThis()); VM_CHECK(o.constWeaks.back().lock().get() == &c, "weak", "weakFromThis() const points elsewhere"); break;
                case 7: o.constWeakParts.push_back(c.weakFromThis(&c.part[i])); VM_CHECK(o.constWeakParts.back().lock().get() == &c.part[i], "weak", "weakFromThis(p) const points elsewhere"); break;
                case 8: want -= o.owners.empty() ? 0 : 1; drop(o.owners); break; case 9: want -= o.consts.empty() ? 0 : 1; drop(o.consts); break; case 10: want -= o.parts.empty() ? 0 : 1; drop(o.parts); break; case 11: want -= o.constParts.empty() ? 0 : 1; drop(o.constParts); break;
                case 12: drop(o.weaks); drop(o.weakParts); break; default: drop(o.constWeaks); drop(o.constWeakParts); break;
                }
                /* every strong pointer, and only those, keeps the object */
                long count = -1; for (auto const & p : o.owners) count = p.use_count(); for (auto const & p : o.consts) count = p.use_count(); for (auto const & p : o.parts) count = p.use_count(); for (auto const & p : o.constParts) count = p.use_count();
                VM_CHECK(want == 0 || count == want, "owners", "%ld owners, counted as %ld after operation %u", want, count, op);
                for (auto const & p : o.parts) { VM_CHECK(*p >= o.v && *p < o.v + 3, "kept", "a part reads %ld, should be near %ld", *p, o.v); if (!o.owners.empty()) VM_CHECK(sameOwner(p, o.owners[0]), "owners", "a part does not share ownership with its object"); }
                for (auto const & p : o.constParts) VM_CHECK(*p >= o.v && *p < o.v + 3, "kept", "a part reads %ld, should be near %ld", *p, o.v);
                if (want) { VM_CHECK(n.t.value == o.v, "kept", "the object reads %ld, should be %ld", n.t.value, o.v); }
                vm::event("operations");
            }
        }
        b.expect(0, "sharing"); vm::signature(sig);
    });
}
VM_SCENARIO(unowned, "asan ndebug", 300, 10000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) { /* objects nobody shares, or which somebody adopts late */
        vm::LiveBalance b; { Node n(3); Node const & c = n; Seen s; n.look(s); VM_CHECK(s.sharedThrew && s.weakEmpty && s.aliasEmpty, "unowned", "an object on the stack claims to be shared"); bool threw = false; try { (void) c.sharedFromThis(); } catch (std::bad_weak_ptr const &) { threw = true; } VM_CHECK(threw, "unowned", "sharedFromThis() const of an object on the stack"); threw = false; try { (void) n.sharedFromThis(&n.part[1]); } catch (std::bad_weak_ptr const &) { threw = true; } VM_CHECK(threw, "unowned", "sharedFromThis(p) of an object on the stack"); threw = false; try { (void) c.sharedFromThis(&c.part[1]); } catch (std::bad_weak_ptr const &) { threw = true; } VM_CHECK(threw, "unowned", "sharedFromThis(p) const of an object on the stack");
          VM_CHECK(c.weakFromThis().expired() && c.weakFromThis(&c.part[1]).expired(), "unowned", "weakFromThis() const of an object on the stack");
          std::unique_ptr<Node> u(new Node(long(r.below(100)))); Node * const raw = u.get(); VM_CHECK(raw->weakFromThis().expired(), "unowned", "a uniquely owned object claims to be shared"); std::shared_ptr<Node> p(std::move(u)); { auto const q = raw->sharedFromThis(); VM_CHECK(q == p && p.use_count() == 2, "adopted", "an adopted object does not share itself"); }
          { long * const none = nullptr; std::shared_ptr<long> const s0 = raw->sharedFromThis(none); std::shared_ptr<long const> const s1 = static_cast<Node const *>(raw)->sharedFromThis(static_cast<long const *>(nullptr)); std::weak_ptr<long> const w0 = raw->weakFromThis(none); std::weak_ptr<long const> const w1 = static_cast<Node const *>(raw)->weakFromThis(static_cast<long const *>(nullptr));
            VM_CHECK(!s0 && !s1 && p.use_count() == 3 && sameOwner(s0, p) && sameOwner(s1, p) && w0.use_count() == 3 && w1.use_count() == 3 && sameOwner(w0, p) && sameOwner(w1, p), "alias", "an aliasing null pointer does not share in owning the object: %ld owners", p.use_count()); }
          Node copy(*raw); VM_CHECK(copy.weakFromThis().expired(), "unowned", "a copy of a shared object claims to be shared"); *raw = copy; VM_CHECK(raw->sharedFromThis() == p, "adopted", "assigning to a shared object unshares it"); vm::event("unowned"); }
        b.expect(0, "objects"); vm::signature(i);
    });
}
VM_SCENARIO(last_owner, "asan tsan", 600, 10000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) { /* self-sharing races against dropping the other owners */
        vm::LiveBalance b; vm::Perturb pt(vm::caseSeed(), unsigned(r.below(4))); vm::describe("several threads share one object from itself"); std::uint64_t sig = 0;
        {
            unsigned const n = 2 + unsigned(r.below(3)); std::shared_ptr<Node> p = std::make_shared<Node>(5); Seen dtor; p->dtor = &dtor; std::vector<std::weak_ptr<Node> > weaks(n); std::weak_ptr<Node> const first = p->weakFromThis(); std::vector<std::uint64_t> seen(n, 0); std::vector<std::function<void()> > fs;
            for (unsigned k = 0; k < n; ++k) { std::shared_ptr<Node> own = p; std::uint64_t const seed = r.word();
                fs.push_back([own, k, seed, &weaks, &seen]() mutable { vm::Rng q(seed); std::vector<std::shared_ptr<long> > parts; Node * const raw = own.get(); weaks[k] = raw->weakFromThis();
                    for (unsigned m = 0; m < 6; ++m) { vm::jitter(q); if (q.flip()) parts.push_back(raw->sharedFromThis(&raw->part[m % 3u])); else { auto const w = raw->weakFromThis(&raw->part[m % 3u]); auto const l = w.lock(); VM_CHECK(l && l.get() == &raw->part[m % 3u], "weak", "a weak pointer of an owned object is empty"); seen[k] += std::uint64_t(l.use_count()); } if (q.chance(1, 3)) own.reset(); if (!own && parts.empty()) break; }
                    own.reset(); for (auto & x : parts) { VM_CHECK(*x >= 5 && *x < 8, "kept", "a part reads %ld", *x); } parts.clear(); }); }
            p.reset(); vm::parallel(fs); fs.clear(); /* the closures own it too */
            VM_CHECK(first.expired() && dtor.sharedThrew && dtor.weakEmpty, "destroying", "the object is still alive without owners"); for (auto const & w : weaks) VM_CHECK(w.expired(), "expired", "a weak pointer outlives its object"); for (auto x : seen) sig = vm::mix(sig ^ x);
        }
        b.expect(0, "sharing in threads"); vm::event("threaded"); vm::signature(sig ^ (i % 7u));
    });
}
/* ---- tuples */
namespace {
struct Log { std::vector<long> v; };
struct Collect {
    Log * log; int * lvalueCalls; int * constCalls; int * rvalueCalls;
    template <typename T> static char category() { return std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? 'c' : 'l') : 'r'; }
    static long value(long v) { return v; } static long value(vm::Tracked const & t) { return t.value; } static long value(std::unique_ptr<long> const & p) { return *p; } static long value(char const & c) { return c; }
    template <typename T> int one(T && t) const { log->v.push_back(value(t)); log->v.push_back(category<T>()); log->v.push_back(long(reinterpret_cast<std::uintptr_t>(&t))); return 0; }
    template <typename ... Ts> long run(Ts && ... ts) const { int const x[] = {0, one<Ts>(std::forward<Ts>(ts))...}; (void) x; return long(sizeof...(Ts)); }
    template <typename ... Ts> long operator()(Ts && ... ts) & { ++*lvalueCalls; return run(std::forward<Ts>(ts)...); }
    template <typename ... Ts> long operator()(Ts && ... ts) const & { ++*constCalls; return run(std::forward<Ts>(ts)...); }
    template <typename ... Ts> long operator()(Ts && ... ts) && { ++*rvalueCalls; return run(std::forward<Ts>(ts)...); }
};
template <typename T> long addr(T const & t) { return long(reinterpret_cast<std::uintptr_t>(&t)); }
void compare(Log const & got, std::vector<long> const & want, char const * how) {
    VM_CHECK(got.v.size() == want.size(), "apply", "%s: %zu arguments, should be %zu", how, got.v.size() / 3, want.size() / 3);
    for (std::size_t i = 0; i < want.size(); ++i) VM_CHECK(got.v[i] == want[i], i % 3 == 0 ? "apply" : i % 3 == 1 ? "apply-category" : "apply-copy", "%s: argument %zu has %s %ld, should be %ld", how, i / 3, i % 3 == 0 ? "value" : i % 3 == 1 ? "category" : "address", got.v[i], want[i]);
}
}
VM_SCENARIO(apply, "asan ndebug", 8000, 60000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::LiveBalance b; std::uint64_t sig = i % 6u; vm::describe(vm::format("applying, way %u", unsigned(i % 6u)));
        {
            long v[8]; for (long & x : v) { x = long(r.below(100000)) - 50000; sig = vm::mix(sig ^ std::uint64_t(x)); }
            int lc = 0, cc = 0, rc = 0; Log log; Collect f{&log, &lc, &cc, &rc}; long const x7 = v[7];
            using T3 = std::tuple<long, vm::Tracked, char>; T3 a(v[0], vm::Tracked(v[1]), char(v[2])); T3 const ca(v[3], vm::Tracked(v[4]), char(v[5])); std::tuple<std::unique_ptr<long> > u(std::make_unique<long>(v[6])); std::tuple<long &, long const &> refs(v[0], v[1]); std::pair<long, long> pr(v[2], v[3]); std::array<long, 4> ar{{v[4], v[5], v[6], v[7]}};
            auto const e = [](long val, char c, long ad) { return std::vector<long>{val, long(c), ad}; };
            auto const cat = [](std::initializer_list<std::vector<long> > l) { std::vector<long> s; for (auto const & x : l) s.insert(s.end(), x.begin(), x.end()); return s; };
            using std::get; long n = 0; std::vector<long> want; int wl = 0, wc = 0, wr = 0;
            switch (i % 6u) {
            case 0: want = cat({e(get<0>(a), 'l', addr(get<0>(a))), e(get<1>(a).value, 'l', addr(get<1>(a))), e(get<2>(a), 'l', addr(get<2>(a)))}); n = applyTuples(f, a); wl = 1; break;
            case 1: want = cat({e(get<0>(ca), 'c', addr(get<0>(ca))), e(get<1>(ca).value, 'c', addr(get<1>(ca))), e(get<2>(ca), 'c', addr(get<2>(ca))), e(get<0>(a), 'l', addr(get<0>(a))), e(get<1>(a).value, 'l', addr(get<1>(a))), e(get<2>(a), 'l', addr(get<2>(a)))}); n = applyTuples(std::move(f), ca, a); wr = 1; break;
            case 2: want = cat({e(*get<0>(u), 'r', addr(get<0>(u))), e(get<0>(a), 'r', addr(get<0>(a))), e(get<1>(a).value, 'r', addr(get<1>(a))), e(get<2>(a), 'r', addr(get<2>(a)))}); n = applyTuples(static_cast<Collect const &>(f), std::move(u), std::move(a)); wc = 1; break;
            case 3: want = cat({e(v[0], 'l', addr(v[0])), e(v[1], 'c', addr(v[1])), e(pr.first, 'l', addr(pr.first)), e(pr.second, 'l', addr(pr.second)), e(ar[0], 'r', addr(ar[0])), e(ar[1], 'r', addr(ar[1])), e(ar[2], 'r', addr(ar[2])), e(ar[3], 'r', addr(ar[3]))}); n = applyTuples(f, refs, pr, std::move(ar)); wl = 1; break;
            case 4: want = cat({e(x7, 'c', addr(x7)), e(v[0], 'l', addr(v[0])), e(v[0], 'l', addr(v[0])), e(get<0>(ca), 'c', addr(get<0>(ca))), e(get<1>(ca).value, 'c', addr(get<1>(ca))), e(get<2>(ca), 'c', addr(get<2>(ca)))}); n = applyTuples(f, std::tie(x7), std::tie(v[0], v[0]), std::move(ca)); want[13] = want[16] = 'r'; want[10] = 'r'; wl = 1; break;
            default: { /* moving out of rvalue tuples, changing through lvalue ones */
                long total = 0; std::unique_ptr<long> taken; n = applyTuples([&](std::unique_ptr<long> p, long & x, vm::Tracked t, auto && ...) { taken = std::move(p); total += x; x = 17; total += t.value; return 4; }, std::move(u), std::tie(v[0]), std::make_tuple(vm::Tracked(v[4]), 3, nullptr)) - 4;
                VM_CHECK(n == 0 && taken && *taken == v[6] && !get<0>(u) && v[0] == 17, "apply-move", "moving an element out of an rvalue tuple"); VM_CHECK(total == get<0>(a) + v[4], "apply", "wrong values passed"); n = 0; break; }
            }
            /* const rvalues are seen as rvalues */
            compare(log, want, vm::format("way %u", unsigned(i % 6u)).c_str()); VM_CHECK(n == long(want.size() / 3), "apply-result", "the result of the callable is %ld", n); VM_CHECK(lc == wl && cc == wc && rc == wr, "apply-calls", "called %d, %d, %d times as lvalue, const, rvalue", lc, cc, rc); vm::event("applied");
        }
        b.expect(0, "applying tuples"); vm::signature(sig);
    });
}
namespace { /* values of other types are other values, rather than errors */
inline bool equal(vm::Tracked const & a, vm::Tracked const & b) { return a.value == b.value; }
template <typename T> bool equal(T const & a, T const & b) { return a == b; }
template <typename T, typename U> bool equal(T const &, U const &) { return false; }
template <typename T, typename U> bool is(T const & a, U const & b) { return equal(a, b); }
bool is(long * a, std::nullptr_t) { return !a; }
}
VM_SCENARIO(no_null, "asan ndebug", 2000, 60000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance b; std::uint64_t sig = 0; vm::describe("tuples without null pointers");
        {
            long const x = long(r.below(1000)), y = long(r.below(1000)); std::nullptr_t nul = nullptr; std::nullptr_t const cnul = nullptr; long z = y; vm::Tracked t(x); std::unique_ptr<long> p(new long(y)); char const * s = "text"; long * np = nullptr; sig = vm::mix(std::uint64_t(x * 1000 + y));
            using N = std::nullptr_t; long * const where = p.get();
            auto q = makeNoNullTuple(nullptr, x, nul, std::ref(z), cnul, std::move(p), t, nullptr, s, np, std::cref(x)); using Orig = std::tuple<N, long, N, long &, N, std::unique_ptr<long>, vm::Tracked, N, char const *, long *, long const &>;
            VM_CHECK((std::is_same<decltype(q), std::tuple<long, long &, std::unique_ptr<long>, vm::Tracked, char const *, long *, long const &> >::value), "no-null-type", "the tuple has another type");
            VM_CHECK((std::is_same<decltype(q), NoNullTuple_t<N, long, N, long &, N, std::unique_ptr<long>, vm::Tracked, N, char const *, long *, long const &> >::value), "no-null-type", "NoNullTuple has another type");
            VM_CHECK(is(std::get<0>(q), x) && &std::get<1>(q) == &z && std::get<2>(q).get() == where && !p && std::get<3>(q).value == x && t.value == x && std::get<4>(q) == s && std::get<5>(q) == nullptr && &std::get<6>(q) == &x, "no-null", "the tuple has other elements");
            z = 77; VM_CHECK((is(noNullGet<1, Orig>(q), x) && is(noNullGet<3, Orig>(q), 77L) && is(noNullGet<6, Orig>(q), vm::Tracked(x)) && is(noNullGet<8, Orig>(q), s) && is(noNullGet<9, Orig>(q), nullptr) && is(noNullGet<10, Orig>(q), x)), "no-null-get", "noNullGet yields another element");
            auto const & cq = q; VM_CHECK((is(noNullGet<1, Orig>(cq), x) && is(noNullGet<6, Orig>(cq), vm::Tracked(x))), "no-null-get", "noNullGet of a constant tuple yields another element");
            auto none = makeNoNullTuple(nullptr, nul); VM_CHECK(std::tuple_size<decltype(none)>::value == 0 && std::tuple_size<decltype(makeNoNullTuple())>::value == 0, "no-null", "a tuple of null pointers is not empty");
            auto first = makeNoNullTuple(vm::Tracked(x), nullptr), last = makeNoNullTuple(nullptr, vm::Tracked(y)); VM_CHECK(std::get<0>(first).value == x && std::get<0>(last).value == y && (is(noNullGet<0, std::tuple<vm::Tracked, N> >(first), vm::Tracked(x))) && (is(noNullGet<1, std::tuple<N, vm::Tracked> >(last), vm::Tracked(y))), "no-null", "wrong element");
            auto run = makeNoNullTuple(nullptr, nullptr, x, y, nullptr, nullptr, nullptr, z, nullptr); using Run = std::tuple<N, N, long, long, N, N, N, long, N>; VM_CHECK((std::tuple_size<decltype(run)>::value == 3 && is(noNullGet<2, Run>(run), x) && is(noNullGet<3, Run>(run), y) && is(noNullGet<7, Run>(run), z)), "no-null-get", "noNullGet past several null pointers yields another element");
            constexpr auto k = makeNoNullTuple(1, nullptr, 'c'); static_assert(std::get<0>(k) == 1 && std::get<1>(k) == 'c', ""); vm::event("tuples", 5);
        }
        b.expect(0, "null-free tuples"); vm::signature(sig);
    });
}
/* ---- checked returns, time */
VM_SCENARIO(checked, "asan ndebug", 200, 4000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        struct Asked { int * n; bool v; explicit operator bool() const { ++*n; return v; } };
        int n = 0; Asked a{&n, true}; Asked & back = assertReturn(a); VM_CHECK(&back == &a, "returned", "assertReturn() returns something else"); int * const p = new int(int(r.below(99))); std::unique_ptr<int> u(p); std::unique_ptr<int> v(assertReturn(std::move(u))); VM_CHECK(v.get() == p && !u, "returned", "assertReturn() does not pass its argument on"); std::unique_ptr<int> const & cr = v; VM_CHECK(&assertReturn(cr) == &v && assertReturn(p) == p, "returned", "assertReturn() returns something else");
        static_assert(std::is_same<decltype(assertReturn(a)), Asked &>::value && std::is_same<decltype(assertReturn(std::move(a))), Asked &&>::value && std::is_same<decltype(assertReturn(cr)), std::unique_ptr<int> const &>::value, "");
#ifdef NDEBUG
        VM_CHECK(n == 0, "asked", "the value is asked in a release build"); Asked f{&n, false}; VM_CHECK(&assertReturn(f) == &f, "returned", "assertReturn() returns something else");
#else
        VM_CHECK(n == 1, "asked", "the value is asked %d times", n);
        if (i % 4u == 0) { std::fflush(nullptr); pid_t const c = ::fork(); if (c == 0) { rlimit const none = {0, 0}; ::setrlimit(RLIMIT_CORE, &none); ::signal(SIGABRT, SIG_DFL); ::alarm(60); ::close(2); int * np = nullptr; Asked f{&n, false}; if (r.flip()) (void) assertReturn(np); else (void) assertReturn(f); std::_Exit(7); } int s = 0; while (::waitpid(c, &s, 0) < 0 && errno == EINTR) {} VM_CHECK(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT, "unchecked", "assertReturn() of a false value ends in status %#x", unsigned(s)); vm::event("asserted"); }
#endif
        vm::event("returned"); vm::signature(i);
    });
}
VM_SCENARIO(time, "asan ndebug", 2000, 60000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        struct E { long v; vm::Tracked t; }; FakeTime & f = fakeTime();
        f.on = true; f.fail = r.chance(1, 4); using L = std::numeric_limits<std::int64_t>; std::int64_t const s = r.flip() ? 0 + std::int64_t(r.below(3)) : r.flip() ? std::int64_t(r.word() % (L::max() / 1000000)) : std::int64_t(r.below(1ull << (1 + r.below(40)))); std::int64_t const us = r.chance(1, 3) ? (r.flip() ? 0 : 999999) : std::int64_t(r.below(1000000));
        f.t.tv_sec = s; f.t.tv_usec = us; UsTime const onFail = r.word(); long const ev = long(r.below(1000)); vm::describe(vm::format("%lld s %lld us%s", (long long) s, (long long) us, f.fail ? ", failing" : ""));
        UsTime const got = getUsTime(onFail), plain = getUsTime(); UsTime thrown = 0; bool threw = false; try { thrown = getUsTimeOrThrow(E{ev, vm::Tracked(ev)}); } catch (E const & e) { threw = true; VM_CHECK(e.v == ev && e.t.value == ev, "time-thrown", "another exception is thrown"); }
        f.on = false; UsTime const want = UsTime(s) * 1000000u + UsTime(us);
        if (f.fail) { VM_CHECK(got == onFail && plain == 0 && threw, "time-fail", "a failing clock gives %llu, %llu", (unsigned long long) got, (unsigned long long) plain); vm::event("failures"); }
        else { VM_CHECK(got == want && plain == want && !threw && thrown == want, "time", "the time is %llu, should be %llu", (unsigned long long) got, (unsigned long long) want); vm::event("times"); }
        timeval b, a; ::gettimeofday(&b, nullptr); UsTime const now = getUsTime(); ::gettimeofday(&a, nullptr); VM_CHECK(now >= UsTime(b.tv_sec) * 1000000u + UsTime(b.tv_usec) && now <= UsTime(a.tv_sec) * 1000000u + UsTime(a.tv_usec), "time", "the time is not between the times before and after"); vm::signature(want ^ (f.fail ? 1u : 0u));
    });
}
