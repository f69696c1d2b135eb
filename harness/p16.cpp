/* P16: the call stack and scope guards.
   VM-VARIANTS: asan tsan ndebug */
#include "vm.hpp"
#include <memory>
#include <sharemind/CallStack.h>
#include <sharemind/ScopeExit.h>
#include <string>
#include <vector>

namespace {
using namespace sharemind;
struct Boom {};
thread_local long bomb = 0;
void tick() { if (bomb > 0 && --bomb == 0) throw Boom(); }
struct Key { vm::Tracked t; template <typename N, typename = typename std::enable_if<std::is_integral<N>::value>::type> Key(N v) : t((tick(), long(v))) {} };
bool operator==(Key const & a, long b) { return a.t.get() == b; }
struct Val { vm::Tracked t; Val() : t((tick(), -5)) {} explicit Val(long v) : t((tick(), v)) {} };

template <typename S> struct Tr; /* how to make frames of a stack */
using S1 = CallStack<Key>; using S2 = CallStack<Key, Val>; using S3 = CallStack<std::string>; using S4 = CallStack<std::string, long>; using S5 = CallStack<int>;
template <> struct Tr<S1> { using X = long; static X key(long v) { return v; } static long get(S1::Context const & c) { return c.key().t.get(); } static bool value(S1::Context const &, long, bool) { return true; } template <typename F> static void frame(long v, long, bool, F f) { S1::Context c(v); f(c); } };
template <> struct Tr<S2> { using X = long; static X key(long v) { return v; } static long get(S2::Context const & c) { return c.key().t.get(); } static bool value(S2::Context const & c, long v, bool has) { return c.value().t.get() == (has ? v : -5); }
    template <typename F> static void frame(long k, long v, bool has, F f) { if (has) { S2::Context c(k, v); f(c); } else { S2::Context c(k); f(c); } } };
template <> struct Tr<S3> { using X = std::string; static X key(long v) { return "a long enough key " + std::to_string(v); } static long get(S3::Context const & c) { return std::stol(c.key().substr(18)); } static bool value(S3::Context const &, long, bool) { return true; } template <typename F> static void frame(long v, long, bool, F f) { S3::Context c(key(v)); f(c); } };
template <> struct Tr<S4> { using X = std::string; static X key(long v) { return "a long enough key " + std::to_string(v); } static long get(S4::Context const & c) { return std::stol(c.key().substr(18)); } static bool value(S4::Context const & c, long v, bool) { return c.value() == v; } template <typename F> static void frame(long k, long v, bool, F f) { std::string const s(key(k)); S4::Context c(s, v); f(c); } };
template <> struct Tr<S5> { using X = int; static X key(long v) { return int(v); } static long get(S5::Context const & c) { return c.key(); } static bool value(S5::Context const &, long, bool) { return true; } template <typename F> static void frame(long v, long, bool, F f) { S5::Context c(int(v) + 0); f(c); } };

struct Frame { void const * c; long k, v; bool has; };
template <typename S> std::vector<Frame> & model() { static thread_local std::vector<Frame> m; return m; }
template <typename S> void check(char const * when) {
    auto const & m = model<S>();
    auto const * c = S::top();
    for (std::size_t i = m.size(); i-- > 0; c = c->next()) {
        VM_CHECK(c, "frames", "%s: %zu frames, the stack ends after %zu", when, m.size(), m.size() - 1 - i);
        VM_CHECK(c == m[i].c, "frames", "%s: frame %zu of %zu is another one", when, i, m.size());
        VM_CHECK(Tr<S>::get(*c) == m[i].k && Tr<S>::value(*c, m[i].v, m[i].has), "content", "%s: the key or value of frame %zu changed", when, i);
    }
    VM_CHECK(!c, "frames", "%s: frames below the first one", when);
    for (long k = 0; k < 8; ++k) {
        void const * want = nullptr;
        for (auto const & f : m) if (f.k == k) want = f.c;
        VM_CHECK(S::contains(Tr<S>::key(k)) == want, "lookup", "%s: looking up key %ld gives another frame", when, k);
    }
}
std::uint64_t frames(std::uint64_t d = 0) { static std::atomic<std::uint64_t> n{0}; return n.fetch_add(d, std::memory_order_relaxed); }

void run(vm::Rng & r, unsigned depth, unsigned & budget, bool threadsAllowed, std::uint64_t & sig);
template <typename S> void enter(vm::Rng & r, unsigned depth, unsigned & budget, bool threads, std::uint64_t & sig) {
    long const k = long(r.below(8)), v = long(r.below(1000)); bool const has = r.flip(); std::size_t const before = model<S>().size();
    bomb = r.chance(1, 8) ? long(1 + r.below(2)) : 0;
    try {
        Tr<S>::frame(k, v, has, [&](typename S::Context & c) {
            bomb = 0; frames(1);
            VM_CHECK(c.next() == (before ? model<S>().back().c : nullptr), "next", "next() is not the enclosing frame");
            model<S>().push_back(Frame{&c, k, v, has});
            struct Pop { ~Pop() { model<S>().pop_back(); } } pop;
            check<S>("entered");
            run(r, depth + 1, budget, threads, sig);
            check<S>("before leaving");
            if (r.chance(1, 6)) throw Boom();
        });
    } catch (Boom) { bomb = 0; VM_CHECK(model<S>().size() == before, "model", "harness"); check<S>("left by an exception"); sig = vm::mix(sig ^ 77); if (r.flip()) throw; }
    check<S>("left");
}
void any(vm::Rng & r, unsigned depth, unsigned & budget, bool threads, std::uint64_t & sig) {
    switch (r.below(5)) {
    case 0: enter<S1>(r, depth, budget, threads, sig); break;
    case 1: enter<S2>(r, depth, budget, threads, sig); break;
    case 2: enter<S3>(r, depth, budget, threads, sig); break;
    case 3: enter<S4>(r, depth, budget, threads, sig); break;
    default: enter<S5>(r, depth, budget, threads, sig); break;
    }
}
void checkAll(char const * w) { check<S1>(w); check<S2>(w); check<S3>(w); check<S4>(w); check<S5>(w); }
void run(vm::Rng & r, unsigned depth, unsigned & budget, bool threads, std::uint64_t & sig) {
    while (budget && r.chance(depth < 6 ? 5 : 2, 7)) {
        --budget; sig = vm::mix(sig ^ depth);
        if (threads && r.chance(1, 12)) { /* a thread has a stack of its own */
            std::uint64_t const s = r.next(); std::uint64_t sub = 0;
            std::thread t([s, &sub] { vm::Rng g(s); checkAll("new thread"); unsigned b = unsigned(g.below(20)); while (b) { --b; try { any(g, 0, b, false, sub); } catch (Boom) {} } checkAll("end of thread"); });
            try { any(r, depth, budget, threads, sig); } catch (Boom) {}
            t.join(); checkAll("after a thread");
        } else any(r, depth, budget, threads, sig);
    }
}
VM_SCENARIO(stacks, "asan tsan ndebug", 1500, 60000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance; unsigned budget = unsigned(10 + r.below(150)), total = budget; std::uint64_t sig = 0; std::uint64_t const f = frames();
        while (budget) { --budget; try { any(r, 0, budget, true, sig); } catch (Boom) {} }
        checkAll("end"); balance.expect(0, "all frames left"); vm::event("frames", frames() - f); vm::signature(sig ^ total);
    });
}
/* Several threads with their own nestings at the same time. */
VM_SCENARIO(threads, "tsan asan", 500, 20000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::Perturb pert(vm::caseSeed(), unsigned(r.below(3)) * 60u); unsigned const n = unsigned(2 + r.below(3)); std::uint64_t const f = frames();
        std::vector<std::function<void ()> > fns; std::vector<std::uint64_t> sig(n, 0);
        for (unsigned t = 0; t < n; ++t) { std::uint64_t const s = r.next(); fns.push_back([&sig, t, s] { vm::Rng g(s); unsigned b = 40; while (b) { --b; try { any(g, 0, b, false, sig[t]); } catch (Boom) {} } checkAll("end"); }); }
        vm::parallel(fns); vm::event("frames", frames() - f); vm::signature(sig[0] ^ sig[1]);
    });
}
/* Frames on the heap, left in the reverse order; deep stacks. */
VM_SCENARIO(deep, "asan", 60, 500, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::vector<std::unique_ptr<S2::Context> > v; unsigned const n = unsigned(1 + r.below(3000));
        for (unsigned i = 0; i < n; ++i) { v.emplace_back(new S2::Context(long(100 + i), long(i))); VM_CHECK(S2::top() == v.back().get() && v.back()->next() == (i ? v[i - 1].get() : nullptr), "frames", "top or next"); if (r.chance(1, 20) && !v.empty()) { v.pop_back(); --i; if (r.chance(1, 50)) break; } }
        auto const * c = S2::top(); for (std::size_t i = v.size(); i-- > 0; c = c->next()) VM_CHECK(c == v[i].get() && c->value().t.get() == long(i), "frames", "frame %zu", i);
        VM_CHECK(!c, "frames", "too many frames");
        if (!v.empty()) { std::size_t const k = r.below(v.size()); VM_CHECK(S2::contains(long(100 + k)) == v[k].get() && !S2::contains(99L), "lookup", "frame %zu", k); v[k]->value().t = vm::Tracked(7); VM_CHECK(S2::contains(long(100 + k))->value().t.get() == 7, "value", "the value of a frame can not be changed"); }
        while (!v.empty()) { v.pop_back(); VM_CHECK(S2::top() == (v.empty() ? nullptr : v.back().get()), "frames", "top after leaving"); }
        vm::event("frames", n); vm::signature(n);
    });
}

/* --------------------------------------------------------- scope guards -- */
struct Log { std::vector<unsigned> v; void operator()(unsigned x) { v.push_back(x); } };
void leave(unsigned how, Log & log) {
    Log * const l = &log; int again = 0;
    for (unsigned i = 0; i < 2; ++i) {
        ScopeExit const first{[l, i] { (*l)(10 + i); }};
        ScopeExit const second{[l, i] { (*l)(20 + i); }};
        unsigned const seen = i;
        { SHAREMIND_SCOPE_EXIT((*l)(30 + seen)); if (how == 5) goto out; }
        switch (how) {
        case 0: break;
        case 1: return;
        case 2: throw Boom();
        case 3: if (!again++) { continue; } break;
        case 4: goto out;
        default: break;
        }
        if (how == 6) break;
        (*l)(40 + i);
    }
    out: (*l)(50);
}
void leaveExpected(unsigned how, Log & l) {
    unsigned again = 0;
    for (unsigned i = 0; i < 2; ++i) {
        l(30 + i); bool stop = false, ret = false;
        switch (how) { case 1: case 2: ret = true; break; case 3: if (!again++) { l(20 + i); l(10 + i); continue; } break; case 4: case 5: case 6: stop = true; break; default: break; }
        if (!stop && !ret) l(40 + i);
        l(20 + i); l(10 + i);
        if (ret) return;
        if (stop) break;
    }
    l(50);
}
thread_local Log * global = nullptr;
void plain() { (*global)(60); }
struct Counted { vm::Tracked t{1}; Log * l; explicit Counted(Log * x) : l(x) {} void operator()() const { (*l)(unsigned(60 + t.get())); } };
VM_SCENARIO(guards, "asan ndebug", 500, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance; Log got, want; unsigned const how = unsigned(r.below(7)); bool threw = false;
        try { leave(how, got); } catch (Boom) { threw = true; }
        leaveExpected(how, want);
        VM_CHECK(got.v == want.v && threw == (how == 2), "guard", "leaving a scope in way %u ran %zu actions, should be %zu", how, got.v.size(), want.v.size());
        /* a random tree of scopes, some left by exceptions, some actions throw */
        std::vector<unsigned> order, expect; unsigned id = 0;
        std::function<bool (unsigned)> scope = [&](unsigned depth) -> bool { /* true: threw */
            std::vector<std::unique_ptr<ScopeExit> > guards; std::vector<unsigned> mine; bool boom = false;
            unsigned const n = unsigned(r.below(4)); unsigned const k = unsigned(r.below(4));
            auto const add = [&] { unsigned const x = id++; std::function<void ()> f([x, &order] { order.push_back(x); });
                switch (k) { case 0: guards.emplace_back(new ScopeExit(f)); break; case 1: guards.emplace_back(new ScopeExit(std::move(f))); break; default: guards.emplace_back(new ScopeExit([f] { f(); })); } mine.push_back(x); };
            for (unsigned i = 0; i < n; ++i) { add(); if (depth < 4 && r.flip() && scope(depth + 1)) { boom = true; break; } VM_CHECK(order == expect, "guard", "an action ran before the scope was left"); }
            if (!boom && r.chance(1, 5)) boom = true;
            while (!guards.empty()) { guards.pop_back(); expect.push_back(mine.back()); mine.pop_back(); VM_CHECK(order == expect, "guard", "an action did not run exactly once"); }
            return boom;
        };
        scope(0);
        { /* throwing actions: the exception comes out, the others still run */
            unsigned a = 0, b = 0, c = 0; bool out = false;
            try { ScopeExit const x([&] { ++a; }); ScopeExit const y([&] { ++b; throw Boom(); }); ScopeExit const z([&] { ++c; }); } catch (Boom) { out = true; }
            VM_CHECK(a == 1 && b == 1 && c == 1 && out, "guard-throws", "actions ran %u, %u and %u times", a, b, c);
        }
        { Log l; global = &l; { ScopeExit const x(&plain); ScopeExit const y{Counted(&l)}; Counted const k(&l); ScopeExit const z(k); ScopeExit const w{std::ref(k)}; VM_CHECK(l.v.empty(), "guard", "ran early"); }
          VM_CHECK((l.v == std::vector<unsigned>{61, 61, 61, 60}), "guard", "actions of other kinds: %zu ran", l.v.size()); }
        { unsigned n = 0; unsigned * const p = &n; try { SHAREMIND_SCOPE_EXIT(*p += 1, *p += 10);
            SHAREMIND_SCOPE_EXIT(if (*p) { *p += 100; } else { *p += 1000; }); throw Boom(); } catch (Boom) {} VM_CHECK(n == 1011, "guard", "macro guards gave %u", n); }
        { /* the action works on the values at the time the guard was made */
            auto owned = std::make_shared<unsigned>(7u); unsigned stage = 1, saw = 0, sawOwned = 0; unsigned * const ps = &saw, * const po = &sawOwned;
            std::weak_ptr<unsigned> const w(owned);
            { SHAREMIND_SCOPE_EXIT(*ps = stage; *po = *owned); stage = 2; owned.reset(); VM_CHECK(!w.expired(), "guard-captures", "the guard does not own what its action uses"); }
            VM_CHECK(saw == 1 && sawOwned == 7 && w.expired(), "guard-captures", "the action saw %u and %u", saw, sawOwned);
        }
        balance.expect(0, "guards"); vm::event("guards", id + 20); vm::signature(how * 1000u + id);
    });
}
}
