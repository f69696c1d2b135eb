/* P01: futures and promises.
   VM-VARIANTS: asan asanp tsan native ndebug */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include <memory>
#include <sharemind/Future.h>
#include <string>
#include <vector>

namespace {
using sharemind::Future; using sharemind::Promise; using sharemind::BrokenPromiseException;
using Clock = std::chrono::steady_clock;
struct Boom {};
using vm::Err;

/* The n-th construction of a Thrower on this thread throws. */
long & bomb() { static thread_local long v = 0; return v; }
void tick() { if (bomb() > 0 && --bomb() == 0) throw Boom(); }
struct Thrower {
    vm::Tracked t;
    explicit Thrower(long v) : t((tick(), v)) {}
    Thrower(Thrower const & o) : t((tick(), o.t)) {}
    Thrower(Thrower && o) : t((tick(), std::move(o.t))) {}
};
struct alignas(64) Aligned { vm::Tracked t; explicit Aligned(long v) : t(v) {} };

template <typename T> struct Ty;
template <> struct Ty<vm::Tracked> { enum { tracked = 1 }; static vm::Tracked make(long v) { return vm::Tracked(v); } static long get(vm::Tracked const & t) { return t.get(); } };
template <> struct Ty<Thrower> { enum { tracked = 1 }; static Thrower make(long v) { return Thrower(v); } static long get(Thrower const & t) { return t.t.get(); } };
template <> struct Ty<Aligned> { enum { tracked = 1 }; static Aligned make(long v) { return Aligned(v); } static long get(Aligned const & t) { VM_CHECK(reinterpret_cast<std::uintptr_t>(&t) % 64 == 0, "alignment", "value not aligned"); return t.t.get(); } };
template <> struct Ty<std::string> { enum { tracked = 0 }; static std::string make(long v) { return "a value which is somewhat long " + std::to_string(v); } static long get(std::string const & s) { return s.size() < 32 ? -1 : std::stol(s.substr(31)); } };
template <> struct Ty<std::unique_ptr<long> > { enum { tracked = 0 }; static std::unique_ptr<long> make(long v) { return std::unique_ptr<long>(new long(v)); } static long get(std::unique_ptr<long> const & p) { return p ? *p : -1; } };
template <> struct Ty<long> { enum { tracked = 0 }; static long make(long v) { return v; } static long get(long v) { return v; } };

enum Outcome { Value, ValueMove, Emplace, Exc, ExcPtr, Abandon, Destroy, Overwrite, FailThenValue, FailThenDestroy, Outcomes };
bool isValue(unsigned o) { return o <= Emplace || o == FailThenValue; }
bool isErr(unsigned o) { return o == Exc || o == ExcPtr; }

template <typename T, bool = std::is_copy_constructible<T>::value> struct SetCopy { static void set(Promise<T> & p, T const & v) { p.setValue(v); } };
template <typename T> struct SetCopy<T, false> { static void set(Promise<T> & p, T & v) { p.setValue(std::move(v)); } };

template <typename T> struct FailFirst { static void run(Promise<T> &, long) {} };
template <> struct FailFirst<Thrower> {
    static void run(Promise<Thrower> & p, long v) {
        Thrower t(v);
        for (unsigned i = 0; i < 3; ++i) {
            bool threw = false; bomb() = 1;
            try { if (i == 0) p.setValue(t); else if (i == 1) p.setValue(std::move(t)); else p.emplaceValue(v); } catch (Boom) { threw = true; }
            bomb() = 0;
            VM_CHECK(threw, "value-throws", "the exception of the value's constructor does not come out");
            VM_CHECK(p.isValid(), "value-throws", "the promise is no longer valid after constructing the value threw");
        }
    }
};
/** Completes the promise *p, which may be destroyed. */
template <typename T> void fulfil(std::unique_ptr<Promise<T> > & p, unsigned o, long v) {
    switch (o) {
    case Value: { T t(Ty<T>::make(v)); SetCopy<T>::set(*p, t); } break;
    case ValueMove: p->setValue(Ty<T>::make(v)); break;
    case Emplace: p->emplaceValue(Ty<T>::make(v)); break;
    case Exc: p->setException(Err(v)); break;
    case ExcPtr: p->setException(std::make_exception_ptr(Err(v))); break;
    case Abandon: p->abandon(); break;
    case FailThenValue: FailFirst<T>::run(*p, v); p->setValue(Ty<T>::make(v)); break;
    case FailThenDestroy: FailFirst<T>::run(*p, v); p.reset(); return;
    case Destroy: p.reset(); return;
    default: { Promise<T> q; auto f(q.takeFuture()); *p = std::move(q); VM_CHECK(p->isValid() && !f.isReady(), "overwrite", "the new promise is not as it was"); p.reset(); VM_CHECK(f.isReady(), "not-ready", "abandoned and not ready"); return; }
    }
    VM_CHECK(!p->isValid(), "valid-after", "the promise is still valid after it was completed");
}
template <> void fulfil<void>(std::unique_ptr<Promise<void> > & p, unsigned o, long v) {
    switch (o) {
    case Value: case FailThenValue: p->setReady(); break;
    case ValueMove: case Emplace: p->setValue(); break;
    case Exc: p->setException(Err(v)); break;
    case ExcPtr: p->setException(std::make_exception_ptr(Err(v))); break;
    case Abandon: p->abandon(); break;
    case FailThenDestroy: case Destroy: p.reset(); return;
    default: { Promise<void> q; auto f(q.takeFuture()); *p = std::move(q); VM_CHECK(p->isValid() && !f.isReady(), "overwrite", "the new promise is not as it was"); p.reset(); VM_CHECK(f.isReady(), "not-ready", "abandoned and not ready"); return; }
    }
    VM_CHECK(!p->isValid(), "valid-after", "the promise is still valid after it was completed");
}
/** Reads the future and checks what comes out. */
template <typename T> struct Take { static void take(Future<T> & f, long v, char const * how) { T const t(f.takeValue()); VM_CHECK(Ty<T>::get(t) == v, "value", "%s: the value is %ld, should be %ld", how, Ty<T>::get(t), v); } };
template <> struct Take<void> { static void take(Future<void> & f, long, char const *) { f.takeValue(); } };
template <typename T> void take(Future<T> & f, unsigned o, long v, char const * how) {
    try {
        Take<T>::take(f, v, how);
        VM_CHECK(isValue(o), "outcome", "%s: a value came out, outcome should be %u", how, o);
    } catch (Err const & e) { VM_CHECK(isErr(o) && e.get() == v, "outcome", "%s: exception %ld came out, should be outcome %u of %ld", how, e.get(), o, v); }
    catch (BrokenPromiseException const &) { VM_CHECK(!isValue(o) && !isErr(o), "outcome", "%s: broken promise came out, outcome should be %u", how, o); }
    VM_CHECK(!f.isValid(), "valid-after", "%s: the future is still valid after its outcome was taken", how);
}

/* ------------------------------------------------------------ threads ---- */
template <typename T> void threads(vm::Rng & r) {
    unsigned const n = unsigned(1 + r.below(12)), readers = unsigned(1 + r.below(4)), fulfillers = unsigned(1 + r.below(2));
    vm::describe(vm::format("%u promises, %u fulfilling and %u reading threads", n, fulfillers, readers));
    vm::LiveBalance balance;
    {
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(4)) * 120u);
        struct Item {
            std::unique_ptr<Promise<T> > promise; Future<T> future; unsigned outcome; long v; std::uint64_t data = 0; unsigned mode, owner;
            std::atomic<bool> began{false}, done{false}; std::atomic<unsigned> waiters{0}; std::vector<bool> extra; bool swapped;
        };
        std::vector<std::unique_ptr<Item> > items;
        std::vector<std::vector<unsigned> > work(fulfillers), reads(readers);
        for (unsigned i = 0; i < n; ++i) {
            items.emplace_back(new Item); Item & it = *items.back();
            it.promise.reset(new Promise<T>); it.future = it.promise->takeFuture();
            it.outcome = unsigned(r.below(Outcomes)); it.v = long(1000 + r.below(100000)); it.mode = unsigned(r.below(8)); it.owner = unsigned(r.below(readers)); it.swapped = r.chance(1, 4);
            it.extra.resize(readers);
            for (unsigned k = 0; k < readers; ++k) if (it.mode >= 2 && r.chance(1, 3)) { it.extra[k] = true; ++it.waiters; }
            work[r.below(fulfillers)].push_back(i);
        }
        for (auto & w : work) for (std::size_t k = w.size(); k > 1; --k) std::swap(w[k - 1], w[r.below(k)]);
        std::atomic<std::uint64_t> order{0}, seq{0}; std::atomic<unsigned> early{0};
        std::vector<std::function<void ()> > fns;
        for (unsigned t = 0; t < fulfillers; ++t) {
            std::uint64_t const s = r.next();
            fns.push_back([&, t, s] {
                vm::Rng g(s);
                for (unsigned const i : work[t]) {
                    Item & it = *items[i];
                    vm::jitter(g);
                    it.data = i + 77u;
                    it.began.store(true, std::memory_order_relaxed);
                    fulfil<T>(it.promise, it.outcome, it.v);
                    it.done.store(true, std::memory_order_relaxed);
                }
            });
        }
        for (unsigned t = 0; t < readers; ++t) {
            std::uint64_t const s = r.next();
            fns.push_back([&, t, s] {
                vm::Rng g(s);
                auto const seen = [&](Item & it, char const * how) { /* ready was reported */
                    VM_CHECK(it.began.load(std::memory_order_relaxed), "ready-early", "%s: ready before anything was done with the promise", how);
                    VM_CHECK(it.data >= 77u, "visibility", "%s: the effects before completion are not visible", how);
                    order.fetch_xor(vm::mix(++seq * 64u + it.data), std::memory_order_relaxed);
                };
                auto const waitForIt = [&](Item & it) {
                    Future<T> const & f = it.future;
                    VM_CHECK(f.isValid(), "valid", "the future is not valid");
                    switch (g.below(5)) {
                    case 0: for (;;) { bool const d = it.done.load(std::memory_order_relaxed); if (f.isReady()) break; VM_CHECK(!d, "not-ready", "not ready after the promise was completed"); early = 1; ::sched_yield(); } break;
                    case 1: for (;;) {
                            auto const d = std::chrono::microseconds(g.below(300)); bool const was = it.done.load(std::memory_order_relaxed); auto const b = Clock::now();
                            if (f.waitFor(d)) break;
                            VM_CHECK(!was, "not-ready", "waitFor: not ready after the promise was completed"); VM_CHECK(Clock::now() - b >= d, "timeout-early", "waitFor gave up too early"); early = 1;
                        } break;
                    case 2: for (;;) {
                            auto const b = Clock::now() + std::chrono::microseconds(std::int64_t(g.below(300)) - 20); bool const was = it.done.load(std::memory_order_relaxed);
                            if (f.waitUntil(b)) break;
                            VM_CHECK(!was, "not-ready", "waitUntil: not ready after the promise was completed"); VM_CHECK(Clock::now() >= b, "timeout-early", "waitUntil gave up too early"); early = 1;
                        } break;
                    default: f.wait(); break;
                    }
                    seen(it, "wait");
                    VM_CHECK(f.isReady() && f.waitFor(std::chrono::seconds(0)), "not-ready", "no longer ready");
                };
                std::vector<unsigned> idx(n); for (unsigned i = 0; i < n; ++i) idx[i] = i;
                for (std::size_t k = n; k > 1; --k) std::swap(idx[k - 1], idx[g.below(k)]);
                for (unsigned const i : idx) {
                    Item & it = *items[i];
                    vm::jitter(g);
                    if (it.extra[t]) { waitForIt(it); it.waiters.fetch_sub(1, std::memory_order_release); }
                    if (it.owner == t && it.mode == 0) { Future<T> f(std::move(it.future)); } /* nobody reads it */
                    if (it.owner == t && it.mode == 1) { Future<T> f; if (it.swapped) { using std::swap; swap(f, it.future); } else f = std::move(it.future); take(f, it.outcome, it.v, "take"); seen(it, "take"); }
                }
                for (unsigned const i : idx) {
                    Item & it = *items[i];
                    if (it.owner != t || it.mode < 2) continue;
                    if (g.flip()) waitForIt(it);
                    while (it.waiters.load(std::memory_order_acquire)) ::sched_yield();
                    if (it.mode == 2) { it.future = Future<T>(); continue; }
                    Future<T> f(std::move(it.future)); VM_CHECK(!it.future.isValid(), "valid-after", "a future that was moved from is still valid");
                    take(f, it.outcome, it.v, "take after wait"); seen(it, "take after wait");
                }
            });
        }
        vm::parallel(fns);
        vm::signature(vm::mix(order.load()) ^ seq.load());
        vm::event("futures", n); vm::event("futures_observed_before_completion", early.load()); vm::event("outcomes_seen", seq.load());
        vm::sample(vm::format("%u promises completed by %u threads, read by %u", n, fulfillers, readers));
    }
    balance.expect(0, "after all threads");
    static std::uint64_t last = 0; std::uint64_t const now = vm::spuriousWakeups().load(); vm::event("spurious_wakeups_injected", now - last); last = now;
}
void anyThreads(vm::Rng & r) {
    switch (r.below(6)) {
    case 0: threads<vm::Tracked>(r); break;
    case 1: threads<Thrower>(r); break;
    case 2: threads<std::string>(r); break;
    case 3: threads<std::unique_ptr<long> >(r); break;
    case 4: threads<Aligned>(r); break;
    default: threads<void>(r); break;
    }
}
VM_SCENARIO(threaded, "tsan asanp native", 3000, 20000, 1, 4) { vm::runCases([](vm::Rng & r, std::uint64_t) { anyThreads(r); }); }

/* One waiter and one completion, as tight as possible. */
VM_SCENARIO(handoff, "tsan asanp native", 2000, 20000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(4)) * 200u);
        unsigned const rounds = unsigned(10 + r.below(30));
        std::vector<std::unique_ptr<Promise<vm::Tracked> > > ps; std::vector<Future<vm::Tracked> > fs; std::vector<unsigned> o;
        for (unsigned i = 0; i < rounds; ++i) { ps.emplace_back(new Promise<vm::Tracked>); fs.push_back(ps.back()->takeFuture()); o.push_back(unsigned(r.below(Outcomes))); }
        std::atomic<unsigned> at{0}; std::uint64_t sig = 0; std::vector<std::uint64_t> data(rounds, 0);
        vm::parallel({[&] { for (unsigned i = 0; i < rounds; ++i) { while (at.load(std::memory_order_relaxed) < i) ::sched_yield(); data[i] = i + 1; fulfil(ps[i], o[i], long(i)); } },
                      [&] { for (unsigned i = 0; i < rounds; ++i) {
                              at.store(i, std::memory_order_relaxed); bool const ready = fs[i].isReady(); sig = vm::mix(sig ^ ready);
                              if (i & 1) fs[i].wait();
                              take(fs[i], o[i], long(i), "handoff"); VM_CHECK(data[i] == i + 1, "visibility", "the effects before completion are not visible"); } }});
        vm::event("handoffs", rounds); vm::signature(sig);
    });
}

/* ------------------------------------------------------------ histories -- */
template <typename T> void history(vm::Rng & r) {
    enum { N = 4 };
    vm::LiveBalance balance;
    struct State { bool set = false; unsigned outcome = 0; long v = 0; unsigned refs = 0; };
    std::vector<State> states; states.reserve(512);
    std::uint64_t sig = 0; unsigned const ops = unsigned(20 + r.below(80)); std::uint64_t taken = 0;
    {
        std::unique_ptr<Promise<T> > P[N]; Future<T> F[N]; int ps[N], pf[N], fs[N]; /* indices of states, -1: none */
        for (unsigned i = 0; i < N; ++i) ps[i] = pf[i] = fs[i] = -1;
        auto const drop = [&](int & i) { if (i >= 0) --states[unsigned(i)].refs; i = -1; };
        auto const complete = [&](int i, unsigned o, long v) { State & s = states[unsigned(i)]; s.set = true; s.outcome = o; s.v = v; };
        auto const abandonIfHeld = [&](unsigned a) { if (ps[a] >= 0) complete(ps[a], Destroy, 0); drop(ps[a]); drop(pf[a]); };
        for (unsigned i = 0; i < ops; ++i) {
            unsigned const a = unsigned(r.below(N)), b = unsigned(r.below(N)), op = unsigned(r.below(16)); long const v = long(1000 + i); char const * name = "?";
            switch (op) {
            case 0: case 1: case 2: name = "new promise";
                abandonIfHeld(a); P[a].reset(new Promise<T>); states.emplace_back(); states.back().refs = 2; ps[a] = pf[a] = int(states.size() - 1); break;
            case 3: name = "destroy promise"; abandonIfHeld(a); P[a].reset(); break;
            case 4: name = "move-construct promise"; if (a == b || !P[b]) break;
                abandonIfHeld(a); P[a].reset(new Promise<T>(std::move(*P[b]))); std::swap(ps[a], ps[b]); std::swap(pf[a], pf[b]); break;
            case 5: name = "move-assign promise"; if (!P[a] || !P[b]) break;
                if (a == b) { Promise<T> & self = *P[a]; *P[a] = std::move(self); break; }
                abandonIfHeld(a); *P[a] = std::move(*P[b]); std::swap(ps[a], ps[b]); std::swap(pf[a], pf[b]); break;
            case 6: name = "swap promises"; if (!P[a] || !P[b]) break;
                if (r.flip()) P[a]->swap(*P[b]); else { using std::swap; swap(*P[a], *P[b]); }
                std::swap(ps[a], ps[b]); std::swap(pf[a], pf[b]); break;
            case 7: case 8: name = "take future"; if (pf[b] < 0) break;
                drop(fs[a]); F[a] = P[b]->takeFuture(); std::swap(fs[a], pf[b]); break;
            case 9: name = "move or swap futures"; if (a == b) break;
                if (r.flip()) { drop(fs[a]); F[a] = std::move(F[b]); std::swap(fs[a], fs[b]); }
                else { if (r.flip()) F[a].swap(F[b]); else { using std::swap; swap(F[a], F[b]); } std::swap(fs[a], fs[b]); } break;
            case 10: name = "drop future"; drop(fs[a]); F[a] = Future<T>(); break;
            case 11: case 12: case 13: { name = "complete"; if (ps[a] < 0) break;
                unsigned o = unsigned(r.below(Outcomes));
                bool const goes = o == Destroy || o == Overwrite || o == FailThenDestroy;
                complete(ps[a], o, v); drop(ps[a]); if (goes) drop(pf[a]);
                fulfil<T>(P[a], o, v); break; }
            default: name = "take"; if (fs[a] < 0 || !states[unsigned(fs[a])].set) break;
                { int const s = fs[a]; fs[a] = -1; --states[unsigned(s)].refs;
                  bool const boom = std::is_same<T, Thrower>::value && isValue(states[unsigned(s)].outcome) && r.chance(1, 4);
                  bomb() = boom ? 1 : 0; bool threw = false;
                  try { take(F[a], states[unsigned(s)].outcome, states[unsigned(s)].v, "history"); } catch (Boom) { threw = true; }
                  bomb() = 0; VM_CHECK(threw == boom, "take-throws", "taking the value %s", threw ? "threw" : "did not throw"); ++taken; } break;
            }
            long live = 0; for (auto const & s : states) if (s.refs && s.set && (isErr(s.outcome) || (isValue(s.outcome) && !std::is_void<T>::value && std::is_same<typename std::conditional<std::is_same<T, Thrower>::value || std::is_same<T, Aligned>::value, vm::Tracked, T>::type, vm::Tracked>::value))) ++live;
            balance.expect(live, name);
            for (unsigned k = 0; k < N; ++k) {
                VM_CHECK(!P[k] ? ps[k] < 0 : P[k]->isValid() == (ps[k] >= 0) && P[k]->hasFuture() == (pf[k] >= 0), "promise-state", "after %s: the promise is %svalid", name, P[k]->isValid() ? "" : "not ");
                VM_CHECK(F[k].isValid() == (fs[k] >= 0), "future-state", "after %s: the future is %svalid", name, F[k].isValid() ? "" : "not ");
                if (fs[k] < 0) continue;
                bool const set = states[unsigned(fs[k])].set;
                VM_CHECK(F[k].isReady() == set && F[k].waitFor(std::chrono::microseconds(0)) == set && F[k].waitUntil(Clock::now()) == set && (!set || (F[k].wait(), true)), "ready", "after %s: ready should be %d", name, set);
            }
            sig = vm::mix(sig ^ (op * 16u + a * 4u + b) ^ (std::uint64_t(live) << 40));
        }
    }
    balance.expect(0, "at the end");
    vm::event("operations", ops); vm::event("outcomes_taken", taken); vm::signature(sig);
}
VM_SCENARIO(histories, "asan ndebug", 6000, 100000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        switch (r.below(5)) {
        case 0: history<vm::Tracked>(r); break;
        case 1: history<Thrower>(r); break;
        case 2: history<Aligned>(r); break;
        case 3: history<std::string>(r); break;
        default: history<void>(r); break;
        }
    });
}

VM_SCENARIO(made, "asan", 300, 5000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        using namespace sharemind;
        long const v = long(r.below(100000)); vm::LiveBalance balance;
        {
            vm::Tracked t(v); vm::Tracked const c(v);
            static_assert(std::is_same<decltype(makeReadyFuture(t)), Future<vm::Tracked> >::value, "");
            auto a(makeReadyFuture(t)); auto b(makeReadyFuture(c));
            VM_CHECK(a.isReady() && b.isReady() && t.get() == v && c.get() == v, "made", "not ready or the source changed");
            auto e(makeReadyFuture(std::move(t)));
            take(a, Value, v, "copy"); take(b, Value, v, "copy"); take(e, Value, v, "move");
            auto f(makeReadyFuture()); VM_CHECK(f.isReady(), "made", "not ready"); f.takeValue();
            auto g(makeExceptionalFuture<vm::Tracked>(Err(v))); auto h(makeExceptionalFuture<void>(std::make_exception_ptr(Err(v)))); auto k(makeBrokenFuture<std::string>()); auto l(makeBrokenFuture<void>());
            VM_CHECK(g.isReady() && h.isReady() && k.isReady() && l.isReady(), "made", "not ready");
            take(g, Exc, v, "exceptional"); take(h, Exc, v, "exceptional"); take(k, Abandon, v, "broken"); take(l, Abandon, v, "broken");
            auto m(makeReadyFuture(std::string("x") + std::to_string(v))); VM_CHECK(m.takeValue() == "x" + std::to_string(v), "made", "wrong value");
            if (r.flip()) auto unread(makeExceptionalFuture<int>(Err(v)));
        }
        balance.expect(0, "made futures"); vm::event("made_futures", 10); vm::signature(vm::mix(std::uint64_t(v)) ^ i);
    });
}
}
