/* P08: latches, waits, stop requests, threads that start on demand.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include <sharemind/Latch.h>
#include <sharemind/NoStartThread.h>
#include <sharemind/SimpleWait.h>
#include <sharemind/Stoppable.h>

namespace {
using namespace sharemind;

template <typename Counter>
void latchRun(vm::Rng & r) {
    unsigned const n = unsigned(1 + r.below(8)), waiters = unsigned(r.below(5));
    unsigned const rounds = unsigned(1 + r.below(6));
    vm::describe(vm::format("latch count=%u waiters=%u rounds=%u", n, waiters, rounds));
    vm::Perturb p(vm::caseSeed(), unsigned(r.below(4)) * 100u);
    /* each counting thread uses one latch per round (a barrier when all wait) */
    std::vector<std::unique_ptr<Latch<Counter> > > latches;
    for (unsigned i = 0; i < rounds; ++i) latches.emplace_back(new Latch<Counter>(Counter(n)));
    std::vector<std::uint64_t> data(rounds * n, 0); /* written before counting down, non-atomic */
    std::vector<std::atomic<unsigned> > began(rounds);
    std::vector<std::atomic<unsigned> > lasts(rounds);
    for (unsigned i = 0; i < rounds; ++i) { began[i] = 0; lasts[i] = 0; }
    std::atomic<std::uint64_t> trace{0};
    auto const checkReleased = [&](unsigned round, char const * how) {
        VM_CHECK(began[round].load() == n, "released-early", "%s returned after %u of %u count-downs began", how, began[round].load(), n);
        for (unsigned t = 0; t < n; ++t)
            VM_CHECK(data[round * n + t] == round * 100u + t + 1u, "visibility", "%s: effects before the count-down not visible", how);
        VM_CHECK(latches[round]->isReady(), "ready", "isReady() false after release");
    };
    std::vector<unsigned> mode(rounds * n);
    std::vector<unsigned> waiting(rounds, 0);
    for (auto & m : mode) m = unsigned(r.below(3));
    std::vector<std::function<void ()> > fns;
    for (unsigned t = 0; t < n; ++t) {
        std::uint64_t const s = r.next();
        fns.push_back([&, t, s] {
            vm::Rng g(s);
            for (unsigned i = 0; i < rounds; ++i) {
                vm::jitter(g);
                VM_CHECK(!latches[i]->isReady(), "ready-early", "isReady() before all counted down");
                data[i * n + t] = i * 100u + t + 1u;
                unsigned const order = ++began[i];
                if (mode[i * n + t] == 0) {
                    latches[i]->countDownAndWait();
                    checkReleased(i, "countDownAndWait");
                } else {
                    bool const last = latches[i]->countDown();
                    if (last) ++lasts[i];
                    if (last || mode[i * n + t] == 2) {
                        if (!last) latches[i]->wait();
                        checkReleased(i, last ? "last countDown" : "wait");
                    }
                }
                trace.fetch_xor(vm::mix(order * 64u + t + i * 4096u), std::memory_order_relaxed);
            }
        });
    }
    for (unsigned w = 0; w < waiters; ++w) {
        std::uint64_t const s = r.next();
        fns.push_back([&, s] {
            vm::Rng g(s);
            for (unsigned i = 0; i < rounds; ++i) {
                if (g.flip()) vm::jitter(g);
                if (g.chance(1, 4))
                    while (!latches[i]->isReady()) ::sched_yield();
                else
                    latches[i]->wait();
                checkReleased(i, "wait");
            }
        });
    }
    vm::parallel(fns);
    for (unsigned i = 0; i < rounds; ++i) {
        unsigned nWaiting = 0;
        for (unsigned t = 0; t < n; ++t) nWaiting += mode[i * n + t] == 0;
        VM_CHECK(lasts[i] <= 1 && (lasts[i] == 1 || nWaiting > 0), "last-count", "%u count-downs were told to be the last", lasts[i].load());
    }
    vm::event("latch-rounds", rounds);
    vm::event("latch-waits", waiters * rounds);
    vm::signature(trace.load());
    vm::sample(vm::format("latch of %u with %u extra waiters, %u rounds", n, waiters, rounds));
}
VM_SCENARIO(latch, "tsan asanp native", 400, 15000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        switch (r.below(3)) {
        case 0: latchRun<unsigned>(r); break;
        case 1: latchRun<std::uint8_t>(r); break;
        default: latchRun<std::size_t>(r); break;
        }
    });
}
VM_SCENARIO(latch_counts, "asan", 300, 3000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const n = unsigned(1 + r.below(255));
        Latch<std::uint8_t> a{std::uint8_t(n)};
        Latch<unsigned> b(n * 300u);
        for (unsigned i = 1; i <= n; ++i) {
            VM_CHECK(!a.isReady(), "ready-early", "after %u of %u", i - 1, n);
            VM_CHECK(a.countDown() == (i == n), "last-count", "count-down %u of %u", i, n);
        }
        VM_CHECK(a.isReady(), "ready", "not ready after %u count-downs", n);
        a.wait(); a.wait();
        for (unsigned i = 1; i <= n * 300u; ++i)
            VM_CHECK(!b.isReady() && b.countDown() == (i == n * 300u), "last-count", "count-down %u of %u", i, n * 300u);
        VM_CHECK(b.isReady(), "ready", "not ready");
        vm::event("count-downs", n * 301u);
        vm::signature(n);
    });
}

/* One notification, any number of waiters, every order. */
VM_SCENARIO(simple_wait, "tsan asanp native", 500, 20000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const waiters = unsigned(1 + r.below(4)), notifiers = unsigned(1 + r.below(2));
        unsigned const rounds = unsigned(1 + r.below(8));
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(4)) * 120u);
        std::vector<std::unique_ptr<SimpleWait> > ws;
        for (unsigned i = 0; i < rounds; ++i) ws.emplace_back(new SimpleWait);
        std::vector<std::uint64_t> data(rounds, 0);
        std::vector<std::atomic<int> > about(rounds);
        for (auto & a : about) a = 0;
        std::atomic<std::uint64_t> trace{0};
        std::vector<std::function<void ()> > fns;
        for (unsigned w = 0; w < waiters; ++w) {
            std::uint64_t const s = r.next();
            fns.push_back([&, s, w] {
                vm::Rng g(s);
                for (unsigned i = 0; i < rounds; ++i) {
                    vm::jitter(g);
                    bool const early = about[i].load(std::memory_order_relaxed);
                    switch (g.below(3)) {
                    case 0: ws[i]->wait(); break;
                    case 1: ws[i]->waitOrStop([] {}); break;
                    default: ws[i]->waitOrStop([] {}, std::chrono::microseconds(g.below(300))); break;
                    }
                    VM_CHECK(about[i].load(std::memory_order_relaxed), "released-early", "wait returned before any notification");
                    if (notifiers == 1)
                        VM_CHECK(data[i] == i + 17u, "visibility", "effects before the notification not visible");
                    ws[i]->wait(); /* stays ready */
                    trace.fetch_xor(vm::mix(i * 64u + w * 2u + early), std::memory_order_relaxed);
                }
            });
        }
        for (unsigned k = 0; k < notifiers; ++k) {
            std::uint64_t const s = r.next();
            fns.push_back([&, s] {
                vm::Rng g(s);
                for (unsigned i = 0; i < rounds; ++i) {
                    vm::jitter(g);
                    if (g.chance(1, 6)) ::usleep(300);
                    if (notifiers == 1) data[i] = i + 17u;
                    about[i].store(1, std::memory_order_relaxed);
                    ws[i]->notifyReady();
                    if (g.chance(1, 4)) ws[i]->notifyReady();
                }
            });
        }
        vm::parallel(fns);
        vm::event("notifications", rounds);
        vm::event("waits", rounds * waiters);
        vm::signature(trace.load());
        vm::sample(vm::format("%u waiters, %u notifiers, %u rounds", waiters, notifiers, rounds));
    });
}

/* A thread released from its wait may destroy what it waited on at once. */
template <typename Counter>
void latchDestroyed(vm::Rng & r, unsigned n, bool poll) {
    std::vector<Latch<Counter> *> ls;
    unsigned const rounds = unsigned(1 + r.below(8));
    for (unsigned i = 0; i < rounds; ++i) ls.push_back(new Latch<Counter>(Counter(n)));
    std::vector<std::function<void ()> > fns;
    std::vector<std::atomic<unsigned> > lasts(rounds);
    for (auto & l : lasts) l = 0;
    for (unsigned t = 0; t + 1 < n; ++t) {
        std::uint64_t const s = r.next();
        fns.push_back([&, s] { vm::Rng g(s); for (unsigned i = 0; i < rounds; ++i) { if (g.flip()) vm::jitter(g); lasts[i] += ls[i]->countDown(); } });
    }
    bool const lastWaits = r.flip(); /* the waiter counts as well */
    std::uint64_t const s = r.next();
    fns.push_back([&, s] {
        vm::Rng g(s);
        for (unsigned i = 0; i < rounds; ++i) {
            if (g.flip()) vm::jitter(g);
            if (lastWaits) ls[i]->countDownAndWait();
            else { if (ls[i]->countDown()) ++lasts[i]; if (poll) { while (!ls[i]->isReady()) ::sched_yield(); } else ls[i]->wait(); }
            delete ls[i];
        }
    });
    vm::parallel(fns);
    for (unsigned i = 0; i < rounds; ++i)
        VM_CHECK(lasts[i] <= 1 && (lasts[i] == 1 || lastWaits), "last-count", "%u count-downs were told to be the last", lasts[i].load());
    vm::event("destroyed-after-wait", rounds);
    vm::signature(vm::mix(n * 4u + poll * 2u + lastWaits) ^ rounds);
}
VM_SCENARIO(destroyed, "tsan asanp", 500, 15000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::Perturb p(vm::caseSeed(), unsigned(1 + r.below(4)) * 150u);
        if (r.flip()) {
            unsigned const n = unsigned(1 + r.below(5));
            bool const poll = r.chance(1, 3);
            vm::describe(vm::format("latch of %u destroyed by its waiter (%s)", n, poll ? "polling" : "waiting"));
            switch (r.below(2)) {
            case 0: latchDestroyed<unsigned>(r, n, poll); break;
            default: latchDestroyed<std::uint8_t>(r, n, poll); break;
            }
            return;
        }
        unsigned const rounds = unsigned(1 + r.below(8)), how = unsigned(r.below(3));
        vm::describe(vm::format("simple wait destroyed by its waiter, %u rounds, kind %u", rounds, how));
        std::vector<SimpleWait *> ws;
        for (unsigned i = 0; i < rounds; ++i) ws.push_back(new SimpleWait);
        std::uint64_t const s1 = r.next(), s2 = r.next();
        vm::parallel({
            [&] { vm::Rng g(s1); for (auto * w : ws) { if (g.flip()) vm::jitter(g); w->notifyReady(); } },
            [&] {
                vm::Rng g(s2);
                for (auto * w : ws) {
                    if (g.flip()) vm::jitter(g);
                    switch (how) {
                    case 0: w->wait(); break;
                    case 1: w->waitOrStop([] {}); break;
                    default: w->waitOrStop([] {}, std::chrono::microseconds(g.below(200))); break;
                    }
                    delete w;
                }
            }});
        vm::event("destroyed-after-wait", rounds);
        vm::signature(rounds * 3u + how);
    });
}

struct StopEx { int v = 5; };
/* A stop request that happened before is always seen; none is made up. */
VM_SCENARIO(stop, "tsan asanp", 400, 10000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        Stoppable s;
        SimpleWait w;
        bool const viaWait = r.flip();
        unsigned const resets = unsigned(r.below(4));
        for (unsigned i = 0; i < resets; ++i) {
            VM_CHECK(!s.stopRequested(), "stop-made-up", "stop requested initially or after reset");
            s.throwIfStopRequested<StopEx>();
            s.throwIfStopRequested(StopEx());
            s.stop();
            VM_CHECK(s.stopRequested(), "stop-lost", "stop not seen by the requester");
            s.stop();
            VM_CHECK(s.stopRequested(), "stop-lost", "stop not seen by the requester after repeating it");
            bool caught = false;
            try { s.throwIfStopRequested<StopEx>(); } catch (StopEx const & e) { caught = e.v == 5; }
            VM_CHECK(caught, "stop-throw", "throwIfStopRequested did not throw");
            caught = false;
            try { StopEx e; e.v = 9; s.throwIfStopRequested(std::move(e)); } catch (StopEx const & e) { caught = e.v == 9; }
            VM_CHECK(caught, "stop-throw", "throwIfStopRequested(e) did not throw e");
            s.reset();
        }
        std::atomic<bool> flag{false};
        std::atomic<bool> about{false};
        bool notified = false;
        std::uint64_t const s1 = r.next(), s2 = r.next();
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(3)) * 150u);
        vm::parallel({
            [&] {
                vm::Rng g(s1);
                vm::jitter(g);
                about.store(true, std::memory_order_relaxed);
                s.stop();
                flag.store(true, std::memory_order_release);
            },
            [&] {
                vm::Rng g(s2);
                if (viaWait) { /* a wait that can only end by the stop request */
                    bool stopped = false;
                    try { w.waitOrStop(Stoppable::TestActor<StopEx>(s), std::chrono::microseconds(20 + g.below(400))); }
                    catch (StopEx const &) { stopped = true; }
                    VM_CHECK(stopped && about.load(), "stop-wait", "the wait ended without the stop request");
                    notified = true;
                } else {
                    while (!s.stopRequested()) {
                        if (flag.load(std::memory_order_acquire))
                            VM_CHECK(s.stopRequested(), "stop-lost", "a stop that happened before is not seen");
                        ::sched_yield();
                    }
                    VM_CHECK(about.load(), "stop-made-up", "stop seen before it was requested");
                    bool caught = false;
                    try { Stoppable::TestActor<StopEx> const t(s); t(); } catch (StopEx const &) { caught = true; }
                    VM_CHECK(caught, "stop-throw", "the test actor did not throw");
                }
            }});
        vm::event("stop-requests", resets + 1);
        vm::event("stopped-waits", notified);
        vm::signature(vm::mix(resets * 2 + viaWait) ^ (r.s & 0xff));
    });
}

VM_SCENARIO(no_start_thread, "tsan asanp native", 500, 15000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const how = unsigned(r.below(8));
        bool const late = r.flip(), slow = r.flip();
        vm::describe(vm::format("how=%u late=%d", how, late));
        vm::LiveBalance balance;
        std::uint64_t data = 0;          /* handed to the function through start() */
        std::uint64_t result = 0;        /* back through join */
        std::atomic<unsigned> runs{0};
        std::atomic<bool> started{false}, gone{false};
        std::uint64_t const s1 = r.next();
        {
            vm::Perturb p(vm::caseSeed(), unsigned(r.below(4)) * 120u);
            vm::Tracked token(4);
            auto const f = [&, token]() noexcept {
                VM_CHECK(started.load(std::memory_order_relaxed), "ran-unstarted", "the function ran before start()");
                VM_CHECK(!gone.load(), "ran-late", "the function ran after the object was gone");
                VM_CHECK(data == 77 && token.get() == 4, "visibility", "effects before start() not visible to the function");
                ++runs;
                if (slow) ::usleep(200);
                result = data + 1;
                VM_CHECK(!gone.load(), "destroyed-early", "the destructor returned while the function was running");
            };
            struct Fn { decltype(f) g; void operator()() noexcept { g(); } };
            {
                std::unique_ptr<NoStartThread> t(late ? new NoStartThread : new NoStartThread(Fn{f}));
                if (late && how != 5) t->setFunction(Fn{f});
                vm::Rng g(s1);
                vm::jitter(g);
                if (g.chance(1, 6)) ::usleep(200);
                VM_CHECK(t->joinable(), "joinable", "not joinable after construction");
                VM_CHECK(runs == 0, "ran-unstarted", "ran before start()");
                unsigned expect = 0;
                if (how <= 3) {
                    data = 77;
                    started.store(true, std::memory_order_relaxed);
                    t->start();
                    expect = 1;
                    if (how == 1) { t->join(); VM_CHECK(result == 78 && runs == 1 && !t->joinable(), "join", "join returned before the function"); }
                    if (how == 2) { t->stop(); VM_CHECK(result == 78 && runs == 1 && !t->joinable(), "stop", "stop returned before the function"); t->stop(); }
                } else if (how == 4) { t->stop(); VM_CHECK(!t->joinable(), "stop", "joinable after stop"); }
                else if (how == 5 && late) { /* started without any function */
                    started = true;
                    t->start();
                    expect = 0;
                } else if (how == 6) { /* started by another thread */
                    data = 77;
                    started = true;
                    expect = 1;
                    std::thread([&] { t->start(); }).join();
                }
                t.reset();
                gone = true;
                VM_CHECK(runs == expect, "run-count", "the function ran %u times, expected %u", runs.load(), expect);
                if (expect) VM_CHECK(result == 78, "visibility", "effects of the function not visible after destruction");
            }
        }
        balance.expect(0, "after destroying the thread object");
        vm::event("threads", 1);
        vm::event("functions-run", runs.load());
        vm::signature(vm::mix(how * 4 + late * 2 + slow) ^ vm::mix(r.s & 0x3f));
        vm::sample(vm::format("start/stop order %u, function set %s: ran %u times", how, late ? "later" : "at construction", runs.load()));
    });
}
} /* namespace */
