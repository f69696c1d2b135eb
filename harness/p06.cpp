/* P06: strands.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/Strand.h>

namespace {
using sharemind::SimpleThreadPool;
using sharemind::ParticipatoryThreadPool;
using sharemind::Strand;
using sharemind::ThreadPool;

struct StrandLog {
    std::atomic<int> inside{0};
    std::atomic<bool> stopped{false};
    std::atomic<std::uint64_t> began{0};
    std::uint64_t plain = 0;                  /* non-atomic: tasks of a strand may not race */
    std::vector<std::uint64_t> next;          /* non-atomic: next expected task per submitter */
    std::uint64_t order = 0;
    explicit StrandLog(unsigned submitters) : next(submitters, 0) {}
};

void strandBody(StrandLog & l, unsigned s, std::uint64_t i, vm::Rng & g) {
    VM_CHECK(!l.stopped.load(), "ran-after-stop", "a strand task started after stopping the strand returned");
    VM_CHECK(l.inside.fetch_add(1, std::memory_order_relaxed) == 0, "overlap", "two tasks of one strand overlap");
    VM_CHECK(l.next[s] == i, "order", "task %llu of submitter %u ran, expected %llu", (unsigned long long) i, s, (unsigned long long) l.next[s]);
    ++l.next[s];
    ++l.plain;
    l.order = vm::mix(l.order ^ (s + 1));
    if (g.chance(1, 6)) vm::jitter(g);
    VM_CHECK(l.inside.fetch_sub(1, std::memory_order_relaxed) == 1, "overlap", "two tasks of one strand overlap");
    l.began.fetch_add(1, std::memory_order_relaxed);
}

VM_SCENARIO(strands, "tsan asanp native", 360, 12000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const workers = unsigned(1 + r.below(4)), nStrands = unsigned(1 + r.below(3));
        unsigned const submitters = unsigned(1 + r.below(3)), each = unsigned(1 + r.below(40));
        bool const drain = r.chance(2, 3);
        bool const nested = r.chance(1, 3); /* submitter 0's tasks come from inside the strand */
        unsigned const level = unsigned(r.below(4)) * 50u;
        unsigned const how = unsigned(r.below(3));
        vm::describe(vm::format("workers=%u strands=%u submitters=%u each=%u drain=%d nested=%d level=%u how=%u",
                                workers, nStrands, submitters, each, drain, nested, level, how));
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            auto pool = std::make_shared<SimpleThreadPool>(workers);
            std::vector<std::unique_ptr<StrandLog> > logs;
            std::vector<std::unique_ptr<Strand> > strands;
            for (unsigned k = 0; k < nStrands; ++k) {
                logs.emplace_back(new StrandLog(submitters));
                strands.emplace_back(new Strand(pool));
            }
            struct Nest {
                Strand & st; StrandLog & l; unsigned each; std::uint64_t seed;
                void submit(std::uint64_t i) {
                    vm::Tracked token(5);
                    auto self = *this;
                    st.submit(ThreadPool::createSimpleTask([self, i, token]() mutable {
                        vm::Rng g(self.seed + i);
                        if (g.flip() && i + 1 < self.each) { /* submit before or after its own work */
                            self.submit(i + 1);
                            strandBody(self.l, 0, i, g);
                        } else {
                            strandBody(self.l, 0, i, g);
                            if (i + 1 < self.each) self.submit(i + 1);
                        }
                        token.get();
                    }));
                }
            };
            std::vector<std::function<void ()> > fns;
            for (unsigned s = 0; s < submitters; ++s) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, s, seed] {
                    vm::Rng g(seed);
                    if (s == 0 && nested) {
                        for (unsigned k = 0; k < nStrands; ++k) Nest{*strands[k], *logs[k], each, seed}.submit(0);
                        return;
                    }
                    for (unsigned i = 0; i < each; ++i)
                        for (unsigned k = 0; k < nStrands; ++k) {
                            vm::Tracked token(7);
                            auto & l = *logs[k];
                            std::uint64_t const q = g.next();
                            strands[k]->submit(ThreadPool::createSimpleTask([&l, s, i, q, token] {
                                vm::Rng gg(q);
                                token.get();
                                strandBody(l, s, i, gg);
                            }));
                            vm::jitter(g);
                        }
                });
            }
            vm::parallel(fns);
            std::uint64_t const all = std::uint64_t(submitters) * each;
            if (drain)
                for (auto & l : logs)
                    while (l->began.load() != all) { struct timespec ts{0, 100000}; ::nanosleep(&ts, nullptr); }
            std::uint64_t ran = 0, sig = 0;
            for (unsigned k = 0; k < nStrands; ++k) {
                std::shared_ptr<ThreadPool> p;
                if (how == 0) p = strands[k]->stopAndJoin();
                else if (how == 1) p = strands[k]->stopAndMaybeJoin();
                else strands[k].reset();
                logs[k]->stopped = true;
                if (how != 2) VM_CHECK(p == pool, "pool-handle", "stopping did not hand back the pool");
                /* synchronised with all tasks of the strand now: plain reads */
                VM_CHECK(logs[k]->inside == 0 && logs[k]->plain == logs[k]->began.load(), "running-after-stop", "a task of the strand runs after the stop");
                VM_CHECK(!drain || logs[k]->plain == all, "lost", "%llu of %llu tasks ran", (unsigned long long) logs[k]->plain, (unsigned long long) all);
                ran += logs[k]->plain;
                sig ^= logs[k]->order + k;
                if (how != 2 && r.flip()) { /* submitting to a stopped strand runs nothing */
                    auto & l = *logs[k];
                    strands[k]->submit(ThreadPool::createSimpleTask([&l] { VM_CHECK(!l.stopped, "ran-after-stop", "task submitted after the stop ran"); }));
                }
            }
            if (r.flip()) strands.clear();
            pool->stopAndJoin();
            strands.clear();
            VM_CHECK(pool.use_count() == 1, "pool-reference", "stopped strands still hold the pool (%ld references)", pool.use_count());
            vm::event("tasks-run", ran);
            vm::event("tasks-dropped", all * nStrands - ran);
            vm::signature(sig);
            vm::sample(vm::format("%u workers, %u strands, %u submitters x %u: %llu tasks ran", workers, nStrands, submitters, each, (unsigned long long) ran));
        }
        balance.expect(0, "after destroying strands and pool");
    });
}

/* One strand that always has work does not starve another, even with one worker. */
VM_SCENARIO(fairness, "native tsan", 60, 1500, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        auto pool = std::make_shared<SimpleThreadPool>(1);
        std::atomic<bool> bRan{false}, aDone{false};
        std::atomic<std::uint64_t> aRuns{0};
        std::uint64_t during = 0;
        {
            Strand a(pool), b(pool);
            struct Busy {
                Strand & a; std::atomic<bool> & bRan; std::atomic<bool> & done; std::atomic<std::uint64_t> & runs;
                void go() {
                    auto self = *this;
                    a.submit(ThreadPool::createSimpleTask([self]() mutable {
                        ++self.runs;
                        if (self.bRan) self.done = true; else self.go();
                    }));
                }
            };
            vm::Perturb perturb(vm::caseSeed(), 60);
            Busy{a, bRan, aDone, aRuns}.go();
            ::usleep(unsigned(r.below(500)));
            std::uint64_t before = 0;
            std::uint64_t const submitAt = aRuns.load();
            b.submit(ThreadPool::createSimpleTask([&] { before = aRuns.load(); bRan = true; }));
            while (!aDone) ::usleep(100);
            during = before - submitAt;
            b.stopAndJoin();
            a.stopAndJoin();
        }
        vm::event("busy-tasks-meanwhile", during);
        vm::event("served");
        vm::signature(during);
        pool->stopAndJoin();
    });
}

/* A strand that just ran out of tasks: whatever the worker is doing at that
   moment, the next task submitted runs without any later submission. */
VM_SCENARIO(idle, "native tsan asanp", 40, 1500, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const workers = unsigned(1 + r.below(3)), nStrands = unsigned(1 + r.below(2)), rounds = unsigned(500 + r.below(1000));
        unsigned const level = unsigned(r.below(4)) * 60u;
        vm::describe(vm::format("workers=%u strands=%u rounds=%u level=%u", workers, nStrands, rounds, level));
        auto pool = std::make_shared<SimpleThreadPool>(workers);
        std::uint64_t after = 0;
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::vector<std::unique_ptr<Strand> > strands;
            for (unsigned k = 0; k < nStrands; ++k) strands.emplace_back(new Strand(pool));
            std::vector<std::function<void ()> > fns;
            for (unsigned k = 0; k < nStrands; ++k) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, k, seed] {
                    vm::Rng g(seed);
                    std::atomic<unsigned> done{0};
                    for (unsigned n = 1; n <= rounds; ++n) {
                        strands[k]->submit(ThreadPool::createSimpleTask([&done] { done.fetch_add(1, std::memory_order_release); }));
                        auto const limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
                        for (unsigned spins = 0; done.load(std::memory_order_acquire) != n; ++spins)
                            if (spins > 200) {
                                VM_CHECK(std::chrono::steady_clock::now() < limit, "lost", "task %u, submitted when task %u had run, does not run", n, n - 1);
                                ::sched_yield();
                            }
                        /* from here on the worker is putting the strand to rest */
                        for (volatile unsigned w = g.chance(3, 4) ? unsigned(g.below(120)) : 0u; w; w = w - 1) {}
                    }
                });
            }
            vm::parallel(fns);
            for (auto & s : strands) s->stopAndJoin();
            after = std::uint64_t(nStrands) * rounds;
        }
        pool->stopAndJoin();
        vm::event("resubmissions", after);
        vm::signature(vm::mix(workers * 8 + nStrands) ^ rounds);
    });
}

/* A task that stops its own strand: the rest of the queue is not run. */
VM_SCENARIO(self_stop, "tsan asanp", 200, 5000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const at = unsigned(r.below(10)), n = at + 1 + unsigned(r.below(10));
        unsigned const workers = unsigned(1 + r.below(3));
        std::uint64_t ran = 0;
        {
            auto pool = std::make_shared<SimpleThreadPool>(workers);
            {
                Strand s(pool);
                std::atomic<bool> stopped{false};
                vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(3)) * 80u);
                for (unsigned i = 0; i < n; ++i) {
                    vm::Tracked t(i);
                    s.submit(ThreadPool::createSimpleTask([&, i, t] {
                        t.get();
                        VM_CHECK(!stopped, "ran-after-stop", "task %u ran after task %u stopped the strand", i, at);
                        VM_CHECK(ran == i, "order", "task %u ran at position %llu", i, (unsigned long long) ran);
                        ++ran;
                        if (i == at) {
                            auto const p = s.stopAndMaybeJoin();
                            VM_CHECK(p == pool, "pool-handle", "stopping did not hand back the pool");
                            stopped = true;
                        }
                    }));
                }
                while (!stopped) ::usleep(50);
                s.stopAndJoin();
                VM_CHECK(ran == at + 1, "lost", "%llu ran, expected %u", (unsigned long long) ran, at + 1);
            }
            pool->stopAndJoin();
        }
        balance.expect(0, "after a strand stopped itself");
        vm::event("self-stops");
        vm::signature(vm::mix(at * 64 + n));
    });
}

VM_SCENARIO(backlog, "asan", 2, 8, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const n = 600000u + unsigned(r.below(100000));
        auto pool = std::make_shared<SimpleThreadPool>(1);
        std::atomic<unsigned> ran{0};
        {
            Strand s(pool);
            s.stopAndJoin();
            for (unsigned k = 0; k < n; ++k) { vm::Tracked t(k); s.submit(ThreadPool::createSimpleTask([t, &ran] { ++ran; })); }
        }
        pool->stopAndJoin();
        VM_CHECK(ran == 0, "ran-after-stop", "tasks of a stopped strand ran");
        balance.expect(0, "after destroying a strand with a long backlog");
        vm::event("tasks-dropped", n);
        vm::signature(n);
    });
}

/* Several threads stop one strand while a task of it runs, or while it only waits for
   its turn in the pool: each of them returns, when nothing of it runs any more. */
VM_SCENARIO(joiners, "tsan asanp native", 120, 5000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const joiners = unsigned(1 + r.below(3)), more = unsigned(r.below(4)), pause = unsigned(r.below(1500)), level = unsigned(r.below(4)) * 50u;
        bool const queued = r.flip(), participatory = r.flip();
        vm::describe(vm::format("queued=%d participatory=%d joiners=%u more=%u pause=%u level=%u", queued, participatory, joiners, more, pause, level));
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::shared_ptr<SimpleThreadPool> sp;
            std::shared_ptr<ParticipatoryThreadPool> pp;
            std::shared_ptr<ThreadPool> pool;
            if (participatory) pool = pp = std::make_shared<ParticipatoryThreadPool>(); else pool = sp = std::make_shared<SimpleThreadPool>(1);
            std::atomic<bool> gate{false}, busy{false};
            std::atomic<unsigned> joining{0}, joined{0}, begun{0}, handed{0};
            unsigned ran = 0; /* plain: read after stopping */
            {
                Strand st(pool);
                if (queued) pool->submit(ThreadPool::createSimpleTask([&] { busy = true; while (!gate) ::usleep(20); }));
                for (unsigned i = 0; i < 1 + more; ++i) {
                    vm::Tracked t(i);
                    st.submit(ThreadPool::createSimpleTask([&, i, t] {
                        VM_CHECK(joined == 0, "ran-after-stop", "a strand task started after stopping the strand returned");
                        VM_CHECK(!queued, "ran-after-stop", "a task of a strand which was stopped before its turn ran");
                        busy = true;
                        ++begun;
                        while (!gate) ::usleep(20);
                        t.get(); ++ran;
                    }));
                }
                std::vector<std::function<void ()> > fns;
                if (participatory) fns.push_back([&] { pp->participate(); });
                std::atomic<unsigned> left{joiners};
                for (unsigned j = 0; j < joiners; ++j) {
                    bool const maybe = r.flip();
                    fns.push_back([&, maybe] {
                        while (!busy) ::usleep(20);
                        ++joining;
                        auto const p = maybe ? st.stopAndMaybeJoin() : st.stopAndJoin();
                        if (p) { VM_CHECK(p == pool, "pool-handle", "stopping handed back another pool"); ++handed; }
                        VM_CHECK(gate, "running-after-stop", "stopping a strand returned while %s", queued ? "it waited for its turn" : "a task of it ran");
                        VM_CHECK(ran == begun.load(), "running-after-stop", "a task of the strand runs after the stop");
                        ++joined;
                        if (--left == 0 && pp) pp->notifyStop();
                    });
                }
                fns.push_back([&] { while (joining != joiners) ::usleep(20); ::usleep(pause); gate = true; });
                vm::parallel(fns);
                VM_CHECK(handed == 1, "pool-handle", "%u of %u callers got the pool back", handed.load(), joiners);
            }
            if (sp) sp->stopAndJoin();
            VM_CHECK(ran == (queued ? 0u : 1u), "ran-after-stop", "%u tasks ran", ran);
            pp.reset(); sp.reset();
            VM_CHECK(pool.use_count() == 1, "pool-reference", "a stopped strand still holds the pool");
        }
        balance.expect(0, "after destroying strand and pool");
        vm::event("joins", joiners);
        vm::signature(vm::mix(joiners * 64 + more * 4 + queued * 2 + participatory) ^ vm::mix(pause));
    });
}

/* Tasks that run other tasks of the pool: strands nested in one thread. A strand may be stopped
   from inside any of them, which ends at once; the tasks of one strand still do not overlap. */
VM_SCENARIO(nested, "asan tsan", 400, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const n = unsigned(1 + r.below(5)), stopper = unsigned(r.below(n)), victim = unsigned(r.below(stopper + 1)), extra = unsigned(r.below(3));
        vm::describe(vm::format("strands=%u: strand %u stops strand %u, %u further tasks each", n, stopper, victim, extra));
        auto pool = std::make_shared<ParticipatoryThreadPool>();
        std::vector<unsigned> ran(n, 0), depth(n, 0);
        bool stopped = false;
        {
            std::vector<std::unique_ptr<Strand> > st;
            for (unsigned k = 0; k < n; ++k) st.emplace_back(new Strand(pool));
            for (unsigned k = 0; k < n; ++k)
                for (unsigned e = 0; e <= extra; ++e) {
                    vm::Tracked t(k);
                    st[k]->submit(ThreadPool::createSimpleTask([&, k, e, t] {
                        t.get();
                        VM_CHECK(depth[k]++ == 0, "overlap", "strand %u runs a task inside another one of it", k);
                        VM_CHECK(!stopped || k != victim, "ran-after-stop", "a task of the stopped strand ran");
                        ++ran[k];
                        if (e == 0) {
                            if (k == stopper) {
                                auto const p = st[victim]->stopAndMaybeJoin();
                                VM_CHECK(p == pool, "pool-handle", "stopping did not hand back the pool");
                                stopped = true;
                            }
                            else if (k < stopper) VM_CHECK(pool->participateOnce(), "once", "nothing to run inside of strand %u", k);
                        }
                        --depth[k];
                    }));
                }
            if (stopper > 0) /* strand 0 runs 1 inside, which runs 2, and so on up to the one which stops */
                pool->participateOnce();
            while (!stopped) pool->participateOnce();
            while (pool->participateOnceFor(std::chrono::microseconds(0)) == ThreadPool::Ok) {}
            for (unsigned k = 0; k < n; ++k) {
                if (k != victim) VM_CHECK(ran[k] == 1 + extra, "lost", "%u of %u tasks of strand %u ran", ran[k], 1 + extra, k);
                st[k]->stopAndJoin();
            }
        }
        VM_CHECK(ran[victim] == 1, "ran-after-stop", "%u tasks of the stopped strand ran", ran[victim]);
        pool->stopAndJoin();
        balance.expect(0, "after nested strands");
        vm::event("nested-stops");
        vm::signature(vm::mix(n * 64 + stopper * 8 + victim) ^ extra);
    });
}

/* Tasks which keep their own handle and are submitted again, to any strand or to the pool. */
VM_SCENARIO(handles, "tsan asanp native", 150, 6000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const workers = unsigned(1 + r.below(3)), nStrands = unsigned(1 + r.below(3)), tasks = unsigned(1 + r.below(5)), rounds = unsigned(1 + r.below(40));
        unsigned const level = unsigned(r.below(4)) * 50u;
        vm::describe(vm::format("workers=%u strands=%u tasks=%u rounds=%u level=%u", workers, nStrands, tasks, rounds, level));
        auto pool = std::make_shared<SimpleThreadPool>(workers);
        std::atomic<std::uint64_t> order{0};
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::vector<std::unique_ptr<Strand> > st;
            std::vector<std::unique_ptr<StrandLog> > logs;
            for (unsigned k = 0; k < nStrands; ++k) { st.emplace_back(new Strand(pool)); logs.emplace_back(new StrandLog(tasks)); }
            struct Rec { unsigned where = 0, runs = 0; vm::Rng g{0}; std::atomic<bool> done{false}; };
            std::vector<Rec> recs(tasks);
            std::atomic<unsigned> done{0};
            for (unsigned i = 0; i < tasks; ++i) {
                recs[i].g = vm::Rng(r.next());
                recs[i].where = unsigned(r.below(nStrands + 1));
                vm::Tracked t(i);
                auto task = ThreadPool::createTask([&, i, t](ThreadPool::Task && self) {
                    VM_CHECK(bool(self), "task-self", "the task did not get its own handle");
                    VM_CHECK(t.get() == long(i), "reuse", "the task ran without its closure");
                    Rec & rec = recs[i];
                    unsigned const at = rec.where;
                    bool const on = at < nStrands;
                    if (on) { VM_CHECK(logs[at]->inside.fetch_add(1, std::memory_order_relaxed) == 0, "overlap", "two tasks of one strand overlap"); ++logs[at]->plain; }
                    if (rec.g.chance(1, 4)) vm::jitter(rec.g);
                    order.fetch_xor(vm::mix(++rec.runs * 8 + i + at * 1024), std::memory_order_relaxed);
                    if (on) logs[at]->inside.fetch_sub(1, std::memory_order_relaxed);
                    if (rec.runs == rounds) { rec.done = true; ++done; return; }
                    rec.where = unsigned(rec.g.below(nStrands + 1));
                    unsigned const to = rec.where;
                    if (to < nStrands) st[to]->submit(std::move(self)); else pool->submit(std::move(self));
                });
                unsigned const to = recs[i].where;
                if (to < nStrands) st[to]->submit(std::move(task)); else pool->submit(std::move(task));
            }
            while (done != tasks) ::usleep(50);
            for (auto & s : st) s->stopAndJoin();
            for (unsigned i = 0; i < tasks; ++i) VM_CHECK(recs[i].runs == rounds, "ran-twice", "a task ran %u times, submitted %u times", recs[i].runs, rounds);
        }
        pool->stopAndJoin();
        pool.reset();
        balance.expect(0, "after tasks which keep their handles");
        vm::event("tasks-run", std::uint64_t(tasks) * rounds);
        vm::signature(order.load());
    });
}
} /* namespace */
