/* P05: thread pools.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include <dlfcn.h>
#include <system_error>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>

#ifdef VM_VARIANT_native
/* Makes the system refuse to start the n-th thread. */
static std::atomic<int> refuseThread{-1};
extern "C" int pthread_create(pthread_t * t, pthread_attr_t const * a, void * (* f)(void *), void * d) {
    using F = int (*)(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *);
    static F const real = reinterpret_cast<F>(::dlsym(RTLD_NEXT, "pthread_create"));
    int n = refuseThread.load();
    while (n >= 0 && !refuseThread.compare_exchange_weak(n, n - 1)) {}
    return n == 0 ? EAGAIN : real(t, a, f, d);
}
#endif

namespace {
using sharemind::ParticipatoryThreadPool;
using sharemind::SimpleThreadPool;
using sharemind::ThreadPool;

/* Records everything that happens to the tasks of one run. */
struct Log {
    struct Entry {
        std::atomic<unsigned> submitted{0}, begun{0}, ended{0};
        std::atomic<unsigned> alive{0};
        std::uint64_t payload = 0; /* plain: written before submit, read by the task */
        std::uint64_t result = 0;  /* plain: written by the task, read after joining */
    };
    unsigned const submitters, perSubmitter;
    unsigned const workers;
    std::vector<Entry> e;
    std::atomic<int> running{0};
    std::atomic<bool> joined{false};
    std::atomic<std::uint64_t> begunTotal{0};
    std::atomic<std::uint64_t> order{0};
    std::uint64_t plainCounter = 0; /* one worker only: tasks do not overlap */
    Log(unsigned s, unsigned p, unsigned w) : submitters(s), perSubmitter(p), workers(w), e(s * p) {}
    Entry & at(unsigned s, unsigned i) { return e[s * perSubmitter + i]; }
};

/* Lives in the closure: exactly one instance per task stays alive until the task
   was run or dropped. */
struct Token {
    Log::Entry * e;
    vm::Tracked tracked;
    explicit Token(Log::Entry & e_) : e(&e_) { ++e->alive; }
    Token(Token const & o) : e(o.e), tracked(o.tracked) { ++e->alive; }
    Token(Token && o) noexcept : e(o.e), tracked(std::move(o.tracked)) { ++e->alive; }
    ~Token() {
        unsigned const was = e->alive.fetch_sub(1);
        VM_CHECK(was > 0, "destroy-twice", "a task closure was destroyed more than once");
    }
};

void body(Log & log, unsigned s, unsigned i, vm::Rng & g) {
    auto & e = log.at(s, i);
    VM_CHECK(!log.joined.load(), "ran-after-join", "a task started after stopping and joining returned");
    int const r = ++log.running;
    VM_CHECK(r <= int(log.workers), "too-many-running", "%d tasks running at once with %u workers", r, log.workers);
    VM_CHECK(e.begun.fetch_add(1) == 0, "ran-twice", "task %u of submitter %u ran twice", i, s);
    VM_CHECK(e.submitted.load() != 0, "ran-unsubmitted", "task ran before it was submitted");
    VM_CHECK(e.payload == s * 1000003ull + i, "visibility", "the submitter's writes are not visible to the task");
    /* all earlier tasks of this submitter were taken before; only those that
       other workers hold right now may not have begun */
    unsigned late = 0;
    for (unsigned k = 0; k < i; ++k)
        late += log.at(s, k).begun.load() == 0;
    VM_CHECK(late < log.workers, "order", "task %u began although %u earlier ones did not, with %u workers", i, late, log.workers);
    if (log.workers == 1)
        ++log.plainCounter;
    std::uint64_t const n = log.begunTotal++;
    log.order.fetch_xor(vm::mix(n * 4096u + s * 512u + i), std::memory_order_relaxed);
    if (g.chance(1, 6)) vm::jitter(g);
    e.result = e.payload + 1;
    --log.running;
    ++e.ended;
}

template <typename Pool>
void submitOne(Pool & pool, Log & log, unsigned s, unsigned i, std::uint64_t seed) {
    auto & e = log.at(s, i);
    e.payload = s * 1000003ull + i;
    Token token(e);
    auto f = [&log, s, i, seed, token] { vm::Rng g(seed); body(log, s, i, g); };
    ++e.submitted;
    vm::Rng g(seed);
    if (g.flip())
        pool.submit(ThreadPool::createSimpleTask(std::move(f)));
    else
        pool.submit(ThreadPool::createTask([f](ThreadPool::Task && self) {
            VM_CHECK(bool(self), "task-self", "the task did not get its own handle");
            f();
        }));
}

/* Every submitter feeds a chain as well: each chain task submits the next one. */
template <typename Pool>
struct Chain {
    Pool & pool; Log & log; unsigned s; std::uint64_t seed;
    void submit(unsigned i) {
        auto & e = log.at(s, i);
        e.payload = s * 1000003ull + i;
        Token token(e);
        auto self = *this;
        ++e.submitted;
        pool.submit(ThreadPool::createSimpleTask([self, i, token]() mutable {
            vm::Rng g(self.seed + i);
            body(self.log, self.s, i, g);
            if (i + 1 < self.log.perSubmitter) self.submit(i + 1);
        }));
    }
};

template <typename Pool>
void finish(Pool & pool, Log & log, bool drained) {
    log.joined = true;
    VM_CHECK(log.running == 0, "running-after-join", "%d tasks running after stopping and joining", log.running.load());
    VM_CHECK(pool.stopNotified(), "stop-notified", "stopNotified() false after the stop");
    std::uint64_t ran = 0, pending = 0;
    for (auto & e : log.e) {
        VM_CHECK(e.begun == e.ended, "unfinished", "a task was begun but not ended when joining returned");
        if (e.begun) { ++ran; VM_CHECK(e.result == e.payload + 1, "visibility", "the task's writes are not visible after joining"); }
        else if (e.submitted) ++pending;
        VM_CHECK(e.alive <= (e.begun ? 0u : 1u) || !e.submitted, "closure", "closure of a task %s is still alive %u times",
                 e.begun ? "that ran" : "that did not run", e.alive.load());
    }
    VM_CHECK(!drained || pending == 0, "lost", "%llu submitted tasks never ran", (unsigned long long) pending);
    if (log.workers == 1)
        VM_CHECK(log.plainCounter == ran, "overlap", "plain counter %llu after %llu tasks of one worker",
                 (unsigned long long) log.plainCounter, (unsigned long long) ran);
    vm::event("tasks-run", ran);
    vm::event("tasks-dropped-at-stop", pending);
    vm::signature(log.order.load() ^ vm::mix(pending));
}

void afterPool(Log & log, vm::LiveBalance & balance) {
    for (auto & e : log.e)
        VM_CHECK(e.alive == 0, "closure-leak", "a task closure outlived its pool");
    balance.expect(0, "after destroying the pool");
}

VM_SCENARIO(simple, "tsan asanp native", 360, 12000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const workers = unsigned(1 + r.below(r.flip() ? 1 : 4));
        unsigned const submitters = unsigned(1 + r.below(3)), each = unsigned(1 + r.below(40));
        bool const drain = r.chance(2, 3);
        unsigned const chains = unsigned(r.below(submitters + 1));
        unsigned const level = unsigned(r.below(4)) * 50u;
        unsigned const how = unsigned(r.below(3));
        vm::describe(vm::format("workers=%u submitters=%u each=%u drain=%d chains=%u level=%u how=%u",
                                workers, submitters, each, drain, chains, level, how));
        Log log(submitters, each, workers);
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::unique_ptr<SimpleThreadPool> pool(new SimpleThreadPool(workers));
            std::vector<std::function<void ()> > fns;
            for (unsigned s = 0; s < submitters; ++s) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, s, seed] {
                    vm::Rng g(seed);
                    if (s < chains) { Chain<SimpleThreadPool>{*pool, log, s, seed}.submit(0); return; }
                    for (unsigned i = 0; i < each; ++i) { submitOne(*pool, log, s, i, g.next()); vm::jitter(g); }
                });
            }
            std::uint64_t const stopSeed = r.next();
            if (!drain && r.flip())
                fns.push_back([&, stopSeed] { vm::Rng g(stopSeed); ::usleep(unsigned(g.below(400))); pool->notifyStop(); });
            vm::parallel(fns);
            if (drain) /* every submitted task runs, without any further event */
                while (log.begunTotal.load() != std::uint64_t(submitters) * each) {
                    struct timespec ts{0, 100000};
                    ::nanosleep(&ts, nullptr);
                }
            if (how == 0) { pool->stopAndJoin(); finish(*pool, log, drain); }
            else if (how == 1) { pool->notifyStop(); pool->join(); finish(*pool, log, drain); pool->stopAndJoin(); }
            pool.reset();
            log.joined = true;
            VM_CHECK(log.running == 0, "running-after-join", "tasks running after the pool was destroyed");
        }
        if (how == 2)
            for (auto & e : log.e) VM_CHECK(e.begun == e.ended && (!drain || e.begun == 1), "lost", "task begun %u ended %u", e.begun.load(), e.ended.load());
        if (how == 2) { vm::event("tasks-run", log.begunTotal.load()); vm::signature(log.order.load()); }
        afterPool(log, balance);
        vm::sample(vm::format("%u workers, %u submitters x %u tasks (%u chains), drained=%d", workers, submitters, each, chains, drain));
    });
}

/* participants come and go with every flavour of participation */
VM_SCENARIO(participatory, "tsan asanp native", 300, 10000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const workers = unsigned(1 + r.below(r.flip() ? 1 : 4));
        unsigned const submitters = unsigned(1 + r.below(2)), each = unsigned(1 + r.below(40));
        bool const drain = r.chance(2, 3);
        unsigned const level = unsigned(r.below(4)) * 50u;
        vm::describe(vm::format("participants=%u submitters=%u each=%u drain=%d level=%u", workers, submitters, each, drain, level));
        Log log(submitters, each, workers);
        std::atomic<std::uint64_t> onceTrue{0}, statusOk{0}, timeouts{0}, stops{0};
        std::atomic<bool> stopAsked{false};
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::unique_ptr<ParticipatoryThreadPool> pool(new ParticipatoryThreadPool);
            std::vector<std::function<void ()> > fns;
            std::atomic<unsigned> running{workers};
            for (unsigned w = 0; w < workers; ++w) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, seed] {
                    vm::Rng g(seed);
                    using C = std::chrono::steady_clock;
                    for (bool more = true; more;) {
                        std::uint64_t const before = log.begunTotal.load();
                        auto const until = C::now() + std::chrono::microseconds(g.below(700));
                        ThreadPool::Status st = ThreadPool::Ok;
                        bool timed = true, once = false;
                        switch (g.below(7)) {
                        case 0: pool->participate(); VM_CHECK(stopAsked.load(), "left-early", "participate() returned without a stop"); timed = false; break;
                        case 1: if (pool->participateOnce()) { ++onceTrue; VM_CHECK(log.begunTotal.load() > before, "once", "participateOnce() true but no task ran"); }
                                else VM_CHECK(stopAsked.load(), "left-early", "participateOnce() false without a stop");
                                timed = false; break;
                        case 2: st = pool->participateUntil(until); break;
                        case 3: st = pool->participateFor(std::chrono::microseconds(g.below(700))); if (st == ThreadPool::Timeout) timed = false; break;
                        case 4: st = pool->participateOnceUntil(until); once = true; break;
                        case 5: st = pool->participateOnceFor(std::chrono::microseconds(g.below(700))); once = true; timed = timed && st != ThreadPool::Timeout; break;
                        default: st = pool->participateOnceUntil(std::chrono::system_clock::now() + std::chrono::microseconds(g.below(700))); once = true; timed = timed && st != ThreadPool::Timeout; break;
                        }
                        if (timed) {
                            if (st == ThreadPool::Ok) { VM_CHECK(once, "status", "participateUntil reported Ok"); ++statusOk;
                                VM_CHECK(log.begunTotal.load() > before, "once", "Ok but no task ran"); }
                            else if (st == ThreadPool::Timeout) { ++timeouts; VM_CHECK(C::now() >= until, "timeout-early", "timed out early"); }
                            else { ++stops; VM_CHECK(stopAsked.load(), "left-early", "StopNotified without a stop"); }
                        }
                        more = !pool->stopNotified();
                    }
                    --running;
                });
            }
            for (unsigned s = 0; s < submitters; ++s) {
                std::uint64_t const seed = r.next();
                bool const chain = r.chance(1, 3);
                fns.push_back([&, s, seed, chain] {
                    vm::Rng g(seed);
                    if (chain) { Chain<ParticipatoryThreadPool>{*pool, log, s, seed}.submit(0); return; }
                    for (unsigned i = 0; i < each; ++i) { submitOne(*pool, log, s, i, g.next()); vm::jitter(g); }
                });
            }
            std::uint64_t const ss = r.next();
            fns.push_back([&, ss] {
                vm::Rng g(ss);
                if (drain)
                    while (log.begunTotal.load() != std::uint64_t(submitters) * each) {
                        struct timespec ts{0, 100000};
                        ::nanosleep(&ts, nullptr);
                    }
                else ::usleep(unsigned(g.below(1500)));
                stopAsked = true;
                if (g.flip()) { pool->notifyStop(); pool->join(); } else pool->stopAndJoin();
                VM_CHECK(log.running == 0, "running-after-join", "%d tasks running after stopping and joining", log.running.load());
                log.joined = true;
            });
            vm::parallel(fns);
            finish(*pool, log, drain);
        }
        afterPool(log, balance);
        vm::event("participate-once-true", onceTrue.load());
        vm::event("timed-ok", statusOk.load());
        vm::event("timeouts", timeouts.load());
        vm::event("stop-notified", stops.load());
        vm::sample(vm::format("%u participants, %u submitters x %u tasks, drained=%d, %llu timeouts", workers, submitters, each, drain,
                              (unsigned long long) timeouts.load()));
    });
}

/* Tasks that put themselves back, and exceptions that leave a participant. */
VM_SCENARIO(reusable, "tsan asanp native", 300, 6000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const workers = unsigned(1 + r.below(3)), rounds = unsigned(1 + r.below(60)), tasks = unsigned(1 + r.below(4));
        vm::describe(vm::format("workers=%u rounds=%u tasks=%u", workers, rounds, tasks));
        struct Rec { std::atomic<unsigned> runs{0}; std::atomic<int> inside{0}; std::unique_ptr<ThreadPool::ReusableTask> task; std::atomic<bool> done{false}; };
        std::vector<Rec> recs(tasks);
        std::atomic<bool> joined{false};
        {
            vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 60u);
            SimpleThreadPool pool(workers);
            for (auto & rec : recs) {
                vm::Tracked token(3);
                rec.task.reset(new ThreadPool::ReusableTask([&rec, &pool, rounds, token, &joined] {
                    VM_CHECK(token.get() == 3 && !joined, "reuse", "ran without its closure");
                    VM_CHECK(++rec.inside == 1, "overlap", "a reusable task overlaps itself");
                    unsigned const n = ++rec.runs;
                    VM_CHECK(n <= rounds, "ran-twice", "ran %u times, submitted %u times", n, rounds);
                    --rec.inside;
                    if (n < rounds) pool.submit(std::move(*rec.task));
                    else rec.done = true;
                }));
                pool.submit(std::move(*rec.task));
            }
            for (auto & rec : recs)
                while (!rec.done) ::usleep(100);
            pool.stopAndJoin();
            joined = true;
            for (auto & rec : recs)
                VM_CHECK(rec.runs == rounds, "lost", "ran %u times, submitted %u times", rec.runs.load(), rounds);
            recs.clear();
        }
        balance.expect(0, "after destroying reusable tasks and pool");
        vm::event("tasks-run", std::uint64_t(rounds) * tasks);
        vm::signature(vm::mix(workers * 1000 + rounds * 8 + tasks));
    });
}

VM_SCENARIO(throwing, "asan", 600, 6000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        std::uint64_t sig = 0;
        {
            ParticipatoryThreadPool pool;
            std::vector<int> want, got;
            unsigned const n = unsigned(1 + r.below(20));
            std::vector<bool> throws;
            for (unsigned i = 0; i < n; ++i) {
                throws.push_back(r.flip());
                vm::Tracked t(i);
                bool const th = throws.back();
                pool.submit(ThreadPool::createSimpleTask([&got, i, t, th] { got.push_back(int(t.get())); if (th) throw int(i); }));
                want.push_back(int(i));
            }
            while (got.size() < n) {
                std::size_t const before = got.size();
                bool caught = false;
                try {
                    switch (r.below(4)) {
                    case 0: VM_CHECK(pool.participateOnce(), "once", "participateOnce() false with pending tasks"); break;
                    case 1: VM_CHECK(pool.participateOnceFor(std::chrono::seconds(5)) == ThreadPool::Ok, "once", "participateOnceFor() not Ok with pending tasks"); break;
                    case 2: VM_CHECK(pool.participateOnceUntil(std::chrono::steady_clock::now() + std::chrono::seconds(5)) == ThreadPool::Ok, "once", "participateOnceUntil() not Ok with pending tasks"); break;
                    default: VM_CHECK(pool.participateOnceUntil(std::chrono::system_clock::now() + std::chrono::seconds(5)) == ThreadPool::Ok, "once", "participateOnceUntil() not Ok with pending tasks");
                    }
                } catch (int e) { caught = true; VM_CHECK(e == int(before), "exception", "exception %d of the wrong task", e); }
                VM_CHECK(got.size() == before + 1 && caught == throws[before], "exception", "exception handling of task %zu", before);
            }
            VM_CHECK(got == want, "order", "tasks ran in the wrong order");
            unsigned const left = unsigned(r.below(5));
            for (unsigned i = 0; i < left; ++i) { vm::Tracked t(i); pool.submit(ThreadPool::createSimpleTask([t] { t.get(); })); }
            sig = vm::mix(n * 8 + left);
            pool.stopAndJoin();
            VM_CHECK(!pool.participateOnce(), "ran-after-join", "a task ran after the stop");
            VM_CHECK(pool.participateOnceFor(std::chrono::milliseconds(1)) == ThreadPool::StopNotified, "status", "not StopNotified after the stop");
            VM_CHECK(pool.participateFor(std::chrono::milliseconds(1)) == ThreadPool::StopNotified, "status", "not StopNotified after the stop");
            pool.participate();
            vm::event("tasks-run", n);
        }
        balance.expect(0, "after destroying the pool");
        vm::signature(sig);
    });
}

/* Backlogs of any length are dropped when the pool goes away. */
VM_SCENARIO(backlog, "asan native", 2, 8, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::LiveBalance balance;
        unsigned const n = 600000u + unsigned(r.below(100000));
        std::atomic<unsigned> ran{0};
        {
            std::unique_ptr<SimpleThreadPool> pool(new SimpleThreadPool(i % 2));
            if (i % 2) pool->stopAndJoin();
            for (unsigned k = 0; k < n; ++k) { vm::Tracked t(k); pool->submit(ThreadPool::createSimpleTask([t, &ran] { ++ran; })); }
            balance.expect(long(n), "pending tasks");
        }
        VM_CHECK(ran == 0, "ran-after-join", "tasks ran without a worker");
        balance.expect(0, "after destroying a pool with a long backlog");
        vm::event("tasks-dropped", n);
        vm::signature(n);
    });
}

/* Several threads stop and join one pool while its workers are busy: each returns,
   and only when nothing runs any more; the pool may be destroyed right then. */
VM_SCENARIO(joiners, "tsan asanp native", 120, 6000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const workers = unsigned(1 + r.below(3)), joiners = unsigned(1 + r.below(3)), tasks = workers + unsigned(r.below(4));
        bool const simple = r.flip();
        unsigned const level = unsigned(r.below(4)) * 50u, pause = unsigned(r.below(1500));
        vm::describe(vm::format("simple=%d workers=%u joiners=%u tasks=%u level=%u pause=%u", simple, workers, joiners, tasks, level, pause));
        std::atomic<unsigned> begun{0}, ended{0}, joining{0}, joined{0};
        std::atomic<bool> gate{false};
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::unique_ptr<SimpleThreadPool> sp;
            std::unique_ptr<ParticipatoryThreadPool> pp;
            if (simple) sp.reset(new SimpleThreadPool(workers)); else pp.reset(new ParticipatoryThreadPool);
            ThreadPool & pool = simple ? static_cast<ThreadPool &>(*sp) : *pp;
            for (unsigned i = 0; i < tasks; ++i) {
                vm::Tracked t(i);
                pool.submit(ThreadPool::createSimpleTask([&, t] {
                    VM_CHECK(joined == 0, "ran-after-join", "a task started after joining returned");
                    ++begun;
                    while (!gate) ::usleep(20);
                    t.get();
                    ++ended;
                }));
            }
            std::vector<std::function<void ()> > fns;
            if (!simple)
                for (unsigned w = 0; w < workers; ++w) {
                    unsigned const kind = unsigned(r.below(3));
                    fns.push_back([&, kind] {
                        ParticipatoryThreadPool & mine = *pp;
                        if (kind == 0) mine.participate();
                        else if (kind == 1) VM_CHECK(mine.participateFor(std::chrono::seconds(100)) == ThreadPool::StopNotified, "status", "not StopNotified after the stop");
                        else mine.participateOnce();
                    });
                }
            std::atomic<unsigned> left{joiners};
            for (unsigned j = 0; j < joiners; ++j) {
                bool const separately = r.flip();
                fns.push_back([&, separately] {
                    while (begun != workers) ::usleep(20);
                    ++joining;
                    if (simple) { if (separately) { pool.notifyStop(); sp->join(); } else sp->stopAndJoin(); }
                    else { if (separately) { pool.notifyStop(); pp->join(); } else pp->stopAndJoin(); }
                    VM_CHECK(gate && begun == ended, "running-after-join", "joining returned with %u tasks running", begun - ended);
                    ++joined;
                    if (--left == 0) { sp.reset(); pp.reset(); }
                });
            }
            fns.push_back([&] { while (joining != joiners) ::usleep(20); ::usleep(pause); gate = true; });
            vm::parallel(fns);
        }
        VM_CHECK(begun == workers && ended == workers, "ran-after-join", "%u tasks ran, %u were taken before the stop", ended.load(), workers);
        balance.expect(0, "after destroying the pool");
        vm::event("joins", joiners);
        vm::event("tasks-dropped", tasks - workers);
        vm::signature(vm::mix(workers * 64 + joiners * 16 + tasks) ^ vm::mix(pause));
    });
}

/* One task at a time, the next one submitted when the last one ran: whatever the workers
   are doing then, it runs without any later event. */
VM_SCENARIO(idle, "native tsan asanp", 30, 1500, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const workers = unsigned(1 + r.below(3)), submitters = unsigned(1 + r.below(2)), rounds = unsigned(400 + r.below(800));
        unsigned const level = unsigned(r.below(4)) * 60u; bool const simple = r.flip();
        vm::describe(vm::format("simple=%d workers=%u submitters=%u rounds=%u level=%u", simple, workers, submitters, rounds, level));
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            std::unique_ptr<SimpleThreadPool> sp;
            std::unique_ptr<ParticipatoryThreadPool> pp;
            if (simple) sp.reset(new SimpleThreadPool(workers)); else pp.reset(new ParticipatoryThreadPool);
            ThreadPool & pool = simple ? static_cast<ThreadPool &>(*sp) : *pp;
            std::vector<std::function<void ()> > fns;
            std::atomic<unsigned> left{submitters};
            if (!simple)
                for (unsigned w = 0; w < workers; ++w) {
                    std::uint64_t const seed = r.next();
                    fns.push_back([&, seed] {
                        vm::Rng g(seed);
                        while (!pool.stopNotified())
                            switch (g.below(4)) {
                            case 0: pp->participateOnce(); break;
                            case 1: pp->participateFor(std::chrono::microseconds(g.below(300))); break;
                            case 2: pp->participateOnceFor(std::chrono::microseconds(g.below(300))); break;
                            default: pp->participate();
                            }
                    });
                }
            for (unsigned s = 0; s < submitters; ++s) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, seed] {
                    vm::Rng g(seed);
                    std::atomic<unsigned> done{0};
                    for (unsigned n = 1; n <= rounds; ++n) {
                        pool.submit(ThreadPool::createSimpleTask([&done] { done.fetch_add(1, std::memory_order_release); }));
                        auto const limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
                        for (unsigned spins = 0; done.load(std::memory_order_acquire) != n; ++spins)
                            if (spins > 200) {
                                VM_CHECK(std::chrono::steady_clock::now() < limit, "lost", "task %u, submitted when task %u had run, does not run", n, n - 1);
                                ::sched_yield();
                            }
                        for (volatile unsigned w = g.chance(3, 4) ? unsigned(g.below(120)) : 0u; w; w = w - 1) {}
                    }
                    if (--left == 0) pool.notifyStop();
                });
            }
            vm::parallel(fns);
        }
        vm::event("resubmissions", submitters * rounds);
        vm::signature(vm::mix(workers * 8 + submitters) ^ rounds);
    });
}

#ifdef VM_VARIANT_native
/* A pool whose threads cannot all be started reports that, and nothing of it stays behind. */
VM_SCENARIO(no_threads, "native", 60, 1000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const workers = unsigned(1 + r.below(6)), refused = unsigned(r.below(workers + 1));
        vm::describe(vm::format("workers=%u refused=%u", workers, refused));
        bool thrown = false;
        std::atomic<unsigned> ran{0};
        refuseThread = int(refused);
        try {
            SimpleThreadPool pool(workers);
            refuseThread = -1;
            for (unsigned i = 0; i < 10; ++i) pool.submit(ThreadPool::createSimpleTask([&] { ++ran; }));
            while (ran != 10) ::usleep(50);
        } catch (std::system_error const & e) { thrown = true; VM_CHECK(e.code() == std::errc::resource_unavailable_try_again, "error", "another error is reported"); }
        refuseThread = -1;
        VM_CHECK(thrown == (refused < workers), "error", "starting thread %u of %u failed, %s", refused, workers, thrown ? "an exception came" : "no exception came");
        vm::event(thrown ? "refused" : "started");
        vm::signature(vm::mix(workers * 16 + refused));
    });
}
#endif
} /* namespace */
