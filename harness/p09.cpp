/* P09: timeouts thread.
   VM-VARIANTS: asan asanp asanv tsan native */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include <deque>
#include <sharemind/Durations.h>
#include <sharemind/TimeoutsThread.h>

namespace {
using sharemind::TimeoutsThread;
using Clock = TimeoutsThread::Clock;
using TaskPtr = std::unique_ptr<TimeoutsThread::Task>;

struct Rec {
    Clock::time_point deadline; /* exact for absolute submissions, lower bound otherwise */
    Clock::time_point latest;   /* upper bound of the deadline */
    std::atomic<std::uint64_t> submitted{0}; /* stamp after the submission returned; 0: not yet */
    std::atomic<unsigned> runs{0};
    std::uint64_t payload = 0;
};

struct Log {
    std::deque<Rec> recs;
    std::atomic<std::uint64_t> stamp{1};
    std::atomic<unsigned> running{0};
    std::atomic<bool> gone{false};
    std::atomic<std::uint64_t> begun{0};
    std::thread::id worker;       /* plain: written by the first task, read by later ones */
    bool haveWorker = false;
    std::uint64_t prevEnd = 0;    /* plain */
    std::vector<unsigned> order;  /* plain: written by the timeouts thread only */
    explicit Log(unsigned n) : recs(n) {}
};

void begin(Log & l, unsigned id) noexcept {
    auto const now = Clock::now();
    Rec & me = l.recs[id];
    VM_CHECK(!l.gone, "ran-late", "a task ran after the timeouts thread was destroyed");
    VM_CHECK(++l.running == 1, "overlap", "two tasks at once");
    if (!l.haveWorker) { l.worker = std::this_thread::get_id(); l.haveWorker = true; }
    VM_CHECK(l.worker == std::this_thread::get_id(), "thread", "tasks run on different threads");
    VM_CHECK(now >= me.deadline, "early", "task %u ran %lld ns before its time", id, now >= me.deadline ? 0ll : (long long) (me.deadline - now).count());
    VM_CHECK(me.payload == id * 7u + 1u, "visibility", "submitter's writes not visible");
    /* Everything whose submission completed before the previous task ended was
       available when this one was chosen. */
    if (l.prevEnd)
        for (unsigned k = 0; k < l.recs.size(); ++k) {
            Rec & o = l.recs[k];
            std::uint64_t const at = o.submitted.load(std::memory_order_acquire);
            if (k == id || !at || at > l.prevEnd || o.runs.load()) continue;
            VM_CHECK(o.latest >= me.deadline, "order", "task %u ran before task %u which was due %lld ns earlier", id, k,
                     (long long) (me.deadline - o.latest).count());
        }
    VM_CHECK(++me.runs == 1, "ran-twice", "task %u ran twice", id);
    l.order.push_back(id);
    ++l.begun;
}
void end(Log & l) noexcept {
    --l.running;
    l.prevEnd = l.stamp.fetch_add(1);
}

void waitFor(std::atomic<std::uint64_t> & a, std::uint64_t n) {
    while (a.load() < n) { struct timespec ts{0, 100000}; ::nanosleep(&ts, nullptr); }
}

template <typename Thread>
void submit(Thread & t, Log & l, unsigned id, Clock::duration d, bool absolute, TaskPtr task) {
    Rec & me = l.recs[id];
    me.payload = id * 7u + 1u;
    if (absolute) {
        me.deadline = me.latest = Clock::now() + d;
        t.addTask(me.deadline, std::move(task));
        me.submitted.store(l.stamp.fetch_add(1), std::memory_order_release);
    } else {
        me.deadline = Clock::now() + d;
        t.addTimeoutTask(d, std::move(task));
        me.latest = Clock::now() + d;
        me.submitted.store(l.stamp.fetch_add(1), std::memory_order_release);
    }
}

struct OneShot { Log * l; unsigned id; vm::Tracked token; void operator()() noexcept { begin(*l, id); token.get(); end(*l); } };

VM_SCENARIO(concurrent, "tsan asanp native", 200, 6000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const submitters = unsigned(1 + r.below(3)), each = unsigned(1 + r.below(20));
        bool const drain = r.chance(3, 4);
        unsigned const spread = unsigned(1 + r.below(3000));
        vm::describe(vm::format("submitters=%u each=%u drain=%d spread=%u us", submitters, each, drain, spread));
        Log l(submitters * each);
        {
            vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 50u);
            std::unique_ptr<TimeoutsThread> t(new TimeoutsThread);
            std::vector<std::function<void ()> > fns;
            for (unsigned s = 0; s < submitters; ++s) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, s, seed] {
                    vm::Rng g(seed);
                    for (unsigned i = 0; i < each; ++i) {
                        unsigned const id = s * each + i;
                        auto const d = std::chrono::microseconds(g.chance(1, 5) ? 0 : g.below(spread));
                        submit(*t, l, id, d, g.flip(), TimeoutsThread::createOneShotTask(OneShot{&l, id, vm::Tracked(long(id))}));
                        if (g.chance(1, 4)) vm::jitter(g);
                    }
                });
            }
            vm::parallel(fns);
            if (drain) {
                waitFor(l.begun, l.recs.size());
                for (auto & e : l.recs) VM_CHECK(e.runs == 1, "run-count", "a task ran %u times", e.runs.load());
            } else if (r.flip()) { t->stop(); if (r.flip()) t->stop(); }
            t.reset();
            l.gone = true;
            VM_CHECK(l.running == 0, "running-late", "task still running after destruction");
        }
        balance.expect(0, "after destroying the timeouts thread");
        vm::event("tasks-run", l.begun.load());
        vm::event("tasks-dropped", l.recs.size() - l.begun.load());
        vm::signature(vm::hashBytes(l.order.data(), l.order.size() * sizeof(unsigned)));
        vm::sample(vm::format("%u submitters x %u tasks over %u us, %llu ran", submitters, each, spread, (unsigned long long) l.begun.load()));
    });
}

/* While the thread is busy in one task, everything else is queued: afterwards
   it must come out sorted by deadline, equal ones in submission order. */
VM_SCENARIO(sorted, "asanp tsan", 200, 5000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const n = unsigned(1 + r.below(40));
        unsigned const buckets = unsigned(1 + r.below(12));
        std::vector<unsigned> order; /* written by the timeouts thread only */
        std::vector<unsigned> expect;
        std::atomic<std::uint64_t> begun{0};
        std::atomic<bool> inGate{false}, openGate{false};
        {
            TimeoutsThread t;
            struct Gate { std::atomic<bool> & in, & open; void operator()() noexcept { in = true; while (!open) ::usleep(50); } };
            t.addTimeoutTask(Clock::duration::zero(), TimeoutsThread::createOneShotTask(Gate{inGate, openGate}));
            while (!inGate) ::usleep(50);
            auto const base = Clock::now();
            std::vector<std::pair<int, unsigned> > keys;
            struct Fn { std::vector<unsigned> & order; std::atomic<std::uint64_t> & begun; Clock::time_point due; unsigned id; vm::Tracked tk;
                void operator()() noexcept {
                    VM_CHECK(Clock::now() >= due, "early", "task %u ran early", id);
                    VM_CHECK(tk.get() == long(id), "closure", "closure lost");
                    order.push_back(id); ++begun; } };
            for (unsigned i = 0; i < n; ++i) {
                int const k = int(r.below(buckets)) - 3; /* some are in the past */
                auto const due = base + std::chrono::microseconds(k * 150);
                keys.emplace_back(k, i);
                auto task = TimeoutsThread::createOneShotTask(Fn{order, begun, due, i, vm::Tracked(long(i))});
                t.addTask(due, std::move(task));
            }
            openGate = true;
            waitFor(begun, n);
            std::stable_sort(keys.begin(), keys.end(), [](std::pair<int, unsigned> const & a, std::pair<int, unsigned> const & b) { return a.first < b.first; });
            for (auto const & k : keys) expect.push_back(k.second);
        }
        for (unsigned i = 0; i < n; ++i)
            VM_CHECK(order.size() == n && order[i] == expect[i], "order", "position %u: task %u ran, expected %u", i, order[i], expect[i]);
        balance.expect(0, "after destroying the timeouts thread");
        vm::event("tasks-run", n);
        vm::signature(vm::hashBytes(order.data(), n * sizeof(unsigned)));
    });
}

/* An earlier deadline submitted while the thread sleeps towards a far one: if
   the wakeup is lost, nothing happens for an hour. */
VM_SCENARIO(preempt, "native tsan asanp", 120, 3000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        Log l(5);
        std::uint64_t const rounds = 1 + r.below(3);
        unsigned dropped = 0, past = 0;
        {
            TimeoutsThread t;
            unsigned const far = unsigned(r.below(3));
            vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(3)) * 80u);
            struct Never { vm::Tracked tk; void operator()() noexcept { vm::violation("early", "a task due in an hour ran"); } };
            for (unsigned i = 0; i < far; ++i) {
                auto never = TimeoutsThread::createOneShotTask(Never{vm::Tracked(1)});
                Clock::duration const longest = Clock::duration::max();
                switch (r.below(6)) { // up to delays meaning never, which the end of the clock's range cuts
                case 0: t.addTimeoutTask(longest - Clock::duration(r.below(3)), std::move(never)); break;
                case 1: t.addTimeoutTask(longest / 2 + Clock::duration(r.below(1000)), std::move(never)); break;
                case 2: t.addTask(Clock::time_point::max(), std::move(never)); break;
                case 3: t.addTimeoutTask(longest - Clock::now().time_since_epoch() - Clock::duration(r.below(200000)), std::move(never)); break;
                default: t.addTimeoutTask(std::chrono::hours(1) + std::chrono::minutes(r.below(5)), std::move(never));
                }
                ++dropped;
            }
            if (r.chance(1, 3)) { // as long ago as possible: due at once
                unsigned const id = 4;
                l.recs[id].payload = id * 7u + 1u; l.recs[id].deadline = l.recs[id].latest = Clock::time_point::min() + Clock::duration(r.below(2));
                t.addTask(l.recs[id].deadline, TimeoutsThread::createOneShotTask(OneShot{&l, id, vm::Tracked(4)}));
                waitFor(l.begun, 1); past = 1;
            }
            for (unsigned i = 0; i < rounds; ++i) {
                if (r.flip()) ::usleep(unsigned(r.below(600)));
                submit(t, l, i, std::chrono::microseconds(r.below(800)), true, TimeoutsThread::createOneShotTask(OneShot{&l, i, vm::Tracked(long(i))}));
                if (r.flip()) waitFor(l.begun, past + i + 1);
            }
            waitFor(l.begun, past + rounds);
            if (r.flip()) t.stop();
        }
        l.gone = true;
        balance.expect(0, "after destroying the timeouts thread");
        vm::event("tasks-run", rounds);
        vm::event("tasks-dropped", dropped);
        vm::signature(vm::mix(dropped * 16 + rounds) ^ (r.s & 0xff));
    });
}

/* Self-rescheduling, submissions from tasks, stop from a task. */
VM_SCENARIO(reschedule, "asanp tsan", 200, 5000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        unsigned const rounds = unsigned(1 + r.below(20));
        bool const stopInside = r.flip();
        std::atomic<unsigned> runs{0}, spawned{0};
        std::atomic<bool> done{false}, stoppedInside{false}, gone{false};
        Clock::time_point due;
        {
            TimeoutsThread t;
            vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(3)) * 80u);
            struct Spawned { std::atomic<unsigned> & n; std::atomic<bool> & st; vm::Tracked tk; void operator()() noexcept { VM_CHECK(!st, "ran-after-stop", "a task started after a task stopped the thread"); ++n; tk.get(); } };
            struct Re { TimeoutsThread & t; std::atomic<unsigned> & runs, & spawned; std::atomic<bool> & done, & st, & gone; Clock::time_point & due; unsigned rounds; bool stopInside; vm::Tracked tk;
                void operator()(TaskPtr && self) noexcept {
                    VM_CHECK(self != nullptr, "self", "the task did not get its handle");
                    VM_CHECK(!gone && !st, "ran-after-stop", "ran after the stop");
                    VM_CHECK(Clock::now() >= due, "early", "rescheduled task ran early");
                    tk.get();
                    unsigned const n = ++runs;
                    VM_CHECK(n <= rounds, "ran-twice", "ran %u times", n);
                    if (n % 3 == 0) t.addTimeoutTask(std::chrono::microseconds(30), TimeoutsThread::createOneShotTask(Spawned{spawned, st, vm::Tracked(5)}));
                    if (n < rounds) {
                        due = Clock::now() + std::chrono::microseconds(n * 20);
                        t.addTask(due, std::move(self));
                    } else {
                        if (stopInside) { t.stop(); st = true; }
                        done = true;
                    }
                } };
            due = Clock::now();
            t.addTask(due, TimeoutsThread::createReusableTask(Re{t, runs, spawned, done, stoppedInside, gone, due, rounds, stopInside, vm::Tracked(9)}));
            while (!done) ::usleep(50);
            if (!stopInside) /* all spawned ones run too */
                while (spawned.load() != rounds / 3) ::usleep(50);
            else if (r.flip()) { /* never runs */
                t.addTask(Clock::now(), TimeoutsThread::createOneShotTask(Spawned{spawned, stoppedInside, vm::Tracked(5)}));
                ::usleep(300);
            }
        }
        gone = true;
        VM_CHECK(runs == rounds && spawned <= rounds / 3, "run-count", "ran %u times, expected %u", runs.load(), rounds);
        balance.expect(0, "after destroying the timeouts thread");
        vm::event("tasks-run", runs + spawned);
        vm::event("stops-from-task", stopInside);
        vm::signature(vm::mix(rounds * 2 + stopInside) ^ (r.s & 0xff));
    });
}

/* A thread with nothing to do, woken for no reason at all: it must neither end
   its wait nor run anything, and take up what comes later. */
VM_SCENARIO(idle, "asanv", 100, 3000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        std::uint64_t const woken = vm::spuriousWakeups().load();
        unsigned const n = unsigned(1 + r.below(6));
        Log l(n);
        {
            vm::Perturb perturb(vm::caseSeed(), 100);
            TimeoutsThread t;
            for (unsigned i = 0; i < n; ++i) {
                if (r.chance(2, 3)) ::usleep(unsigned(r.below(400)));
                submit(t, l, i, std::chrono::microseconds(r.below(300)), r.flip(), TimeoutsThread::createOneShotTask(OneShot{&l, i, vm::Tracked(long(i))}));
                if (r.chance(2, 3)) waitFor(l.begun, i + 1);
            }
            waitFor(l.begun, n);
        }
        l.gone = true;
        for (auto & e : l.recs) VM_CHECK(e.runs == 1, "run-count", "a task ran %u times", e.runs.load());
        balance.expect(0, "after destroying the timeouts thread");
        vm::event("spurious-wakeups", vm::spuriousWakeups().load() - woken);
        vm::event("tasks-run", n);
        vm::signature(vm::mix(vm::spuriousWakeups().load() - woken) ^ (r.s & 0xff));
    });
}

VM_SCENARIO(durations, "asan", 50, 100, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::size_t const n = r.below(100000);
        sharemind::LoopDuration<> a(n);
        sharemind::LoopDuration<std::chrono::microseconds> b(n);
        VM_CHECK(a == std::chrono::milliseconds(n) && b == std::chrono::microseconds(n), "duration", "wrong duration");
        VM_CHECK(sharemind::StaticLoopDuration<>() == std::chrono::milliseconds(3), "duration", "default duration");
        VM_CHECK((sharemind::StaticLoopDuration<5u, std::chrono::seconds>() == std::chrono::seconds(5)), "duration", "static duration");
        vm::signature(i);
    });
}
} /* namespace */
