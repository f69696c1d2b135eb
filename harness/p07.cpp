/* P07: ticket spin lock.
   VM-VARIANTS: asan asanp tsan native plain */
#include "vm.hpp"
#include <sharemind/TicketSpinLock.h>

namespace {
using sharemind::TicketSpinLock;

struct Protected { /* everything non-atomic: a missing edge is a data race */
    std::uint64_t counter = 0;
    unsigned inside = 0;
    std::vector<unsigned> log;
};

VM_SCENARIO(mutex, "tsan asanp native", 240, 8000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const threads = unsigned(2 + r.below(5)), each = unsigned(10 + r.below(150));
        unsigned const level = unsigned(r.below(4)) * 60u;
        vm::describe(vm::format("threads=%u each=%u level=%u", threads, each, level));
        TicketSpinLock lock;
        Protected d;
        std::atomic<int> holders{0};
        std::vector<std::function<void ()> > fns;
        for (unsigned t = 0; t < threads; ++t) {
            std::uint64_t const s = r.next();
            fns.push_back([&, t, s] {
                vm::Rng g(s);
                for (unsigned i = 0; i < each; ++i) {
                    if (g.flip()) {
                        std::lock_guard<TicketSpinLock> guard(lock);
                        VM_CHECK(holders.fetch_add(1, std::memory_order_relaxed) == 0, "mutual-exclusion", "two holders");
                        ++d.counter;
                        d.log.push_back(t);
                        if (g.chance(1, 8)) vm::jitter(g);
                        VM_CHECK(holders.fetch_sub(1, std::memory_order_relaxed) == 1, "mutual-exclusion", "two holders");
                    } else {
                        lock.lock();
                        unsigned const was = d.inside;
                        d.inside = t + 1;
                        VM_CHECK(was == 0, "mutual-exclusion", "thread %u inside with thread %u", t, was - 1);
                        ++d.counter;
                        d.log.push_back(t);
                        d.inside = 0;
                        lock.unlock();
                    }
                    vm::jitter(g);
                }
            });
        }
        {
            vm::Perturb p(vm::caseSeed(), level);
            vm::parallel(fns);
        }
        VM_CHECK(d.counter == std::uint64_t(threads) * each, "lost-update", "counter %llu, expected %u",
                 (unsigned long long) d.counter, threads * each);
        unsigned switches = 0;
        for (std::size_t i = 1; i < d.log.size(); ++i) switches += d.log[i] != d.log[i - 1];
        vm::event("acquisitions", d.counter);
        vm::event("holder-changes", switches);
        vm::signature(vm::hashBytes(d.log.data(), d.log.size() * sizeof(unsigned)));
        vm::sample(vm::format("%u threads x %u acquisitions, %u hand-overs between threads", threads, each, switches));
    });
}

/* Waiters queue up one after the other while the lock is held; each is known to
   be waiting (it burned processor time or sleeps inside lock()) before the next
   asks. They must get the lock in that order. */
bool waits(pthread_t th, std::atomic<long> & tid) {
    clockid_t c;
    if (::pthread_getcpuclockid(th, &c)) return true;
    struct timespec a, b;
    ::clock_gettime(c, &a);
    for (unsigned i = 0; i < 20000; ++i) {
        ::clock_gettime(c, &b);
        if ((b.tv_sec - a.tv_sec) * 1000000000l + (b.tv_nsec - a.tv_nsec) > 2000000l)
            return true; /* 2 ms of execution since it was about to call lock() */
        if (i > 20) { /* or blocked in the kernel */
            char path[64], buf[512] = {0};
            std::snprintf(path, sizeof path, "/proc/self/task/%ld/stat", tid.load());
            int const fd = ::open(path, O_RDONLY);
            if (fd >= 0) {
                ssize_t const n = ::read(fd, buf, sizeof buf - 1);
                ::close(fd);
                char const * p = n > 0 ? std::strrchr(buf, ')') : nullptr;
                if (p && p[2] == 'S') return true;
            }
        }
        ::usleep(200);
    }
    return false;
}
VM_SCENARIO(fifo, "native", 40, 800, 1, 6) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const waiters = unsigned(2 + r.below(4));
        unsigned const warm = unsigned(r.below(70));
        TicketSpinLock lock;
        for (unsigned i = 0; i < warm; ++i) { lock.lock(); lock.unlock(); }
        std::vector<unsigned> order;
        lock.lock();
        std::vector<std::thread> ts;
        bool ok = true;
        for (unsigned w = 0; w < waiters && ok; ++w) {
            std::atomic<bool> about{false};
            std::atomic<long> tid{0};
            ts.emplace_back([&, w] {
                tid = long(::syscall(SYS_gettid));
                about.store(true);
                lock.lock();
                order.push_back(w);
                lock.unlock();
            });
            while (!about.load()) ::usleep(50);
            ok = waits(ts.back().native_handle(), tid);
        }
        VM_CHECK(order.empty(), "mutual-exclusion", "a waiter got the lock while it was held");
        lock.unlock();
        for (auto & t : ts) t.join();
        if (!ok) { vm::event("undecided"); return; } /* starved of processor time: no verdict */
        for (unsigned w = 0; w < waiters; ++w)
            VM_CHECK(order.size() == waiters && order[w] == w, "fifo", "waiter %u served at position %u", order[w], w);
        vm::event("queued-waiters", waiters);
        vm::signature(waiters * 100 + warm);
        vm::sample(vm::format("%u waiters queued one by one were served in that order", waiters));
    });
}

/* Bounded overtaking under contention: while one thread waits, nobody else gets
   the lock more often than there were threads ahead of it, measured by a counter
   each holder advances. A thread's request is somewhere between reading the
   counter and getting the lock, so only requests known to be waiting count. */
VM_SCENARIO(long_history, "plain", 33, 66, 1, 1) {
    static TicketSpinLock lock; /* over all cases of the process: more than 2^31 (thorough 2^32) acquisitions */
    static std::uint64_t n = 0;
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::uint64_t const end = n + (std::uint64_t(1) << 26) + r.below(1000);
        vm::describe(vm::format("acquisition %llu on", (unsigned long long) n));
        for (; n < end; ++n) {
            lock.lock();
            lock.unlock();
        }
        vm::event("acquisitions", std::uint64_t(1) << 26);
        vm::signature(i);
    });
}
VM_SCENARIO(medium_history, "asan", 40, 400, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        TicketSpinLock lock;
        unsigned const n = 65000u + unsigned(r.below(2000));
        for (unsigned k = 0; k < n; ++k) { lock.lock(); lock.unlock(); }
        vm::event("acquisitions", n);
        vm::signature(i);
    });
}
/* Contention across a long history: the lock is handed over many times. */
VM_SCENARIO(handover, "native", 12, 200, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        TicketSpinLock lock;
        unsigned const pre = r.flip() ? 65536u - unsigned(r.below(200)) : unsigned(r.below(70000));
        for (unsigned k = 0; k < pre; ++k) { lock.lock(); lock.unlock(); }
        std::uint64_t counter = 0;
        unsigned const threads = unsigned(2 + r.below(2)), each = 3000;
        std::vector<std::function<void ()> > fns(threads, [&] {
            for (unsigned i = 0; i < each; ++i) {
                lock.lock();
                std::uint64_t volatile & c = counter;
                c = c + 1;
                lock.unlock();
                if (i % 16 == 0) ::sched_yield();
            }
        });
        vm::parallel(fns);
        VM_CHECK(counter == std::uint64_t(threads) * each, "lost-update", "counter %llu expected %u", (unsigned long long) counter, threads * each);
        vm::event("acquisitions", counter + pre);
        vm::signature(pre * 8u + threads);
    });
}
} /* namespace */
