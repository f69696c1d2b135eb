/* P10: event loop.
   VM-VARIANTS: asan asanp tsan native
   VM-LIBS: -ldl */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include <dlfcn.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <deque>
#include <limits>
#include <mutex>
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>

/* The loop polls every 50 ms in case it missed something; with that taken away
   nothing but real wakeups can get it out of epoll_wait(). Errors are injected. */
namespace {
std::atomic<unsigned> g_eintrPercent{0};
std::atomic<int> g_waitErrno{0};
std::atomic<std::uint64_t> g_waits{0}, g_wakes{0}, g_eintrs{0};
std::atomic<int> g_failPipe{0}, g_failEpollCreate{0}, g_failCtl{0};
}
extern "C" int epoll_wait(int fd, struct epoll_event * ev, int n, int) {
    using F = int (*)(int, struct epoll_event *, int, int);
    static F const real = reinterpret_cast<F>(::dlsym(RTLD_NEXT, "epoll_wait"));
    std::uint64_t const w = g_waits.fetch_add(1, std::memory_order_relaxed);
    if (int const e = g_waitErrno.load(std::memory_order_relaxed)) { errno = e; return -1; }
    if (vm::mix(w) % 100u < g_eintrPercent.load(std::memory_order_relaxed)) {
        g_eintrs.fetch_add(1, std::memory_order_relaxed);
        errno = EINTR;
        return -1;
    }
    int const r = real(fd, ev, n, -1);
    g_wakes.fetch_add(1, std::memory_order_relaxed);
    return r;
}
extern "C" int pipe2(int * fds, int flags) {
    using F = int (*)(int *, int);
    static F const real = reinterpret_cast<F>(::dlsym(RTLD_NEXT, "pipe2"));
    if (int const e = g_failPipe.exchange(0)) { errno = e; return -1; }
    return real(fds, flags);
}
extern "C" int epoll_create1(int flags) {
    using F = int (*)(int);
    static F const real = reinterpret_cast<F>(::dlsym(RTLD_NEXT, "epoll_create1"));
    if (int const e = g_failEpollCreate.exchange(0)) { errno = e; return -1; }
    return real(flags);
}
extern "C" int epoll_ctl(int fd, int op, int target, struct epoll_event * ev) {
    using F = int (*)(int, int, int, struct epoll_event *);
    static F const real = reinterpret_cast<F>(::dlsym(RTLD_NEXT, "epoll_ctl"));
    if (int const e = g_failCtl.exchange(0)) { errno = e; return -1; }
    return real(fd, op, target, ev);
}

namespace {
using sharemind::EventLoop;
using sharemind::SingleThreadEventLoop;

/* The watchdog opens files in /proc meanwhile. */
unsigned openFds() {
    unsigned n = 0;
    if (DIR * const d = ::opendir("/proc/self/fd")) {
        while (auto * const e = ::readdir(d)) {
            char b[64];
            ssize_t const k = ::readlinkat(::dirfd(d), e->d_name, b, sizeof b);
            if (k > 0 && std::strncmp(b, "/proc/", 6) != 0) ++n;
        }
        ::closedir(d);
    }
    return n;
}

/* -> errno of the nested cause, or -1 */
template <typename E> int causeOf(E const & e) {
    try { std::rethrow_if_nested(e); }
    catch (sharemind::ErrnoException const & c) { return c.errorNumber(); }
    return -1;
}
struct Res { int ret; int err; }; /* ret: 0/1 value, 2 void, -1 EpollCtlException */
template <typename F> Res callBool(F f) {
    try { return Res{f() ? 1 : 0, 0}; }
    catch (EventLoop::EpollCtlException const & e) { return Res{-1, causeOf(e)}; }
}
template <typename F> Res callVoid(F f) {
    try { f(); return Res{2, 0}; }
    catch (EventLoop::EpollCtlException const & e) { return Res{-1, causeOf(e)}; }
}

/* Until run() is entered, waiting for the end of an iteration does not wait. */
void untilRunning(EventLoop & loop) {
    struct H final: EventLoop::EventHandler {
        std::atomic<bool> called{false};
        void handleEvents(EventLoop::EventSet) noexcept override { called = true; }
    } h;
    int const fd = ::eventfd(1, EFD_CLOEXEC | EFD_NONBLOCK);
    VM_CHECK(loop.insert(fd, EPOLLIN, h), "insert", "insert returned false");
    while (!h.called) { struct timespec ts{0, 20000}; ::nanosleep(&ts, nullptr); }
    VM_CHECK(loop.remove(fd), "remove", "remove returned false");
    loop.yieldUntilLoopIterationEnd(); /* h is in use until then */
    ::close(fd);
}

struct Fd { /* descriptor under test and how to make it ready */
    int fd = -1, peer = -1;
    bool registered = false, armed = false;
    EventLoop::EventSet mask = 0;
    unsigned handler = 0;
    void open() {
        int p[2];
        if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, p) != 0) std::abort();
        int small = 1;
        ::setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
        fd = p[0]; peer = p[1];
        registered = armed = false;
    }
    void close() {
        if (fd != -1) ::close(fd);
        if (peer != -1) ::close(peer);
        fd = peer = -1;
        registered = armed = false;
    }
};

VM_SCENARIO(model, "asan tsan native", 400, 20000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const k = unsigned(1 + r.below(6)), ops = unsigned(20 + r.below(60));
        g_eintrPercent = r.chance(1, 3) ? 40 : 0;
        vm::describe(vm::format("fds=%u ops=%u eintr=%u%%", k, ops, g_eintrPercent.load()));
        unsigned const fdsBefore = openFds();
        std::uint64_t delivered = 0, sig = 0;
        {
            struct H final: EventLoop::EventHandler {
                std::mutex m; std::vector<EventLoop::EventSet> got; std::atomic<std::thread::id> tid{};
                void handleEvents(EventLoop::EventSet const e) noexcept override {
                    std::lock_guard<std::mutex> g(m); got.push_back(e); tid = std::this_thread::get_id();
                }
                std::vector<EventLoop::EventSet> take() { std::lock_guard<std::mutex> g(m); return std::move(got); }
            };
            std::vector<Fd> fds(k);
            std::deque<H> hs(2 * k);
            SingleThreadEventLoop loop([]() noexcept { vm::violation("loop-error", "the loop failed"); });
            for (auto & f : fds) f.open();
            untilRunning(loop);
            for (unsigned step = 0; step < ops; ++step) {
                unsigned const idx = unsigned(r.below(k));
                Fd & f = fds[idx];
                unsigned const hi = unsigned(r.below(2));
                static EventLoop::EventSet const masks[] = {
                    EventLoop::INPUT_DATA_EVENTS, EventLoop::OUTPUT_DATA_EVENTS, EventLoop::ALL_DATA_EVENTS,
                    EventLoop::ALL_INPUT_EVENTS, EventLoop::ALL_OUTPUT_EVENTS, EventLoop::ALL_EVENTS, 0u, EPOLLRDHUP };
                EventLoop::EventSet const mask = masks[r.below(8)];
                H & h = hs[idx * 2 + hi];
                unsigned const op = unsigned(r.below(16));
                char const * name = "";
                Res got{2, 0}, want{2, 0};
                switch (op) {
                case 0: case 1: name = "insert";
                    got = callBool([&] { return loop.insert(f.fd, mask, h); });
                    want = f.fd < 0 ? Res{-1, EBADF} : Res{!f.registered, 0};
                    if (f.fd >= 0 && !f.registered) { f.registered = f.armed = true; f.mask = mask; f.handler = hi; }
                    break;
                case 2: case 3: name = "modify";
                    got = callVoid([&] { loop.modify(f.fd, mask, h); });
                    want = f.fd < 0 ? Res{-1, EBADF} : f.registered ? Res{2, 0} : Res{-1, ENOENT};
                    if (f.registered) { f.armed = true; f.mask = mask; f.handler = hi; }
                    break;
                case 4: case 5: name = "insertOrModify";
                    got = callBool([&] { return loop.insertOrModify(f.fd, mask, h); });
                    want = f.fd < 0 ? Res{-1, EBADF} : Res{!f.registered, 0};
                    if (f.fd >= 0) { f.registered = f.armed = true; f.mask = mask; f.handler = hi; }
                    break;
                case 6: name = "disable";
                    got = callVoid([&] { loop.disable(f.fd); });
                    want = f.fd < 0 ? Res{-1, EBADF} : f.registered ? Res{2, 0} : Res{-1, ENOENT};
                    f.armed = false;
                    break;
                case 7: name = "insertDisabled";
                    got = callVoid([&] { loop.insertDisabled(f.fd); });
                    want = f.fd < 0 ? Res{-1, EBADF} : f.registered ? Res{-1, EEXIST} : Res{2, 0};
                    if (f.fd >= 0 && !f.registered) { f.registered = true; f.armed = false; }
                    break;
                case 8: name = "insertDisabledOrDisable";
                    got = callBool([&] { return loop.insertDisabledOrDisable(f.fd); });
                    want = f.fd < 0 ? Res{-1, EBADF} : Res{!f.registered, 0};
                    if (f.fd >= 0) { f.registered = true; f.armed = false; }
                    break;
                case 9: name = "remove";
                    got = callBool([&] { return loop.remove(f.fd); });
                    want = f.fd < 0 ? Res{-1, EBADF} : Res{f.registered, 0};
                    f.registered = f.armed = false;
                    break;
                case 10: case 11: name = "peer writes";
                    if (f.peer >= 0) { char b[8] = {}; (void) !::send(f.peer, b, 1 + r.below(8), MSG_NOSIGNAL); }
                    break;
                case 12: name = "drain";
                    if (f.fd >= 0) { char b[64]; while (::read(f.fd, b, sizeof b) > 0) {} }
                    break;
                case 13: name = "fill";
                    if (f.fd >= 0) { char b[4096] = {}; while (::send(f.fd, b, sizeof b, MSG_NOSIGNAL) > 0) {} }
                    break;
                case 14: name = "peer drains or closes";
                    if (f.peer >= 0) {
                        if (r.chance(1, 3)) { if (r.flip()) ::shutdown(f.peer, SHUT_WR); else { ::close(f.peer); f.peer = -1; } }
                        else { char b[4096]; while (::read(f.peer, b, sizeof b) > 0) {} }
                    }
                    break;
                case 15: name = "close and reopen";
                    f.close();
                    if (r.chance(3, 4)) f.open();
                    break;
                }
                VM_CHECK(got.ret == want.ret && got.err == want.err, "result", "step %u: %s gave %d/errno %d, expected %d/errno %d", step, name, got.ret, got.err, want.ret, want.err);
                /* Two ends of iterations: the second iteration began after the operation. */
                if (r.flip()) { loop.yieldUntilLoopIterationEnd(); loop.yieldUntilLoopIterationEnd(); }
                else { loop.spinUntilLoopIterationEnd(); loop.spinUntilLoopIterationEnd(); }
                sig = vm::mix(sig ^ (op * 8u + unsigned(want.ret + 1)));
                for (unsigned j = 0; j < k; ++j) {
                    Fd & o = fds[j];
                    EventLoop::EventSet ready = 0;
                    if (o.fd >= 0 && o.registered && o.armed) {
                        struct pollfd p{o.fd, short(o.mask & (EPOLLIN | EPOLLPRI | EPOLLOUT | EPOLLRDHUP)), 0};
                        ::poll(&p, 1, 0);
                        ready = EventLoop::EventSet(static_cast<unsigned short>(p.revents));
                    }
                    for (unsigned w = 0; w < 2; ++w) {
                        auto const g = hs[j * 2 + w].take();
                        bool const expect = ready && o.handler == w;
                        VM_CHECK(g.size() <= 1, "delivered-twice", "step %u (%s): %zu deliveries for one arming", step, name, g.size());
                        VM_CHECK(g.empty() || expect, "spurious", "step %u (%s): handler %u of descriptor %u called with %#x%s", step, name, w, j, g.empty() ? 0u : g[0], o.armed ? "" : " while not armed");
                        VM_CHECK(!g.empty() || !expect, "not-delivered", "step %u (%s): condition %#x of descriptor %u not delivered", step, name, ready, j);
                        if (expect) {
                            /* closing changes the condition in several steps */
                            VM_CHECK(g[0] == ready || (op == 14 && !(g[0] & ~ready)), "bits", "step %u (%s): delivered %#x, condition is %#x", step, name, g[0], ready);
                            ++delivered; sig = vm::mix(sig ^ (ready * 16u + j));
                        }
                    }
                    if (ready) o.armed = false;
                }
                if (r.chance(1, 16)) { /* nothing armed is ready, so nothing keeps the loop busy */
                    std::uint64_t const before = g_wakes;
                    struct timespec ts{0, 2000000}; ::nanosleep(&ts, nullptr);
                    std::uint64_t const woken = g_wakes - before;
                    VM_CHECK(woken <= 4, "busy", "step %u (%s): woken %llu times with nothing to do", step, name, (unsigned long long) woken);
                    vm::event("idle-periods");
                }
            }
            for (auto & f : fds) { if (f.registered) loop.remove(f.fd); f.close(); }
        }
        g_eintrPercent = 0;
        VM_CHECK(openFds() == fdsBefore, "fd-leak", "descriptors leaked or closed twice: %u before, %u after", fdsBefore, openFds());
        vm::event("operations", ops);
        vm::event("deliveries", delivered);
        vm::event("injected-eintr", g_eintrs.exchange(0));
        vm::signature(sig);
    });
}

/* More descriptors than the loop collects at once; handlers arm themselves again. */
VM_SCENARIO(conservation, "asanp tsan native", 160, 8000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const n = unsigned(r.chance(1, 3) ? 120 + r.below(120) : 1 + r.below(20));
        unsigned const producers = unsigned(1 + r.below(3)), each = unsigned(100 + r.below(n > 100 ? 300 : 800));
        bool const big = r.flip();
        g_eintrPercent = r.chance(1, 3) ? 20 : 0;
        vm::describe(vm::format("eventfds=%u producers=%u writes=%u waiters=%d", n, producers, each, int(big)));
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(3)) * 40u);
        struct H final: EventLoop::EventHandler {
            EventLoop * loop = nullptr; int fd = -1; std::atomic<std::uint64_t> sum{0};
            std::uint64_t calls = 0; /* plain: handlers of a loop do not overlap */
            std::uint64_t * global = nullptr;
            void handleEvents(EventLoop::EventSet const e) noexcept override {
                VM_CHECK(e == EPOLLIN, "bits", "delivered %#x", e);
                ++calls; ++*global;
                std::uint64_t v = 0;
                VM_CHECK(::read(fd, &v, 8) == 8, "spurious", "handler called for a descriptor that is not ready");
                loop->modify(fd, EventLoop::INPUT_DATA_EVENTS, *this);
                sum.fetch_add(v);
            }
        };
        std::uint64_t calls = 0;
        std::deque<H> hs(n);
        {
            SingleThreadEventLoop loop([]() noexcept { vm::violation("loop-error", "the loop failed"); });
            for (auto & h : hs) {
                h.loop = &loop; h.global = &calls;
                h.fd = ::eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
                VM_CHECK(loop.insert(h.fd, EventLoop::INPUT_DATA_EVENTS, h), "insert", "insert returned false");
            }
            std::vector<std::atomic<std::uint64_t> > wrote(n);
            for (auto & w : wrote) w = 0;
            std::vector<std::function<void ()> > fns;
            for (unsigned p = 0; p < producers; ++p) {
                std::uint64_t const s = r.next();
                fns.push_back([&, s] {
                    vm::Rng g(s);
                    for (unsigned i = 0; i < each; ++i) {
                        unsigned const j = unsigned(g.below(n));
                        std::uint64_t const v = 1 + g.below(5);
                        wrote[j] += v;
                        (void) !::write(hs[j].fd, &v, 8);
                        if (g.chance(1, 16)) vm::jitter(g);
                        if (big && g.chance(1, 64)) loop.yieldUntilLoopIterationEnd();
                    }
                });
            }
            vm::parallel(fns);
            for (unsigned j = 0; j < n; ++j)
                while (hs[j].sum.load() != wrote[j].load()) { /* a lost event: watchdog */
                    VM_CHECK(hs[j].sum.load() <= wrote[j].load(), "invented", "more read than was written");
                    struct timespec ts{0, 50000}; ::nanosleep(&ts, nullptr);
                }
            if (r.flip()) loop.stop();
        }
        std::uint64_t total = 0, sig = 0;
        for (auto & h : hs) { total += h.calls; sig = vm::mix(sig ^ h.calls); ::close(h.fd); }
        VM_CHECK(total == calls, "overlap", "handlers overlapped");
        g_eintrPercent = 0;
        vm::event("deliveries", calls);
        vm::event("writes", producers * each);
        vm::signature(sig);
    });
}

/* The documented way to get rid of a handler: remove, wait for the iteration's end, destroy. */
VM_SCENARIO(removal, "asanp tsan native", 300, 15000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const drivers = unsigned(1 + r.below(3)), rounds = unsigned(5 + r.below(25));
        vm::describe(vm::format("drivers=%u rounds=%u", drivers, rounds));
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 60u);
        struct H final: EventLoop::EventHandler {
            EventLoop * loop; int fd; bool rearm; unsigned slow; std::atomic<bool> alive{true}; std::uint64_t calls = 0;
            void handleEvents(EventLoop::EventSet) noexcept override {
                VM_CHECK(alive, "after-removal", "handler called after remove() and a wait for the iteration's end");
                ++calls; /* plain: the waiter reads it after waiting */
                for (unsigned i = 0; i < slow; ++i) ::sched_yield();
                VM_CHECK(alive, "wait-early", "waiting for the iteration's end returned during a handler call");
                if (rearm) { try { loop->modify(fd, EventLoop::ALL_DATA_EVENTS, *this); } catch (...) {} }
            }
        };
        std::atomic<std::uint64_t> calls{0}, trace{0};
        {
            SingleThreadEventLoop loop([]() noexcept { vm::violation("loop-error", "the loop failed"); });
            untilRunning(loop);
            std::vector<std::function<void ()> > fns;
            for (unsigned d = 0; d < drivers; ++d) {
                std::uint64_t const s = r.next();
                fns.push_back([&, s] {
                    vm::Rng g(s);
                    Fd f; f.open();
                    for (unsigned i = 0; i < rounds; ++i) {
                        std::unique_ptr<H> h(new H);
                        h->loop = &loop; h->fd = f.fd; h->rearm = g.flip(); h->slow = unsigned(g.below(20));
                        VM_CHECK(loop.insert(f.fd, EventLoop::ALL_DATA_EVENTS, *h), "insert", "insert returned false");
                        vm::jitter(g);
                        if (g.chance(1, 3)) loop.yieldUntilLoopIterationEnd();
                        VM_CHECK(loop.remove(f.fd), "remove", "remove returned false");
                        if (g.flip()) loop.yieldUntilLoopIterationEnd(); else loop.spinUntilLoopIterationEnd();
                        h->alive = false;
                        calls += h->calls;
                        trace = vm::mix(trace ^ h->calls);
                    }
                    f.close();
                });
            }
            vm::parallel(fns);
        }
        vm::event("removals", drivers * rounds);
        vm::event("handler-calls", calls);
        vm::signature(trace);
    });
}

struct Loop { /* EventLoop run by hand */
    EventLoop loop;
    std::atomic<bool> entered{false}, returned{false};
    std::thread t;
    void start() { t = std::thread([this] { entered = true; loop.run(); returned = true; }); }
};

VM_SCENARIO(stopping, "asanp tsan native", 800, 30000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const kind = unsigned(r.below(5)), stoppers = unsigned(1 + r.below(3)), waiters = unsigned(r.below(4));
        vm::describe(vm::format("kind=%u stoppers=%u waiters=%u", kind, stoppers, waiters));
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 60u);
        g_eintrPercent = r.chance(1, 4) ? 30 : 0;
        Fd f; f.open();
        std::uint64_t sig = kind;
        {
            Loop l;
            struct H final: EventLoop::EventHandler {
                Loop * l; int fd; bool stopFromHandler; std::atomic<bool> stopped{false}; std::atomic<std::uint64_t> calls{0};
                void handleEvents(EventLoop::EventSet) noexcept override {
                    VM_CHECK(!stopped, "handler-after-stop", "handler called after stop() returned");
                    ++calls;
                    if (stopFromHandler && calls == 3) l->loop.stopAsync();
                    ::sched_yield();
                    VM_CHECK(!stopped, "stop-early", "stop() returned during a handler call");
                    l->loop.modify(fd, EventLoop::ALL_DATA_EVENTS, *this);
                }
            } h;
            h.l = &l; h.fd = f.fd; h.stopFromHandler = kind == 1;
            if (kind == 2) l.loop.stopAsync();           /* stop request comes before run() */
            if (kind != 3) l.loop.insert(f.fd, EventLoop::ALL_DATA_EVENTS, h);
            l.start();
            if (kind == 1 || kind == 2) {                /* ends by itself */
                l.t.join();
                VM_CHECK(l.returned, "run", "run() did not return");
                if (kind == 1) VM_CHECK(h.calls >= 3, "returned-early", "run() returned before the stop request");
                l.loop.yieldUntilLoopIterationEnd();     /* not running: must not block */
                l.loop.spinUntilLoopIterationEnd();
                l.loop.stop();
            } else {
                if (kind == 0)                           /* kinds 3, 4: stop before or at the start */
                    while (h.calls < 5) ::sched_yield();
                std::vector<std::function<void ()> > fns;
                std::vector<std::uint64_t> seen(stoppers, 0);
                bool const runEntered = kind != 4;
                if (runEntered) {
                    while (!l.entered) ::sched_yield();
                    for (unsigned i = 0; i < 3; ++i) vm::jitter(r);
                    VM_CHECK(!l.returned, "returned-early", "run() returned without a stop request");
                }
                for (unsigned s = 0; s < stoppers; ++s) {
                    std::uint64_t const seed = r.next();
                    fns.push_back([&, s, seed] {
                        vm::Rng g(seed);
                        vm::jitter(g);
                        if (g.flip()) l.loop.stopAsync();
                        if (s == 0 || g.flip()) {
                            l.loop.stop();
                            if (kind == 0) h.stopped = true; /* run() had been entered before */
                        }
                        seen[s] = h.calls;
                    });
                }
                for (unsigned w = 0; w < waiters; ++w) {
                    std::uint64_t const seed = r.next();
                    fns.push_back([&, seed] {
                        vm::Rng g(seed);
                        for (unsigned i = 0; i < 5; ++i) { l.loop.yieldUntilLoopIterationEnd(); vm::jitter(g); }
                    });
                }
                vm::parallel(fns);
                l.t.join(); /* a lost stop request: watchdog */
                h.stopped = true;
                sig = vm::mix(sig ^ h.calls);
            }
        }
        g_eintrPercent = 0;
        f.close();
        vm::event("loops-stopped");
        vm::signature(sig);
    });
}

/* Stop with handlers ready all the time: nothing is called once stop() returned. */
VM_SCENARIO(quiet_after_stop, "asanp tsan native", 500, 20000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 60u);
        unsigned const n = unsigned(1 + r.below(8));
        vm::describe(vm::format("always-ready descriptors=%u", n));
        std::vector<Fd> fds(n);
        for (auto & f : fds) f.open();
        std::uint64_t total = 0;
        {
            Loop l;
            struct H final: EventLoop::EventHandler {
                EventLoop * loop; int fd; std::uint64_t calls = 0; /* plain */
                void handleEvents(EventLoop::EventSet) noexcept override
                { ++calls; loop->modify(fd, EventLoop::ALL_DATA_EVENTS, *this); }
            };
            std::deque<H> hs(n);
            for (unsigned i = 0; i < n; ++i) { hs[i].loop = &l.loop; hs[i].fd = fds[i].fd; }
            l.start();
            for (unsigned i = 0; i < n; ++i) l.loop.insert(fds[i].fd, EventLoop::ALL_DATA_EVENTS, hs[i]);
            while (!l.entered) ::sched_yield();
            l.loop.yieldUntilLoopIterationEnd();
            for (unsigned i = 0; i < 4; ++i) vm::jitter(r);
            untilRunning(l.loop);
            l.loop.stop();
            std::uint64_t atStop = 0;
            for (auto & h : hs) atStop += h.calls; /* data race if the loop is still running */
            l.t.join();
            for (auto & h : hs) total += h.calls; 
            VM_CHECK(total == atStop, "handler-after-stop", "handlers called after stop() returned");
        }
        for (auto & f : fds) f.close();
        vm::event("handler-calls", total);
        vm::signature(vm::mix(total));
    });
}

/* A running loop is destroyed: its destructor returns once run() is over, so that
   the handlers may go right afterwards. */
VM_SCENARIO(destroyed, "asanp tsan native", 300, 15000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 60u);
        unsigned const n = unsigned(1 + r.below(6)), kind = unsigned(r.below(3));
        bool const slow = r.flip();
        vm::describe(vm::format("kind=%u always-ready descriptors=%u", kind, n));
        std::vector<Fd> fds(n);
        for (auto & f : fds) f.open();
        std::uint64_t total = 0;
        {
            struct H final: EventLoop::EventHandler {
                EventLoop * loop; int fd; bool slow; std::uint64_t calls = 0; /* plain */
                std::atomic<bool> alive{true};
                void handleEvents(EventLoop::EventSet) noexcept override {
                    VM_CHECK(alive, "handler-after-stop", "handler called after the destruction of the loop");
                    ++calls;
                    if (slow) ::usleep(50); else ::sched_yield();
                    VM_CHECK(alive, "destroyed-early", "the loop was destroyed during a handler call");
                    loop->modify(fd, EventLoop::ALL_DATA_EVENTS, *this);
                }
                ~H() noexcept override { alive = false; }
            };
            std::vector<std::unique_ptr<H> > hs;
            for (unsigned i = 0; i < n; ++i) { hs.emplace_back(new H); hs[i]->fd = fds[i].fd; hs[i]->slow = slow; }
            auto const use = [&](EventLoop & loop) {
                for (unsigned i = 0; i < n; ++i) { hs[i]->loop = &loop; loop.insert(fds[i].fd, EventLoop::ALL_DATA_EVENTS, *hs[i]); }
                untilRunning(loop);
                for (unsigned i = 0; i < 4; ++i) vm::jitter(r);
            };
            auto const finish = [&] {
                for (auto & h : hs) { total += h->calls; h.reset(); } /* data race or use after free if still running */
            };
            if (kind == 0) {
                std::unique_ptr<SingleThreadEventLoop> l(new SingleThreadEventLoop);
                use(*l); l.reset(); finish();
            } else {
                std::unique_ptr<EventLoop> l(new EventLoop);
                EventLoop * const lp = l.get();
                std::atomic<bool> returned{false};
                std::thread t([&] { lp->run(); returned = true; });
                use(*l);
                if (kind == 2) lp->stopAsync(); /* already stopping */
                l.reset(); finish();
                t.join();
                VM_CHECK(returned, "run", "run() did not return");
            }
        }
        for (auto & f : fds) f.close();
        vm::event("loops-destroyed"); vm::event("handler-calls", total);
        vm::signature(vm::mix(total * 4 + kind));
    });
}

/* Any number of wakeups may be pending: the loop is held up in a handler while
   many threads ask for the end of the iteration. */
VM_SCENARIO(many_wakeups, "native", 6, 60, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const n = unsigned(r.chance(2, 3) ? 1536u : 1u + r.below(1600));
        vm::describe(vm::format("pending wakeups=%u", n));
        SingleThreadEventLoop loop([]() noexcept { vm::violation("loop-error", "the loop failed"); });
        struct H final: EventLoop::EventHandler {
            std::atomic<bool> in{false}, go{false};
            void handleEvents(EventLoop::EventSet) noexcept override {
                in = true;
                while (!go) { struct timespec ts{0, 100000}; ::nanosleep(&ts, nullptr); }
            }
        } h;
        int const fd = ::eventfd(1, EFD_CLOEXEC | EFD_NONBLOCK);
        loop.insert(fd, EventLoop::INPUT_DATA_EVENTS, h);
        while (!h.in) ::sched_yield();
        std::atomic<unsigned> started{0}, done{0}, early{0};
        struct Arg { EventLoop * l; std::atomic<unsigned> * started, * done, * early; H * h; } arg{&loop, &started, &done, &early, &h};
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 * 1024);
        std::vector<pthread_t> ts;
        for (unsigned i = 0; i < n; ++i) {
            pthread_t t;
            if (pthread_create(&t, &at, [](void * p) -> void * {
                    auto & a = *static_cast<Arg *>(p);
                    ++*a.started;
                    struct timespec ts{0, 1000}; (void) ts;
                    a.l->yieldUntilLoopIterationEnd();
                    if (!a.h->go) ++*a.early;
                    ++*a.done;
                    return nullptr;
                }, &arg) != 0) break;
            ts.push_back(t);
        }
        while (started != ts.size()) ::sched_yield();
        for (unsigned i = 0; i < 20; ++i) ::sched_yield();
        VM_CHECK(done == 0, "wait-early", "waiting for the end of the iteration returned while a handler was running");
        h.go = true;
        for (auto const t : ts) ::pthread_join(t, nullptr); /* stuck: watchdog */
        VM_CHECK(early == 0, "wait-early", "%u waits ended during a handler call", early.load());
        pthread_attr_destroy(&at);
        /* the loop still works */
        std::uint64_t const sent = 1;
        struct H2 final: EventLoop::EventHandler { std::atomic<unsigned> calls{0}; void handleEvents(EventLoop::EventSet) noexcept override { ++calls; } } h2;
        loop.modify(fd, EventLoop::INPUT_DATA_EVENTS, h2);
        (void) !::write(fd, &sent, 8);
        loop.yieldUntilLoopIterationEnd(); loop.yieldUntilLoopIterationEnd();
        VM_CHECK(h2.calls == 1, "not-delivered", "event not delivered after many wakeups: %u", h2.calls.load());
        loop.remove(fd);
        ::close(fd);
        vm::event("pending-wakeups", ts.size());
        vm::signature(ts.size());
    });
}

/* Events that become ready while wakeups are pending: one round then gets both. */
VM_SCENARIO(mixed_rounds, "asan tsan native", 100, 4000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const fds = unsigned(1 + r.below(15)), rounds = unsigned(1 + r.below(4));
        vm::describe(vm::format("fds=%u rounds=%u", fds, rounds));
        SingleThreadEventLoop loop([]() noexcept { vm::violation("loop-error", "the loop failed"); });
        struct Gate final: EventLoop::EventHandler {
            int fd; std::atomic<bool> in{false}, go{false}, out{false};
            void handleEvents(EventLoop::EventSet) noexcept override {
                std::uint64_t v; (void) !::read(fd, &v, 8);
                in = true;
                while (!go) ::sched_yield();
                out = true;
            }
        } gate;
        struct Count final: EventLoop::EventHandler {
            int fd; std::atomic<unsigned> calls{0}, wrong{0}, empty{0}; std::atomic<std::uint64_t> sum{0};
            void handleEvents(EventLoop::EventSet e) noexcept override {
                if (e != EventLoop::EventSet(EPOLLIN)) ++wrong;
                std::uint64_t v = 0;
                if (::read(fd, &v, 8) == 8) sum += v; else ++empty;
                ++calls;
            }
        };
        gate.fd = ::eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
        loop.insert(gate.fd, EventLoop::INPUT_DATA_EVENTS, gate);
        std::vector<std::unique_ptr<Count> > hs;
        for (unsigned i = 0; i < fds; ++i) {
            hs.emplace_back(new Count);
            hs.back()->fd = ::eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
            loop.insert(hs.back()->fd, EventLoop::INPUT_DATA_EVENTS, *hs.back());
        }
        std::vector<std::uint64_t> sent(fds, 0), times(fds, 0);
        std::uint64_t sig = fds;
        for (unsigned k = 0; k < rounds; ++k) {
            gate.in = gate.go = gate.out = false;
            /* every delivery disarms the descriptor */
            if (k) { loop.modify(gate.fd, EventLoop::INPUT_DATA_EVENTS, gate); for (auto & h : hs) if (h->calls) loop.modify(h->fd, EventLoop::INPUT_DATA_EVENTS, *h); }
            std::uint64_t const one = 1;
            (void) !::write(gate.fd, &one, 8);
            while (!gate.in) ::sched_yield();
            unsigned const waiters = unsigned(r.below(r.flip() ? 4 : 48)), before = unsigned(r.below(fds + 1));
            std::vector<unsigned> order(fds);
            for (unsigned i = 0; i < fds; ++i) order[i] = i;
            for (unsigned i = fds; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
            auto const ready = [&](unsigned i) {
                std::uint64_t const v = 1 + r.below(1000);
                (void) !::write(hs[order[i]]->fd, &v, 8);
                sent[order[i]] += v; ++times[order[i]];
            };
            unsigned const used = unsigned(r.below(fds + 1));
            for (unsigned i = 0; i < std::min(before, used); ++i) ready(i);
            std::atomic<unsigned> started{0}, early{0};
            std::vector<std::thread> ts;
            for (unsigned i = 0; i < waiters; ++i)
                ts.emplace_back([&, spin = i % 16 == 0] {
                    ++started;
                    if (spin) loop.spinUntilLoopIterationEnd(); else loop.yieldUntilLoopIterationEnd();
                    if (!gate.go) ++early;
                });
            while (started != waiters) ::sched_yield();
            if (waiters) ::usleep(200 + unsigned(r.below(2000)));
            for (unsigned i = std::min(before, used); i < used; ++i) ready(i);
            gate.go = true;
            while (!gate.out) ::sched_yield();
            for (auto & t : ts) t.join(); /* stuck: watchdog */
            VM_CHECK(early == 0, "wait-early", "%u waits ended during a handler call", early.load());
            for (unsigned i = 0; i < fds; ++i)
                while (hs[i]->sum != sent[i]) { /* lost: watchdog */
                    VM_CHECK(!hs[i]->wrong, "wrong-events", "a handler was called with other events than those which were ready");
                    VM_CHECK(hs[i]->sum <= sent[i], "not-delivered", "more was read than was sent");
                    ::sched_yield();
                }
            sig = vm::mix(sig ^ (used * 64u + waiters));
            vm::event("pending-wakeups", waiters);
            vm::event("delivered", used);
        }
        loop.yieldUntilLoopIterationEnd(); loop.yieldUntilLoopIterationEnd();
        for (unsigned i = 0; i < fds; ++i) {
            VM_CHECK(!hs[i]->wrong && !hs[i]->empty, "wrong-events", "a handler was called %u times with wrong events and %u times with nothing ready", hs[i]->wrong.load(), hs[i]->empty.load());
            VM_CHECK(hs[i]->calls == times[i], "calls", "%u calls for %llu rounds in which the descriptor was ready", hs[i]->calls.load(), (unsigned long long) times[i]);
            loop.remove(hs[i]->fd);
        }
        loop.remove(gate.fd);
        loop.yieldUntilLoopIterationEnd();
        for (auto & h : hs) ::close(h->fd);
        ::close(gate.fd);
        vm::signature(sig);
    });
}

/* Failing system calls: documented exceptions, nothing leaked, loop usable. */
VM_SCENARIO(failures, "asan native", 120, 2000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        static int const errs[] = {EMFILE, ENFILE, ENOMEM, EINVAL};
        int const e = errs[r.below(4)];
        unsigned const kind = unsigned(i % 6);
        vm::describe(vm::format("kind=%u errno=%d", kind, e));
        unsigned const before = openFds();
        int cause = 0;
        if (kind == 0 || kind == 1) {
            (kind == 0 ? g_failEpollCreate : g_failPipe) = e;
            try { EventLoop l; VM_CHECK(false, "no-exception", "failure not reported"); }
            catch (EventLoop::EpollCreateException const & x) { VM_CHECK(kind == 0, "exception", "wrong exception"); cause = causeOf(x); }
            catch (EventLoop::PipeCreateException const & x) { VM_CHECK(kind == 1, "exception", "wrong exception"); cause = causeOf(x); }
        } else if (kind == 2) {
            g_failCtl = e;
            try { EventLoop l; VM_CHECK(false, "no-exception", "failure not reported"); }
            catch (EventLoop::EpollCtlException const & x) { cause = causeOf(x); }
        } else if (kind == 3) { /* interrupted system calls are retried */
            g_failPipe = r.flip() ? EINTR : 0;
            EventLoop l;
            int const fd = ::eventfd(0, EFD_CLOEXEC);
            auto h = EventLoop::createHandler([](EventLoop::EventSet) noexcept {});
            for (auto fn : std::vector<std::function<void ()> >{
                    [&] { VM_CHECK(l.insert(fd, EPOLLIN, *h), "insert", "insert false"); },
                    [&] { l.modify(fd, EPOLLIN, *h); }, [&] { l.disable(fd); },
                    [&] { VM_CHECK(!l.insertOrModify(fd, EPOLLIN, *h), "insertOrModify", "true for a present descriptor"); },
                    [&] { VM_CHECK(!l.insertDisabledOrDisable(fd), "insertDisabledOrDisable", "true for a present descriptor"); },
                    [&] { VM_CHECK(l.remove(fd), "remove", "false"); },
                    [&] { l.insertDisabled(fd); } }) {
                g_failCtl = r.chance(2, 3) ? (r.flip() ? EINTR : EAGAIN) : 0;
                fn();
                VM_CHECK(g_failCtl == 0, "harness", "system call not made");
            }
            ::close(fd);
            cause = e;
        } else if (kind == 4) { /* failing operations report and change nothing */
            EventLoop l;
            int const fd = ::eventfd(0, EFD_CLOEXEC);
            auto h = EventLoop::createHandler([](EventLoop::EventSet) noexcept {});
            g_failCtl = e;
            cause = callBool([&] { return l.insert(fd, EPOLLIN, *h); }).err;
            VM_CHECK(!callBool([&] { return l.remove(fd); }).ret, "remove", "removed what insert failed to add");
            VM_CHECK(l.insert(fd, EPOLLIN, *h), "insert", "insert false");
            g_failCtl = e;
            VM_CHECK(callBool([&] { return l.remove(fd); }).err == e, "exception", "remove failure not reported");
            VM_CHECK(l.remove(fd), "remove", "not there");
            ::close(fd);
        } else { /* the loop dies of a failing epoll_wait, reporting it */
            EventLoop l;
            std::atomic<int> got{0};
            g_waitErrno = e;
            std::thread t([&] {
                try { l.run(); got = -1; }
                catch (EventLoop::EpollWaitException const & x) { got = causeOf(x); }
            });
            l.yieldUntilLoopIterationEnd();
            t.join();
            g_waitErrno = 0;
            cause = got;
            l.yieldUntilLoopIterationEnd();
            l.stop();
        }
        VM_CHECK(cause == e, "errno", "cause reported is %d, injected %d", cause, e);
        VM_CHECK(openFds() == before, "fd-leak", "%u descriptors before, %u after", before, openFds());
        vm::event("failures-injected");
        vm::signature(kind * 1000u + unsigned(e));
    });
}
} /* namespace */
