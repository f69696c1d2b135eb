/* P03: single-producer single-consumer ring.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include <deque>
#include <sharemind/CircBufferSCSP.h>

using sharemind::CircBufferSCSP;
using sharemind::CircBufferNoLocking;
using sharemind::CircBufferScspLocking;

namespace {

struct Wide {
    std::uint64_t a; std::uint32_t b; std::uint32_t c;
    static Wide make(std::uint64_t n)
    { return Wide{n, std::uint32_t(n * 7u + 1u), std::uint32_t(n >> 3)}; }
    bool is(std::uint64_t n) const
    { return a == n && b == std::uint32_t(n * 7u + 1u) && c == std::uint32_t(n >> 3); }
};

template <typename T> struct Elem {
    static T make(std::uint64_t n) { return static_cast<T>(n); }
    static bool is(T const & t, std::uint64_t n) { return t == static_cast<T>(n); }
};
template <> struct Elem<Wide> {
    static Wide make(std::uint64_t n) { return Wide::make(n); }
    static bool is(Wide const & t, std::uint64_t n) { return t.is(n); }
};

/* The element type T of the ring (void included), and the type E of its elements. */
template <typename T> struct RawOf { using E = T; };
template <> struct RawOf<void> { using E = unsigned char; };

template <typename T, typename Locking>
struct Model {
    using E = typename RawOf<T>::E;
    using Ring = CircBufferSCSP<T, Locking>;
    Ring ring;
    std::size_t const cap;
    std::uint64_t written = 0, readN = 0; /* sequence numbers */
    std::uint64_t base;
    std::uint64_t trace = 0;
    explicit Model(std::size_t c, std::uint64_t b) : ring(c), cap(c), base(b) {}

    E * slots() { return static_cast<E *>(static_cast<void *>(ring.arrayStart())); }
    std::size_t inRing() const { return std::size_t(written - readN); }

    /* Every unread element is still intact in its slot: the other side must not
       have touched it. */
    void checkOwned() {
        for (std::uint64_t n = readN; n < written; ++n)
            VM_CHECK(Elem<E>::is(slots()[n % cap], base + n), "slot-overwritten",
                     "unread element %llu of %llu (capacity %zu) was changed in the buffer",
                     (unsigned long long) n, (unsigned long long) written, cap);
    }
    std::vector<unsigned char> freeSnap;
    /* Reading must not write any slot, and writing only free ones. */
    void snap() {
        auto const * p = reinterpret_cast<unsigned char const *>(slots());
        freeSnap.assign(p, p + cap * sizeof(E));
    }
    void sameAsSnap(char const * what) {
        VM_CHECK(std::memcmp(freeSnap.data(), slots(), freeSnap.size()) == 0, "consumer-writes",
                 "%s changed the buffer memory", what);
    }
    void checkCounts() {
        VM_CHECK(ring.dataAvailable() == inRing(), "data-available", "dataAvailable()=%zu, expected %zu of %zu",
                 ring.dataAvailable(), inRing(), cap);
        VM_CHECK(ring.spaceAvailable() == cap - inRing(), "space-available", "spaceAvailable()=%zu expected %zu",
                 ring.spaceAvailable(), cap - inRing());
        VM_CHECK(ring.empty() == (inRing() == 0), "empty", "empty() wrong with %zu", inRing());
        VM_CHECK(ring.full() == (inRing() == cap), "full", "full() wrong with %zu", inRing());
        VM_CHECK(ring.bufferSize() == cap, "capacity", "bufferSize()");
        std::size_t ube = 777, total = ring.dataAvailable(ube);
        VM_CHECK(total == inRing() && ube == std::min(inRing(), cap - std::size_t(readN % cap)),
                 "data-until-end", "dataAvailable(ube)=%zu/%zu", total, ube);
        VM_CHECK(ring.dataAvailableUntilBufferEnd() == ube, "data-until-end", "dataAvailableUntilBufferEnd()");
        total = ring.spaceAvailable(ube);
        VM_CHECK(total == cap - inRing() && ube == std::min(cap - inRing(), cap - std::size_t(written % cap)),
                 "space-until-end", "spaceAvailable(ube)=%zu/%zu", total, ube);
        VM_CHECK(ring.spaceAvailableUntilBufferEnd() == ube, "space-until-end", "spaceAvailableUntilBufferEnd()");
    }

    void writeBlock(std::size_t n) {
        std::vector<E> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(Elem<E>::make(base + written + i));
        v.shrink_to_fit();
        std::size_t const expect = std::min(n, cap - inRing());
        std::size_t const got = ring.write(v.data(), n);
        VM_CHECK(got == expect, "write-count", "write of %zu stored %zu, %zu were free of %zu", n, got, cap - inRing(), cap);
        written += got;
    }
    void readBlock(std::size_t n) {
        std::vector<E> v(n, Elem<E>::make(0x55));
        snap();
        std::size_t const expect = std::min(n, inRing());
        std::size_t const got = ring.read(v.data(), n);
        VM_CHECK(got == expect, "read-count", "read of %zu returned %zu, %zu were pending of %zu", n, got, inRing(), cap);
        for (std::size_t i = 0; i < n; ++i)
            VM_CHECK(Elem<E>::is(v[i], i < got ? base + readN + i : 0x55), "read-content",
                     "element %zu of %zu read (%zu requested) is wrong", i, got, n);
        readN += got;
        sameAsSnap("read(buffer)");
    }
    /* an actor that accepts at most `limit` elements in each call */
    struct WriteActor {
        Model * m; std::size_t limit; std::size_t * total; std::size_t * calls;
        std::size_t operator()(T * p, std::size_t n) noexcept {
            ++*calls;
            auto * const e = static_cast<E *>(static_cast<void *>(p));
            std::size_t const done = std::min(n, limit);
            VM_CHECK(n > 0 && n <= m->cap - m->inRing(), "actor-offer", "writer offered %zu with %zu free", n, m->cap - m->inRing());
            VM_CHECK(e == m->slots() + m->written % m->cap, "actor-pointer", "writer offered the wrong slots");
            VM_CHECK(n <= m->cap - m->written % m->cap, "actor-offer", "writer offered slots past the end");
            for (std::size_t i = 0; i < done; ++i)
                e[i] = Elem<E>::make(m->base + m->written + i);
            m->written += done;
            *total += done;
            return done;
        }
    };
    struct ReadActor {
        Model * m; std::size_t limit; std::size_t * total; std::size_t * calls;
        std::size_t operator()(T const * p, std::size_t n) noexcept {
            ++*calls;
            auto const * const e = static_cast<E const *>(static_cast<void const *>(p));
            std::size_t const done = std::min(n, limit);
            VM_CHECK(n > 0 && n <= m->inRing(), "actor-offer", "reader offered %zu with %zu pending", n, m->inRing());
            VM_CHECK(e == m->slots() + m->readN % m->cap, "actor-pointer", "reader offered the wrong slots");
            VM_CHECK(n <= m->cap - m->readN % m->cap, "actor-offer", "reader offered slots past the end");
            for (std::size_t i = 0; i < n; ++i)
                VM_CHECK(Elem<E>::is(e[i], m->base + m->readN + i), "actor-content", "reader offered a wrong element");
            m->readN += done;
            *total += done;
            return done;
        }
    };
    void writeActor(std::size_t limit) {
        std::size_t total = 0, calls = 0;
        std::size_t const space = cap - inRing(), ube = std::min(space, cap - std::size_t(written % cap));
        std::size_t const got = ring.write(WriteActor{this, limit, &total, &calls});
        VM_CHECK(got == total, "actor-total", "write(actor) returned %zu, actor wrote %zu", got, total);
        VM_CHECK(total == (limit < ube ? limit : ube + std::min(limit, space - ube)), "actor-complete",
                 "write(actor) transferred %zu with %zu free (%zu contiguous), limit %zu", total, space, ube, limit);
    }
    void readActor(std::size_t limit) {
        std::size_t total = 0, calls = 0;
        std::size_t const pend = inRing(), ube = std::min(pend, cap - std::size_t(readN % cap));
        snap();
        std::size_t const got = ring.read(ReadActor{this, limit, &total, &calls});
        VM_CHECK(got == total, "actor-total", "read(actor) returned %zu, actor read %zu", got, total);
        VM_CHECK(total == (limit < ube ? limit : ube + std::min(limit, pend - ube)), "actor-complete",
                 "read(actor) transferred %zu with %zu pending (%zu contiguous), limit %zu", total, pend, ube, limit);
        sameAsSnap("read(actor)");
    }
    void manualWrite(std::size_t want, unsigned how, bool across) {
        std::size_t ube;
        ring.spaceAvailable(ube);
        std::size_t const n = std::min(want, across ? cap - inRing() : ube); /* the slots continue at the start */
        for (std::size_t i = 0; i < n; ++i)
            slots()[(ring.writeOffset() + i) % cap] = Elem<E>::make(base + written + i);
        std::size_t const r = how == 0 ? ring.haveWritten(n) : how == 1 ? ring.haveWrittenRetUbe(n)
                                                               : (ring.haveWrittenNoRet(n), std::size_t(0));
        written += n;
        if (how == 0) VM_CHECK(r == cap - inRing(), "haveWritten-result", "haveWritten returned %zu", r);
        if (how == 1) VM_CHECK(r == std::min(cap - inRing(), cap - std::size_t(written % cap)), "haveWritten-result",
                               "haveWrittenRetUbe returned %zu", r);
    }
    void manualRead(std::size_t want, unsigned how, bool across) {
        std::size_t ube;
        ring.dataAvailable(ube);
        std::size_t const n = std::min(want, across ? inRing() : ube);
        for (std::size_t i = 0; i < n; ++i)
            VM_CHECK(Elem<E>::is(slots()[(ring.readOffset() + i) % cap], base + readN + i), "read-content", "manual read");
        std::size_t const r = how == 0 ? ring.haveRead(n) : how == 1 ? ring.haveReadRetUbe(n)
                                                            : (ring.haveReadNoRet(n), std::size_t(0));
        readN += n;
        if (how == 0) VM_CHECK(r == inRing(), "haveRead-result", "haveRead returned %zu", r);
        if (how == 1) VM_CHECK(r == std::min(inRing(), cap - std::size_t(readN % cap)), "haveRead-result",
                               "haveReadRetUbe returned %zu", r);
    }
    void step(vm::Rng & r) {
        std::size_t const n = r.size(cap + 2);
        unsigned const op = unsigned(r.below(6));
        switch (op) {
        case 0: if (n) writeBlock(n); break;
        case 1: if (n) readBlock(n); break;
        case 2: writeActor(r.flip() ? cap + 5 : n); break;
        case 3: readActor(r.flip() ? cap + 5 : n); break;
        case 4: manualWrite(n, unsigned(r.below(3)), r.flip()); break;
        case 5: manualRead(n, unsigned(r.below(3)), r.flip()); break;
        }
        trace = vm::mix(trace ^ (op * 131u + n * 7u + inRing() * 1009u));
        checkCounts();
        checkOwned();
    }
};

template <typename T, typename L>
void oneHistory(vm::Rng & r, char const * name) {
    std::size_t const cap = r.flip() ? std::size_t(1 + r.below(9)) : std::size_t(1 + r.size(200));
    unsigned const steps = unsigned(10 + r.below(120));
    vm::describe(vm::format("T=%s capacity=%zu steps=%u", name, cap, steps));
    Model<T, L> m(cap, r.below(200));
    m.checkCounts();
    for (unsigned i = 0; i < steps; ++i) m.step(r);
    vm::event("elements-written", m.written);
    vm::event("elements-read", m.readN);
    vm::event("operations", steps);
    vm::event("wraps", m.written / cap);
    vm::signature(vm::mix(m.trace ^ cap));
    vm::sample(vm::format("T=%s capacity=%zu: %u operations, %llu written, %llu read, %llu wraps", name, cap, steps,
                          (unsigned long long) m.written, (unsigned long long) m.readN, (unsigned long long) (m.written / cap)));
}

VM_SCENARIO(model, "asan", 24000, 200000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        switch (r.below(7)) {
        case 0: oneHistory<char, CircBufferScspLocking<> >(r, "char,locking"); break;
        case 1: oneHistory<std::uint32_t, CircBufferNoLocking>(r, "uint32,nolocking"); break;
        case 2: oneHistory<Wide, CircBufferScspLocking<> >(r, "struct,locking"); break;
        case 3: oneHistory<void, CircBufferScspLocking<> >(r, "void,locking"); break;
        case 4: oneHistory<void, CircBufferNoLocking>(r, "void,nolocking"); break;
        case 5: oneHistory<unsigned char, CircBufferScspLocking<std::recursive_mutex> >(r, "uchar,recursive_mutex"); break;
        default: oneHistory<std::uint64_t, CircBufferScspLocking<> >(r, "uint64,locking"); break;
        }
    });
}

/* One producer and one consumer thread. Each keeps its own sequence; published
   bounds (what surely has been read / could have been written) bracket what the
   other side may be told. */
template <typename T>
void threaded(vm::Rng & r, char const * name) {
    using E = typename RawOf<T>::E;
    std::size_t const cap = r.flip() ? std::size_t(1 + r.below(6)) : std::size_t(1 + r.size(70));
    std::uint64_t const total = 100 + r.below(1200);
    unsigned const level = unsigned(r.below(4)) * 60u;
    vm::describe(vm::format("threads T=%s capacity=%zu total=%llu level=%u", name, cap, (unsigned long long) total, level));
    std::unique_ptr<CircBufferSCSP<T> > ring(new CircBufferSCSP<T>(cap));
    std::uint64_t const ps = r.next(), cs = r.next();
    /* before writing n elements the producer announces them; after reading n the
       consumer first announces that it may have freed them */
    std::atomic<std::uint64_t> announced{0}, consumed{0};
    std::atomic<std::uint64_t> trace{0};
    std::atomic<bool> stopped{false};
    vm::Perturb perturb(vm::caseSeed(), level);
    auto * const slots = static_cast<E *>(static_cast<void *>(ring->arrayStart()));
    vm::parallel({
        [&] {
            vm::Rng q(ps);
            std::uint64_t w = 0, tr = 1;
            while (w < total) {
                std::size_t avail;
                if (q.chance(1, 3)) {
                    avail = q.flip() ? ring->waitSpaceAvailable()
                                     : ring->waitSpaceAvailable([]() noexcept {}, std::chrono::microseconds(50 + q.below(500)));
                    VM_CHECK(avail > 0 && avail <= cap, "wait-space", "waitSpaceAvailable()=%zu of %zu", avail, cap);
                } else avail = ring->spaceAvailable();
                /* upper bound: everything the consumer can have started to free */
                std::uint64_t const mayBeRead = consumed.load(std::memory_order_relaxed);
                (void) mayBeRead;
                std::size_t const n = std::size_t(std::min<std::uint64_t>(1 + q.size(cap + 1), total - w));
                std::size_t done = 0;
                switch (q.below(3)) {
                case 0: {
                    std::vector<E> v;
                    for (std::size_t i = 0; i < n; ++i) v.push_back(Elem<E>::make(w + i));
                    done = ring->write(static_cast<T const *>(v.data()), n);
                    VM_CHECK(done <= n && done >= std::min(n, avail), "write-count", "wrote %zu of %zu with at least %zu free", done, n, avail);
                } break;
                case 1: {
                    std::uint64_t at = w;
                    struct A { std::uint64_t * at; std::uint64_t end; E * base; std::size_t cap;
                        std::size_t operator()(T * p, std::size_t k) noexcept {
                            auto * const e = static_cast<E *>(static_cast<void *>(p));
                            VM_CHECK(e == base + *at % cap && k <= cap - *at % cap, "actor-pointer", "wrong slots offered");
                            std::size_t const d = std::size_t(std::min<std::uint64_t>(k, end - *at));
                            for (std::size_t i = 0; i < d; ++i) e[i] = Elem<E>::make(*at + i);
                            *at += d;
                            return d;
                        } };
                    done = ring->write(A{&at, w + n, slots, cap});
                    VM_CHECK(at == w + done, "actor-total", "write(actor) returned %zu, actor wrote %llu", done, (unsigned long long) (at - w));
                } break;
                default: {
                    std::size_t ube;
                    ring->spaceAvailable(ube);
                    done = std::min(n, ube);
                    for (std::size_t i = 0; i < done; ++i) slots[ring->writeOffset() + i] = Elem<E>::make(w + i);
                    ring->haveWritten(done);
                } break;
                }
                if (!done) ::sched_yield();
                w += done;
                tr = vm::mix(tr ^ (done * 64u + avail));
                vm::jitter(q);
            }
            trace ^= tr;
        },
        [&] {
            vm::Rng q(cs);
            std::uint64_t rd = 0, tr = 2;
            while (rd < total) {
                std::size_t avail;
                if (q.chance(1, 3)) {
                    avail = q.flip() ? ring->waitDataAvailable()
                                     : ring->waitDataAvailable([]() noexcept {}, std::chrono::microseconds(50 + q.below(500)));
                    VM_CHECK(avail > 0 && avail <= cap, "wait-data", "waitDataAvailable()=%zu of %zu", avail, cap);
                } else avail = ring->dataAvailable();
                VM_CHECK(avail <= cap, "data-available", "%zu of %zu", avail, cap);
                std::size_t const n = std::size_t(std::min<std::uint64_t>(1 + q.size(cap + 1), total - rd));
                std::size_t done = 0;
                switch (q.below(3)) {
                case 0: {
                    std::vector<E> v(n, Elem<E>::make(0));
                    done = ring->read(static_cast<T *>(v.data()), n);
                    VM_CHECK(done <= n && done >= std::min(n, avail), "read-count", "read %zu of %zu with at least %zu pending", done, n, avail);
                    for (std::size_t i = 0; i < done; ++i)
                        VM_CHECK(Elem<E>::is(v[i], rd + i), "read-content", "element %llu wrong (%zu/%zu)", (unsigned long long) (rd + i), i, done);
                } break;
                case 1: {
                    std::uint64_t at = rd;
                    struct A { std::uint64_t * at; std::uint64_t end; E * base; std::size_t cap;
                        std::size_t operator()(T const * p, std::size_t k) noexcept {
                            auto const * const e = static_cast<E const *>(static_cast<void const *>(p));
                            VM_CHECK(e == base + *at % cap && k <= cap - *at % cap, "actor-pointer", "wrong slots offered");
                            for (std::size_t i = 0; i < k; ++i)
                                VM_CHECK(Elem<E>::is(e[i], *at + i), "actor-content", "offered element not as written");
                            std::size_t const d = std::size_t(std::min<std::uint64_t>(k, end - *at));
                            *at += d;
                            return d;
                        } };
                    done = ring->read(A{&at, rd + n, slots, cap});
                    VM_CHECK(at == rd + done, "actor-total", "read(actor) returned %zu", done);
                } break;
                default: {
                    std::size_t ube;
                    ring->dataAvailable(ube);
                    done = std::min(n, ube);
                    for (std::size_t i = 0; i < done; ++i)
                        VM_CHECK(Elem<E>::is(slots[ring->readOffset() + i], rd + i), "read-content", "manual read wrong");
                    ring->haveRead(done);
                } break;
                }
                if (!done) ::sched_yield();
                rd += done;
                tr = vm::mix(tr ^ (done * 64u + avail));
                vm::jitter(q);
            }
            trace ^= tr;
        }});
    VM_CHECK(ring->empty() && ring->spaceAvailable() == cap, "final-state", "not empty after all elements were read");
    vm::event("elements-transferred", total);
    vm::signature(trace.load());
    vm::sample(vm::format("T=%s capacity=%zu: %llu elements through two threads", name, cap, (unsigned long long) total));
}

VM_SCENARIO(threads, "tsan asanp native", 800, 6000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        switch (r.below(4)) {
        case 0: threaded<std::uint32_t>(r, "uint32"); break;
        case 1: threaded<Wide>(r, "struct"); break;
        case 2: threaded<void>(r, "void"); break;
        default: threaded<unsigned char>(r, "uchar"); break;
        }
    });
}

/* Waiting with nothing but the wait itself to make progress: a lost notification
   is a deadlock. */
VM_SCENARIO(wait_only, "tsan native", 300, 3000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::size_t const cap = 1 + r.below(4);
        unsigned const total = unsigned(50 + r.below(400));
        CircBufferSCSP<std::uint32_t> ring(cap);
        vm::describe(vm::format("wait-only capacity=%zu total=%u", cap, total));
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(3)) * 100u);
        vm::parallel({
            [&] { for (std::uint32_t i = 0; i < total; ) { ring.waitSpaceAvailable(); i += std::uint32_t(ring.write(&i, 1)); } },
            [&] { for (std::uint32_t i = 0; i < total; ) { std::uint32_t v = ~0u; ring.waitDataAvailable();
                    if (ring.read(&v, 1)) { VM_CHECK(v == i, "read-content", "got %u expected %u", v, i); ++i; } } }});
        vm::event("elements-transferred", total);
        vm::signature(vm::mix(cap * 1000u + total));
    });
}

/* A waiting side is woken by the very next action that makes its wait succeed,
   without relying on any later one: the other side acts once, then does nothing
   until the waiter is back. */
VM_SCENARIO(wake_by_one, "tsan native asanp", 120, 3000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::size_t const cap = r.flip() ? 1 + r.below(4) : 1 + r.size(100);
        unsigned const rounds = unsigned(5 + r.below(20));
        vm::describe(vm::format("wake-by-one capacity=%zu rounds=%u", cap, rounds));
        CircBufferSCSP<std::uint32_t> ring(cap);
        std::atomic<unsigned> turn{0}, acted{0};
        std::uint64_t const seed = r.next();
        std::uint64_t sig = 0;
        vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(3)) * 100u);
        auto const script = [&](bool waiter) {
            vm::Rng q(seed), own(seed + waiter + 1);
            for (unsigned k = 0; k < rounds; ++k) {
                bool const forSpace = q.flip();
                std::size_t const amount = std::size_t(1 + q.below(cap));
                unsigned const how = unsigned(q.below(3));
                unsigned const delay = unsigned(q.below(3) ? q.below(300) : 0u);
                if (waiter) {
                    if (forSpace) { /* fill it, then wait */
                        std::vector<std::uint32_t> v(cap, k);
                        VM_CHECK(ring.write(v.data(), cap) == cap, "write-count", "could not fill an empty buffer");
                        turn.store(2 * k + 1);
                        std::size_t const got = ring.waitSpaceAvailable();
                        VM_CHECK(got > 0 && got <= amount, "wait-space", "%zu free after the wait, %zu read", got, amount);
                    } else {
                        turn.store(2 * k + 1);
                        std::size_t const got = ring.waitDataAvailable();
                        VM_CHECK(got > 0 && got <= amount, "wait-data", "%zu pending after the wait, %zu written", got, amount);
                    }
                    turn.store(2 * k + 2); /* woken; now leave the buffer empty, as its only user */
                    while (acted.load() != k + 1) ::sched_yield();
                    std::vector<std::uint32_t> v(cap);
                    std::size_t const left = forSpace ? cap - amount : amount;
                    if (left) VM_CHECK(ring.read(v.data(), cap) == left, "read-count", "wrong amount left");
                } else {
                    while (turn.load() < 2 * k + 1) ::sched_yield();
                    if (delay) ::usleep(delay);
                    std::vector<std::uint32_t> v(amount, k);
                    if (forSpace) {
                        if (how == 0) VM_CHECK(ring.read(v.data(), amount) == amount, "read-count", "wrong amount read");
                        if (how == 1) ring.haveRead(amount);
                        if (how == 2) ring.haveReadNoRet(amount);
                    } else {
                        if (how == 0) VM_CHECK(ring.write(v.data(), amount) == amount, "write-count", "wrong amount written");
                        if (how == 1) ring.haveWritten(amount);
                        if (how == 2) ring.haveWrittenNoRet(amount);
                    }
                    acted.store(k + 1);
                    auto const limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
                    while (turn.load() < 2 * k + 2) {
                        VM_CHECK(std::chrono::steady_clock::now() < limit, "not-woken", "a side waiting for %s was not woken by %zu of %zu", forSpace ? "space" : "data", amount, cap);
                        if (own.chance(1, 4)) ::usleep(20); else ::sched_yield();
                    }
                    sig = vm::mix(sig ^ (amount * 8 + how * 2 + forSpace));
                }
            }
        };
        vm::parallel({[&] { script(true); }, [&] { script(false); }});
        vm::event("wakeups", rounds);
        vm::signature(vm::mix(sig ^ cap));
    });
}

/* Waiting with a stop test: it ends with the stop test's exception. */
VM_SCENARIO(wait_stop, "asanp tsan", 60, 1000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        struct Stop {};
        std::size_t const cap = 1 + r.below(4);
        CircBufferSCSP<std::uint32_t> ring(cap);
        bool const forSpace = r.flip();
        if (forSpace)
            for (std::uint32_t i = 0; i < cap; ++i) ring.write(&i, 1);
        std::atomic<bool> stop{false};
        bool stopped = false;
        vm::Perturb perturb(vm::caseSeed(), 80);
        auto const test = [&] { if (stop.load()) throw Stop(); };
        vm::parallel({
            [&] {
                try {
                    if (forSpace) ring.waitSpaceAvailable(test, std::chrono::milliseconds(1));
                    else ring.waitDataAvailable(test, std::chrono::milliseconds(1));
                } catch (Stop const &) { stopped = true; }
            },
            [&] { ::usleep(unsigned(r.below(3000))); stop = true; }});
        VM_CHECK(stopped, "wait-stop", "the wait returned although nothing became available");
        VM_CHECK(ring.dataAvailable() == (forSpace ? cap : 0u), "data-available", "changed by waiting");
        vm::event("stopped-waits");
        vm::signature(vm::mix(cap * 2 + forSpace));
    });
}

} /* namespace */
