/* P11: identifier pools.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <set>
#include <sharemind/IdentifierPool.h>

namespace {
using namespace sharemind;
using Strong8 = StrongType<std::uint8_t, struct Strong8Tag, StrongTypeEqualityComparable>;
template <typename T> std::uint64_t num(T v) { return v; }
std::uint64_t num(Strong8 const & v) { return v.get(); }

template <typename T>
void history(vm::Rng & r, char const * name, std::uint64_t capacity, std::uint64_t & sig) {
    using Pool = IdentifierPool<T>;
    using Holder = typename Pool::IdHolder;
    bool const full = capacity <= 256u ? r.chance(2, 3) : capacity <= 65536u && r.chance(1, 40);
    unsigned const ops = unsigned(20 + r.below(full ? (capacity <= 256u ? 1024 : 20000) : 400));
    std::size_t const want = full ? std::size_t(capacity) : std::size_t(1 + r.below(60));
    vm::describe(vm::format("%s ops=%u held up to %zu", name, ops, want));
    std::unique_ptr<Pool> pool(new Pool);
    struct Slot { std::unique_ptr<Holder> h; std::uint64_t id; bool valid; };
    std::vector<Slot> slots;
    std::set<std::uint64_t> held; /* the model */
    std::uint64_t exhausted = 0, oom = 0;
    auto const check = [&](Slot const & s) {
        VM_CHECK(s.h->valid() == s.valid && bool(*s.h) == s.valid, "valid", "holder validity wrong");
        if (s.valid) VM_CHECK(num(s.h->id()) == s.id, "id-changed", "holder's identifier changed from %llu to %llu", (unsigned long long) s.id, (unsigned long long) num(s.h->id()));
    };
    auto const tryReserve = [&]() {
        bool const injected = r.chance(1, 20);
        std::size_t const before = held.size();
        try {
            std::unique_ptr<Holder> h(new Holder);
            if (injected) {
                vm::Oom o(1);
                *h = pool->reserve();
            } else {
                *h = pool->reserve();
            }
            VM_CHECK(before < capacity, "over-reserved", "reserved more identifiers than the range has");
            VM_CHECK(h->valid(), "valid", "reserved holder not valid");
            std::uint64_t const id = num(h->id());
            VM_CHECK(held.insert(id).second, "duplicate", "identifier %llu reserved twice", (unsigned long long) id);
            slots.push_back(Slot{std::move(h), id, true});
        } catch (typename Pool::ReserveException const & e) {
            VM_CHECK(before == capacity, "false-exhaustion", "exhaustion reported with %zu identifiers held", before);
            VM_CHECK(std::strlen(e.what()) > 0, "message", "empty message");
            ++exhausted;
        } catch (std::bad_alloc const &) {
            VM_CHECK(injected, "bad-alloc", "unexpected std::bad_alloc");
            ++oom;
        }
        sig = vm::mix(sig ^ held.size());
    };
    while (full && held.size() < want) tryReserve();
    for (unsigned i = 0; i < ops; ++i) {
        std::size_t const n = slots.size();
        std::size_t const a = n ? r.below(n) : 0, b = n ? r.below(n) : 0;
        unsigned const op = unsigned(r.below(12));
        switch (n ? op : 0) {
        case 0: case 1: case 2: case 3:
            if (pool && (held.size() < want || full)) tryReserve();
            break;
        case 4: case 5: { /* destroy */
            Slot s = std::move(slots[a]);
            if (a != slots.size() - 1) slots[a] = std::move(slots.back());
            slots.pop_back();
            check(s);
            if (s.valid) held.erase(s.id);
            break;
        }
        case 6: { /* release */
            slots[a].h->release();
            if (slots[a].valid) held.erase(slots[a].id);
            slots[a].valid = false;
            break;
        }
        case 7: case 8: /* move assignment, also to itself */
            *slots[b].h = std::move(*slots[a].h);
            if (a != b) {
                if (slots[b].valid) held.erase(slots[b].id);
                slots[b].valid = slots[a].valid; slots[b].id = slots[a].id; slots[a].valid = false;
            }
            break;
        case 9: { /* move construction */
            std::unique_ptr<Holder> h(new Holder(std::move(*slots[a].h)));
            slots.push_back(Slot{std::move(h), slots[a].id, slots[a].valid});
            slots[a].valid = false;
            break;
        }
        case 10: /* swap */
            std::swap(*slots[a].h, *slots[b].h);
            std::swap(slots[a].id, slots[b].id);
            std::swap(slots[a].valid, slots[b].valid);
            break;
        case 11:
            if (r.chance(1, 60)) pool.reset(); /* holders outlive the pool */
            break;
        }
        if (!slots.empty()) { check(slots[r.below(slots.size())]); check(slots.back()); }
        if (n && a < slots.size()) check(slots[a]);
        if (n && b < slots.size()) check(slots[b]);
    }
    for (auto const & s : slots) check(s);
    if (r.flip()) slots.clear();
    pool.reset();
    slots.clear();
    vm::event("operations", ops);
    vm::event("exhaustions", exhausted);
    vm::event("allocation-failures", oom);
}

VM_SCENARIO(model, "asan native", 700, 30000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::uint64_t sig = 0;
        switch (i % 5) {
        case 0: history<std::uint8_t>(r, "uint8", 256, sig); break;
        case 1: history<std::uint16_t>(r, "uint16", 65536, sig); break;
        case 2: history<std::uint64_t>(r, "uint64", ~0ull, sig); break;
        case 3: history<Strong8>(r, "strong uint8", 256, sig); break;
        case 4: history<unsigned>(r, "unsigned", 1ull << 32, sig); break;
        }
        vm::signature(sig);
    });
}

template <typename T>
void contended(vm::Rng & r, std::size_t capacity) {
    unsigned const threads = unsigned(2 + r.below(5));
    bool const tight = capacity < 1000 && r.flip(); /* all identifiers may be held at once, but no more */
    bool const over = capacity < 1000 && !tight && r.chance(1, 2);
    std::size_t const perThread = tight ? capacity / threads : over ? capacity / threads + 8 : 4;
    unsigned const ops = unsigned(over ? 40 + r.below(60) : 100 + r.below(400));
    vm::describe(vm::format("threads=%u held per thread up to %zu ops=%u", threads, perThread, ops));
    std::unique_ptr<vm::Perturb> perturb(new vm::Perturb(vm::caseSeed(), unsigned(r.below(4)) * 12u));
    std::vector<std::atomic<unsigned> > owner(capacity);
    for (auto & o : owner) o = 0;
    std::vector<std::uint64_t> data(capacity, 0); /* written by the owner only */
    std::vector<std::vector<typename IdentifierPool<T>::IdHolder> > keep(threads);
    std::atomic<std::uint64_t> trace{0}, reserved{0}, exhausted{0};
    {
        IdentifierPool<T> pool;
        std::vector<std::function<void ()> > fns;
        for (unsigned t = 0; t < threads; ++t) {
            std::uint64_t const seed = r.next();
            fns.push_back([&, t, seed] {
                vm::Rng g(seed);
                auto & mine = keep[t];
                for (unsigned i = 0; i < ops; ++i) {
                    if (mine.size() < perThread && (mine.empty() || g.chance(i < ops / 2 ? 4 : 2, 5))) {
                        unsigned const burst = unsigned(1 + g.below(tight || over ? 16 : 3));
                        for (unsigned k = 0; k < burst && mine.size() < perThread; ++k) {
                            try {
                                auto h = pool.reserve();
                                std::uint64_t const id = h.id();
                                unsigned const was = owner[id].exchange(t + 1, std::memory_order_relaxed);
                                VM_CHECK(was == 0, "duplicate", "identifier %llu given to thread %u while thread %u holds it", (unsigned long long) id, t, was - 1);
                                ++data[id];
                                trace.fetch_xor(vm::mix(id * 64u + t + (std::uint64_t(i) << 32)), std::memory_order_relaxed);
                                mine.push_back(std::move(h));
                                ++reserved;
                            } catch (typename IdentifierPool<T>::ReserveException const &) {
                                VM_CHECK(over, "false-exhaustion", "exhaustion reported although identifiers are free");
                                ++exhausted;
                            }
                        }
                    } else if (!mine.empty()) {
                        std::size_t const k = g.below(mine.size());
                        std::uint64_t const id = mine[k].id();
                        ++data[id];
                        unsigned const was = owner[id].exchange(0, std::memory_order_relaxed);
                        VM_CHECK(was == t + 1, "stolen", "identifier %llu held by thread %u was given to another", (unsigned long long) id, t);
                        std::swap(mine[k], mine.back());
                        if (g.flip()) mine.back().release();
                        mine.pop_back();
                    }
                    if (g.chance(1, 32)) vm::jitter(g);
                }
            });
        }
        vm::parallel(fns);
        perturb.reset();
        /* Everything released is available again, in full. */
        std::size_t held = 0;
        for (auto const & k : keep) held += k.size();
        std::vector<typename IdentifierPool<T>::IdHolder> rest;
        if (r.chance(1, 3)) {
            for (std::size_t i = held; i < capacity; ++i) {
                try { rest.push_back(pool.reserve()); }
                catch (typename IdentifierPool<T>::ReserveException const &) { VM_CHECK(false, "lost", "%zu identifiers lost", capacity - i); }
                VM_CHECK(owner[rest.back().id()].exchange(99) == 0, "duplicate", "identifier %llu reserved twice", (unsigned long long) rest.back().id());
            }
            try { (void) pool.reserve(); VM_CHECK(false, "over-reserved", "reserved more than the range has"); }
            catch (typename IdentifierPool<T>::ReserveException const &) { ++exhausted; }
        }
    }
    std::vector<std::function<void ()> > fns; /* holders outlive the pool */
    for (auto & k : keep) fns.push_back([&k] { k.clear(); });
    vm::parallel(fns);
    vm::event("reservations", reserved);
    vm::event("exhaustions", exhausted);
    vm::signature(trace);
}

VM_SCENARIO(concurrent, "asanp tsan native", 240, 8000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        if (i % 12) contended<std::uint8_t>(r, 256); else contended<std::uint16_t>(r, 65536);
    });
}
} /* namespace */
