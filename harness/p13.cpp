/* P13: LRU cache.
   VM-VARIANTS: asan native asanp tsan */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <list>
#include <mutex>
#include <map>
#include <set>
#include <sharemind/LRU.h>

namespace {
struct Val {
    std::uint64_t id; vm::Tracked token;
    Val(std::uint64_t i, std::set<std::uint64_t> & l) : id(i), token(long(i)), live(l) { live.insert(i); }
    ~Val() { VM_CHECK(live.erase(id) == 1, "released-twice", "value released twice"); }
    std::set<std::uint64_t> & live;
};
/* Few distinct hashes: entries share buckets. */
struct Coarse {
    std::string s;
    bool operator==(Coarse const & o) const { return s == o.s; }
};
template <typename K> K mk(unsigned k);
template <> unsigned mk(unsigned k) { return k; }
template <> std::string mk(unsigned k) { return "some rather long key, number " + std::to_string(k); }
template <> Coarse mk(unsigned k) { return Coarse{std::to_string(k)}; }
}
namespace std { template <> struct hash<Coarse> { size_t operator()(Coarse const & c) const noexcept { return c.s.size() % 2u; } }; }
namespace {
template <typename Key>
void history(vm::Rng & r) {
    std::size_t const cap = 1 + r.below(r.flip() ? 3 : 12);
    unsigned const keys = unsigned(1 + r.below(2 * cap + 3)), ops = unsigned(30 + r.below(250));
    vm::describe(vm::format("capacity=%zu keys=%u ops=%u", cap, keys, ops));
    vm::LiveBalance balance;
    std::set<std::uint64_t> live;
    std::uint64_t sig = 0, hits = 0, misses = 0, revived = 0, oom = 0;
    {
        sharemind::LRU<Key, Val> cache(cap);
        std::map<unsigned, std::uint64_t> latest;      /* key -> last value inserted, if it may still be known */
        std::list<unsigned> recent;                    /* most recently inserted or found first */
        std::vector<std::shared_ptr<Val> > outside;
        std::uint64_t next = 1;
        auto const touch = [&](unsigned k) { recent.remove(k); recent.push_front(k); };
        auto const strong = [&](unsigned k) {
            std::size_t n = 0;
            for (auto const x : recent) { if (n++ >= cap) return false; if (x == k) return true; }
            return false;
        };
        auto const referenced = [&](std::uint64_t id) {
            for (auto const & p : outside) if (p->id == id) return true;
            return false;
        };
        auto const forgetDead = [&] {
            for (auto it = recent.begin(); it != recent.end();) {
                unsigned const k = *it++;
                if (!strong(k) && !referenced(latest[k])) { recent.remove(k); latest.erase(k); }
            }
        };
        for (unsigned i = 0; i < ops; ++i) {
            unsigned const k = unsigned(r.below(keys)), op = unsigned(r.below(16));
            switch (op) {
            case 0: case 1: case 2: case 3: case 4: {
                std::uint64_t const id = next++;
                auto v = std::make_shared<Val>(id, live);
                if (r.chance(1, 4)) outside.push_back(v);
                Key key = mk<Key>(k);
                bool done = false;
                {
                    vm::Oom o(r.chance(1, 10) ? long(1 + r.below(4)) : 0);
                    try { cache.insert(std::move(key), std::move(v)); done = true; }
                    catch (std::bad_alloc const &) { VM_CHECK(vm::Oom::fired(), "bad-alloc", "unexpected std::bad_alloc"); ++oom; }
                }
                v.reset();
                if (done) { latest[k] = id; touch(k); }
                break;
            }
            case 5: case 6: case 7: case 8: case 9: case 10: {
                std::shared_ptr<Val> const p = cache.get(mk<Key>(k));
                bool const known = latest.count(k), mustHave = known && (strong(k) || referenced(latest[k]));
                if (p) {
                    VM_CHECK(known, "invented", "value %llu returned for key %u which holds none", (unsigned long long) p->id, k);
                    VM_CHECK(p->id == latest[k], "wrong-value", "value %llu returned for key %u, last inserted was %llu", (unsigned long long) p->id, k, (unsigned long long) latest[k]);
                    VM_CHECK(p->token.get() == long(p->id), "corrupt", "value not intact");
                    VM_CHECK(mustHave, "kept-too-long", "displaced value still returned");
                    if (!strong(k)) ++revived;
                    touch(k);
                    ++hits;
                    if (r.chance(1, 4)) outside.push_back(p);
                } else {
                    VM_CHECK(!mustHave, "lost", "key %u not found although it is %s", k, strong(k) ? "among the most recent" : "still referenced");
                    ++misses;
                }
                break;
            }
            case 11: case 12: case 13:
                if (!outside.empty()) { std::swap(outside[r.below(outside.size())], outside.back()); outside.pop_back(); }
                break;
            case 14: if (r.chance(1, 10)) { cache.clear(); latest.clear(); recent.clear(); } break;
            case 15: if (r.chance(1, 6)) outside.clear(); break;
            }
            forgetDead();
            /* The values alive are those of the most recent keys and those referenced outside. */
            std::set<std::uint64_t> expect;
            for (auto const x : recent) if (strong(x)) expect.insert(latest[x]);
            for (auto const & p : outside) expect.insert(p->id);
            VM_CHECK(live == expect, "kept", "step %u: %zu values alive, expected %zu", i, live.size(), expect.size());
            sig = vm::mix(sig ^ (op * 64u + live.size()));
        }
        if (r.flip()) outside.clear();
    }
    VM_CHECK(live.empty(), "leak", "%zu values left after the cache went", live.size());
    balance.expect(0, "after the cache went");
    vm::event("hits", hits); vm::event("misses", misses); vm::event("displaced-but-found", revived); vm::event("allocation-failures", oom);
    vm::signature(sig);
}

/* Entries whose value has gone must not pile up: the number of keys kept stays near what is in use. */
struct CountedKey {
    unsigned k; static std::atomic<long> alive;
    explicit CountedKey(unsigned x) noexcept : k(x) { ++alive; }
    CountedKey(CountedKey const & o) noexcept : k(o.k) { ++alive; }
    ~CountedKey() { --alive; }
    bool operator==(CountedKey const & o) const noexcept { return k == o.k; }
};
std::atomic<long> CountedKey::alive{0};
}
namespace std { template <> struct hash<CountedKey> { size_t operator()(CountedKey const & c) const noexcept { return c.k * 2654435761u; } }; }
namespace {
VM_SCENARIO(bounded, "asan native", 60, 2000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::size_t const cap = 1 + r.below(20), held = r.below(30);
        unsigned const n = unsigned(2000 + r.below(3000));
        vm::describe(vm::format("capacity=%zu held=%zu inserts=%u", cap, held, n));
        std::uint64_t evicted = 0; long most = 0;
        {
            sharemind::LRU<CountedKey, unsigned> cache(cap);
            std::list<std::shared_ptr<unsigned> > outside;
            for (unsigned i = 0; i < n; ++i) {
                auto v = std::make_shared<unsigned>(i);
                if (held && r.flip()) { outside.push_back(v); if (outside.size() > held) outside.pop_front(); }
                cache.insert(CountedKey(i), std::move(v));
                if (r.chance(1, 8)) cache.get(CountedKey(unsigned(r.below(i + 1u))));
                most = std::max(most, CountedKey::alive.load()); ++evicted;
                VM_CHECK(CountedKey::alive <= long(8u * (cap + held) + 256u), "piling-up", "after %u inserts %ld keys are kept, capacity %zu with at most %zu values referenced", i + 1u, CountedKey::alive.load(), cap, held);
            }
        }
        VM_CHECK(CountedKey::alive == 0, "leak", "%ld keys left", CountedKey::alive.load());
        vm::event("inserted", evicted); vm::signature(vm::mix(cap * 64u + held) ^ std::uint64_t(most));
    });
}

/* The cache is used under a lock, its values are let go without: values expire at every moment of an operation. */
VM_SCENARIO(released_outside, "asanp native tsan", 60, 2000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::size_t const cap = 1 + r.below(3); unsigned const keys = unsigned(cap + 1 + r.below(4)), ops = unsigned(VM_TSAN ? 150 : 400);
        vm::describe(vm::format("capacity=%zu keys=%u ops=%u", cap, keys, ops));
        vm::LiveBalance balance;
        struct V { vm::Tracked token; std::uint64_t id; unsigned key; V(std::uint64_t i, unsigned k) : token(long(i)), id(i), key(k) {} };
        std::atomic<std::uint64_t> hits{0}, misses{0};
        std::uint64_t sig = 0;
        {
            sharemind::LRU<unsigned, V> cache(cap); std::mutex m;
            std::vector<std::uint64_t> latest(keys, 0); std::uint64_t next = 1;
            std::vector<std::function<void ()> > threads; unsigned const nt = 3;
            for (unsigned t = 0; t < nt; ++t) {
                std::uint64_t const seed = r.next();
                threads.push_back([&, seed] {
                    vm::Rng rr(seed); std::vector<std::shared_ptr<V> > mine;
                    for (unsigned i = 0; i < ops; ++i) {
                        unsigned const k = unsigned(rr.below(keys)); std::shared_ptr<V> p;
                        if (rr.chance(1, 3)) {
                            std::lock_guard<std::mutex> const g(m);
                            p = std::make_shared<V>(next, k); latest[k] = next++;
                            cache.insert(k, p);
                        } else {
                            bool const have = [&] { for (auto const & q : mine) if (q->key == k) return true; return false; }();
                            std::lock_guard<std::mutex> const g(m);
                            p = cache.get(k);
                            if (p) VM_CHECK(p->key == k && p->id == latest[k] && p->token.get() == long(p->id), "wrong-value", "key %u gave value %llu", k, (unsigned long long) p->id);
                            else { bool mineIsLatest = false; if (have) for (auto const & q : mine) mineIsLatest |= q->id == latest[k]; VM_CHECK(!mineIsLatest, "lost", "key %u not found although its value is referenced", k); }
                            ++(p ? hits : misses);
                        }
                        if (p && rr.flip()) mine.push_back(p);
                        p.reset();
                        while (mine.size() > 3 || (!mine.empty() && rr.chance(2, 3))) { std::swap(mine[rr.below(mine.size())], mine.back()); mine.pop_back(); }
                    }
                });
            }
            { vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 60u); vm::parallel(std::move(threads)); }
            for (auto const x : latest) sig = vm::mix(sig ^ x);
        }
        balance.expect(0, "after the cache went");
        vm::event("hits-under-release", hits.load()); vm::event("misses-under-release", misses.load());
        vm::signature(sig ^ hits.load());
    });
}

VM_SCENARIO(model, "asan native", 4000, 150000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        if (i % 3 == 0) history<unsigned>(r); else if (i % 3 == 1) history<std::string>(r); else history<Coarse>(r);
    });
}
} /* namespace */
