/* P12: shared resource map.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include "vm_oom.hpp"
#include <map>
#include <set>
#include <sharemind/SharedResourceMap.h>

namespace {
struct Boom { unsigned key; };

/* Counts live objects per key at the moment of construction and destruction. */
struct Book {
    std::atomic<int> live[8];
    std::atomic<std::uint64_t> made{0}, gone{0}, serial{0};
    Book() { for (auto & l : live) l = 0; }
    int total() const { int n = 0; for (auto const & l : live) n += l.load(); return n; }
};
Book * g_book = nullptr;

struct Res {
    unsigned key; std::uint64_t serial; vm::Tracked token; std::uint64_t payload;
    std::atomic<unsigned> users{0};
    Res() : Res(0) {}
    explicit Res(unsigned k) : key(k), serial(++g_book->serial), token(long(k)), payload(0) {
        int const before = g_book->live[k].fetch_add(1);
        VM_CHECK(before == 0, "two-live", "second object for key %u constructed while one is alive", k);
        ++g_book->made;
        payload = serial * 3u; /* plain: users must see it */
    }
    ~Res() {
        VM_CHECK(users == 0, "destroyed-in-use", "object destroyed while referenced");
        g_book->live[key].fetch_sub(1);
        ++g_book->gone;
    }
    void use() const { VM_CHECK(token.get() == long(key) && payload == serial * 3u, "corrupt", "object of key %u not intact", key); }
};
using Ptr = std::shared_ptr<Res>;

template <typename Key> Key mk(unsigned k);
template <> unsigned mk<unsigned>(unsigned k) { return k; }
template <> std::string mk<std::string>(unsigned k) { return std::string("a key of some length, number ") + char('0' + k); }
unsigned un(unsigned k) { return k; }
unsigned un(std::string const & k) { return unsigned(k.back() - '0'); }

template <typename Key>
void model(vm::Rng & r) {
    unsigned const keys = unsigned(1 + r.below(5)), ops = unsigned(20 + r.below(150));
    vm::describe(vm::format("keys=%u ops=%u", keys, ops));
    vm::LiveBalance balance;
    Book book; g_book = &book;
    std::uint64_t sig = 0, threw = 0, oom = 0, visits = 0, threwVisits = 0;
    {
        using Map = sharemind::SharedResourceMap<Key, Res>;
        std::unique_ptr<Map> map(new Map);
        std::vector<Ptr> held;
        std::vector<std::weak_ptr<Res> > weak;
        std::map<unsigned, std::pair<std::uint64_t, unsigned> > live; /* key -> serial, references */
        auto const drop = [&](std::size_t i) {
            unsigned const k = held[i]->key;
            if (--live[k].second == 0) live.erase(k);
            std::swap(held[i], held.back());
            held.pop_back();
            if (!live.count(k)) VM_CHECK(book.live[k] == 0, "not-freed", "object of key %u alive after its last reference went", k);
        };
        for (unsigned i = 0; i < ops; ++i) {
            unsigned const k = unsigned(r.below(keys)), op = unsigned(r.below(14));
            sig = vm::mix(sig ^ (op * 16u + unsigned(live.size())));
            switch (op) {
            case 0: case 1: case 2: case 3: case 4: { /* request */
                bool const wasLive = live.count(k);
                unsigned const how = k == 0 ? unsigned(r.below(4)) : unsigned(1 + r.below(3));
                bool const throws = r.chance(1, 5), inject = r.chance(1, 4);
                std::uint64_t const madeBefore = book.made;
                unsigned calls = 0;
                long const arg = long(r.below(1000));
                Ptr p;
                try {
                    Key const key = mk<Key>(k);
                    vm::Oom o(inject ? long(1 + r.below(8)) : 0);
                    if (how == 0) p = map->getResource(key);
                    else if (how == 1)
                        p = map->getResource(key, [&](Key const & kk) { ++calls; if (throws) throw Boom{un(kk)}; return std::make_shared<Res>(un(kk)); });
                    else if (how == 2)
                        p = map->getResource(mk<Key>(k), [&](Key const & kk, long a) { ++calls; VM_CHECK(a == arg, "args", "constructor argument lost"); std::unique_ptr<Res> u(new Res(un(kk))); if (throws) throw Boom{un(kk)}; return u; }, arg);
                    else {
                        auto const c = [&](Key const & kk) { ++calls; if (throws) throw Boom{un(kk)}; return Ptr(new Res(un(kk))); };
                        p = map->getResource(key, c);
                    }
                } catch (Boom const & b) {
                    VM_CHECK(throws && !wasLive && b.key == k, "exception", "unexpected exception");
                    ++threw;
                } catch (std::bad_alloc const &) {
                    VM_CHECK(inject, "bad-alloc", "unexpected std::bad_alloc");
                    ++oom;
                }
                if (p) {
                    VM_CHECK(p->key == k, "wrong-key", "object of key %u returned for key %u", p->key, k);
                    VM_CHECK(how == 0 || calls == unsigned(!wasLive), "construct-count", "constructor called %u times, object was %s", calls, wasLive ? "live" : "not live");
                    VM_CHECK(book.made - madeBefore == unsigned(!wasLive), "construct-count", "%llu objects made", (unsigned long long) (book.made - madeBefore));
                    p->use();
                    if (wasLive) VM_CHECK(p->serial == live[k].first, "not-shared", "different object for a live key");
                    live[k].first = p->serial;
                    ++live[k].second;
                    held.push_back(p);
                    if (r.chance(1, 4)) weak.push_back(p);
                } else if (!wasLive) {
                    VM_CHECK(book.live[k] == 0, "trace", "failed construction left an object behind");
                }
                break;
            }
            case 5: case 6: case 7: case 8: case 9:
                if (!held.empty()) drop(r.below(held.size()));
                break;
            case 10: if (!held.empty()) { held.push_back(held[r.below(held.size())]); ++live[held.back()->key].second; } break;
            case 11: { /* visit */
                if (r.chance(1, 3)) { /* letting go of some of what is visited, perhaps giving up half way */
                    std::set<unsigned> gone;
                    bool const gives = r.flip();
                    std::size_t const last = r.below(live.size() + 1), before = held.size();
                    std::size_t n = 0;
                    std::uint64_t const serialSum = book.made;
                    try {
                        map->forEach([&](Key const & kk, Ptr p) {
                            p->use();
                            if (un(kk) % 2u) {
                                for (std::size_t j = held.size(); j--;) if (held[j]->key == un(kk)) { std::swap(held[j], held.back()); held.pop_back(); }
                                gone.insert(un(kk));
                            }
                            p->use();
                            if (n++ == last && gives) throw Boom{un(kk)};
                        });
                        VM_CHECK(n == live.size() && !(gives && last < n), "visit-throw", "an exception of the visitor was lost, or objects not visited");
                    } catch (Boom const &) { VM_CHECK(gives && n == last + 1, "visit-throw", "unexpected exception"); ++threwVisits; }
                    VM_CHECK(serialSum == book.made && held.size() <= before, "construct-count", "a visit made objects");
                    for (unsigned const g : gone) { live.erase(g); VM_CHECK(book.live[g] == 0, "not-freed", "object of key %u alive after its last reference went", g); }
                    ++visits;
                    break;
                }
                std::map<unsigned, std::uint64_t> seen;
                std::vector<Ptr> keep;
                map->forEach([&](Key const & kk, Ptr p) {
                    p->use();
                    VM_CHECK(p->key == un(kk), "wrong-key", "visited object does not belong to its key");
                    VM_CHECK(seen.emplace(un(kk), p->serial).second, "visited-twice", "key %u visited twice", un(kk));
                    if (un(kk) % 2u) keep.push_back(std::move(p));
                });
                for (auto const & l : live) VM_CHECK(seen.count(l.first) && seen[l.first] == l.second.first, "not-visited", "live object of key %u not visited", l.first);
                VM_CHECK(seen.size() == live.size(), "visited-dead", "%zu visited, %zu live", seen.size(), live.size());
                ++visits;
                break;
            }
            case 12:
                if (r.chance(1, 3)) {
                    while (!held.empty()) drop(held.size() - 1);
                    map->waitForEmpty();
                }
                break;
            case 13:
                if (r.chance(1, 12)) { /* the map goes first */
                    map.reset();
                    for (auto const & p : held) p->use();
                    while (!held.empty()) drop(held.size() - 1);
                    VM_CHECK(book.total() == 0, "not-freed", "objects alive after the map and all references went");
                    map.reset(new Map);
                }
                break;
            }
            VM_CHECK(map->size() == live.size() && map->empty() == live.empty(), "size", "size() is %zu, %zu live", std::size_t(map->size()), live.size());
            VM_CHECK(book.total() == int(live.size()), "live", "%d objects alive, expected %zu", book.total(), live.size());
        }
        for (auto const & w : weak) if (auto p = w.lock()) p->use();
        if (r.flip()) held.clear();
        map.reset();
        held.clear();
    }
    VM_CHECK(book.total() == 0 && book.made == book.gone, "leak", "%d objects left", book.total());
    balance.expect(0, "after the map and all references went");
    g_book = nullptr;
    vm::event("operations", ops);
    vm::event("objects", book.made);
    vm::event("throwing-constructors", threw);
    vm::event("allocation-failures", oom);
    vm::event("visits", visits);
    vm::event("visits-given-up", threwVisits);
    vm::signature(sig);
}

VM_SCENARIO(history, "asan native", 1500, 60000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) { if (i % 2) model<unsigned>(r); else model<std::string>(r); });
}

VM_SCENARIO(concurrent, "asanp tsan native", 300, 10000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const threads = unsigned(2 + r.below(5)), keys = unsigned(1 + r.below(3)), ops = unsigned(50 + r.below(250));
        unsigned const visitors = unsigned(r.below(3)), waiters = unsigned(r.below(3));
        vm::describe(vm::format("threads=%u keys=%u ops=%u visitors=%u waiters=%u", threads, keys, ops, visitors, waiters));
        vm::LiveBalance balance;
        Book book; g_book = &book;
        std::atomic<std::uint64_t> trace{0}, threw{0}, visited{0};
        {
            vm::Perturb perturb(vm::caseSeed(), unsigned(r.below(4)) * 40u);
            sharemind::SharedResourceMap<unsigned, Res> map;
            std::atomic<unsigned> working{threads};
            std::vector<std::function<void ()> > fns;
            for (unsigned t = 0; t < threads; ++t) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, t, seed] {
                    vm::Rng g(seed);
                    std::vector<Ptr> mine;
                    for (unsigned i = 0; i < ops; ++i) {
                        if (mine.size() < 3 && g.chance(mine.empty() ? 5 : 1, 5)) {
                            unsigned const k = unsigned(g.below(keys));
                            bool const throws = g.chance(1, 10);
                            try {
                                Ptr p = map.getResource(k, [&](unsigned kk) { if (throws) throw Boom{kk}; return std::make_shared<Res>(kk); });
                                VM_CHECK(p->key == k, "wrong-key", "object of key %u returned for key %u", p->key, k);
                                p->use();
                                ++p->users;
                                for (auto const & q : mine)
                                    if (q->key == k) VM_CHECK(q == p, "not-shared", "two objects for a key held at once");
                                trace.fetch_xor(vm::mix(p->serial * 16u + t), std::memory_order_relaxed);
                                mine.push_back(std::move(p));
                            } catch (Boom const & b) {
                                VM_CHECK(throws && b.key == k, "exception", "unexpected exception");
                                ++threw;
                            }
                        } else if (!mine.empty()) {
                            std::size_t const j = g.below(mine.size());
                            std::swap(mine[j], mine.back());
                            mine.back()->use();
                            --mine.back()->users;
                            mine.pop_back();
                        }
                        if (g.chance(1, 32)) vm::jitter(g);
                    }
                    --working; /* no new requests from here on */
                    while (working) ::sched_yield();
                    while (!mine.empty()) { --mine.back()->users; mine.pop_back(); }
                });
            }
            for (unsigned v = 0; v < visitors; ++v) {
                std::uint64_t const seed = r.next();
                fns.push_back([&, seed] {
                    vm::Rng g(seed);
                    while (working) {
                        std::set<unsigned> seen;
                        std::vector<Ptr> keep;
                        map.forEach([&](unsigned k, Ptr p) {
                            p->use();
                            VM_CHECK(p->key == k && seen.insert(k).second, "visited-twice", "key %u visited twice", k);
                            ++visited;
                            if (g.flip()) keep.push_back(std::move(p));
                        });
                        vm::jitter(g);
                    }
                });
            }
            for (unsigned w = 0; w < waiters; ++w)
                fns.push_back([&] {
                    map.waitForEmpty(); /* may be empty at any time before the last request */
                    while (working) ::sched_yield();
                    map.waitForEmpty();
                    VM_CHECK(book.total() == 0, "wait-early", "waitForEmpty() returned with %d objects alive", book.total());
                });
            vm::parallel(fns);
            VM_CHECK(map.empty() && map.size() == 0, "size", "map not empty in the end");
            map.waitForEmpty();
            VM_CHECK(book.made == book.gone, "leak", "%d objects left", book.total());
        }
        balance.expect(0, "after the map went");
        g_book = nullptr;
        vm::event("objects", book.made);
        vm::event("throwing-constructors", threw);
        vm::event("visits", visited);
        vm::signature(trace);
    });
}

/* Nothing but requests and releases of one key, where lifetimes meet. */
VM_SCENARIO(handover, "tsan native", 300, 10000, 2, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const threads = unsigned(2 + r.below(4)), ops = unsigned(200 + r.below(600));
        bool const mapFirst = r.chance(1, 4);
        vm::describe(vm::format("threads=%u ops=%u map dies first=%d", threads, ops, int(mapFirst)));
        vm::LiveBalance balance;
        Book book; g_book = &book;
        std::atomic<std::uint64_t> trace{0};
        {
            vm::Perturb perturb(vm::caseSeed(), unsigned(1 + r.below(4)) * 40u);
            auto map = std::make_shared<sharemind::SharedResourceMap<unsigned, Res> >();
            std::vector<std::function<void ()> > fns;
            std::vector<std::shared_ptr<sharemind::SharedResourceMap<unsigned, Res> > > refs(threads, map);
            map.reset();
            for (unsigned t = 0; t < threads; ++t)
                fns.push_back([&, t] {
                    auto m = std::move(refs[t]);
                    Ptr last;
                    for (unsigned i = 0; i < ops; ++i) {
                        Ptr p = m->getResource(1u, [&](unsigned kk) { return std::make_shared<Res>(kk); });
                        p->use();
                        trace.fetch_xor(vm::mix(p->serial * 16u + t), std::memory_order_relaxed);
                        if (i + 1 == ops && mapFirst) last = std::move(p);
                    }
                    m.reset();
                });
            vm::parallel(fns);
        }
        VM_CHECK(book.total() == 0 && book.made == book.gone, "leak", "%d objects left", book.total());
        balance.expect(0, "after the map went");
        g_book = nullptr;
        vm::event("objects", book.made);
        vm::event("requests", threads * ops);
        vm::signature(trace);
    });
}
} /* namespace */
