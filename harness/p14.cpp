/* P14: intrusive shared-item set.
   VM-VARIANTS: asan native */
#include "vm.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <sharemind/IntrusiveUnorderedSharedItemSet.h>

namespace {
struct Item: sharemind::IntrusiveUnorderedSharedItemSetItemBase<Item> {
    unsigned key; std::uint64_t id; vm::Tracked token; std::set<std::uint64_t> & live; unsigned spread;
    Item(unsigned k, std::uint64_t i, std::set<std::uint64_t> & l, unsigned s) : key(k), id(i), token(long(i)), live(l), spread(s) { live.insert(i); }
    ~Item() noexcept override { VM_CHECK(live.erase(id) == 1, "released-twice", "item released twice"); }
    friend bool operator==(Item const & a, Item const & b) { return a.key == b.key; }
    friend std::size_t hash_value(Item const & i) { return i.key % i.spread; }
};
struct ItemHash { std::size_t operator()(Item const & i) const { return i.key * 7919u; } };
struct ItemEq { bool operator()(Item const & a, Item const & b) const { return a.key == b.key; } };

template <typename Set, bool OwnHash>
void history(vm::Rng & r, std::size_t buckets) {
    unsigned const keys = unsigned(1 + r.below(40)), ops = unsigned(30 + r.below(250)), spread = unsigned(1 + r.below(30));
    vm::describe(vm::format("buckets=%zu keys=%u ops=%u hashes=%u", buckets, keys, ops, spread));
    vm::LiveBalance balance;
    std::set<std::uint64_t> live;
    std::uint64_t sig = 0, refused = 0, removed = 0, nextId = 1;
    auto const keyHash = [spread](unsigned k) -> std::size_t { return OwnHash ? k * 7919u : k % spread; };
    auto const keyEq = [](unsigned k, Item const & i) { return k == i.key; };
    std::vector<std::shared_ptr<Item> > outside;
    {
        Set set(buckets);
        std::map<unsigned, std::uint64_t> model; /* key -> id of the contained item */
        for (unsigned i = 0; i < ops; ++i) {
            unsigned const k = unsigned(r.below(keys)), op = unsigned(r.below(14));
            sig = vm::mix(sig ^ (op * 64u + unsigned(model.size())));
            Item * const found = set.find(k, keyHash, keyEq);
            VM_CHECK(bool(found) == bool(model.count(k)), "membership", "step %u: item %u %s", i, k, found ? "found but not contained" : "contained but not found");
            if (found) VM_CHECK(found->id == model[k] && found->token.get() == long(found->id), "wrong-item", "find() gave another item");
            switch (op) {
            case 0: case 1: case 2: case 3: case 4: { /* insert a new item */
                auto p = std::make_shared<Item>(k, nextId++, live, spread);
                bool const isNew = !model.count(k);
                if (r.chance(1, 3)) outside.push_back(p);
                Item * const raw = p.get(); std::uint64_t const id = p->id;
                auto const res = set.insert(std::move(p));
                VM_CHECK(res.second == isNew, "insert-result", "insert() said %d for %s item", int(res.second), isNew ? "a new" : "an equal");
                VM_CHECK(res.first->key == k, "insert-position", "insert() points to another item");
                if (isNew) { VM_CHECK(&*res.first == raw, "insert-position", "insert() does not point to the new item"); model[k] = id; }
                else { VM_CHECK(res.first->id == model[k], "insert-position", "insert() does not point to the equal item"); ++refused; }
                break;
            }
            case 5: /* insert an item which is in the set */
                if (found) {
                    auto const res = set.insert(Set::retrieveSharedPtr(*found));
                    VM_CHECK(!res.second && &*res.first == found, "insert-result", "inserting a contained item reported %d", int(res.second));
                }
                break;
            case 6: case 7: /* remove through an iterator */
                if (found) {
                    if (op == 6) set.erase(set.iteratorTo(*found));
                    else set.erase(static_cast<Set const &>(set).iteratorTo(*found));
                    model.erase(k); ++removed;
                }
                break;
            case 8: { /* remove by value, also by a value that is not the item itself */
                bool const was = model.count(k);
                if (found && r.flip()) VM_CHECK(set.erase(*found) == 1, "erase-result", "erase() found nothing");
                else {
                    auto probe = std::make_shared<Item>(k, nextId++, live, spread);
                    VM_CHECK(set.erase(*probe) == unsigned(was), "erase-result", "erase() result wrong");
                }
                if (was) { model.erase(k); ++removed; }
                break;
            }
            case 9: /* take */
                if (found) {
                    auto p = r.flip() ? set.take(*found) : set.take(set.iteratorTo(*found));
                    VM_CHECK(p && p->id == model[k], "take", "take() gave another item");
                    VM_CHECK(!Set::retrieveSharedPtr(*p), "still-owned", "a taken item is kept alive by the set");
                    model.erase(k); ++removed;
                    if (r.flip()) outside.push_back(std::move(p));
                    else if (r.flip()) { auto const id = p->id; VM_CHECK(set.insert(std::move(p)).second, "insert-result", "taken item not accepted again"); model[k] = id; }
                }
                break;
            case 10: /* an item out of the set goes back in */
                if (!outside.empty()) {
                    auto p = outside[r.below(outside.size())];
                    bool const contained = model.count(p->key) && model[p->key] == p->id, isNew = !model.count(p->key);
                    auto const res = set.insert(p);
                    VM_CHECK(res.second == isNew, "insert-result", "insert() said %d", int(res.second));
                    VM_CHECK((&*res.first == p.get()) == (isNew || contained), "insert-position", "insert() points to the wrong item");
                    if (isNew) model[p->key] = p->id; else if (!contained) ++refused;
                }
                break;
            case 11: case 12:
                if (!outside.empty()) { std::swap(outside[r.below(outside.size())], outside.back()); outside.pop_back(); }
                break;
            case 13: { /* iterate */
                std::map<unsigned, std::uint64_t> seen;
                for (auto const & it : static_cast<Set const &>(set)) VM_CHECK(seen.emplace(it.key, it.id).second, "iterated-twice", "item visited twice");
                VM_CHECK(seen == model, "iteration", "iteration visits %zu items, %zu contained", seen.size(), model.size());
                std::size_t n = 0;
                for (auto it = set.begin(); it != set.end(); ++it) ++n;
                VM_CHECK(n == model.size() && std::distance(set.cbegin(), set.cend()) == long(n), "iteration", "iterator ranges differ");
                break;
            }
            }
            VM_CHECK(set.size() == model.size() && set.empty() == model.empty(), "size", "size() is %zu, %zu contained", std::size_t(set.size()), model.size());
            std::set<std::uint64_t> expect;
            for (auto const & m : model) expect.insert(m.second);
            for (auto const & p : outside) expect.insert(p->id);
            VM_CHECK(live == expect, "ownership", "step %u: %zu items alive, expected %zu", i, live.size(), expect.size());
        }
        if (r.flip()) outside.clear();
    }
    std::set<std::uint64_t> expect;
    for (auto const & p : outside) { expect.insert(p->id); p->token.get(); }
    VM_CHECK(live == expect, "ownership", "%zu items alive after the set went, expected %zu", live.size(), expect.size());
    outside.clear();
    VM_CHECK(live.empty(), "leak", "%zu items never released", live.size());
    balance.expect(0, "after everything went");
    vm::event("refused", refused); vm::event("removed", removed); vm::event("items", nextId - 1);
    vm::signature(sig);
}

/* Hashing and comparing may fail: the set stays as it was and owns nothing it did not own. */
struct Failed {};
struct Fails { static long in; static void step() { if (in > 0 && --in == 0) throw Failed(); } };
long Fails::in = 0;
struct BadHash { std::size_t operator()(Item const & i) const { Fails::step(); return i.key % i.spread; } };
struct BadEq { bool operator()(Item const & a, Item const & b) const { Fails::step(); return a.key == b.key; } };
VM_SCENARIO(failing, "asan native", 1000, 30000, 1, 1) {
    using Set = sharemind::IntrusiveUnorderedSharedItemSet<Item, boost::intrusive::hash<BadHash>, boost::intrusive::equal<BadEq> >;
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const keys = unsigned(1 + r.below(20)), spread = unsigned(1 + r.below(6)), ops = unsigned(20 + r.below(100));
        vm::LiveBalance balance; std::set<std::uint64_t> live; std::uint64_t nextId = 1, failures = 0, sig = 0;
        {
            Set set(1 + r.below(8)); std::map<unsigned, std::uint64_t> model;
            for (unsigned i = 0; i < ops; ++i) {
                unsigned const k = unsigned(r.below(keys));
                auto p = std::make_shared<Item>(k, nextId++, live, spread); std::uint64_t const id = p->id;
                bool done = false; unsigned removed = 0; bool added = false; bool const insert = r.chance(2, 3);
                Fails::in = r.flip() ? long(1 + r.below(4)) : 0;
                try { if (insert) added = set.insert(p).second; else removed = unsigned(set.erase(*p)); done = true; } catch (Failed) { ++failures; }
                Fails::in = 0;
                bool const was = model.count(k);
                if (done && insert) { VM_CHECK(added == !was, "insert-result", "insert() said %d", int(added)); if (added) model[k] = id; }
                if (done && !insert) { VM_CHECK(removed == unsigned(was), "erase-result", "erase() said %u", removed); model.erase(k); }
                VM_CHECK(p.use_count() == (done && added ? 2 : 1), "ownership", "an item %s is owned %ld times", done && added ? "inserted" : "not inserted", p.use_count());
                p.reset();
                std::set<std::uint64_t> expect; for (auto const & m : model) expect.insert(m.second);
                VM_CHECK(live == expect && set.size() == model.size(), "ownership", "step %u: %zu items alive, %zu contained, expected %zu", i, live.size(), std::size_t(set.size()), expect.size());
                for (auto const & it : set) VM_CHECK(model.count(it.key) && model[it.key] == it.id, "iteration", "iteration gives an item not contained");
                sig = vm::mix(sig ^ (model.size() * 4u + unsigned(done) + 2u * unsigned(insert)));
            }
        }
        VM_CHECK(live.empty(), "leak", "%zu items never released", live.size());
        balance.expect(0, "after the set went");
        vm::event("failed-operations", failures); vm::signature(sig);
    });
}

VM_SCENARIO(model, "asan native", 3000, 100000, 2, 1) {
    using namespace sharemind;
    namespace bi = boost::intrusive;
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::size_t const b = r.flip() ? std::size_t(1 + r.below(8)) : std::size_t(1 + r.below(300));
        if (i % 3 == 0) history<IntrusiveUnorderedSharedItemSet<Item>, false>(r, b);
        else if (i % 3 == 1) history<IntrusiveUnorderedSharedItemSet<Item, bi::hash<ItemHash>, bi::equal<ItemEq> >, true>(r, b);
        else history<IntrusiveUnorderedSharedItemSet<Item, bi::constant_time_size<false> >, false>(r, b);
    });
}
} /* namespace */
