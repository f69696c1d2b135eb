/* P15: the object tree.
   VM-VARIANTS: asan asanp tsan native ndebug */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sharemind/ObjectTree.h>
#include <vector>

namespace {
using namespace sharemind;
/* A mutex which checks how it is used. */
template <typename Base> struct Checked {
    Base m; std::atomic<long> owner{0}; std::atomic<unsigned> depth{0};
    ~Checked() { VM_CHECK(depth == 0, "mutex", "the mutex of a parent is destroyed while locked"); }
    void lock() { m.lock(); owner.store(long(::pthread_self()), std::memory_order_relaxed); depth.fetch_add(1, std::memory_order_relaxed); }
    void unlock() { VM_CHECK(depth.load(std::memory_order_relaxed) > 0 && owner.load(std::memory_order_relaxed) == long(::pthread_self()), "mutex", "unlocked by a thread which has not locked it"); depth.fetch_sub(1, std::memory_order_relaxed); m.unlock(); }
};
struct Object;
using Mutex = Checked<std::mutex>; using RMutex = Checked<std::recursive_mutex>;
using NodeA = ObjectTree::ParentNode<Object, Object, Mutex>;
using NodeB = ObjectTree::ParentNode<Object, Object, RMutex>;

/* What the world should look like. */
struct World {
    std::map<Object *, std::pair<Object *, Object *> > parents; /* of every live object, in trees A and B */
    std::map<Object *, bool> orphan; /* leave it alive when its parent goes */
    std::map<Object *, std::vector<Object *> > kills; /* what its destructor destroys */
    std::map<Object *, unsigned> handed; std::uint64_t destroyed = 0, handedOver = 0; bool fault = false;
} * world = nullptr;
void freeA(Object * o); void freeB(Object * o);
struct Object { /* a parent and a child in two trees at once */
    vm::Tracked t{1};
    NodeA a; NodeB b;
    ObjectTree::ChildNode<NodeA, &Object::a> ca; ObjectTree::ChildNode<NodeB, &Object::b> cb;
    Object(Object * pa, Object * pb) : a(&freeA), b([](Object * o) { freeB(o); }), ca(pa, this), cb(pb, this) {}
    ~Object() {
        VM_CHECK(world->parents.count(this) == 1 || world->fault, "destroyed", "an object is destroyed which is not alive");
        ++world->destroyed;
        auto const k = world->kills.find(this);
        if (k != world->kills.end()) { auto v(std::move(k->second)); world->kills.erase(k); for (auto * o : v) if (world->parents.count(o)) delete o; }
        /* while its child nodes are there it is attached; they go with it */
        forget();
    }
    void forget() {
        auto const it = world->parents.find(this);
        if (it == world->parents.end()) return;
        VM_CHECK(ca.parent() == it->second.first && cb.parent() == it->second.second, "parent", "a dying object reports another parent");
        world->parents.erase(it);
    }
};
std::set<Object *> kids(Object const * p, bool inA) {
    std::set<Object *> r;
    for (auto const & e : world->parents) if ((inA ? e.second.first : e.second.second) == p) r.insert(e.first);
    return r;
}
void gone(Object * o, bool inA) {
    auto const it = world->parents.find(o);
    VM_CHECK(it != world->parents.end(), "handed", "the child destroyer was given an object which is not alive");
    Object * & p = inA ? it->second.first : it->second.second;
    VM_CHECK(p, "handed", "the child destroyer was given an object which has no parent");
    VM_CHECK((inA ? o->ca.parent() : o->cb.parent()) == nullptr, "parent", "the object given to the child destroyer still has a parent");
    VM_CHECK(!world->parents.count(p), "handed", "the child destroyer was called while the parent is alive");
    p = nullptr; ++world->handedOver;
    if (!world->orphan[o]) delete o;
}
void freeA(Object * o) { gone(o, true); }
void freeB(Object * o) { gone(o, false); }
void checkAll(char const * after) {
    for (auto const & e : world->parents) {
        Object * const o = e.first;
        VM_CHECK(o->ca.parent() == e.second.first && o->cb.parent() == e.second.second, "parent", "after %s: another parent is reported", after);
        auto const kidsA(kids(o, true)), kidsB(kids(o, false));
        VM_CHECK(o->a.children() == kidsA && o->b.children() == kidsB, "children", "after %s: %zu and %zu children are reported, should be %zu and %zu", after, o->a.children().size(), o->b.children().size(), kidsA.size(), kidsB.size());
        VM_CHECK(o->a.numChildren() == kidsA.size() && o->b.numChildren() == kidsB.size(), "count", "after %s: the number of children is %zu and %zu", after, std::size_t(o->a.numChildren()), std::size_t(o->b.numChildren()));
    }
}
VM_SCENARIO(histories, "asan ndebug", 1500, 100000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        World w; world = &w; vm::LiveBalance balance; std::uint64_t sig = 0; unsigned const ops = unsigned(20 + r.below(120)); std::uint64_t failures = 0;
        for (unsigned i = 0; i < ops; ++i) {
            std::vector<Object *> live; for (auto const & e : w.parents) live.push_back(e.first);
            auto const pick = [&]() -> Object * { return live.empty() ? nullptr : live[r.below(live.size())]; };
            unsigned const op = unsigned(r.below(8)); char const * name = "?";
            if (op < 5 && live.size() < 25u) {
                name = "creating an object"; Object * pa = r.chance(3, 4) ? pick() : nullptr; Object * pb = r.chance(1, 2) ? pick() : nullptr; Object * o = nullptr;
                long const fail = r.chance(1, 8) ? long(1 + r.below(6)) : 0; w.fault = fail;
                { vm::Oom oom(fail); try { o = new Object(pa, pb); } catch (std::bad_alloc const &) { ++failures; } }
                w.fault = false;
                if (o) { w.parents[o] = std::make_pair(pa, pb); w.orphan[o] = r.chance(1, 4);
                    w.kills.erase(o); } /* addresses are used again */
            } else if (op == 5) { name = "arranging a destruction"; Object * o = pick(); Object * k = pick(); if (o && o != k) {
                    /* nothing that would destroy an object while it is being destroyed */
                    bool cyc = false; std::vector<Object *> todo{k}; std::set<Object *> seen;
                    while (!todo.empty()) { Object * x = todo.back(); todo.pop_back(); if (!seen.insert(x).second) continue; if (x == o) cyc = true;
                        for (auto * y : w.kills[x]) if (w.parents.count(y)) todo.push_back(y); for (auto * y : kids(x, true)) todo.push_back(y); for (auto * y : kids(x, false)) todo.push_back(y); }
                    if (!cyc) w.kills[o].push_back(k); } }
            else if (Object * const o = pick()) { name = "destroying an object"; delete o; }
            /* arrangements made earlier may have become cyclic by new attachments; such plans are dropped */
            for (auto & kv : w.kills) if (!kv.second.empty() && w.parents.count(kv.first)) {
                std::vector<Object *> todo(kv.second.begin(), kv.second.end()); std::set<Object *> seen; bool cyc = false;
                while (!todo.empty()) { Object * x = todo.back(); todo.pop_back(); if (!w.parents.count(x) || !seen.insert(x).second) continue; if (x == kv.first) cyc = true;
                    auto const k = w.kills.find(x); if (k != w.kills.end()) for (auto * y : k->second) todo.push_back(y);
                    for (auto * y : kids(x, true)) todo.push_back(y); for (auto * y : kids(x, false)) todo.push_back(y); }
                if (cyc) kv.second.clear(); }
            balance.expect(long(w.parents.size()), name);
            checkAll(name);
            sig = vm::mix(sig ^ op ^ (w.parents.size() << 8) ^ (w.handedOver << 20));
        }
        while (!w.parents.empty()) delete w.parents.begin()->first;
        balance.expect(0, "at the end"); vm::event("operations", ops); vm::event("objects_destroyed", w.destroyed); vm::event("handed_to_child_destroyer", w.handedOver); vm::event("allocation_failures", failures); vm::signature(sig);
    });
}

/* Several threads create and destroy children of one parent. */
struct Kid;
struct Parent {
    using Node = ObjectTree::ParentNode<Parent, Kid, std::mutex>;
    vm::Tracked t{2}; std::atomic<unsigned> freed{0}; Node node;
    Parent();
};
struct Kid { ObjectTree::ChildNode<Parent::Node, &Parent::node> node; vm::Tracked t{3}; unsigned owner; Parent * p;
    Kid(Parent * parent, unsigned o) : node(parent, this), owner(o), p(parent) {} };
Parent::Parent() : node([this](Kid * k) { VM_CHECK(k->node.parent() == nullptr && k->t.get() == 3 && t.get() == 2, "handed", "the child destroyer was given an object which still has a parent"); ++freed; delete k; }) {}
VM_SCENARIO(threaded, "tsan asanp native", 800, 50000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance; unsigned const n = unsigned(2 + r.below(3)), ops = unsigned(5 + r.below(35));
        vm::Perturb pert(vm::caseSeed(), unsigned(r.below(4)) * 120u);
        std::vector<std::set<Kid *> > mine(n); std::atomic<std::uint64_t> sig{0}; std::atomic<unsigned> reads{0}; unsigned left = 0;
        {
            std::unique_ptr<Parent> p(new Parent); std::vector<std::function<void ()> > fns; std::atomic<unsigned> busy{n};
            for (unsigned t = 0; t < n; ++t) { std::uint64_t const s = r.next(); fns.push_back([&, t, s] {
                vm::Rng g(s);
                for (unsigned i = 0; i < ops; ++i) {
                    if (mine[t].empty() || g.chance(3, 5)) mine[t].insert(new Kid(p.get(), t));
                    else { auto it = mine[t].begin(); std::advance(it, long(g.below(mine[t].size()))); Kid * const k = *it; mine[t].erase(it); VM_CHECK(k->node.parent() == p.get(), "parent", "another parent"); delete k; }
                    if (g.chance(1, 4)) { auto const c = p->node.children(); for (auto * k : mine[t]) VM_CHECK(c.count(k), "children", "a child is missing"); ++reads; sig.fetch_xor(vm::mix(c.size() * 64u + i), std::memory_order_relaxed); }
                }
                --busy; }); }
            fns.push_back([&] { while (busy) { auto const c = p->node.children(); VM_CHECK(c.size() <= std::size_t(n) * ops && p->node.numChildren() <= std::size_t(n) * ops, "count", "too many children"); ++reads; ::usleep(50); } });
            vm::parallel(fns);
            std::set<Kid *> all; for (auto & m : mine) all.insert(m.begin(), m.end());
            VM_CHECK(p->node.children() == all && p->node.numChildren() == all.size(), "children", "%zu children, should be %zu", std::size_t(p->node.numChildren()), all.size());
            left = unsigned(all.size());
            balance.expect(long(left) + 1, "before the parent goes");
        }
        balance.expect(0, "after the parent has gone"); vm::event("children_created", n * ops); vm::event("concurrent_views", reads.load()); vm::event("children_left_to_parent", left); vm::signature(sig.load() ^ left);
    });
}
}
