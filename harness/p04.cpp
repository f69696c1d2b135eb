/* P04: multi-producer single-consumer queue.
   VM-VARIANTS: asan asanp tsan native */
#include "vm.hpp"
#include <deque>
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>

namespace {

/* Non-atomic payload on the heap: a missing happens-before edge is a data race. */
struct Item {
    unsigned producer = ~0u;
    std::uint64_t seq = 0;
    std::unique_ptr<std::uint64_t> heap;
    vm::Tracked tracked;
    std::vector<std::uint64_t> before; /* pushes of each producer completed before this one began */
    Item() = default;
    Item(unsigned p, std::uint64_t s) : producer(p), seq(s), heap(new std::uint64_t(s * 31u + p)), tracked(long(s)) {}
    Item(Item &&) noexcept = default;
    Item & operator=(Item &&) noexcept = default;
    void verify() const {
        VM_CHECK(heap && *heap == seq * 31u + producer && tracked.get() == long(seq), "payload",
                 "popped item (producer %u, seq %llu) is not what was pushed", producer, (unsigned long long) seq);
    }
};
using Queue = sharemind::MpscWaitFreeSemiIntrusiveQueue<Item>;
using Node = Queue::Node;
using NodePtr = std::unique_ptr<Node>;

void checkNode(Node const * n) {
    VM_CHECK(reinterpret_cast<std::uintptr_t>(n) % alignof(Node) == 0, "alignment", "node is not aligned");
}

VM_SCENARIO(model, "asan", 6000, 200000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance;
        std::uint64_t trace = 0, pushed = 0, popped = 0;
        {
            std::unique_ptr<Queue> q(new Queue);
            std::deque<std::uint64_t> model;
            std::vector<NodePtr> recycled;
            unsigned const steps = unsigned(r.below(120));
            unsigned const bias = unsigned(1 + r.below(9));
            for (unsigned i = 0; i < steps; ++i) {
                VM_CHECK(q->empty() == model.empty(), "empty", "empty()=%d with %zu items", q->empty(), model.size());
                if (r.chance(bias, 10)) {
                    NodePtr n;
                    if (!recycled.empty() && r.flip()) {
                        n = std::move(recycled.back());
                        recycled.pop_back();
                        n->data = Item(0, pushed);
                        vm::event("nodes-recycled");
                    } else n = NodePtr(new Node(0u, pushed));
                    checkNode(n.get());
                    q->push(std::move(n));
                    model.push_back(pushed++);
                    trace = vm::mix(trace * 3 + 1);
                } else {
                    NodePtr n = q->pop();
                    VM_CHECK(bool(n) == !model.empty(), "pop-presence", "pop() gave %s with %zu items in the queue", n ? "an item" : "nothing", model.size());
                    if (n) {
                        n->data.verify();
                        VM_CHECK(n->data.seq == model.front(), "fifo", "popped %llu, expected %llu",
                                 (unsigned long long) n->data.seq, (unsigned long long) model.front());
                        model.pop_front();
                        ++popped;
                        if (r.flip()) recycled.push_back(std::move(n));
                    }
                    trace = vm::mix(trace * 3 + 2);
                }
            }
            vm::event("left-in-queue-at-destruction", model.size());
        }
        balance.expect(0, "after destroying the queue and all nodes");
        vm::event("pushed", pushed);
        vm::event("popped", popped);
        vm::signature(trace);
    });
}

void threaded(vm::Rng & r, unsigned producers, unsigned perProducer, unsigned level, bool leave) {
    vm::LiveBalance balance;
    vm::describe(vm::format("producers=%u each=%u level=%u leave=%d", producers, perProducer, level, leave));
    std::uint64_t order = 0, total = 0;
    {
        Queue q;
        std::vector<std::atomic<std::uint64_t> > done(producers); /* completed pushes */
        for (auto & d : done) d = 0;
        std::mutex poolMutex;
        std::vector<NodePtr> pool; /* popped nodes for reuse by producers */
        std::vector<std::function<void ()> > fns;
        bool const recycle = r.flip(), realTime = producers > 1 && r.flip();
        for (unsigned p = 0; p < producers; ++p) {
            std::uint64_t const s = r.next();
            fns.push_back([&, p, s] {
                vm::Rng g(s);
                for (std::uint64_t i = 0; i < perProducer; ++i) {
                    NodePtr n;
                    if (recycle && g.flip()) {
                        std::lock_guard<std::mutex> l(poolMutex);
                        if (!pool.empty()) { n = std::move(pool.back()); pool.pop_back(); }
                    }
                    if (n) n->data = Item(p, i);
                    else n = NodePtr(new Node(p, i));
                    if (realTime) /* relaxed: must not add the synchronization it is to check */
                        for (auto const & d : done) n->data.before.push_back(d.load(std::memory_order_relaxed));
                    q.push(std::move(n));
                    done[p].store(i + 1, std::memory_order_release);
                    vm::jitter(g);
                }
            });
        }
        std::vector<std::uint64_t> next(producers, 0);
        std::uint64_t const want = leave ? std::uint64_t(producers) * perProducer / 2 : std::uint64_t(producers) * perProducer;
        std::uint64_t emptyPops = 0;
        std::uint64_t const cs = r.next();
        fns.push_back([&] {
            vm::Rng g(cs);
            unsigned lastProducer = ~0u, switches = 0;
            std::uint64_t nulls = 0;
            while (total < want) {
                /* with one producer a completed push must be found */
                bool mustHave = false;
                if (producers == 1)
                    mustHave = done[0].load(std::memory_order_acquire) > next[0];
                if (mustHave || g.chance(1, 8)) {
                    bool const e = q.empty();
                    VM_CHECK(!(mustHave && e), "empty", "empty() although %llu pushes completed and %llu were popped",
                             (unsigned long long) done[0].load(), (unsigned long long) next[0]);
                    if (!e) mustHave = true;
                }
                NodePtr n = q.pop();
                VM_CHECK(n || !mustHave, "pop-presence", "pop() found nothing although an item was completely pushed");
                if (!n) {
                    ++emptyPops;
                    ::sched_yield();
                    if (++nulls > 2000000u) { /* all pushes complete, yet nothing comes out? */
                        std::uint64_t d = 0;
                        for (auto & x : done) d += x.load();
                        VM_CHECK(d < std::uint64_t(producers) * perProducer, "lost", "%llu pushed, only %llu come out",
                                 (unsigned long long) d, (unsigned long long) total);
                    }
                    continue;
                }
                nulls = 0;
                checkNode(n.get());
                n->data.verify();
                unsigned const p = n->data.producer;
                VM_CHECK(p < producers && n->data.seq == next[p], "fifo", "item %llu of producer %u came out, expected %llu",
                         (unsigned long long) n->data.seq, p, (unsigned long long) (p < producers ? next[p] : 0));
                for (unsigned o = 0; o < n->data.before.size(); ++o)
                    VM_CHECK(n->data.before[o] <= next[o], "real-time-order", "item %llu of producer %u came out before item %llu of producer %u, whose push was complete when the former's began",
                             (unsigned long long) n->data.seq, p, (unsigned long long) next[o], o);
                if (!n->data.before.empty()) vm::event("real-time-ordered");
                ++next[p];
                ++total;
                if (p != lastProducer) { ++switches; lastProducer = p; }
                order = vm::mix(order ^ (p + 1));
                if (recycle && g.flip()) {
                    std::lock_guard<std::mutex> l(poolMutex);
                    pool.push_back(std::move(n));
                }
                if (g.chance(1, 16)) vm::jitter(g);
            }
            vm::event("producer-switches", switches);
        });
        {
            vm::Perturb perturb(vm::caseSeed(), level);
            vm::parallel(fns);
        }
        if (!leave) {
            VM_CHECK(q.empty() && !q.pop(), "final-empty", "queue not empty after everything was popped");
        } else { /* nothing is lost */
            std::uint64_t left = 0;
            if (r.flip()) {
                while (NodePtr n = q.pop()) {
                    n->data.verify();
                    VM_CHECK(n->data.seq == next[n->data.producer]++, "fifo", "order of the rest");
                    ++left;
                }
                VM_CHECK(total + left == std::uint64_t(producers) * perProducer, "lost", "%llu of %u items came out",
                         (unsigned long long) (total + left), producers * perProducer);
            }
        }
        vm::event("items", total);
        vm::event("empty-pops", emptyPops);
    }
    balance.expect(0, "after destroying the queue and all nodes");
    vm::signature(order);
    vm::sample(vm::format("%u producers x %u items, perturbation %u/4096: %llu popped in per-producer order",
                          producers, perProducer, level, (unsigned long long) total));
}

VM_SCENARIO(threads, "tsan asanp native", 400, 12000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const producers = unsigned(1 + r.below(r.flip() ? 2 : 6));
        threaded(r, producers, unsigned(20 + r.below(300)), unsigned(r.below(4)) * 80u, r.chance(1, 4));
    });
}

/* Many one-item races at the empty boundary. */
VM_SCENARIO(boundary, "tsan native", 300, 8000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        threaded(r, unsigned(1 + r.below(4)), unsigned(1 + r.below(4)), unsigned(100 + r.below(600)), r.flip());
    });
}

/* Payloads that are plain values; queue on the stack and aligned. */
VM_SCENARIO(plain, "asan", 2000, 40000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        using Q = sharemind::MpscWaitFreeSemiIntrusiveQueue<std::uint64_t>;
        Q q;
        std::uint64_t in = 0, out = 0, sig = 0;
        for (unsigned i = 0, n = unsigned(r.below(200)); i < n; ++i)
            if (r.flip()) q.push(std::unique_ptr<Q::Node>(new Q::Node(++in)));
            else if (auto p = q.pop()) { VM_CHECK(p->data == ++out, "fifo", "popped wrong value"); sig = vm::mix(sig + i); }
            else VM_CHECK(in == out, "pop-presence", "nothing popped although items are queued");
        vm::event("popped", out);
        vm::signature(sig);
    });
}

} /* namespace */
