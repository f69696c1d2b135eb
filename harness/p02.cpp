/* P02: continuations of futures, packaged tasks.
   VM-VARIANTS: asan asanp tsan native ndebug */
#include "vm.hpp"
#include "vm_spurious.hpp"
#include "vm_oom.hpp"
#include <memory>
#include <sharemind/Future.h>
#include <string>
#include <vector>

namespace {
using namespace sharemind;
using vm::Tracked;
using vm::Err;

/* What a future ends up with. */
struct Result { enum Kind { Value, Error, Broken } kind; long v; bool operator==(Result const & o) const { return kind == o.kind && (kind == Broken || v == o.v); } };
std::string text(Result r) { return vm::format("%s(%ld)", r.kind == Result::Value ? "value" : r.kind == Result::Error ? "exception" : "broken promise", r.v); }
Result read(Future<Tracked> & f) {
    try { Tracked const t(f.takeValue()); return Result{Result::Value, t.get()}; }
    catch (Err const & e) { return Result{Result::Error, e.get()}; }
    catch (BrokenPromiseException const &) { return Result{Result::Broken, 0}; }
}
void complete(std::unique_ptr<Promise<Tracked> > & p, Result r, unsigned how) {
    switch (r.kind) {
    case Result::Value: if (how & 1) p->setValue(Tracked(r.v)); else p->emplaceValue(r.v); break;
    case Result::Error: if (how & 1) p->setException(Err(r.v)); else p->setException(std::make_exception_ptr(Err(r.v))); break;
    default: if (how & 1) p->abandon(); else p.reset(); break;
    }
}

/* A continuation which can only be moved. */
template <typename F> struct MoveOnly { std::unique_ptr<F> f; template <typename X> auto operator()(X && x) { return (*f)(std::forward<X>(x)); } };
enum Kind { PassOn, Recover, Throw, Ready, Exceptional, Broken, Invalid, Pending, ViaVoid, Ignore, VoidFuture, Keep, VoidPending, VoidExceptional, VoidBroken, VoidInvalid, Kinds };
Result after(unsigned kind, Result in, long k) {
    switch (kind) {
    case PassOn: case Ready: case ViaVoid: case Pending: case VoidFuture: case Keep: case VoidPending: return in.kind == Result::Value ? Result{Result::Value, in.v + k} : in;
    case Recover: return in.kind == Result::Value ? in : Result{Result::Value, k};
    case Throw: case Exceptional: case VoidExceptional: return Result{Result::Error, k};
    case Broken: case Invalid: case VoidBroken: case VoidInvalid: return Result{Result::Broken, 0};
    default: return Result{Result::Value, k};
    }
}
/* One attached continuation. */
struct Record {
    unsigned kind; long k; Result expected; /* what it must be called with */
    std::atomic<unsigned> runs{0}; std::atomic<bool> attached{false}; std::thread::id runner;
    std::function<Future<Tracked> (long)> pending; /* gives a future which some other thread completes */
    Future<Tracked> kept; Result keptResult{Result::Broken, 0};
};
void check(Record & c, bool ready) {
    VM_CHECK(++c.runs == 1, "runs", "a continuation runs for the %u. time", c.runs.load());
    VM_CHECK(ready, "not-ready", "a continuation was called with a future which is not ready");
    c.runner = std::this_thread::get_id();
}
void got(Record & c, Result r) { VM_CHECK(r == c.expected, "antecedent", "a continuation was called with %s, should be %s", text(r).c_str(), text(c.expected).c_str()); }
struct Base { /* a functor's captured state */
    Tracked captured; Record * c;
    explicit Base(Record & r) : captured(r.k), c(&r) {}
    long k() const { return captured.get(); }
    Tracked pass(Future<Tracked> & f) const {
        try { Tracked t(f.takeValue()); got(*c, Result{Result::Value, t.get()}); return Tracked(t.get() + k()); }
        catch (Err const & e) { got(*c, Result{Result::Error, e.get()}); throw; }
        catch (BrokenPromiseException const &) { got(*c, Result{Result::Broken, 0}); throw; }
    }
};
struct FValue : Base { using Base::Base;
    Tracked operator()(Future<Tracked> && f) {
        check(*c, f.isValid() && f.isReady());
        switch (c->kind) {
        case Recover: { Result const r(read(f)); got(*c, r); return Tracked(r.kind == Result::Value ? r.v : k()); }
        case Throw: got(*c, read(f)); throw Err(k());
        case Ignore: return Tracked(k());
        default: return pass(f);
        }
    } };
struct FFuture : Base { using Base::Base;
    Future<Tracked> operator()(Future<Tracked> f) { /* takes its argument by value */
        check(*c, f.isValid() && f.isReady());
        switch (c->kind) {
        case Exceptional: got(*c, read(f)); return makeExceptionalFuture<Tracked>(Err(k()));
        case Broken: got(*c, read(f)); return makeBrokenFuture<Tracked>();
        case Invalid: got(*c, read(f)); return Future<Tracked>();
        case Pending: { Tracked t(pass(f)); return c->pending(t.get()); }
        default: return makeReadyFuture(pass(f));
        }
    } };
struct FBox : Base { std::shared_ptr<Tracked> box; FBox(Record & r, std::shared_ptr<Tracked> b) : Base(r), box(std::move(b)) {}
    void operator()(Future<Tracked> && f) { check(*c, f.isValid() && f.isReady()); *box = pass(f); } };
struct FBoxFuture : FBox { using FBox::FBox;
    Future<void> operator()(Future<Tracked> f) {
        check(*c, f.isValid() && f.isReady());
        switch (c->kind) {
        case VoidExceptional: got(*c, read(f)); return makeExceptionalFuture<void>(Err(k()));
        case VoidBroken: got(*c, read(f)); return makeBrokenFuture<void>();
        case VoidInvalid: got(*c, read(f)); return Future<void>();
        case VoidPending: { Tracked t(pass(f)); auto b(box); return c->pending(t.get()).then([b](Future<Tracked> && g) { *b = g.takeValue(); }); }
        default: *box = pass(f); return makeReadyFuture();
        }
    } };
struct FUnbox { Tracked captured; std::shared_ptr<Tracked> box; Record * c;
    Tracked operator()(Future<void> && f) const { VM_CHECK(f.isReady() && c->runs == 1, "order", "a later continuation runs before an earlier one"); f.takeValue(); return *box; } };
/* Keeps the completed future it was given beyond its own end. */
struct FKeep : Base { using Base::Base;
    Future<Tracked> operator()(Future<Tracked> && f) { check(*c, f.isValid() && f.isReady()); Future<Tracked> g(std::move(f)); return makeReadyFuture(pass(g)); } };

Future<Tracked> attach(Future<Tracked> f, Record & c, vm::Rng & r) {
    Future<Tracked> out;
    switch (c.kind) {
    case ViaVoid: { auto box(std::make_shared<Tracked>(0)); FUnbox const u{Tracked(1), box, &c}; auto v(f.then(FBox(c, box))); static_assert(std::is_same<decltype(v), Future<void> >::value, ""); out = v.then(u); } break;
    case VoidFuture: case VoidPending: case VoidExceptional: case VoidBroken: case VoidInvalid: { auto box(std::make_shared<Tracked>(0)); auto v(f.then(FBoxFuture(c, box))); static_assert(std::is_same<decltype(v), Future<void> >::value, ""); out = v.then(FUnbox{Tracked(1), box, &c}); } break;
    case Keep: out = f.then(FKeep(c)); break;
    case Ready: case Exceptional: case Broken: case Invalid: case Pending: { auto x(f.then(FFuture(c))); static_assert(std::is_same<decltype(x), Future<Tracked> >::value, ""); out = std::move(x); } break;
    default: switch (r.below(4)) {
        case 0: { FValue v(c); out = f.then(v); } break;
        case 1: { FValue const v(c); out = f.then(v); } break;
        case 2: out = f.then(MoveOnly<FValue>{std::make_unique<FValue>(c)}); break;
        default: out = f.then(FValue(c));
        }
    }
    VM_CHECK(!f.isValid(), "valid-after", "a future is still valid after a continuation was attached");
    VM_CHECK(out.isValid(), "valid", "attaching a continuation gives an invalid future");
    c.attached.store(true, std::memory_order_relaxed);
    return out;
}
Result randomResult(vm::Rng & r) { return Result{r.chance(3, 5) ? Result::Value : r.flip() ? Result::Error : Result::Broken, long(r.below(100000))}; }

/* Chains whose continuations are attached before, after or between. */
VM_SCENARIO(chains, "asan ndebug", 4000, 200000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::LiveBalance balance; std::uint64_t sig = 0;
        unsigned const len = r.chance(1, 40) ? unsigned(100 + r.below(300)) : unsigned(1 + r.below(12)), before = unsigned(r.below(len + 1));
        bool const drop = r.chance(1, 5), selfDestroy = r.chance(1, 8);
        vm::describe(vm::format("chain of %u, %u attached before completion", len, before));
        {
            std::unique_ptr<Promise<Tracked> > p(new Promise<Tracked>);
            Future<Tracked> f(p->takeFuture());
            Result const first(randomResult(r)); Result cur(first); sig = vm::mix(cur.kind);
            std::vector<std::unique_ptr<Record> > recs;
            auto const add = [&] {
                recs.emplace_back(new Record); Record & c = *recs.back();
                c.kind = unsigned(r.below(Kinds)); c.k = long(1 + r.below(1000)); c.expected = cur; cur = after(c.kind, cur, c.k); sig = vm::mix(sig ^ c.kind ^ (std::uint64_t(cur.kind) << 8));
                c.pending = [](long v) { return makeReadyFuture(Tracked(v)); };
                f = attach(std::move(f), c, r);
            };
            while (recs.size() < before) { add(); VM_CHECK(recs.back()->runs == 0 && !f.isReady(), "ran-early", "a continuation ran before its antecedent was complete"); }
            if (selfDestroy) { /* the first continuation of another future destroys the promise being completed */
                auto q(std::unique_ptr<Promise<Tracked> >(new Promise<Tracked>)); auto * const qp = q.get(); bool ran = false;
                auto g(qp->takeFuture().then([&q, &ran](Future<Tracked> && x) { q.reset(); ran = true; return x.takeValue(); }));
                qp->setValue(Tracked(5)); VM_CHECK(ran && !q && g.takeValue().get() == 5, "self-destroy", "continuation destroying its promise");
            }
            if (drop && before == len) f = Future<Tracked>(); /* nobody reads the result */
            complete(p, first, unsigned(r.below(4)));
            for (auto & c : recs) VM_CHECK(c->runs == 1 && c->runner == std::this_thread::get_id(), "runs", "a continuation ran %u times by the completion of its antecedent", c->runs.load());
            while (recs.size() < len) { add(); VM_CHECK(recs.back()->runs == 1, "runs", "a continuation of a completed future ran %u times", recs.back()->runs.load()); }
            if (f.isValid()) { VM_CHECK(f.isReady(), "not-ready", "the last future is not ready"); Result const out(read(f)); VM_CHECK(out == cur, "result", "the result is %s, should be %s", text(out).c_str(), text(cur).c_str()); }
            recs.clear();
        }
        balance.expect(0, "after a chain"); vm::event("continuations", len); vm::event("chains_dropped", drop); vm::signature(sig ^ (before << 8));
        if (i < 3) vm::sample(vm::format("chain of %u continuations, %u attached before completion", len, before));
    });
}

/* Attaching races with completing. */
VM_SCENARIO(races, "tsan asanp native", 5000, 100000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance; unsigned const n = unsigned(1 + r.below(6));
        std::uint64_t order = 0; std::uint64_t onAttacher = 0, onCompleter = 0, pendings = 0;
        {
            vm::Perturb pert(vm::caseSeed(), unsigned(r.below(4)) * 150u);
            struct Item { std::unique_ptr<Promise<Tracked> > p; Future<Tracked> f; Result first; unsigned how, len; std::vector<std::unique_ptr<Record> > recs; Result last; std::atomic<bool> began{false}, done{false};
                          std::unique_ptr<Promise<Tracked> > q[16]; std::atomic<long> qv[16]; std::uint64_t data = 0, aseed; };
            std::vector<std::unique_ptr<Item> > items;
            for (unsigned i = 0; i < n; ++i) {
                items.emplace_back(new Item); Item & it = *items.back();
                it.p.reset(new Promise<Tracked>); it.f = it.p->takeFuture(); it.first = randomResult(r); it.how = unsigned(r.below(4)); it.len = unsigned(1 + r.below(4)); it.last = it.first; it.aseed = r.next();
                for (auto & q : it.qv) q = -1;
                for (unsigned k = 0; k < it.len; ++k) {
                    it.recs.emplace_back(new Record); Record & c = *it.recs.back();
                    c.kind = unsigned(r.below(Kinds)); c.k = long(1 + r.below(1000)); c.expected = it.last; it.last = after(c.kind, it.last, c.k);
                    it.q[k].reset(new Promise<Tracked>);
                    c.pending = [&it, k](long v) { auto f(it.q[k]->takeFuture()); it.qv[k].store(v, std::memory_order_release); return f; };
                    pendings += c.kind == Pending || c.kind == VoidPending;
                }
            }
            std::atomic<bool> over{false};
            std::atomic<unsigned> seq{0};
            std::thread::id completer, attacher;
            std::thread helper([&] { /* completes the futures that continuations return */
                for (;;) {
                    bool const last = over.load(std::memory_order_acquire);
                    for (auto & it : items) for (unsigned k = 0; k < it->len; ++k) { long const v = it->qv[k].load(std::memory_order_acquire); if (v >= 0) { it->qv[k].store(-1, std::memory_order_relaxed); it->q[k]->setValue(Tracked(v)); } }
                    if (last) break;
                    ::sched_yield();
                }
            });
            vm::parallel({
                [&] { completer = std::this_thread::get_id(); vm::Rng g(vm::caseSeed() ^ 1);
                    for (auto & it : items) {
                        vm::jitter(g); bool const allAttached = it->recs.back()->attached.load(std::memory_order_relaxed);
                        it->data = 77; it->began.store(true, std::memory_order_relaxed);
                        complete(it->p, it->first, it->how);
                        it->done.store(true, std::memory_order_relaxed); seq.fetch_add(1, std::memory_order_relaxed);
                        if (allAttached) for (auto & c : it->recs) VM_CHECK(c->runs == 1 && c->runner == completer, "runs", "attached before completion and ran %u times when completion returned", c->runs.load());
                    } },
                [&] { attacher = std::this_thread::get_id(); vm::Rng g(vm::caseSeed() ^ 2);
                    for (auto & it : items) {
                        vm::Rng h(it->aseed); vm::jitter(g);
                        for (auto & c : it->recs) {
                            bool const done = it->done.load(std::memory_order_relaxed);
                            it->f = attach(std::move(it->f), *c, h);
                            if (done) { VM_CHECK(c->runs == 1 && c->runner == attacher, "runs", "attached to a completed future and ran %u times", c->runs.load()); VM_CHECK(it->data == 77, "visibility", "effects before completion not visible"); }
                            order = vm::mix(order * 31u + (c->runs.load(std::memory_order_relaxed) ? 1u : 0u) + 2u * seq.load(std::memory_order_relaxed));
                            if (g.chance(1, 3)) vm::jitter(g);
                        }
                        if (g.chance(1, 3)) { Result const out(read(it->f)); VM_CHECK(out == it->last, "result", "the result is %s, should be %s", text(out).c_str(), text(it->last).c_str()); VM_CHECK(it->data == 77, "visibility", "effects before completion not visible"); }
                    } }});
            for (auto & it : items) { if (it->f.isValid()) { Result const out(read(it->f)); VM_CHECK(out == it->last, "result", "the result is %s, should be %s", text(out).c_str(), text(it->last).c_str()); }
                for (auto & c : it->recs) { VM_CHECK(c->runs == 1, "runs", "a continuation ran %u times", c->runs.load()); VM_CHECK(c->runner == completer || c->runner == attacher, "thread", "a continuation ran on a third thread"); ++(c->runner == completer ? onCompleter : onAttacher); } }
            over.store(true, std::memory_order_release); helper.join();
            items.clear();
        }
        balance.expect(0, "after a race"); vm::signature(order); vm::event("ran_on_completing_thread", onCompleter); vm::event("ran_on_attaching_thread", onAttacher); vm::event("returned_pending_futures", pendings);
    });
}

/* ------------------------------------------------------- packaged tasks -- */
struct Work { Tracked captured; std::atomic<unsigned> * calls; unsigned outcome;
    long value(long a) { ++*calls; if (outcome == 1) throw Err(captured.get()); return captured.get() + a; } };
struct WorkV : Work { WorkV(Work const & w) : Work(w) {} Tracked operator()(long a, Tracked const & t) { return Tracked(value(a) + t.get()); } };
struct WorkVoid : Work { long * out; WorkVoid(Work const & w, long * o) : Work(w), out(o) {} void operator()(long a) { *out = value(a); } };
struct WorkMove : Work { WorkMove(Work const & w) : Work(w) {} std::unique_ptr<long> operator()(std::unique_ptr<long> p) { *p = value(*p); return p; } };
struct NeverCalled {
    Tracked captured{3};
    Tracked operator()(long, Tracked const &) { VM_CHECK(false, "calls", "a replaced task was called"); return Tracked(0); }
    void operator()(long) { VM_CHECK(false, "calls", "a replaced task was called"); }
    std::unique_ptr<long> operator()(std::unique_ptr<long> p) { VM_CHECK(false, "calls", "a replaced task was called"); return p; }
};
struct OtherCalled {
    unsigned * calls;
    Tracked operator()(long, Tracked const &) { ++*calls; return Tracked(0); }
    void operator()(long) { ++*calls; }
    std::unique_ptr<long> operator()(std::unique_ptr<long> p) { ++*calls; return p; }
};
void callIt(PackagedTask<Tracked(long, Tracked const &)> & t) { t(1, Tracked(2)); }
void callIt(PackagedTask<void(long)> & t) { t(1); }
void callIt(PackagedTask<std::unique_ptr<long>(std::unique_ptr<long>)> & t) { t(nullptr); }
VM_SCENARIO(tasks, "asan ndebug", 2000, 100000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        using TV = PackagedTask<Tracked(long, Tracked const &)>; using T0 = PackagedTask<void(long)>; using TM = PackagedTask<std::unique_ptr<long>(std::unique_ptr<long>)>;
        vm::LiveBalance balance; std::uint64_t sig = 0;
        {
            std::atomic<unsigned> calls{0}; unsigned const outcome = unsigned(r.below(3)); /* 0 value, 1 throws, 2 never called */
            long const v = long(r.below(1000)), a = long(r.below(1000)), b = long(r.below(1000)); long out = 0;
            Work const w{Tracked(v), &calls, outcome};
            auto const expected = Result{outcome == 0 ? Result::Value : outcome == 1 ? Result::Error : Result::Broken, outcome == 0 ? v + a : v};
            unsigned const type = unsigned(r.below(3)), moves = unsigned(r.below(4)), resets = r.chance(1, 4);
            sig = outcome * 64u + type * 16u + moves * 4u + resets; vm::describe(vm::format("type %u outcome %u moves %u", type, outcome, moves));
            auto const shuffle = [&](auto task) { /* moves and swaps */
                using T = decltype(task);
                VM_CHECK(task.isValid(), "valid", "a new task is not valid");
                for (unsigned k = 0; k < moves; ++k) switch (r.below(4)) {
                    case 0: { T t(std::move(task)); VM_CHECK(!task.isValid(), "valid", "moved from and valid"); task = std::move(t); } break;
                    case 1: { T t; VM_CHECK(!t.isValid(), "valid", "an empty task is valid"); t.swap(task); using std::swap; swap(t, task); } break;
                    case 2: { T & self = task; task = std::move(self); } break;
                    default: { T t; t = std::move(task); T u(std::move(t)); task = std::move(u); } break;
                }
                if (resets) { auto f(task.takeFuture()); task.reset(); VM_CHECK(f.isReady() && task.isValid(), "reset", "reset: the old future is %sready", f.isReady() ? "" : "not "); bool broken = false; try { (void) f.takeValue(); } catch (BrokenPromiseException const &) { broken = true; } VM_CHECK(broken, "reset", "reset: the old future is not broken"); }
                if (r.chance(1, 4)) { /* assigned over another task */
                    T other(NeverCalled{}); auto f(other.takeFuture()); VM_CHECK(!f.isReady(), "assign", "the future of a task is ready at once");
                    other = std::move(task); VM_CHECK(other.isValid() && !task.isValid(), "assign", "not moved by the assignment");
                    VM_CHECK(f.isReady(), "assign", "the future of a task assigned over is not broken at once");
                    bool broken = false; try { (void) f.takeValue(); } catch (BrokenPromiseException const &) { broken = true; } VM_CHECK(broken, "assign", "the future of a task assigned over has a result");
                    task = std::move(other);
                }
                if (r.chance(1, 4)) { /* swapped with another task, which is then called */
                    unsigned others = 0; T other(OtherCalled{&others}); auto f(other.takeFuture());
                    if (r.flip()) other.swap(task); else { using std::swap; swap(task, other); }
                    callIt(task); VM_CHECK(others == 1 && calls == 0 && f.isReady(), "swap", "swapping tasks: %u and %u calls", others, calls.load()); (void) f.takeValue();
                    task = std::move(other);
                }
                VM_CHECK(task.isValid() && calls == 0, "valid", "a task is not valid or was called");
                return std::unique_ptr<T>(new T(std::move(task)));
            };
            auto const same = [&](Result got) { VM_CHECK(got == expected, "result", "the task's future gives %s, should be %s", text(got).c_str(), text(expected).c_str()); };
            bool const thenIt = r.flip(); unsigned ran = 0;
            if (type == 0) {
                auto t(shuffle(TV(WorkV(w)))); auto f(t->takeFuture()); if (thenIt) f = f.then([&](Future<Tracked> && x) { ++ran; return x.takeValue(); });
                VM_CHECK(!f.isReady(), "ready-early", "ready before the task was called");
                if (outcome < 2) { Tracked const arg(b); (*t)(a - b, arg); VM_CHECK(!t->isValid(), "valid", "valid after the call"); } else t.reset();
                VM_CHECK(f.isReady() && calls == (outcome < 2 ? 1u : 0u), "calls", "called %u times", calls.load()); if (r.flip()) t.reset(); same(read(f));
            } else if (type == 1) {
                auto t(shuffle(T0(WorkVoid(w, &out)))); auto f(t->takeFuture()); if (thenIt) f = f.then([&](Future<void> && x) { ++ran; x.takeValue(); });
                if (outcome < 2) (*t)(a); else t.reset();
                VM_CHECK(f.isReady() && calls == (outcome < 2 ? 1u : 0u), "calls", "called %u times", calls.load());
                try { f.takeValue(); same(Result{Result::Value, out}); } catch (Err const & e) { same(Result{Result::Error, e.get()}); } catch (BrokenPromiseException const &) { same(Result{Result::Broken, 0}); }
            } else {
                auto t(shuffle(TM(WorkMove(w)))); auto f(t->takeFuture()); if (thenIt) f = f.then([&](Future<std::unique_ptr<long> > && x) { ++ran; return x.takeValue(); });
                if (outcome < 2) (*t)(std::unique_ptr<long>(new long(a))); else t.reset();
                VM_CHECK(f.isReady() && calls == (outcome < 2 ? 1u : 0u), "calls", "called %u times", calls.load());
                try { same(Result{Result::Value, *f.takeValue()}); } catch (Err const & e) { same(Result{Result::Error, e.get()}); } catch (BrokenPromiseException const &) { same(Result{Result::Broken, 0}); }
            }
            VM_CHECK(ran == (thenIt ? 1u : 0u), "runs", "the continuation of a task ran %u times", ran);
        }
        balance.expect(0, "after a task"); vm::event("tasks"); vm::signature(sig);
    });
}
VM_SCENARIO(tasks_threaded, "tsan asanp native", 600, 30000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance; unsigned const n = unsigned(1 + r.below(10));
        {
            vm::Perturb pert(vm::caseSeed(), unsigned(r.below(4)) * 150u);
            using TV = PackagedTask<Tracked(long, Tracked const &)>;
            std::vector<std::unique_ptr<TV> > ts; std::vector<Future<Tracked> > fs; std::vector<std::atomic<unsigned> > calls(n); std::vector<unsigned> o; std::vector<std::uint64_t> data(n, 0);
            for (unsigned i = 0; i < n; ++i) { calls[i] = 0; o.push_back(unsigned(r.below(3))); ts.emplace_back(new TV(WorkV(Work{Tracked(long(i)), &calls[i], o[i]}))); fs.push_back(ts.back()->takeFuture()); }
            std::uint64_t sig = 0; std::vector<std::function<void ()> > fns;
            fns.push_back([&] { vm::Rng g(vm::caseSeed()); for (unsigned i = 0; i < n; ++i) { vm::jitter(g); data[i] = i + 1; if (o[i] < 2) (*ts[i])(5, Tracked(6)); ts[i].reset(); } });
            fns.push_back([&] { for (unsigned i = 0; i < n; ++i) { sig = vm::mix(sig ^ fs[i].isReady()); Result const x(read(fs[i]));
                Result const want = o[i] == 0 ? Result{Result::Value, long(i) + 11} : o[i] == 1 ? Result{Result::Error, long(i)} : Result{Result::Broken, 0};
                VM_CHECK(x == want && data[i] == i + 1 && calls[i] == (o[i] < 2 ? 1u : 0u), "result", "task %u gives %s, should be %s", i, text(x).c_str(), text(want).c_str()); } });
            vm::parallel(fns); vm::event("tasks", n); vm::signature(sig);
        }
        balance.expect(0, "after tasks");
    });
}

/* Running out of memory while attaching: no leak, no loss of the future. */
VM_SCENARIO(out_of_memory, "asan", 600, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::LiveBalance balance; bool failed = false; unsigned runs = 0;
        {
            bool const first = r.flip(); Promise<Tracked> p; Future<Tracked> f(p.takeFuture()); if (first) p.setValue(Tracked(3));
            Future<Tracked> out; struct Fn { Tracked captured; unsigned * runs; Tracked operator()(Future<Tracked> && x) { ++*runs; return x.takeValue(); } };
            { Fn const fn{Tracked(1), &runs}; Fn copy(fn); vm::Oom o(long(1 + i % 4)); try { out = r.flip() ? f.then(fn) : f.then(std::move(copy)); } catch (std::bad_alloc const &) { failed = true; } }
            if (failed) { VM_CHECK(runs == 0, "oom", "attaching failed and the continuation ran"); VM_CHECK(f.isValid(), "oom", "attaching failed and the future was lost"); if (!first) p.setValue(Tracked(3)); VM_CHECK(f.takeValue().get() == 3, "oom", "value"); }
            else { if (!first) p.setValue(Tracked(3)); VM_CHECK(runs == 1, "oom", "ran %u times", runs); try { VM_CHECK(out.takeValue().get() == 3, "oom", "value"); } catch (std::bad_alloc const &) { } }
        }
        balance.expect(0, "after running out of memory"); vm::event("allocation_failures", failed); vm::signature(failed * 8u + i % 4);
    });
}
}
