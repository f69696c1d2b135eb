/* P32: plain and atomic flag sets.
   VM-VARIANTS: asan tsan native plain */
#include "vm.hpp"
#include <map>
#include <sharemind/AtomicFlags.h>
#include <sharemind/Flags.h>

namespace {
enum Old : std::uint16_t { oldA = 1, oldB = 2, oldC = 0x8000 };
enum class Scoped : std::uint32_t { a = 1 };
enum class Signed : std::int64_t { a = 1 };
enum Loose { looseA = 1, looseB = 1 << 20 };
template <typename U> using Un = typename std::make_unsigned<U>::type;
template <typename U> std::uint64_t num(U v) { return static_cast<Un<U> >(v); }
template <typename U> U val(std::uint64_t v) { return static_cast<U>(static_cast<Un<U> >(v)); }
template <typename U> U mask(vm::Rng & r) {
    std::uint64_t v;
    switch (r.below(6)) { case 0: v = 0; break; case 1: v = ~std::uint64_t(0); break; case 2: v = std::uint64_t(1) << r.below(8 * sizeof(U)); break; case 3: v = std::uint64_t(1) << (8 * sizeof(U) - 1); break; case 4: v = r.word() & r.word() & r.word(); break; default: v = r.word(); break; }
    return val<U>(v);
}
template <typename U> std::uint64_t const full = Un<U>(~Un<U>(0));

template <typename F, typename U> void isExactly(F const & f, std::uint64_t m, vm::Rng & r, char const * after) {
    VM_CHECK(num<U>(f.load()) == m, "contents", "after %s: the flags are %#llx, should be %#llx", after, (unsigned long long) num<U>(f.load()), (unsigned long long) m);
    for (unsigned i = 0; i < 3; ++i) {
        U const q = i ? mask<U>(r) : val<U>(m); std::uint64_t const n = num<U>(q);
        VM_CHECK(f.hasAnyOf(q) == ((m & n) != 0) && f.hasNoneOf(q) == ((m & n) == 0) && f.hasAllOf(q) == ((m & n) == n), "membership", "after %s: flags %#llx asked about %#llx answer any %d all %d none %d", after,
                 (unsigned long long) m, (unsigned long long) n, f.hasAnyOf(q), f.hasAllOf(q), f.hasNoneOf(q));
        U const part = val<U>(n & r.word());
        VM_CHECK(f.has(part, q) == ((m & n) == num<U>(part)), "membership", "after %s: flags %#llx asked whether %#llx of %#llx are set", after, (unsigned long long) m, (unsigned long long) num<U>(part), (unsigned long long) n);
    }
}
template <typename T, typename U> void plain(vm::Rng & r, char const * type) {
    using F = sharemind::Flags<T>; static_assert(std::is_same<decltype(std::declval<F const &>().load()), U>::value, "");
    unsigned const ops = unsigned(5 + r.below(60)); vm::describe(vm::format("%s, %u operations", type, ops));
    U const first = mask<U>(r); F f(first), g; g = U(0); std::uint64_t m = num<U>(first), k = 0, sig = m;
    for (unsigned i = 0; i < ops; ++i) {
        U const v = mask<U>(r); std::uint64_t const n = num<U>(v); char const * name = ""; unsigned const op = unsigned(r.below(19));
        switch (op) {
        case 0: name = "="; VM_CHECK(&(f = v) == &f, "self", "="); m = n; break;
        case 1: name = "&="; VM_CHECK(&(f &= v) == &f, "self", "&="); m &= n; break;
        case 2: name = "|="; VM_CHECK(&(f |= v) == &f, "self", "|="); m |= n; break;
        case 3: name = "^="; VM_CHECK(&(f ^= v) == &f, "self", "^="); m ^= n; break;
        case 4: { name = "&"; F const x(f & v); isExactly<F, U>(x, m & n, r, name); } break;
        case 5: { name = "|"; F const x(f | v); isExactly<F, U>(x, m | n, r, name); } break;
        case 6: { name = "^"; F const x(f ^ v); isExactly<F, U>(x, m ^ n, r, name); } break;
        case 7: name = "store"; VM_CHECK(&f.store(v) == &f, "self", "store"); m = n; break;
        case 8: { name = "exchange"; F const x(f.exchange(v)); isExactly<F, U>(x, m, r, "exchange, the old flags"); m = n; } break;
        case 9: name = "setFlags()"; VM_CHECK(&f.setFlags() == &f, "self", "setFlags"); m = full<U>; break;
        case 10: case 11: name = "setFlags"; VM_CHECK(&f.setFlags(v) == &f, "self", "setFlags"); m |= n; break;
        case 12: name = "unsetFlags()"; VM_CHECK(&f.unsetFlags() == &f, "self", "unsetFlags"); m = 0; break;
        case 13: case 14: name = "unsetFlags"; VM_CHECK(&f.unsetFlags(v) == &f, "self", "unsetFlags"); m &= ~n; break;
        case 15: name = "toggleFlags()"; VM_CHECK(&f.toggleFlags() == &f, "self", "toggleFlags"); m = ~m & full<U>; break;
        case 16: case 17: name = "toggleFlags"; VM_CHECK(&f.toggleFlags(v) == &f, "self", "toggleFlags"); m ^= n; break;
        default: { name = "copying"; F h(f); g = h; f = g; std::swap(g, h); U const back = f; VM_CHECK(num<U>(back) == m, "contents", "conversion gives %#llx", (unsigned long long) num<U>(back)); f = F(back); } break;
        }
        isExactly<F, U>(f, m, r, name); sig = vm::mix(sig ^ m); ++k;
    }
    vm::event("operations", k); vm::signature(sig);
}
using MO = std::memory_order;
MO loadOrder(vm::Rng & r) { MO const o[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst}; return o[r.below(3)]; }
MO storeOrder(vm::Rng & r) { MO const o[] = {std::memory_order_relaxed, std::memory_order_release, std::memory_order_seq_cst}; return o[r.below(3)]; }
MO rmwOrder(vm::Rng & r) { MO const o[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst}; return o[r.below(5)]; }
template <typename T, typename U> void atomicOne(vm::Rng & r, char const * type) {
    using A = sharemind::AtomicFlags<T>; using F = sharemind::Flags<T>;
    unsigned const ops = unsigned(5 + r.below(60)); vm::describe(vm::format("atomic %s, %u operations", type, ops));
    U const first = mask<U>(r); A f(first); std::uint64_t m = num<U>(first), k = 0, sig = m;
    auto const was = [&](F const & x, std::uint64_t before, char const * name) { VM_CHECK(num<U>(x.load()) == before, "previous", "%s reports the previous flags %#llx, they were %#llx", name, (unsigned long long) num<U>(x.load()), (unsigned long long) before); };
    for (unsigned i = 0; i < ops; ++i) {
        U const v = mask<U>(r); std::uint64_t const n = num<U>(v), b = m; char const * name = ""; bool const d = r.flip();
        switch (r.below(14)) {
        case 0: name = "store"; d ? f.store(v) : f.store(v, storeOrder(r)); m = n; break;
        case 1: name = "load"; was(d ? f.load() : f.load(loadOrder(r)), m, name); break;
        case 2: name = "exchange"; m = n; was(d ? f.exchange(v) : f.exchange(v, rmwOrder(r)), b, name); break;
        case 3: name = "setFlags"; d ? f.setFlags() : f.setFlags(storeOrder(r)); m = full<U>; break;
        case 4: name = "unsetFlags"; d ? f.unsetFlags() : f.unsetFlags(storeOrder(r)); m = 0; break;
        case 5: name = "fetchSetFlags()"; m = full<U>; was(d ? f.fetchSetFlags() : f.fetchSetFlags(rmwOrder(r)), b, name); break;
        case 6: case 7: name = "fetchSetFlags"; m |= n; was(d ? f.fetchSetFlags(v) : f.fetchSetFlags(v, rmwOrder(r)), b, name); break;
        case 8: name = "fetchUnsetFlags()"; m = 0; was(d ? f.fetchUnsetFlags() : f.fetchUnsetFlags(rmwOrder(r)), b, name); break;
        case 9: case 10: name = "fetchUnsetFlags"; m &= ~n; was(d ? f.fetchUnsetFlags(v) : f.fetchUnsetFlags(v, rmwOrder(r)), b, name); break;
        case 11: name = "fetchToggleFlags"; m ^= n; was(d ? f.fetchToggleFlags(v) : f.fetchToggleFlags(v, rmwOrder(r)), b, name); break;
        default: { name = "compareExchange";
            bool const hit = r.flip(); std::uint64_t const e = hit ? m : num<U>(mask<U>(r)); U eu = val<U>(e); F ef(eu); bool done; bool const strong = r.flip(), wrapped = r.flip();
            MO const s = rmwOrder(r), fl = loadOrder(r);
            MO const safe = (s == std::memory_order_relaxed || s == std::memory_order_release) ? std::memory_order_relaxed : (s == std::memory_order_seq_cst ? fl : std::memory_order_acquire);
            unsigned const form = unsigned(r.below(3));
#define CAS(op, x) (form == 0 ? f.op(x, v) : form == 1 ? f.op(x, v, s) : f.op(x, v, s, safe))
            done = strong ? (wrapped ? CAS(compareExchangeStrong, ef) : CAS(compareExchangeStrong, eu)) : (wrapped ? CAS(compareExchangeWeak, ef) : CAS(compareExchangeWeak, eu));
            std::uint64_t const seen = wrapped ? num<U>(ef.load()) : num<U>(eu);
            VM_CHECK(!done || e == m, "compare", "compareExchange succeeded expecting %#llx while the flags were %#llx", (unsigned long long) e, (unsigned long long) m);
            VM_CHECK(done || !strong || e != m, "compare", "compareExchangeStrong failed although the flags were as expected");
            VM_CHECK(seen == (done ? e : m), "compare", "compareExchange left %#llx in expected", (unsigned long long) seen);
            if (done) m = n; } break;
        }
        isExactly<A, U>(f, m, r, name); sig = vm::mix(sig ^ m); ++k;
    }
    vm::event("operations", k); vm::signature(sig);
}
}
VM_SCENARIO(sets, "asan plain", 30000, 400000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        switch (i % 12u) {
#define BOTH(k, T, U) case k: plain<T, U>(r, #T); atomicOne<T, U>(r, #T); break;
        BOTH(0, std::uint8_t, std::uint8_t) BOTH(1, std::int8_t, std::int8_t) BOTH(2, std::uint16_t, std::uint16_t) BOTH(3, int, int) BOTH(4, unsigned, unsigned) BOTH(5, std::int64_t, std::int64_t) BOTH(6, std::uint64_t, std::uint64_t)
        BOTH(7, Old, std::uint16_t) BOTH(8, Scoped, std::uint32_t) BOTH(9, Signed, std::int64_t) BOTH(10, Loose, std::underlying_type<Loose>::type)
        default: { sharemind::Flags<Old> f(oldA); f.setFlags(oldC); f |= oldB; f.unsetFlags(oldA); VM_CHECK(f.hasAllOf(oldB | oldC) && f.hasNoneOf(oldA) && f.has(oldC, oldA | oldC), "contents", "flags given as enumerators");
            sharemind::AtomicFlags<Old> a(oldA); a.fetchSetFlags(oldC); VM_CHECK(a.hasAllOf(oldA | oldC) && a.hasNoneOf(oldB) && a.has(oldA, oldA | oldB), "contents", "atomic flags given as enumerators"); } break;
        }
    });
}
namespace {
struct Edge { std::uint64_t from, to; };
/* The read-modify-write operations of all threads must chain up from the first value to the last. */
void chainsUp(std::vector<Edge> const & e, std::uint64_t first, std::uint64_t last) {
    std::map<std::uint64_t, long> degree; std::map<std::uint64_t, std::uint64_t> up;
    auto const root = [&](std::uint64_t x) { if (!up.count(x)) up[x] = x; while (up[x] != x) { up[x] = up[up[x]]; x = up[x]; } return x; };
    for (auto const & x : e) { --degree[x.from]; ++degree[x.to]; up[root(x.from)] = root(x.to); }
    ++degree[first]; --degree[last];
    for (auto const & d : degree) VM_CHECK(d.second == 0, "lost-update", "the flags were %#llx after %ld more modifications than were made while they were that (%zu modifications from %#llx to %#llx)", (unsigned long long) d.first, d.second, e.size(), (unsigned long long) first, (unsigned long long) last);
    for (auto const & x : e) VM_CHECK(root(x.from) == root(first), "lost-update", "the modification of %#llx does not connect to the others", (unsigned long long) x.from);
}
template <typename T, typename U> void history(vm::Rng & r, char const * type) {
    using A = sharemind::AtomicFlags<T>; unsigned const n = unsigned(2 + r.below(3)), ops = unsigned(20 + r.below(200)); unsigned const shared = unsigned(1 + r.below(3));
    vm::describe(vm::format("%s, %u threads of %u operations, %u shared flags", type, n, ops, shared));
    vm::Perturb p(vm::caseSeed(), unsigned(r.below(3)));
    U const start = val<U>(r.below(std::uint64_t(1) << shared)); A f(start);
    std::vector<std::vector<Edge> > logs(n); std::vector<std::function<void ()> > fns; std::atomic<std::uint64_t> contended{0};
    bool const wholes = r.chance(1, 3); /* with exchanges and whole-set operations nobody owns a flag */
    for (unsigned t = 0; t < n; ++t) { std::uint64_t const seed = r.word();
        fns.push_back([&, t, seed] { vm::Rng q(seed); std::uint64_t const own = std::uint64_t(1) << (shared + t), sh = (std::uint64_t(1) << shared) - 1; bool have = false; std::uint64_t mine = 0;
            for (unsigned i = 0; i < ops; ++i) {
                std::uint64_t const s = (q.flip() ? own : 0) | (q.word() & sh); U const v = val<U>(s); std::uint64_t before, after; unsigned const op = unsigned(q.below(wholes ? 9 : 6)); MO const o = q.flip() ? std::memory_order_seq_cst : rmwOrder(q);
                switch (op) {
                case 0: case 1: before = num<U>(f.fetchSetFlags(v, o).load()); after = before | s; break;
                case 2: before = num<U>(f.fetchUnsetFlags(v, o).load()); after = before & ~s; break;
                case 3: before = num<U>(f.fetchToggleFlags(v, o).load()); after = before ^ s; break;
                case 4: case 5: { /* changes with compareExchange, adding a flag and removing another */
                    std::uint64_t const add = q.word() & (own | sh), rem = q.word() & (own | sh) & ~add; U e = f.load(); sharemind::Flags<T> ef(e); bool const wrapped = q.flip(), strong = q.flip();
                    for (;;) { std::uint64_t const x = wrapped ? num<U>(ef.load()) : num<U>(e); U const to = val<U>((x | add) & ~rem); if (q.chance(1, 4)) vm::jitter(q);
                        bool const ok = strong ? (wrapped ? f.compareExchangeStrong(ef, to, o, std::memory_order_relaxed) : f.compareExchangeStrong(e, to)) : (wrapped ? f.compareExchangeWeak(ef, to) : f.compareExchangeWeak(e, to, o, std::memory_order_relaxed));
                        if (ok) { before = x; after = (x | add) & ~rem; break; }
                        contended.fetch_add(1, std::memory_order_relaxed); } } break;
                case 6: before = num<U>(f.exchange(v, o).load()); after = s; break;
                case 7: before = num<U>(f.fetchSetFlags().load()); after = full<U>; break;
                default: before = num<U>(f.fetchUnsetFlags().load()); after = 0; break;
                }
                logs[t].push_back({before, after});
                if (!wholes) { VM_CHECK(((before & own) != 0) == have, "own-flag", "a flag that only this thread changes was reported %s", have ? "absent, it had been set" : "present, it had been cleared"); have = (after & own) != 0; (void) mine;
                    if (q.chance(1, 4)) VM_CHECK(f.hasAllOf(val<U>(own)) == have && f.hasNoneOf(val<U>(own)) == !have && f.hasAnyOf(val<U>(own)) == have && f.has(val<U>(have ? own : 0), val<U>(own)), "own-flag", "membership of a flag that only this thread changes"); }
                if (q.chance(1, 8)) vm::jitter(q);
            } }); }
    vm::parallel(fns);
    std::vector<Edge> all; for (auto const & l : logs) all.insert(all.end(), l.begin(), l.end());
    chainsUp(all, num<U>(start), num<U>(f.load().load()));
    std::uint64_t sig = 0; for (auto const & x : all) sig = vm::mix(sig ^ x.from);
    vm::event("modifications", all.size()); vm::event("contended", contended.load()); vm::signature(sig);
}
}
VM_SCENARIO(concurrent, "asan native tsan", 600, 8000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        switch (i % 5u) {
        case 0: history<std::uint8_t, std::uint8_t>(r, "uint8"); break; case 1: history<int, int>(r, "int"); break; case 2: history<Old, std::uint16_t>(r, "enum"); break;
        case 3: history<Scoped, std::uint32_t>(r, "enum class"); break; default: history<std::uint64_t, std::uint64_t>(r, "uint64"); break;
        }
    });
}
/* Flags as locks and signals: what was written before setting a flag is seen by who finds it set. */
VM_SCENARIO(publication, "native tsan", 500, 8000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        unsigned const n = unsigned(2 + r.below(3)), rounds = unsigned(5 + r.below(40)); vm::describe(vm::format("%u threads, %u rounds", n, rounds));
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(3)));
        enum : std::uint32_t { locked = 1, pair1 = 2, pair2 = 0x80000000u };
        sharemind::AtomicFlags<std::uint32_t> f(0u), signal(0u); long guarded = 0; std::vector<long> slots(n, 0); std::atomic<bool> defaults{r.flip()};
        std::vector<std::function<void ()> > fns; std::uint64_t spins = 0; std::atomic<std::uint64_t> spun{0};
        for (unsigned t = 0; t < n; ++t) { std::uint64_t const seed = r.word();
            fns.push_back([&, t, seed] { vm::Rng q(seed); bool const d = defaults;
                for (unsigned k = 0; k < rounds; ++k) {
                    for (;;) { auto const b = d ? f.fetchSetFlags(locked) : f.fetchSetFlags(locked, std::memory_order_acquire); if (!b.hasAnyOf(locked)) break; spun.fetch_add(1, std::memory_order_relaxed); std::this_thread::yield(); }
                    ++guarded; if (q.chance(1, 4)) vm::jitter(q); 
                    d ? (void) f.fetchUnsetFlags(locked) : (void) f.fetchUnsetFlags(locked, std::memory_order_release);
                    f.fetchToggleFlags(pair1 | pair2, std::memory_order_relaxed);
                    auto const s = f.load(); VM_CHECK(s.hasAllOf(pair1 | pair2) || s.hasNoneOf(pair1 | pair2), "torn", "two flags that always change together were seen apart");
                }
                slots[t] = long(t) + 1; std::uint32_t const bit = std::uint32_t(1) << t;
                switch (q.below(3)) { case 0: signal.fetchSetFlags(bit, d ? std::memory_order_seq_cst : std::memory_order_release); break; case 1: signal.fetchToggleFlags(bit, d ? std::memory_order_seq_cst : std::memory_order_release); break;
                default: { std::uint32_t e = signal.load(std::memory_order_relaxed); while (!signal.compareExchangeWeak(e, e | bit, std::memory_order_release, std::memory_order_relaxed)) {} } }
                unsigned const other = unsigned(q.below(n)); std::uint32_t const ob = std::uint32_t(1) << other;
                for (;;) { bool seen; switch (q.below(3)) { case 0: seen = signal.hasAnyOf(ob, d ? std::memory_order_seq_cst : std::memory_order_acquire); break; case 1: seen = signal.hasAllOf(ob, d ? std::memory_order_seq_cst : std::memory_order_acquire); break; default: seen = !signal.hasNoneOf(ob, d ? std::memory_order_seq_cst : std::memory_order_acquire); } if (seen) break; std::this_thread::yield(); }
                VM_CHECK(slots[other] == long(other) + 1, "publication", "a flag was seen, what was written before setting it was not");
            }); }
        vm::parallel(fns); spins = spun;
        VM_CHECK(guarded == long(n) * long(rounds), "exclusion", "%ld of %ld increments made under a flag used as a lock", guarded, long(n) * long(rounds));
        VM_CHECK(num<std::uint32_t>(signal.load().load()) == (std::uint32_t(1) << n) - 1, "lost-update", "a signal got lost");
        vm::event("acquisitions", std::uint64_t(guarded)); vm::event("spins", spins); vm::signature(i * 31 + spins);
    });
}
/* Turns taken through plain stores: what was written before one is seen by who sees it. */
VM_SCENARIO(turns, "native tsan", 300, 8000, 1, 3) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        unsigned const n = unsigned(2 + r.below(2)), rounds = unsigned(5 + r.below(60)); vm::describe(vm::format("%u threads take %u turns", n, rounds));
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(3)));
        sharemind::AtomicFlags<std::uint32_t> baton(1u); long guarded = 0; std::uint64_t const sig = r.next(); std::atomic<std::uint64_t> used{0};
        std::vector<std::function<void ()> > fns;
        for (unsigned t = 0; t < n; ++t) { std::uint64_t const seed = r.word();
            fns.push_back([&, t, seed] { vm::Rng q(seed);
                std::uint32_t const mine = 1u << t, next = 1u << ((t + 1) % n);
                for (unsigned k = 0; k < rounds; ++k) {
                    bool const d = q.flip(); auto const acq = d ? std::memory_order_seq_cst : std::memory_order_acquire, rel = d ? std::memory_order_seq_cst : std::memory_order_release;
                    bool const all = n == 2 && t == 0; /* its turn is told by no flag at all or by all of them */
                    for (;;) { auto const now = baton.load(acq); if (all ? now.hasAllOf(mine) : now.hasAllOf(mine) && now.hasNoneOf(1u << ((t + n - 1) % n))) break; std::this_thread::yield(); }
                    VM_CHECK(guarded == long(k * n + t), "publication", "turn %ld was taken instead of turn %u", guarded, k * n + t);
                    ++guarded; unsigned const how = unsigned(q.below(5)); used.fetch_or(1u << how, std::memory_order_relaxed);
                    switch (how) {
                    case 0: d ? baton.store(next) : baton.store(next, rel); break;
                    case 1: d ? (void) baton.exchange(next) : (void) baton.exchange(next, rel); break;
                    case 2: { std::uint32_t e = baton.load(std::memory_order_relaxed).hasAllOf(~0u) ? ~0u : mine; VM_CHECK(d ? baton.compareExchangeStrong(e, next) : baton.compareExchangeStrong(e, next, rel, std::memory_order_relaxed), "compare", "the flags are not what they were"); } break;
                    case 3: if (n == 2 && t == 1) { d ? baton.setFlags() : baton.setFlags(rel); break; } baton.store(next, rel); break;
                    default: if (n == 2 && t == 1) { d ? (void) baton.fetchSetFlags() : (void) baton.fetchSetFlags(rel); break; } baton.store(next, rel); break;
                    }
                }
            }); }
        vm::parallel(fns);
        VM_CHECK(guarded == long(n) * long(rounds), "exclusion", "%ld turns of %ld", guarded, long(n) * long(rounds));
        vm::event("turns", std::uint64_t(guarded)); vm::signature(sig ^ used.load());
    });
}
/* With the default ordering all threads agree on one order of all modifications. */
VM_SCENARIO(one_order, "native", 120, 4000, 1, 2) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        unsigned const trials = 3000, hx = unsigned(r.below(7)), hy = unsigned(r.below(7)); vm::describe(vm::format("%u trials, operations %u and %u", trials, hx, hy));
        struct alignas(128) Cell { sharemind::AtomicFlags<std::uint32_t> f{0u}; }; std::vector<Cell> xs(trials), ys(trials);
        for (unsigned k = 0; k < trials; ++k) { if (hx == 6) xs[k].f.store(~0u); if (hy == 6) ys[k].f.store(~0u); }
        std::vector<char> a(trials), b(trials); std::atomic<unsigned> at{0};
        auto const side = [&](std::vector<Cell> & mine, std::vector<Cell> & theirs, unsigned how, unsigned their, std::vector<char> & saw, unsigned phase) {
            return [&, how, their, phase] {
                for (unsigned k = 0; k < trials; ++k) {
                    at.fetch_add(1); for (unsigned spins = 0; at.load() < 2 * (k + 1); ) if (++spins > 2000) { std::this_thread::yield(); spins = 0; }
                    for (unsigned z = (k * (phase * 7 + 3)) % 11; z > 0; --z) asm volatile("" ::: "memory");
                    auto & m = mine[k].f; auto const & o = theirs[k].f;
                    switch (how) { case 0: m.store(1u); break; case 1: m.setFlags(); break; case 2: m.exchange(1u); break; case 3: m.fetchSetFlags(1u); break; case 4: m.fetchToggleFlags(1u); break; case 5: m.fetchSetFlags(); break; default: m.unsetFlags(); }
                    saw[k] = their == 6 ? o.hasNoneOf(1u) : k % 2 ? o.hasAnyOf(1u) : o.load().hasAllOf(1u);
                }
            };
        };
        vm::parallel({side(xs, ys, hx, hy, a, 0), side(ys, xs, hy, hx, b, 1)});
        std::uint64_t both = 0, first = 0;
        for (unsigned k = 0; k < trials; ++k) { VM_CHECK(a[k] || b[k], "order", "trial %u: neither thread saw the other's modification, made before it looked", k); both += a[k] && b[k]; first += a[k] && !b[k]; }
        vm::event("racing trials", trials); vm::event("trials in which both saw the other", both); vm::signature(vm::mix(i) ^ both ^ (first << 20));
    });
}
