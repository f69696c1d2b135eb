/* P33: owning and viewing memory helpers.
   VM-VARIANTS: asan ndebug plain tsan */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sharemind/AlignedAllocator.h>
#include <sharemind/GlobalDeleter.h>
#include <sharemind/ReferenceVector.h>
#include <sharemind/SharedTupleElementPointers.h>
#include <sharemind/UninitializedDynamicArray.h>
#include <tuple>

namespace {
using namespace sharemind;
/* ---- UninitializedDynamicArray */
struct Odd { unsigned char b[3]; };
template <typename T> void stamp(T & t, std::uint64_t tag) { unsigned char * p = reinterpret_cast<unsigned char *>(&t); for (std::size_t i = 0; i < sizeof(T); ++i) p[i] = static_cast<unsigned char>(vm::mix(tag) >> (8 * (i % 8))); }
template <typename T> bool stamped(T const & t, std::uint64_t tag) { unsigned char const * p = reinterpret_cast<unsigned char const *>(&t); for (std::size_t i = 0; i < sizeof(T); ++i) if (p[i] != static_cast<unsigned char>(vm::mix(tag) >> (8 * (i % 8)))) return false; return true; }
template <typename T> void arrays(vm::Rng & r, char const * type) {
    using A = UninitializedDynamicArray<T>;
    struct Slot { std::unique_ptr<A> a; std::size_t n; std::uint64_t tag; T * at; };
    std::vector<Slot> v; unsigned const ops = unsigned(5 + r.below(50)); std::uint64_t sig = 0, tags = 1; vm::describe(vm::format("arrays of %s, %u operations", type, ops));
    auto const fill = [&](Slot & s) { s.tag = ++tags * 1000; switch (r.below(3)) {
        case 0: for (std::size_t i = 0; i < s.n; ++i) stamp((*s.a)[i], s.tag + i); break;
        case 1: { std::size_t i = 0; for (T & t : *s.a) stamp(t, s.tag + i++); } break;
        default: for (std::size_t i = s.n; i--;) stamp(*s.a->data(i), s.tag + i); } };
    auto const check = [&](Slot const & s, char const * after) {
        A & a = *s.a; A const & c = a;
        VM_CHECK(a.size() == s.n && a.empty() == (s.n == 0), "array-size", "%s: the size is %zu, should be %zu", after, a.size(), s.n);
        VM_CHECK(c.end() - c.begin() == std::ptrdiff_t(s.n) && a.end() - a.begin() == std::ptrdiff_t(s.n) && c.cend() - c.cbegin() == std::ptrdiff_t(s.n), "array-size", "%s: the iterators span another number of elements", after);
        VM_CHECK(a.begin() == a.data() && c.begin() == a.data() && c.cbegin() == a.data() && c.data() == a.data(), "array-view", "%s: data() and begin() differ", after);
        if (s.n) VM_CHECK(a.data() == s.at, "array-moved", "%s: the elements are at another address", after);
        for (std::size_t i = 0; i < s.n; ++i) {
            VM_CHECK(stamped(c[i], s.tag + i), "array-contents", "%s: element %zu of %zu changed", after, i, s.n);
            VM_CHECK(&a[i] == a.data() + i && &c[i] == a.data() + i && a.data(i) == a.data() + i && c.data(i) == a.data() + i, "array-view", "%s: element %zu is in several places", after, i);
            VM_CHECK(reinterpret_cast<std::uintptr_t>(&a[i]) % alignof(T) == 0, "array-alignment", "%s: element %zu is misaligned", after, i);
        } };
    for (unsigned i = 0; i < ops; ++i) {
        std::size_t const a = v.empty() ? 0 : r.below(v.size()), b = v.empty() ? 0 : r.below(v.size()); unsigned const op = v.empty() ? 0 : unsigned(r.below(9)); char const * name = "";
        switch (op) {
        case 0: case 1: { name = "construction"; std::size_t const n = r.chance(1, 6) ? 0 : r.size(200);
            try { vm::Oom o(r.chance(1, 8) ? long(1 + r.below(3)) : 0); std::unique_ptr<A> p(new A(n)); vm::Oom::countdown() = 0; T * const at = p->data(); v.push_back({std::move(p), n, 0, at}); fill(v.back()); }
            catch (std::bad_alloc const &) { VM_CHECK(vm::Oom::fired(), "bad-alloc", "std::bad_alloc from nowhere"); } } break;
        case 2: name = "default construction"; v.push_back({std::unique_ptr<A>(new A), 0, 0, nullptr}); break;
        case 3: { name = "move construction"; Slot s{std::unique_ptr<A>(new A(std::move(*v[a].a))), v[a].n, v[a].tag, v[a].at}; v[a].n = 0; VM_CHECK(v[a].a->empty() && v[a].a->size() == 0, "array-moved-from", "an array moved from is not empty"); v.push_back(std::move(s)); } break;
        case 4: case 5: name = "move assignment"; if (a == b) break; VM_CHECK(&(*v[b].a = std::move(*v[a].a)) == v[b].a.get(), "self", "assignment does not return the array"); v[b].n = v[a].n; v[b].tag = v[a].tag; v[b].at = v[a].at; v[a].n = 0; break;
        case 6: name = "swap"; if (a == b) break; std::swap(*v[a].a, *v[b].a); std::swap(v[a].n, v[b].n); std::swap(v[a].tag, v[b].tag); std::swap(v[a].at, v[b].at); break;
        case 7: name = "writing"; fill(v[a]); break;
        default: name = "destruction"; if (a != v.size() - 1) std::swap(v[a], v.back()); v.pop_back(); break;
        }
        for (auto const & s : v) check(s, name);
        sig = vm::mix(sig * 31 + op + v.size());
    }
    if (r.chance(1, 4)) { bool ok = false; std::size_t const huge = ~std::size_t(0) / sizeof(T) - r.below(3) + (sizeof(T) > 1 ? r.below(100) : 0); try { A x(huge); } catch (std::bad_alloc const &) { ok = true; } VM_CHECK(ok, "array-huge", "an array of %zu elements of %zu bytes was made", huge, sizeof(T)); }
    vm::event("operations", ops); vm::signature(sig);
}
}
VM_SCENARIO(dynamic_arrays, "asan", 12000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        switch (i % 6u) { case 0: return arrays<char>(r, "char"); case 1: return arrays<Odd>(r, "3 byte structures"); case 2: return arrays<std::uint64_t>(r, "64-bit integers"); case 3: return arrays<std::string>(r, "strings"); case 4: return arrays<std::max_align_t>(r, "max_align_t"); default: return arrays<std::uint16_t>(r, "16-bit integers"); }
    });
}
namespace {
/* ---- ReferenceVector */
struct Ref { void * pData; std::size_t size; }; struct CRef { void const * pData; std::size_t size; };
struct Blocks { vm::Rng & r; std::uint64_t n = 0; template <typename It> void fillBlock(It f, It l) { for (; f != l; ++f) { stamp(*f, 77 + n); ++n; } } void fillBytes(void * p, std::size_t k) { for (std::size_t i = 0; i < k; ++i) static_cast<unsigned char *>(p)[i] = static_cast<unsigned char>(r.next()); n += k; } };
template <typename T> void views(vm::Rng & r, char const * type) {
    std::size_t const n = r.chance(1, 8) ? 0 : r.size(100), extra = r.below(sizeof(T)), bytes = n * sizeof(T) + extra;
    vm::describe(vm::format("a view of %zu elements of %s and %zu bytes", n, type, extra));
    void * const mem = ::operator new(bytes); std::unique_ptr<void, GlobalDeleter> const owner(mem); std::memset(mem, 0x5a, bytes);
    T * const t = static_cast<T *>(mem); for (std::size_t i = 0; i < n; ++i) stamp(t[i], i);
    Ref const ref{mem, bytes}; CRef const cref{mem, bytes};
    RefVec<T> v(ref); RefVec<T> const cv(v); CRefVec<T> const c(cref), c2(cv), c3(c), c4(v), c5(ref);
#define VIEW(x, what) { VM_CHECK((x).size() == n && (x).empty() == (n == 0), "view-size", what ": %zu elements, should be %zu", (x).size(), n); VM_CHECK((x).begin() == t && (x).end() == t + n, "view-bounds", what ": the wrong bounds"); \
        std::size_t k = 0; for (auto & e : (x)) { VM_CHECK(&e == t + k && &(x)[k] == t + k, "view-element", what ": element %zu is elsewhere", k); ++k; } VM_CHECK(k == n, "view-size", what ": iteration visits %zu of %zu", k, n); }
    VIEW(v, "RefVec") VIEW(cv, "constant RefVec") VIEW(c, "CRefVec") VIEW(c2, "CRefVec of a RefVec") VIEW(c3, "copied CRefVec") VIEW(c4, "CRefVec of a RefVec") VIEW(c5, "CRefVec of a mutable reference")
    for (std::size_t k = 0; k < 3 && n; ++k) { std::size_t const at = r.below(n); stamp(v[at], 5000 + k); VM_CHECK(stamped(t[at], 5000 + k) && stamped(c[at], 5000 + k), "view-write", "a write through the view did not arrive"); stamp(*(v.begin() + at), at); }
    for (std::size_t i = 0; i < n; ++i) VM_CHECK(stamped(t[i], i), "view-write", "a write through the view changed another element");
    Blocks g{r}; v.randomize(g); VM_CHECK(g.n == n, "view-randomize", "randomize() filled %llu of %zu elements", (unsigned long long) g.n, n); for (std::size_t i = 0; i < n; ++i) VM_CHECK(stamped(t[i], 77 + i), "view-randomize", "randomize() left element %zu", i);
    for (std::size_t i = n * sizeof(T); i < bytes; ++i) VM_CHECK(static_cast<unsigned char *>(mem)[i] == 0x5a, "view-bounds", "a byte behind the elements changed");
    vm::event("elements", n); vm::signature(n * 64 + sizeof(T) + extra * 7919);
}
void boolViews(vm::Rng & r) {
    std::size_t const n = r.chance(1, 3) ? 300 + r.below(300) : r.size(300); std::unique_ptr<bool[]> p(new bool[n ? n : 1]); for (std::size_t i = 0; i < n; ++i) p[i] = r.flip(); vm::describe(vm::format("a view of %zu booleans", n));
    Ref const ref{p.get(), n}; RefVec<bool> v(ref); Blocks g{r}; vm::Rng twin = r; v.randomize(g);
    std::size_t ones = 0; for (std::size_t i = 0; i < n; ++i) { unsigned char raw; std::memcpy(&raw, &p[i], 1); VM_CHECK(raw <= 1, "view-bool", "randomize() stored %u in a boolean", raw); ones += raw; }
    VM_CHECK(n < 64 || (ones > 0 && ones < n), "view-randomize", "%zu random booleans, %zu of them true", n, ones);
    if (n >= 200) VM_CHECK(ones > n / 5 && ones < n * 4 / 5, "view-randomize", "%zu random booleans, %zu of them true", n, ones);
    VM_CHECK(n == 0 || g.n * 8 >= n, "view-randomize", "%llu random bytes for %zu booleans", (unsigned long long) g.n, n);
    for (std::size_t lag = 1; n >= 300 && lag < 20; ++lag) for (std::size_t step = 1; step <= 2; ++step) { std::size_t alike = 0, pairs = 0; for (std::size_t i = lag; i < n; i += step) { alike += p[i] == p[i - lag]; ++pairs; } VM_CHECK(alike < pairs * 9 / 10 && alike > pairs / 10, "view-randomize", "of %zu random booleans, %zu of %zu pairs %zu apart are alike", n, alike, pairs, lag); }
    (void) twin; vm::event("elements", n); vm::signature(n);
}
}
VM_SCENARIO(reference_vectors, "asan ndebug", 20000, 300000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        switch (i % 6u) { case 0: return views<char>(r, "char"); case 1: return views<Odd>(r, "3 byte structures"); case 2: return views<std::uint64_t>(r, "64-bit integers"); case 3: return boolViews(r); case 4: return views<std::uint16_t>(r, "16-bit integers"); default: return views<double>(r, "doubles"); }
    });
}
namespace {
/* ---- shared tuple element pointers */
using Tuple = std::tuple<vm::Tracked, long, std::string, vm::Tracked, std::unique_ptr<int> >;
std::shared_ptr<Tuple> tuple(long k) { return std::make_shared<Tuple>(vm::Tracked(k), k + 1, std::string(std::size_t(20 + k % 10), char('a' + k % 26)), vm::Tracked(k + 2), std::unique_ptr<int>(new int(int(k)))); }
struct Element { unsigned which; long k; std::shared_ptr<void> keep; };
void intact(Element const & e) {
    switch (e.which) {
    case 0: VM_CHECK(static_cast<vm::Tracked *>(e.keep.get())->get() == e.k, "element", "element 0 changed"); break;
    case 1: VM_CHECK(*static_cast<long *>(e.keep.get()) == e.k + 1, "element", "element 1 changed"); break;
    case 2: VM_CHECK(*static_cast<std::string *>(e.keep.get()) == std::string(std::size_t(20 + e.k % 10), char('a' + e.k % 26)), "element", "element 2 changed"); break;
    case 3: VM_CHECK(static_cast<vm::Tracked *>(e.keep.get())->get() == e.k + 2, "element", "element 3 changed"); break;
    default: VM_CHECK(**static_cast<std::unique_ptr<int> *>(e.keep.get()) == int(e.k), "element", "element 4 changed"); break;
    }
}
template <std::size_t ... Is> void collect(std::tuple<std::shared_ptr<vm::Tracked>, std::shared_ptr<long>, std::shared_ptr<std::string>, std::shared_ptr<vm::Tracked>, std::shared_ptr<std::unique_ptr<int> > > && t, long k, std::vector<Element> & out) {
    out.push_back({0, k, std::move(std::get<0>(t))}); out.push_back({1, k, std::move(std::get<1>(t))}); out.push_back({2, k, std::move(std::get<2>(t))}); out.push_back({3, k, std::move(std::get<3>(t))}); out.push_back({4, k, std::move(std::get<4>(t))});
}
}
VM_SCENARIO(tuple_elements, "asan", 10000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance balance; unsigned const ops = unsigned(10 + r.below(60)); std::uint64_t sig = 0; vm::describe(vm::format("%u operations", ops));
        { std::vector<Element> e; std::map<long, long> refs; long next = 1; /* tuple -> element pointers left */
            for (unsigned i = 0; i < ops; ++i) {
                unsigned const op = unsigned(r.below(8)); sig = vm::mix(sig * 9 + op);
                switch (op) {
                case 0: case 1: { long const k = next++; auto t = tuple(k); std::size_t const had = e.size();
                    switch (r.below(4)) {
                    case 0: collect(makeAllSharedTupleElementPtrs(t), k, e); break;
                    case 1: collect(makeSharedTupleElementPtrs<0, 1, 2, 3, 4>(t), k, e); break;
                    case 2: { auto p = makeSharedTupleElementPtrs<3, 0, 3, 1>(t); VM_CHECK(std::get<0>(p) == std::get<2>(p) && std::get<0>(p).get() == &std::get<3>(*t) && std::get<1>(p).get() == &std::get<0>(*t) && std::get<3>(p).get() == &std::get<1>(*t), "element-address", "an element pointer points elsewhere");
                        e.push_back({3, k, std::get<0>(p)}); e.push_back({0, k, std::get<1>(p)}); e.push_back({3, k, std::get<2>(p)}); e.push_back({1, k, std::get<3>(p)}); } break;
                    default: { auto p = makeSharedTupleElementPtr<2>(t); VM_CHECK(p.get() == &std::get<2>(*t), "element-address", "an element pointer points elsewhere"); e.push_back({2, k, p}); std::tuple<> const none = makeSharedTupleElementPtrs<>(t); (void) none; } break;
                    }
                    refs[k] = long(e.size() - had);
                    VM_CHECK(t.use_count() == refs[k] + 1, "element-ownership", "%ld element pointers hold %ld references", refs[k], t.use_count() - 1);
                    for (std::size_t j = had; j < e.size(); ++j) VM_CHECK(e[j].keep.get() >= static_cast<void *>(t.get()) && e[j].keep.get() < static_cast<void *>(t.get() + 1), "element-address", "an element pointer points outside its tuple");
                    } break;
                default: if (!e.empty()) { std::size_t const a = r.below(e.size()); if (op == 7) { Element copy(e[a]); ++refs[copy.k]; e.push_back(copy); } else { if (!--refs[e[a].k]) refs.erase(e[a].k); if (a != e.size() - 1) std::swap(e[a], e.back()); e.pop_back(); } }
                }
                for (auto const & x : e) { intact(x); VM_CHECK(x.keep.use_count() == refs[x.k], "element-ownership", "%ld references to a tuple with %ld element pointers", x.keep.use_count(), refs[x.k]); }
                balance.expect(2 * long(refs.size()), "tuples kept alive by their element pointers");
                vm::event("operations");
            } }
        balance.expect(0, "after the last element pointer"); vm::signature(sig);
    });
}
/* Element pointers let go by different threads: the tuple dies once, with the last of them. */
VM_SCENARIO(tuple_threads, "tsan asan", 150, 5000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::LiveBalance balance; unsigned const n = unsigned(2 + r.below(3)); vm::describe(vm::format("%u threads", n)); vm::Perturb p(vm::caseSeed(), unsigned(r.below(3)));
        std::vector<std::vector<Element> > mine(n);
        for (long k = 1; k < 8; ++k) { std::vector<Element> all; collect(makeAllSharedTupleElementPtrs(tuple(k)), k, all); for (auto & e : all) mine[r.below(n)].push_back(std::move(e)); }
        std::vector<std::function<void ()> > fns;
        for (unsigned t = 0; t < n; ++t) { std::uint64_t const seed = r.word(); fns.push_back([&, t, seed] { vm::Rng q(seed); auto & m = mine[t]; while (!m.empty()) { std::size_t const a = q.below(m.size()); intact(m[a]); std::swap(m[a], m.back()); m.pop_back(); if (q.chance(1, 4)) vm::jitter(q); } }); }
        vm::parallel(fns); balance.expect(0, "after the threads let go of all elements"); vm::event("elements", 35); vm::signature(i * 7 + n);
    });
}
namespace {
/* ---- aligned storage */
struct Blk { void * p; std::size_t n, align; unsigned char tag; };
template <std::size_t A> void * get(std::size_t n, vm::Rng & r) {
    if (r.flip()) return allocateAlignedStorage<A>(n, std::nothrow);
    return allocateAlignedStorage<A>(n);
}
template <std::size_t A> struct alignas(A) Member { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(A) unsigned char b[A + 3]; vm::Tracked t{long(A)}; bool fail; explicit Member(bool f = false) : fail(f) { if (f) throw 5; } };
template <std::size_t A> void members(vm::Rng & r) {
    vm::LiveBalance balance;
    { std::unique_ptr<Member<A> > p(r.flip() ? new Member<A> : new (std::nothrow) Member<A>); VM_CHECK(reinterpret_cast<std::uintptr_t>(p.get()) % A == 0, "alignment", "an object to be aligned at %zu is at %p", A, static_cast<void *>(p.get())); std::memset(p->b, 1, sizeof(p->b));
      std::size_t const n = 1 + r.below(5); std::unique_ptr<Member<A>[]> q(r.flip() ? new Member<A>[n] : new (std::nothrow) Member<A>[n]); std::memset(q[n - 1].b, 2, sizeof(p->b)); /* arrays have a header; their alignment is the compiler's */
      balance.expect(long(n + 1), "aligned objects"); bool ok = false; try { r.flip() ? (void) new Member<A>(true) : (void) new (std::nothrow) Member<A>(true); } catch (int) { ok = true; } VM_CHECK(ok, "constructor", "exception lost"); }
    balance.expect(0, "aligned objects");
}
struct alignas(64) Wide { unsigned char b[64]; bool operator<(Wide const & o) const { return std::memcmp(b, o.b, 64) < 0; } bool operator==(Wide const & o) const { return !std::memcmp(b, o.b, 64); } };
struct alignas(1024) Page { unsigned char b[1024]; bool operator<(Page const & o) const { return std::memcmp(b, o.b, 1024) < 0; } bool operator==(Page const & o) const { return !std::memcmp(b, o.b, 1024); } };
struct Odd5 { unsigned char b[5]; bool operator<(Odd5 const & o) const { return std::memcmp(b, o.b, 5) < 0; } bool operator==(Odd5 const & o) const { return !std::memcmp(b, o.b, 5); } };
template <typename T> void allocator(vm::Rng & r, char const * type) {
    vm::describe(vm::format("containers of %s", type)); unsigned const ops = unsigned(10 + r.below(60)); std::uint64_t sig = 0, tag = 0;
    AlignedAllocator<T> a; AlignedAllocator<int> const other; AlignedAllocator<T> b(other); VM_CHECK(a == b && !(a != b) && a == other, "allocator", "allocators compare unequal");
    std::vector<T, AlignedAllocator<T> > v; std::vector<T> mv; std::list<T, AlignedAllocator<T> > l; std::list<T> ml; std::set<T, std::less<T>, AlignedAllocator<T> > s; std::set<T> ms; std::deque<T, AlignedAllocator<T> > d; std::deque<T> md;
    auto const fresh = [&] { T t; stamp(t, ++tag % 40); return t; }; auto const aligned = [&](T const & t) { VM_CHECK(reinterpret_cast<std::uintptr_t>(&t) % alignof(T) == 0, "alignment", "an element of %s at %p is misaligned", type, static_cast<void const *>(&t)); };
    for (unsigned i = 0; i < ops; ++i) {
        unsigned const op = unsigned(r.below(10)); sig = vm::mix(sig * 11 + op); T const t = fresh();
        switch (op) {
        case 0: v.push_back(t); mv.push_back(t); break; case 1: { std::size_t const n = r.below(30); v.resize(n, t); mv.resize(n, t); } break; case 2: v.shrink_to_fit(); { auto w = std::move(v); v = w; } break;
        case 3: l.push_front(t); ml.push_front(t); break; case 4: if (!l.empty()) { l.pop_back(); ml.pop_back(); } break; case 5: s.insert(t); ms.insert(t); break; case 6: s.erase(t); ms.erase(t); break;
        case 7: d.push_back(t); md.push_back(t); break; case 8: if (!d.empty()) { d.pop_front(); md.pop_front(); } break;
        default: { std::size_t const n = r.below(20); T * const p = a.allocate(n); VM_CHECK(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "alignment", "%zu elements of %s allocated at %p", n, type, static_cast<void *>(p)); if (n) std::memset(static_cast<void *>(p), 3, n * sizeof(T)); b.deallocate(p, n); } break;
        }
        for (auto const & x : v) aligned(x); for (auto const & x : l) aligned(x); for (auto const & x : s) aligned(x); for (auto const & x : d) aligned(x);
        VM_CHECK(std::equal(v.begin(), v.end(), mv.begin(), mv.end()) && std::equal(l.begin(), l.end(), ml.begin(), ml.end()) && std::equal(s.begin(), s.end(), ms.begin(), ms.end()) && std::equal(d.begin(), d.end(), md.begin(), md.end()), "contents", "a container of %s in aligned memory has other contents", type);
    }
    /* impossible sizes */
    std::size_t const most = ~std::size_t(0) / sizeof(T); std::size_t const huge = sizeof(T) > 1 ? (r.flip() ? most - r.below(4) : most + 1 + r.below(100)) : most - r.below(4); bool ok = false; T * p = nullptr;
    try { p = a.allocate(huge); } catch (std::bad_alloc const &) { ok = true; } if (p) a.deallocate(p, huge);
    VM_CHECK(ok, "impossible-size", "%zu elements of %zu bytes were allocated", huge, sizeof(T));
    vm::event("operations", ops); vm::signature(sig);
}
}
VM_SCENARIO(aligned_storage, "asan", 6000, 100000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        switch (i % 4u) {
        case 0: { std::vector<Blk> live; unsigned const ops = unsigned(10 + r.below(80)); std::uint64_t sig = 0; vm::describe(vm::format("%u operations on blocks", ops));
            auto const whole = [](Blk const & b) { for (std::size_t k = 0; k < b.n; ++k) VM_CHECK(static_cast<unsigned char *>(b.p)[k] == b.tag, "block-contents", "byte %zu of a block of %zu changed", k, b.n); };
            for (unsigned k = 0; k < ops; ++k) {
                if (live.empty() || r.chance(3, 5)) { std::size_t const n = r.size(3000); std::size_t A = 0; void * p = nullptr;
#define AL(kk, aa) case kk: A = aa; p = get<aa>(n, r); break;
                    switch (r.below(13)) { AL(0, 1) AL(1, 2) AL(2, 4) AL(3, 8) AL(4, 16) AL(5, 32) AL(6, 64) AL(7, 128) AL(8, 256) AL(9, 512) AL(10, 1024) AL(11, 4096) AL(12, 65536) }
                    VM_CHECK(p, "allocation", "no memory for %zu bytes aligned at %zu", n, A); VM_CHECK(reinterpret_cast<std::uintptr_t>(p) % A == 0, "alignment", "a block to be aligned at %zu is at %p", A, p);
                    Blk const b{p, n, A, static_cast<unsigned char>(r.next())}; if (n) std::memset(p, b.tag, n); live.push_back(b); sig = vm::mix(sig ^ (A * 4096 + n)); }
                else { std::size_t const a = r.below(live.size()); whole(live[a]); freeAlignedStorage(live[a].p); live[a] = live.back(); live.pop_back(); } }
            for (auto const & b : live) { whole(b); freeAlignedStorage(b.p); }
            freeAlignedStorage(nullptr);
            std::size_t const huge = ~std::size_t(0) / (r.flip() ? 1 : 2) - r.below(100); VM_CHECK(!allocateAlignedStorage<16>(huge, std::nothrow), "impossible-size", "%zu bytes were allocated", huge);
            bool ok = false; try { freeAlignedStorage(allocateAlignedStorage<64>(huge)); } catch (std::bad_alloc const &) { ok = true; } VM_CHECK(ok, "impossible-size", "%zu bytes were allocated", huge);
            vm::event("blocks", ops); vm::signature(sig); } break;
        case 1: vm::describe("aligned objects"); members<1>(r); members<4>(r); members<16>(r); members<64>(r); members<4096>(r); vm::event("objects", 5); vm::signature(i); break;
        default: switch (r.below(6)) { case 0: return allocator<char>(r, "char"); case 1: return allocator<std::uint16_t>(r, "16-bit integers"); case 2: return allocator<Odd5>(r, "5 byte structures"); case 3: return allocator<std::uint64_t>(r, "64-bit integers"); case 4: return allocator<Wide>(r, "cache lines"); default: return allocator<Page>(r, "1 KiB aligned blocks"); }
        }
    });
}
