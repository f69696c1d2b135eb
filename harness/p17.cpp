/* P17: unordered map against a mathematical map.
   VM-VARIANTS: asan native */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <map>
#include <memory>
#include <set>
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/UnorderedMap.h>

namespace {
using vm::Tracked;

/* ---- keys ---- */
struct TKey { /* key with tracked lifetime */
    Tracked t;
    explicit TKey(long v) : t(v) {}
    bool operator==(TKey const & o) const { return t == o.t; }
};
template <typename K> struct Mk;
template <> struct Mk<int> { static int make(unsigned i) { return int(i) * 7 - 20; } };
template <> struct Mk<std::string> {
    static std::string make(unsigned i) {
        std::string s = i % 3 ? std::to_string(i) : "a key too long for the small buffer, number " + std::to_string(i);
        if (i % 5 == 1) s += std::string("\0x", 2);
        if (i == 0) s.clear();
        return s;
    }
};
template <> struct Mk<TKey> { static TKey make(unsigned i) { return TKey(long(i)); } };

/* ---- hashers with state and collisions ---- */
struct SaltHash {
    unsigned salt = 1, mod = 5;
    std::size_t operator()(int k) const noexcept { return (std::size_t(k) * salt) % mod; }
    std::size_t operator()(TKey const & k) const noexcept { return (std::size_t(k.t.get()) * salt) % mod; }
};
struct Num { unsigned i; }; /* not hashable, comparable with keys */
struct TransHash {
    struct transparent_key_equal {
        using is_transparent = void;
        bool operator()(std::string const & a, std::string const & b) const noexcept { return a == b; }
        bool operator()(std::string const & a, char const * b) const noexcept { return a == b; }
        bool operator()(std::string const & a, Num b) const noexcept { return a == Mk<std::string>::make(b.i); }
    };
    std::size_t operator()(std::string const & s) const noexcept { return s.size() % 4u; }
    std::size_t operator()(char const * s) const noexcept { return std::strlen(s) % 4u; }
};
/* ---- stateful allocator ---- */
template <typename T, bool Prop> struct CountAlloc {
    using value_type = T;
    using pointer = T *; using const_pointer = T const *;
    using reference = T &; using const_reference = T const &;
    using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, Prop>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Prop>;
    using propagate_on_container_swap = std::integral_constant<bool, Prop>;
    template <typename U> struct rebind { using other = CountAlloc<U, Prop>; };
    unsigned id = 0;
    static long * live() { static long v[8]; return v; }
    CountAlloc() = default;
    explicit CountAlloc(unsigned i) : id(i) {}
    template <typename U> CountAlloc(CountAlloc<U, Prop> const & o) noexcept : id(o.id) {}
    T * allocate(std::size_t n) { T * r = static_cast<T *>(::operator new(n * sizeof(T))); ++CountAlloc<char, Prop>::live()[id]; return r; }
    void deallocate(T * p, std::size_t) noexcept { --CountAlloc<char, Prop>::live()[id]; ::operator delete(p); }
    template <typename U> bool operator==(CountAlloc<U, Prop> const & o) const noexcept { return id == o.id; }
    template <typename U> bool operator!=(CountAlloc<U, Prop> const & o) const noexcept { return id != o.id; }
};

template <typename Map> struct Under {
    std::unique_ptr<Map> m;
    struct E { long v; void const * addr; unsigned a = ~0u; }; /* a: the allocator it was made with */
    std::map<unsigned, E> ref;
    float mlf = 1; /* maximal load factor */
    unsigned alloc = 0; /* allocator the elements and map are expected to report */
};
template <typename K> struct HPred {
    std::size_t h; K const * k;
    std::size_t hash() const noexcept { return h; }
    bool operator()(K const & o) const { return o == *k; }
};

struct AllocNone {
    template <typename A> static A make(unsigned) { return A(); }
    template <typename A> static unsigned id(A const &) { return 0; }
    static bool prop() { return false; }
    static long live(unsigned) { return -1; }
};
template <bool P> struct AllocCount {
    template <typename A> static A make(unsigned i) { return A(i); }
    template <typename A> static unsigned id(A const & a) { return a.id; }
    static bool prop() { return P; }
    static long live(unsigned i) { return CountAlloc<char, P>::live()[i]; }
};

template <typename Map, typename AP, typename Extra>
void history(vm::Rng & r, Extra extra) {
    using K = typename Map::key_type;
    using U = Under<Map>;
    using V = typename Map::value_type;
    unsigned const keys = unsigned(2 + r.below(r.flip() ? 6 : 40)), ops = unsigned(20 + r.below(140));
    vm::describe(vm::format("keys=%u ops=%u", keys, ops));
    vm::LiveBalance balance;
    std::uint64_t sig = keys, checks = 0, ooms = 0;
    auto const alloc = [](unsigned i) { return AP::template make<typename Map::allocator_type>(i); };
    auto const hasherOf = [&r](auto const & h) { auto c = h; (void) r; return c; };
    {
        std::vector<U> us(3);
        auto const indexOf = [&](K const & k) {
            for (unsigned i = 0; i < keys; ++i) if (Mk<K>::make(i) == k) return i;
            vm::violation("foreign-key", "map holds a key that was never given to it");
            return 0u;
        };
        auto const full = [&](U & u, char const * op) {
            ++checks;
            Map & m = *u.m; Map const & c = m;
            VM_CHECK(c.size() == u.ref.size(), "size", "after %s: size %zu, expected %zu", op, c.size(), u.ref.size());
            VM_CHECK(c.empty() == u.ref.empty(), "empty", "after %s: empty()", op);
            std::set<unsigned> seen;
            std::size_t n = 0;
            for (auto it = c.begin(); it != c.end(); ++it) {
                VM_CHECK(++n <= u.ref.size(), "iteration", "after %s: iteration visits more elements than there are", op);
                unsigned const k = indexOf(it->first);
                VM_CHECK(seen.insert(k).second, "iteration", "after %s: key %u visited twice", op, k);
                auto const e = u.ref.find(k);
                VM_CHECK(e != u.ref.end(), "iteration", "after %s: key %u visited but not in the map", op, k);
                VM_CHECK(it->second.get() == e->second.v, "value", "after %s: value of key %u is %ld, expected %ld", op, k, it->second.get(), e->second.v);
                VM_CHECK(static_cast<void const *>(&*it) == e->second.addr, "address", "after %s: element %u has moved", op, k);
                VM_CHECK(c.bucket(it) == c.bucket(it->first) && c.bucket(it->first) < c.bucket_count(), "bucket", "after %s: bucket of %u", op, k);
                VM_CHECK(c.hash_bucket(c.hash_function()(it->first)) == c.bucket(it), "bucket", "after %s: hash_bucket() of %u", op, k);
            }
            VM_CHECK(n == u.ref.size(), "iteration", "after %s: iteration visits %zu of %zu elements", op, n, u.ref.size());
            n = 0; for (auto it = m.begin(); it != m.end(); ++it) ++n;
            VM_CHECK(n == u.ref.size() && std::size_t(std::distance(c.cbegin(), c.cend())) == n, "iteration", "after %s: mutable iteration", op);
            std::size_t sum = 0;
            if (c.bucket_count() < 400)
                for (std::size_t b = 0; b < c.bucket_count(); ++b) {
                    std::size_t inB = 0;
                    for (auto it = c.begin(b); it != c.end(b); ++it) {
                        ++inB;
                        VM_CHECK(c.bucket((*it).first) == b, "bucket", "after %s: element in the wrong bucket", op);
                    }
                    VM_CHECK(inB == c.bucket_size(b) && inB == std::size_t(std::distance(m.begin(b), m.end(b)))
                             && inB == std::size_t(std::distance(c.cbegin(b), c.cend(b))), "bucket", "after %s: bucket_size", op);
                    sum += inB;
                }
            else sum = c.size();
            VM_CHECK(sum == c.size(), "bucket", "after %s: buckets hold %zu of %zu elements", op, sum, c.size());
            for (unsigned k = 0; k < keys; ++k) {
                K const key = Mk<K>::make(k);
                auto const e = u.ref.find(k);
                bool const in = e != u.ref.end();
                auto const hash = m.hash_function()(key);
                auto const ok = [&](auto it, auto end, char const * how) {
                    VM_CHECK((it != end) == in, "lookup", "after %s: %s %s key %u", op, how, in ? "misses" : "finds absent", k);
                    if (in)
                        VM_CHECK(static_cast<void const *>(&*it) == e->second.addr, "lookup", "after %s: %s finds another element for key %u", op, how, k);
                };
                ok(m.find(key), m.end(), "find(key)");
                ok(c.find(key), c.end(), "find(key) const");
                ok(m.find(hash, key), m.end(), "find(hash, key)");
                ok(c.find(hash, key), c.end(), "find(hash, key) const");
                auto const pred = [&key](K const & o) { return o == key; };
                ok(m.find(hash, pred), m.end(), "find(hash, pred)");
                ok(c.find(hash, pred), c.end(), "find(hash, pred) const");
                auto const bpred = [](K const & o, K const & x) { return o == x; };
                ok(m.find(hash, bpred, key), m.end(), "find(hash, pred, key)");
                ok(c.find(hash, bpred, key), c.end(), "find(hash, pred, key) const");
                HPred<K> const hp{hash, &key};
                ok(m.find(hp), m.end(), "find(predicate)");
                ok(c.find(hp), c.end(), "find(predicate) const");
                extra(m, k, ok);
                VM_CHECK(c.contains(key) == in && c.contains(hash, pred) == in && c.contains(hp) == in && c.contains(hash, bpred, key) == in,
                         "contains", "after %s: contains() of key %u", op, k);
                VM_CHECK(c.count(key) == in && c.count(hash, pred) == in && c.count(hp) == in && c.count(hash, bpred, key) == in,
                         "count", "after %s: count() of key %u", op, k);
                auto er = m.equal_range(key); auto cer = c.equal_range(hash, pred);
                VM_CHECK(std::size_t(std::distance(er.first, er.second)) == in && std::size_t(std::distance(cer.first, cer.second)) == in,
                         "equal_range", "after %s: equal_range() of key %u", op, k);
                if (in) { ok(er.first, m.end(), "equal_range"); ok(cer.first, c.end(), "equal_range const"); }
                long got = -1; bool thrown = false, cthrown = false;
                try { got = m.at(key).get(); } catch (std::out_of_range const &) { thrown = true; }
                VM_CHECK(thrown == !in && (!in || got == e->second.v), "at", "after %s: at() of key %u", op, k);
                try { got = c.at(key).get(); } catch (std::out_of_range const &) { cthrown = true; }
                VM_CHECK(cthrown == !in && (!in || got == e->second.v), "at", "after %s: at() const of key %u", op, k);
            }
            VM_CHECK(AP::id(m.get_allocator()) == u.alloc, "allocator", "after %s: get_allocator()", op);
            VM_CHECK(c.max_load_factor() == u.mlf, "max_load_factor", "after %s: max_load_factor() is %g, expected %g", op, double(c.max_load_factor()), double(u.mlf));
            VM_CHECK(c.load_factor() <= u.mlf * 1.0001f, "max_load_factor", "after %s: load factor %g above its maximum %g", op, double(c.load_factor()), double(u.mlf));
        };
        auto const adopt = [&](U & u, char const * op) { /* addresses of fresh copies */
            for (auto & e : u.ref) {
                K const key = Mk<K>::make(e.first);
                auto const it = u.m->find(key);
                VM_CHECK(it != u.m->end(), "lookup", "after %s: key %u is missing", op, e.first);
                VM_CHECK(static_cast<void const *>(&*it) != e.second.addr || !e.second.addr, "aliasing", "after %s: the copy shares element %u with its original", op, e.first);
                e.second.addr = &*it; e.second.a = ~0u;
            }
        };
        for (unsigned i = 0; i < us.size(); ++i) {
            us[i].alloc = AP::id(alloc(i));
            us[i].m.reset(new Map(r.below(20), alloc(i)));
        }
        long next = 1;
        for (unsigned i = 0; i < ops; ++i) {
            U & u = us[r.below(us.size())];
            Map & m = *u.m;
            unsigned const k = unsigned(r.below(keys)), op = unsigned(r.below(36));
            K key = Mk<K>::make(k);
            long const v = next++;
            auto const had = u.ref.find(k);
            bool const in = had != u.ref.end();
            char const * name = "?";
            long const oom = r.chance(1, 12) ? long(1 + r.below(5)) : 0;
            auto const guard = [&](auto && f) { /* false: the operation ran out of memory */
                vm::Oom o(oom);
                try { f(); return true; }
                catch (std::bad_alloc const &) { VM_CHECK(vm::Oom::fired(), "bad-alloc", "unexpected std::bad_alloc"); ++ooms; return false; }
            };
            auto const inserted = [&](auto const & res) { /* insert-like result */
                vm::Oom::countdown() = 0;
                VM_CHECK(res.second == !in, "insert-result", "%s reports %s for key %u", name, res.second ? "inserted" : "present", k);
                VM_CHECK(indexOf(res.first->first) == k, "insert-result", "%s returns another element", name);
                if (!in) u.ref[k] = {v, &*res.first};
                else VM_CHECK(&*res.first == had->second.addr, "insert-result", "%s returns another element", name);
            };
            auto const insertedIt = [&](auto const & it) {
                vm::Oom::countdown() = 0;
                VM_CHECK(indexOf(it->first) == k, "insert-result", "%s returns another element", name);
                if (!in) u.ref[k] = {v, &*it};
                else VM_CHECK(&*it == had->second.addr, "insert-result", "%s returns another element", name);
            };
            Tracked val(v);
            switch (op) {
            case 0: case 1: name = "emplace(key, value)"; guard([&] { inserted(m.emplace(key, val)); }); break;
            case 2: name = "emplace(piecewise)"; guard([&] { inserted(m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(key)), std::forward_as_tuple(v))); }); break;
            case 3: { name = "insert(value const &)"; V const p(key, val); guard([&] { inserted(m.insert(p)); }); break; }
            case 4: { name = "insert(value &&)"; V p(key, val); guard([&] { inserted(m.insert(std::move(p))); }); break; }
            case 5: { name = "insert(pair)"; auto p = std::make_pair(key, val); guard([&] { inserted(m.insert(std::move(p))); }); break; }
            case 6: { name = "insert(hint, value)"; V const p(key, val); auto hint = m.cbegin(); guard([&] { insertedIt(m.insert(hint, p)); }); break; }
            case 7: { name = "emplace_hint"; auto hint = m.cend(); guard([&] { insertedIt(m.emplace_hint(hint, key, val)); }); break; }
            case 8: case 9: { name = "insert(range)";
                std::vector<std::pair<K, Tracked> > in2; std::vector<unsigned> ks;
                for (unsigned n = unsigned(r.below(6)); n; --n) { ks.push_back(unsigned(r.below(keys))); in2.emplace_back(Mk<K>::make(ks.back()), Tracked(next++)); }
                m.insert(in2.begin(), in2.end());
                for (std::size_t j = 0; j < ks.size(); ++j)
                    if (!u.ref.count(ks[j])) {
                        auto const it = m.find(in2[j].first);
                        VM_CHECK(it != m.end(), "lookup", "insert(range) has not inserted key %u", ks[j]);
                        u.ref[ks[j]] = {in2[j].second.get(), &*it};
                    }
                break; }
            case 10: { name = "insert(list)";
                unsigned const k2 = unsigned(r.below(keys)); long const v2 = next++;
                m.insert({V(key, val), V(Mk<K>::make(k2), Tracked(v2)), V(key, Tracked(-7))});
                if (!in) u.ref[k] = {v, &*m.find(key)};
                if (!u.ref.count(k2)) u.ref[k2] = {v2, &*m.find(Mk<K>::make(k2))};
                break; }
            case 11: case 12: name = "insert_or_assign"; guard([&] { inserted(r.flip() ? m.insert_or_assign(key, val) : m.insert_or_assign(std::move(key), val)); u.ref[k].v = v; }); break;
            case 13: { name = "insert_or_assign(hint)"; auto hint = m.cbegin(); bool const b = r.flip();
                guard([&] { insertedIt(b ? m.insert_or_assign(hint, key, val) : m.insert_or_assign(hint, std::move(key), val)); u.ref[k].v = v; }); break; }
            case 14: case 15: name = "operator[]"; { bool const b = r.flip();
                guard([&] {
                    Tracked & t = b ? m[key] : m[std::move(key)];
                    vm::Oom::countdown() = 0;
                    if (in) VM_CHECK(t.get() == had->second.v, "subscript", "operator[] gives %ld for key %u, expected %ld", t.get(), k, had->second.v);
                    else VM_CHECK(t.get() == 0, "subscript", "operator[] does not give a default value for a new key");
                    t = val; }
                ) ? void((u.ref[k].v = v, u.ref[k].addr = &*m.find(Mk<K>::make(k)))) : void();
                break; }
            case 16: case 17: case 18: { name = "erase(key)"; auto const n = m.erase(key);
                VM_CHECK(std::size_t(n) == in, "erase-result", "erase(key) gives %zu", std::size_t(n)); u.ref.erase(k); break; }
            case 19: case 20: { name = "erase(iterator)"; if (!in) break;
                typename Map::const_iterator it = m.find(key); auto nx = std::next(it);
                V const * const following = nx == m.cend() ? nullptr : &*nx;
                auto const res = m.erase(it);
                VM_CHECK(following ? res != m.end() && &*res == following : res == m.end(), "erase-result", "erase(iterator) does not return the following position");
                u.ref.erase(k); break; }
            case 21: { name = "erase(range)";
                std::size_t const a = r.below(m.size() + 1u), b = a + r.below(m.size() - a + 1u);
                auto f = std::next(m.cbegin(), std::ptrdiff_t(a)), l = std::next(m.cbegin(), std::ptrdiff_t(b));
                std::vector<unsigned> gone; for (auto it = f; it != l; ++it) gone.push_back(indexOf(it->first));
                V const * const following = l == m.cend() ? nullptr : &*l;
                auto const res = m.erase(f, l);
                VM_CHECK(following ? res != m.end() && &*res == following : res == m.end(), "erase-result", "erase(range) does not return the end of the range");
                for (unsigned g : gone) u.ref.erase(g);
                break; }
            case 22: name = "clear"; if (r.chance(1, 3)) { m.clear(); u.ref.clear(); } break;
            case 23: { name = "assign through iterator"; if (!in) break; m.find(key)->second = val; had->second.v = v; break; }
            case 24: { name = "rehash"; std::size_t const n = r.below(70); guard([&] { m.rehash(n); VM_CHECK(m.bucket_count() >= n, "rehash", "rehash(%zu) gives %zu buckets", n, m.bucket_count()); });
                VM_CHECK(m.load_factor() <= m.max_load_factor() * 1.0001f, "rehash", "load factor above its maximum"); break; }
            case 25: { name = "reserve"; std::size_t const n = r.below(70); guard([&] { m.reserve(n); VM_CHECK(float(m.bucket_count()) * m.max_load_factor() * 1.0001f >= float(n), "rehash", "reserve(%zu) gives %zu buckets", n, m.bucket_count()); }); break; }
            case 26: { name = "max_load_factor"; float const f = float(1 + r.below(8)) / 2; m.max_load_factor(f); u.mlf = f; VM_CHECK(m.max_load_factor() == f, "max_load_factor", "max_load_factor()"); m.rehash(0); break; }
            case 27: { name = "copy construction"; U & o = us[r.below(us.size())]; bool const withA = r.flip(); unsigned const na = unsigned(r.below(3));
                std::unique_ptr<Map> n;
                if (!guard([&] { n.reset(withA ? new Map(m, alloc(na)) : new Map(static_cast<Map const &>(m))); })) break;
                VM_CHECK(*n == m && !(*n != m), "equality", "a fresh copy differs from the original");
                auto const ref = u.ref; unsigned const ua = u.alloc; o.mlf = u.mlf;
                o.m = std::move(n); o.ref = ref; o.alloc = withA ? AP::id(alloc(na)) : ua;
                if (&o != &u) adopt(o, name); else for (auto & e : o.ref) { auto it = o.m->find(Mk<K>::make(e.first)); VM_CHECK(it != o.m->end(), "lookup", "lost in copying"); e.second.addr = &*it; e.second.a = ~0u; }
                break; }
            case 28: { name = "copy assignment"; U & o = us[r.below(us.size())];
                if (!guard([&] { *o.m = static_cast<Map const &>(m); })) { o.m->clear(); o.ref.clear(); o.mlf = o.m->max_load_factor(); break; }
                if (&o == &u) break;
                o.ref = u.ref; o.mlf = u.mlf; if (AP::prop()) o.alloc = u.alloc;
                adopt(o, name); break; }
            case 29: { name = "move construction"; U & o = us[r.below(us.size())]; if (&o == &u) break; bool const withA = r.flip(); unsigned const na = unsigned(r.below(3));
                o.m.reset(withA ? new Map(std::move(m), alloc(na)) : new Map(std::move(m)));
                o.ref = std::move(u.ref); o.alloc = withA ? AP::id(alloc(na)) : u.alloc; o.mlf = u.mlf; m.clear(); u.ref.clear(); u.mlf = m.max_load_factor(); break; }
            case 30: { name = "move assignment"; U & o = us[r.below(us.size())];
                *o.m = std::move(m); if (&o == &u) break;
                o.ref = std::move(u.ref); o.mlf = u.mlf; if (AP::prop()) o.alloc = u.alloc; m.clear(); u.ref.clear(); u.mlf = m.max_load_factor(); break; }
            case 31: { name = "swap"; U & o = us[r.below(us.size())]; m.swap(*o.m); if (&o == &u) break; u.ref.swap(o.ref); std::swap(u.mlf, o.mlf); if (AP::prop()) std::swap(u.alloc, o.alloc); break; }
            case 32: { name = "list assignment"; if (!r.chance(1, 2)) break; unsigned const k2 = unsigned(r.below(keys)); long const v2 = next++;
                m = {V(key, val), V(Mk<K>::make(k2), Tracked(v2)), V(key, Tracked(-7))};
                u.ref.clear(); u.ref[k] = {v, nullptr}; if (!u.ref.count(k2)) u.ref[k2] = {v2, nullptr};
                if (std::is_same<Map, sharemind::SimpleUnorderedStringMap<Tracked> >::value) u.mlf = m.max_load_factor(); /* assigned from a temporary map */
                VM_CHECK(m.size() == u.ref.size(), "size", "list assignment gives %zu elements", m.size());
                adopt(u, name); break; }
            case 33: { name = "range construction"; std::vector<std::pair<K, Tracked> > in2; u.ref.clear();
                for (unsigned n = unsigned(r.below(6)); n; --n) { unsigned const kk = unsigned(r.below(keys)); long const vv = next++; in2.emplace_back(Mk<K>::make(kk), Tracked(vv)); if (!u.ref.count(kk)) u.ref[kk] = {vv, nullptr}; }
                u.m.reset(new Map(in2.begin(), in2.end(), r.below(10), alloc(u.alloc))); u.mlf = 1; adopt(u, name); break; }
            case 34: { name = "custom hasher"; u.ref.clear(); auto h = hasherOf(m.hash_function()); extra.salt(h, unsigned(1 + r.below(9)));
                u.m.reset(new Map(r.below(10), h, alloc(u.alloc))); u.mlf = 1; break; }
            default: { name = "equality"; U & o = us[r.below(us.size())]; bool eq = u.ref.size() == o.ref.size();
                if (eq) for (auto const & e : u.ref) { auto const f = o.ref.find(e.first); if (f == o.ref.end() || f->second.v != e.second.v) eq = false; }
                VM_CHECK((m == *o.m) == eq && (m != *o.m) == !eq, "equality", "operator== gives %d, expected %d", int(m == *o.m), int(eq)); break; }
            }
            sig = vm::mix(sig ^ (std::uint64_t(op) << 32) ^ (in ? 1u : 0u) ^ us[0].ref.size() * 8u);
            std::size_t made[8] = {};
            for (U & x : us) for (auto & e : x.ref) { if (e.second.a == ~0u) e.second.a = x.alloc; ++made[e.second.a % 8u]; }
            for (unsigned a = 0; a < 3; ++a) VM_CHECK(AP::live(a) < 0 || std::size_t(AP::live(a)) >= made[a], "allocator", "after %s: %zu elements were to be made by allocator %u, it has %ld blocks out", name, made[a], a, AP::live(a));
            if (r.chance(1, 3)) full(u, name);
            if (r.chance(1, 10)) for (U & x : us) full(x, name);
        }
        for (U & x : us) full(x, "the end");
    }
    balance.expect(0, "after destroying all maps");
    vm::signature(sig); vm::event("full_checks", checks); vm::event("operations", ops); vm::event("allocation_failures", ooms);
}
struct NoExtra {
    template <typename M, typename F> void operator()(M &, unsigned, F const &) const {}
    template <typename H> static auto salt(H & h, unsigned s) -> decltype(void(h.salt)) { h.salt = s; h.mod = s % 4 + 1; }
    static void salt(...) {}
};
struct TransExtra {
    template <typename M, typename F> void operator()(M & m, unsigned k, F const & ok) const {
        M const & c = m;
        std::string const s = Mk<std::string>::make(k);
        ok(m.find(Num{k}), m.end(), "find(unhashable)"); ok(c.find(Num{k}), c.end(), "find(unhashable) const");
        VM_CHECK(c.contains(Num{k}) == c.contains(s) && c.count(Num{k}) == c.count(s), "transparent", "contains() by transparent key");
        if (s.find('\0') == s.npos) {
            ok(m.find(s.c_str()), m.end(), "find(char const *)"); ok(c.find(s.c_str()), c.end(), "find(char const *) const");
            VM_CHECK(c.contains(s.c_str()) == c.contains(s), "transparent", "contains() by C string");
        }
        if (m.contains(s) && k % 4u == 0u) { /* erase by transparent key, put back in a copy */
            M copy(c);
            VM_CHECK(copy.erase(Num{k}) == 1u && !copy.contains(s) && copy.size() + 1u == m.size() && copy.erase(Num{k}) == 0u, "transparent", "erase() by transparent key");
            M copy2(c);
            if (s.find('\0') == s.npos)
                VM_CHECK(copy2.erase(s.c_str()) == 1u && !copy2.contains(s) && m.contains(s), "transparent", "erase() by C string");
        }
    }
    static void salt(...) {}
};
struct SimpleExtra : TransExtra {
    template <typename M, typename F> void operator()(M & m, unsigned k, F const & ok) const {
        M const & c = m;
        std::string const s = Mk<std::string>::make(k);
        std::vector<char> const v(s.begin(), s.end());
        ok(m.find(v), m.end(), "find(vector)"); ok(c.find(v), c.end(), "find(vector) const");
        if (s.find('\0') == s.npos) { ok(m.find(s.c_str()), m.end(), "find(char const *)"); VM_CHECK(c.count(s.c_str()) == c.count(s), "transparent", "count() by C string"); }
    }
};
}
using sharemind::UnorderedMap;
namespace {
/* Maps which take the numbers 0 to mod-1 for keys: hash and predicate share a modulus, which travels with the map. */
struct ModHash { unsigned mod = 7; std::size_t operator()(unsigned k) const noexcept { return (k % mod) / 2u; } };
struct ModEq { unsigned mod = 7; bool operator()(unsigned a, unsigned b) const noexcept { return a % mod == b % mod; } };
using ModMap = UnorderedMap<unsigned, long, ModHash, ModEq>;
void modHistory(vm::Rng & r) {
    struct Und { std::unique_ptr<ModMap> m; std::map<unsigned, long> ref; unsigned mod; };
    auto const fresh = [&](Und & u) {
        u.mod = unsigned(1 + r.below(12)); u.ref.clear(); ModHash h; h.mod = u.mod; ModEq e; e.mod = u.mod;
        std::vector<std::pair<unsigned const, long> > init;
        for (unsigned n = unsigned(r.below(5)); n; --n) init.emplace_back(unsigned(r.below(60)), long(r.below(1000)));
        switch (r.below(3)) {
        case 0: u.m.reset(new ModMap(r.below(9), h, e)); return;
        case 1: u.m.reset(new ModMap(init.begin(), init.end(), r.below(9), h, e)); break;
        default: while (init.size() < 3) init.emplace_back(unsigned(r.below(60)), long(r.below(1000)));
            while (init.size() > 3) init.pop_back(); u.m.reset(new ModMap({init[0], init[1], init[2]}, r.below(9), h, e)); break;
        }
        for (auto const & i : init) u.ref.emplace(i.first % u.mod, i.second);
    };
    std::vector<Und> us(3); for (Und & u : us) fresh(u);
    unsigned const ops = unsigned(20 + r.below(80)); std::uint64_t sig = 0;
    for (unsigned i = 0; i < ops; ++i) {
        Und & u = us[r.below(3)]; Und & o = us[r.below(3)]; unsigned const k = unsigned(r.below(60)), op = unsigned(r.below(14)); long const v = long(r.below(1000)); bool const in = u.ref.count(k % u.mod);
        switch (op) {
        case 0: VM_CHECK(u.m->emplace(k, v).second == !in, "insert-result", "emplace() said %d", int(in)); u.ref.emplace(k % u.mod, v); break;
        case 1: VM_CHECK(u.m->insert_or_assign(k, v).second == !in, "insert-result", "insert_or_assign() said %d", int(in)); u.ref[k % u.mod] = v; break;
        case 2: (*u.m)[k] = v; u.ref[k % u.mod] = v; break;
        case 3: case 4: VM_CHECK(u.m->erase(k) == std::size_t(in), "erase-result", "erase() said %d", int(!in)); u.ref.erase(k % u.mod); break;
        case 5: if (&o != &u) { o.m.reset(new ModMap(*u.m)); o.ref = u.ref; o.mod = u.mod; } break;
        case 6: *o.m = static_cast<ModMap const &>(*u.m); o.ref = u.ref; o.mod = u.mod; break;
        case 7: if (&o != &u) { o.m.reset(new ModMap(std::move(*u.m))); o.ref = u.ref; o.mod = u.mod; fresh(u); } break;
        case 8: if (&o != &u) { *o.m = std::move(*u.m); o.ref = u.ref; o.mod = u.mod; fresh(u); } break;
        case 9: u.m->swap(*o.m); std::swap(u.ref, o.ref); std::swap(u.mod, o.mod); if (&u == &o) break; break;
        case 10: { unsigned const k2 = unsigned(r.below(60)); *u.m = {{k, v}, {k2, v + 1}, {k, -1}}; u.ref.clear(); u.ref.emplace(k % u.mod, v); u.ref.emplace(k2 % u.mod, v + 1); break; }
        case 11: fresh(u); break;
        case 12: u.m->rehash(r.below(40)); break;
        default: { bool const same = u.mod == o.mod && u.ref == o.ref; bool sameKeys = same;
            for (auto const & e : *u.m) { auto const f = o.m->find(e.first); if (same && (f == o.m->end() || f->first != e.first)) sameKeys = false; }
            if (u.mod == o.mod && (!same || sameKeys)) VM_CHECK((*u.m == *o.m) == same, "equality", "operator== gives %d", int(!same)); break; }
        }
        for (Und & x : us) {
            VM_CHECK(x.m->size() == x.ref.size(), "size", "after step %u: size %zu, expected %zu", i, x.m->size(), x.ref.size());
            VM_CHECK(x.m->hash_function().mod == x.mod && x.m->key_eq().mod == x.mod, "functions", "after step %u: hash or predicate of another map", i);
            std::map<unsigned, long> got; for (auto const & e : *x.m) got.emplace(e.first % x.mod, e.second);
            VM_CHECK(got == x.ref, "iteration", "after step %u (operation %u): contents differ", i, op);
            for (unsigned q = 0; q < 30; ++q) { auto const f = static_cast<ModMap const &>(*x.m).find(q); auto const w = x.ref.find(q % x.mod);
                VM_CHECK((f != x.m->end()) == (w != x.ref.end()) && (w == x.ref.end() || f->second == w->second), "lookup", "after step %u (operation %u): key %u", i, op, q); }
        }
        sig = vm::mix(sig ^ op ^ (us[0].ref.size() * 16u));
    }
    vm::event("operations", ops); vm::signature(sig);
}
}
VM_SCENARIO(statefulPredicate, "asan native", 800, 60000, 2, 1) { vm::runCases([](vm::Rng & r, std::uint64_t) { modHistory(r); }); }
VM_SCENARIO(intKeys, "asan native", 440, 60000, 2, 1)
{ vm::runCases([](vm::Rng & r, std::uint64_t) { history<UnorderedMap<int, Tracked, SaltHash>, AllocNone>(r, NoExtra()); }); }
VM_SCENARIO(trackedKeys, "asan", 300, 40000, 2, 1)
{ vm::runCases([](vm::Rng & r, std::uint64_t) { history<UnorderedMap<TKey, Tracked, SaltHash>, AllocNone>(r, NoExtra()); }); }
VM_SCENARIO(stringKeys, "asan native", 300, 40000, 2, 1)
{ vm::runCases([](vm::Rng & r, std::uint64_t) { history<UnorderedMap<std::string, Tracked>, AllocNone>(r, NoExtra()); }); }
VM_SCENARIO(transparent, "asan", 200, 30000, 2, 1)
{ vm::runCases([](vm::Rng & r, std::uint64_t) { history<UnorderedMap<std::string, Tracked, TransHash>, AllocNone>(r, TransExtra()); }); }
VM_SCENARIO(simpleStringMap, "asan", 200, 30000, 2, 1)
{ vm::runCases([](vm::Rng & r, std::uint64_t) { history<sharemind::SimpleUnorderedStringMap<Tracked>, AllocNone>(r, SimpleExtra()); }); }
template <bool P> void allocs() {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        using A = CountAlloc<std::pair<int const, Tracked>, P>;
        for (unsigned i = 0; i < 8; ++i) CountAlloc<char, P>::live()[i] = 0;
        history<UnorderedMap<int, Tracked, SaltHash, std::equal_to<int>, A>, AllocCount<P> >(r, NoExtra());
        for (unsigned i = 0; i < 8; ++i) VM_CHECK((CountAlloc<char, P>::live()[i] == 0), "allocator-balance", "allocator %u: %ld blocks not released", i, (CountAlloc<char, P>::live()[i]));
    });
}
VM_SCENARIO(allocatorPropagating, "asan", 120, 20000, 1, 1) { allocs<true>(); }
VM_SCENARIO(allocatorSticky, "asan", 120, 20000, 1, 1) { allocs<false>(); }
