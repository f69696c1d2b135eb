/* P18: hashing and comparing strings across representations.
   VM-VARIANTS: asan plain */
#include "vm.hpp"
#include <boost/functional/hash.hpp>
#include <boost/range/as_literal.hpp>
#include <boost/range/join.hpp>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <sharemind/Hash.h>
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/StringHasher.h>
#include <sharemind/StringHashTablePredicate.h>
#include <sharemind/StringView.h>
#include <sstream>

namespace {
using sharemind::StringHasher;
using Eq = StringHasher::transparent_key_equal;

std::string content(vm::Rng & r, unsigned kind) {
    std::size_t const n = r.chance(1, 30) ? 200 + r.below(4000) : r.size(kind % 3 ? 9 : 70);
    std::string s(n, '\0');
    for (char & c : s)
        switch (kind % 4) {
        case 0: c = char(r.below(256)); break;
        case 1: c = "ab"[r.below(2)]; break;
        case 2: c = "a\0\xff"[r.below(3)]; break;
        default: c = char('a' + r.below(26)); break;
        }
    return s;
}
/* The characters in a block of exactly their size: reads past the end are seen. */
struct Exact {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit Exact(std::string const & s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    using iterator = char const *; using const_iterator = char const *;
    char const * begin() const { return p.get(); }
    char const * end() const { return p.get() + n; }
};
struct CStr { std::unique_ptr<char[]> p;
    explicit CStr(std::string const & s) : p(new char[s.size() + 1]) { std::memcpy(p.get(), s.c_str(), s.size() + 1); } };
struct EndByCount { char const * e; };
inline bool operator==(char const * a, EndByCount b) { return a == b.e; }
inline bool operator!=(char const * a, EndByCount b) { return a != b.e; }
inline bool operator==(EndByCount b, char const * a) { return a == b.e; }
inline bool operator!=(EndByCount b, char const * a) { return a != b.e; }
struct SentinelRange { Exact const * x;
    char const * begin() const { return x->begin(); } EndByCount end() const { return EndByCount{x->end()}; } };

/* Calls f(name, representation) for every representation of the contents. */
template <typename F> void representations(std::string const & s, F && f) {
    Exact const exact(s);
    std::string lv(s); std::string const cs(s);
    f("std::string", lv); f("std::string const", cs);
    f("std::vector<char>", std::vector<char>(s.begin(), s.end()));
    std::vector<char> const cv(s.begin(), s.end()); f("std::vector<char> const", cv);
    f("std::deque<char>", std::deque<char>(s.begin(), s.end()));
    f("std::list<char>", std::list<char>(s.begin(), s.end()));
    std::forward_list<char> const fl(s.begin(), s.end()); f("std::forward_list<char> const", fl);
    f("exact memory", exact);
    f("StringView", sharemind::StringView(exact.p.get(), exact.n));
    f("sentinel-terminated range", SentinelRange{&exact});
    std::size_t const half = s.size() / 2;
    std::string const a = s.substr(0, half), b = s.substr(half);
    auto const joined = boost::join(a, b); f("joined range", joined);
}
}

VM_SCENARIO(sameContents, "asan plain", 5000, 400000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::string const s = content(r, unsigned(i));
        vm::describe(vm::format("size=%zu text=%s", s.size(), vm::jsonStr(s.substr(0, 300)).c_str()));
        std::size_t const h = StringHasher()(s);
        std::uint64_t n = 0;
        representations(s, [&](char const * name, auto && rep) {
            VM_CHECK(StringHasher()(rep) == h, "hash", "%s hashes differently from std::string", name);
            VM_CHECK(StringHasher()(std::begin(rep), std::end(rep)) == h, "hash", "the iterators of %s hash differently", name);
            VM_CHECK(Eq()(s, rep) && Eq()(rep, s), "equality", "%s does not equal the string with its contents", name);
            auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(rep);
            VM_CHECK(pred.hash() == h, "predicate-hash", "the predicate for %s has another hash", name);
            VM_CHECK(pred(s), "predicate", "the predicate for %s refuses the string with its contents", name);
            auto && again = sharemind::getOrCreateTemporaryStringHashTablePredicate(pred);
            VM_CHECK(&again == &pred, "predicate", "a predicate was wrapped");
            auto && fixed = sharemind::getOrCreateTemporaryStringHashTablePredicate(rep, h + 1u);
            VM_CHECK(fixed.hash() == h + 1u && fixed(s), "predicate", "predicate with a given hash");
            ++n;
        });
        VM_CHECK(StringHasher()(std::string(s)) == h, "hash", "std::string && hashes differently");
        if (s.find('\0') == s.npos) {
            CStr const c(s);
            char const * const p = c.p.get(); char * const m = c.p.get();
            VM_CHECK(StringHasher()(p) == h && StringHasher()(m) == h, "hash", "C string hashes differently");
            VM_CHECK(Eq()(s, p) && Eq()(p, s), "equality", "C string does not equal the string");
            auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(p);
            VM_CHECK(pred.hash() == h && pred(s), "predicate", "C string predicate");
            ++n;
        }
        if (!s.empty()) { /* input iterators are read once */
            std::istringstream in(s);
            VM_CHECK(StringHasher()(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()) == h, "hash", "a single-pass range hashes differently");
        }
        vm::signature(h); vm::event("representations", n);
    });
}
VM_SCENARIO(differentContents, "asan plain", 8000, 600000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::string const s = content(r, unsigned(i));
        std::string t = s;
        switch (r.below(7)) {
        case 0: t = content(r, unsigned(i)); break;
        case 1: t += '\0'; break;
        case 2: t += std::string("\0tail", 5); break;
        case 3: if (!t.empty()) t.pop_back(); break;
        case 4: if (!t.empty()) t[r.below(t.size())] ^= char(1 << r.below(8)); break;
        case 5: if (!t.empty()) t[t.size() - 1] ^= char(0x80); break;
        default: if (t.size() > 1) std::swap(t[0], t[t.size() - 1]); break;
        }
        bool const eq = s == t;
        vm::describe(vm::format("%s against %s", vm::jsonStr(s.substr(0, 200)).c_str(), vm::jsonStr(t.substr(0, 200)).c_str()));
        VM_CHECK(Eq()(s, t) == eq, "equality", "std::string against std::string");
        std::uint64_t n = 0;
        representations(t, [&](char const * name, auto && rep) {
            VM_CHECK(Eq()(s, rep) == eq && Eq()(rep, s) == eq, "equality", "comparison with %s gives %d, contents give %d", name, int(Eq()(s, rep)), int(eq));
            auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(rep);
            VM_CHECK(pred(s) == eq, "predicate", "the predicate for %s gives %d, contents give %d", name, int(pred(s)), int(eq));
            ++n;
        });
        if (t.find('\0') == t.npos) {
            CStr const c(t); char const * const p = c.p.get();
            VM_CHECK(Eq()(s, p) == eq && Eq()(p, s) == eq, "equality", "comparison with a C string gives %d, contents give %d", int(Eq()(s, p)), int(eq));
            auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(p);
            VM_CHECK(pred(s) == eq, "predicate", "the predicate for a C string gives %d, contents give %d", int(pred(s)), int(eq));
        }
        VM_CHECK(!eq || StringHasher()(s) == StringHasher()(t), "hash", "equal strings, different hashes");
        vm::event(eq ? "equal_pairs" : "different_pairs"); vm::event("representations", n);
        vm::signature(vm::hashStr(s) * 31u + vm::hashStr(t));
    });
}
VM_SCENARIO(maps, "asan", 700, 40000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        sharemind::SimpleUnorderedStringMap<int> m;
        std::map<std::string, int> ref;
        std::vector<std::string> pool;
        for (unsigned k = 0; k < 12; ++k) {
            pool.push_back(content(r, unsigned(i)));
            if (r.flip()) pool.push_back(pool.back() + '\0');
            if (r.flip()) pool.push_back(pool.back().substr(0, pool.back().find('\0')));
        }
        for (auto const & s : pool) if (r.flip()) { int const v = int(r.below(1000)); m.emplace(s, v); ref.emplace(s, v); }
        std::uint64_t hits = 0, sig = 0;
        for (auto const & s : pool) {
            auto const e = ref.find(s);
            bool const in = e != ref.end();
            auto const & c = m;
            vm::describe(vm::format("lookup of %s", vm::jsonStr(s.substr(0, 300)).c_str()));
            auto const ok = [&](auto it, auto end, char const * how, char const * name) {
                VM_CHECK((it != end) == in, "lookup", "%s by %s %s", how, name, in ? "misses the entry" : "finds another entry");
                if (in) VM_CHECK(it->first == s && it->second == e->second, "lookup", "%s by %s finds another entry", how, name);
                ++hits;
            };
            representations(s, [&](char const * name, auto && rep) {
                ok(m.find(rep), m.end(), "find", name); ok(c.find(rep), c.end(), "find const", name);
                VM_CHECK(c.contains(rep) == in && c.count(rep) == in, "lookup", "contains by %s", name);
                auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(rep);
                ok(m.find(pred), m.end(), "find by predicate", name); ok(c.find(pred), c.end(), "find const by predicate", name);
                VM_CHECK(c.contains(pred) == in && c.count(pred) == in, "lookup", "contains by predicate for %s", name);
            });
            if (s.find('\0') == s.npos) {
                CStr const cs(s); char const * const p = cs.p.get();
                ok(m.find(p), m.end(), "find", "C string"); VM_CHECK(c.contains(p) == in, "lookup", "contains by C string");
                auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(p);
                ok(m.find(pred), m.end(), "find by predicate", "C string");
            }
            sig = sig * 31u + vm::hashStr(s) + in;
        }
        for (auto const & s : pool) if (r.chance(1, 3)) {
            std::list<char> const l(s.begin(), s.end());
            bool const in = ref.erase(s);
            VM_CHECK(std::size_t(m.erase(l)) == in && m.size() == ref.size(), "erase", "erase by list of characters");
        }
        for (auto const & e : ref) VM_CHECK(m.contains(e.first), "erase", "erased another entry");
        vm::event("lookups", hits); vm::signature(sig);
    });
}
/* Literals, and hashes of views and raw data. */
VM_SCENARIO(viewsAndRaw, "asan plain", 6000, 400000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        using sharemind::StringView; using sharemind::asLiteralStringRange;
        std::string const s = content(r, unsigned(i));
        Exact const a(s), b(s);
        vm::describe(vm::format("%s", vm::jsonStr(s.substr(0, 300)).c_str()));
        StringView const va(a.p.get(), a.n), vb(b.p.get(), b.n);
        VM_CHECK(boost::hash<StringView>()(va) == boost::hash<StringView>()(vb), "view-hash", "equal views at different addresses hash differently");
        VM_CHECK(sharemind::hashRawData(a.p.get(), a.n) == sharemind::hashRawData(b.p.get(), b.n), "raw-hash", "equal bytes at different addresses hash differently");
        std::size_t const k = r.below(s.size() + 1u), seed = r.next();
        VM_CHECK(sharemind::hashCombineRawData(seed, a.p.get(), a.n) == sharemind::hashCombineRawData(seed, b.p.get(), b.n), "raw-hash", "seeded hash of equal bytes differs");
        VM_CHECK(sharemind::hashRawData(a.p.get(), k, a.p.get() + k, a.n - k)
                 == sharemind::hashCombineRawData(sharemind::hashRawData(b.p.get(), k), b.p.get() + k, b.n - k), "raw-hash", "hashing several blocks is not chained hashing");
        VM_CHECK(sharemind::hashCombineRawData(seed, a.p.get(), k, a.p.get() + k, a.n - k)
                 == sharemind::hashCombineRawData(sharemind::hashCombineRawData(seed, b.p.get(), k), b.p.get() + k, b.n - k), "raw-hash", "seeded hashing of several blocks is not chained hashing");
        if (!s.empty()) { /* every byte counts (four values of one can not all collide) */
            std::size_t const at = r.flip() ? r.below(s.size()) : s.size() - 1u - r.below(std::min<std::size_t>(s.size(), 9u));
            bool raw = false, view = false, seeded = false; std::string t(s);
            for (unsigned d = 1; d < 256; d += 85) {
                t[at] = char(s[at] ^ char(d)); Exact const c(t);
                raw |= sharemind::hashRawData(c.p.get(), c.n) != sharemind::hashRawData(a.p.get(), a.n);
                seeded |= sharemind::hashCombineRawData(seed, c.p.get(), c.n) != sharemind::hashCombineRawData(seed, a.p.get(), a.n);
                view |= boost::hash<StringView>()(StringView(c.p.get(), c.n)) != boost::hash<StringView>()(va);
            }
            VM_CHECK(raw && seeded, "raw-hash", "byte %zu of %zu has no part in the hash", at, s.size());
            VM_CHECK(view, "view-hash", "character %zu of %zu has no part in the hash", at, s.size());
        }
        std::uint64_t const w1 = r.word(), w2 = w1;
        VM_CHECK(sharemind::RawHasher()(w1) == sharemind::RawHasher()(w2) && sharemind::RawHasherT<std::uint64_t>()(w1) == sharemind::RawHasher()(w1), "raw-hash", "equal objects hash differently");
        struct M { std::size_t h; std::size_t hash() const { return h; } } const m{seed};
        VM_CHECK(sharemind::HashMemberCaller()(m) == seed && sharemind::HashMemberCallerT<M>()(m) == seed, "member-hash", "hash() of the object");
#define LIT(l) do { std::string const t(l, sizeof(l) - 1u); std::size_t const h = StringHasher()(t); \
            auto range = asLiteralStringRange(l); auto const crange = asLiteralStringRange(l); auto bl = boost::as_literal(l); \
            VM_CHECK(range.size() == t.size() && std::size_t(range.end() - range.begin()) == t.size() && std::equal(range.cbegin(), range.cend(), t.begin()), "literal", "literal range of \"" #l "\""); \
            VM_CHECK(StringHasher()(range) == h && StringHasher()(crange) == h, "literal", "the literal range hashes differently"); \
            VM_CHECK(Eq()(t, range) && Eq()(crange, t), "literal", "the literal range does not equal the string"); \
            VM_CHECK(Eq()(s, range) == (s == t) && Eq()(range, s) == (s == t), "literal", "comparison with the literal range"); \
            auto && pred = sharemind::getOrCreateTemporaryStringHashTablePredicate(range); \
            VM_CHECK(pred.hash() == h && pred(t) && pred(s) == (s == t), "literal", "predicate of the literal range"); \
            if (t.find('\0') == t.npos) { VM_CHECK(StringHasher()(l) == h && StringHasher()(bl) == h && Eq()(t, l) && Eq()(l, t) && Eq()(s, l) == (s == t), "literal", "the literal itself"); } \
        } while (false)
        LIT(""); LIT("a"); LIT("ab"); LIT("abab"); LIT("a\0b"); LIT("\0"); LIT("\xff\xfe"); LIT("the quick brown fox jumps over the lazy dog");
        vm::signature(vm::hashStr(s)); vm::event("contents");
    });
}
