/* P19: string views against owning strings.
   VM-VARIANTS: asan plain */
#include "vm.hpp"
#include <sys/mman.h>
#include <memory>
#include <boost/functional/hash.hpp>
#include <ostream>
#include <sharemind/StringView.h>
#include <sstream>

namespace {
/* The characters in a heap block of exactly their size. */
template <typename C> struct Exact {
    std::unique_ptr<C[]> p; std::size_t n;
    explicit Exact(std::basic_string<C> const & s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
};
template <typename C> C chr(vm::Rng & r, unsigned kind) {
    switch (kind % 4) {
    case 0: return C("ab"[r.below(2)]);
    case 1: { C const v[] = {C('a'), C(0), C('z'), C(-1)}; return v[r.below(4)]; }
    case 2: return C(r.next());
    default: return C(std::uint64_t('a') + (r.below(3) << (8 * (r.below(sizeof(C)))))); /* differ in one byte only */
    }
}
template <typename C> std::basic_string<C> text(vm::Rng & r, unsigned kind, std::size_t max) {
    std::basic_string<C> s(r.size(max), C());
    for (C & c : s) c = chr<C>(r, kind);
    return s;
}
template <typename C> std::basic_string<C> needle(vm::Rng & r, unsigned kind, std::basic_string<C> const & s) {
    if (s.empty() || r.chance(1, 3)) return text<C>(r, kind, 5);
    std::size_t const a = r.below(s.size() + 1u);
    auto n = s.substr(a, r.below(r.flip() ? 5 : s.size() + 1u));
    if (!n.empty() && r.chance(1, 3)) n[r.below(n.size())] = chr<C>(r, kind);
    if (r.chance(1, 8)) n += chr<C>(r, kind);
    return n;
}
int sgn(int v) { return (v > 0) - (v < 0); }
template <typename C> std::string show(std::basic_string<C> const & s) {
    std::string o;
    for (C c : s.substr(0, 60)) o += vm::format("%llx ", static_cast<unsigned long long>(std::make_unsigned_t<std::conditional_t<std::is_same<C, char>::value, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c)));
    return o;
}
template <typename C> void queries() {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        using S = std::basic_string<C>; using V = sharemind::BasicStringView<C>;
        constexpr auto npos = S::npos;
        unsigned const kind = unsigned(i);
        S const s = text<C>(r, kind, i % 5 ? 12 : 70);
        Exact<C> const ex(s);
        V const v = (s.empty() && r.flip()) ? V() : V(ex.p.get(), ex.n);
        C const * const base = v.data();
        vm::describe(vm::format("size=%zu: %s", s.size(), show(s).c_str()));
        std::uint64_t n = 0;
#define SAME(what, got, want) do { ++n; auto const g_ = (got); auto const w_ = (want); \
        VM_CHECK(g_ == w_, what, "%s gives %lld, the string gives %lld", #got, (long long) g_, (long long) w_); } while (0)
        SAME("size", v.size(), s.size()); SAME("size", v.length(), s.size()); SAME("empty", v.empty(), s.empty());
        SAME("iteration", std::size_t(v.end() - v.begin()), s.size()); SAME("iteration", std::equal(v.cbegin(), v.cend(), s.begin()), true);
        SAME("iteration", S(v.rbegin(), v.rend()) == S(s.rbegin(), s.rend()), true); SAME("iteration", S(v.crbegin(), v.crend()) == S(s.rbegin(), s.rend()), true);
        SAME("conversion", v.str() == s, true); SAME("conversion", v.str(std::allocator<C>()) == s, true);
        V const fromString(s), fromC(s.c_str());
        SAME("conversion", fromString.str() == s, true); SAME("conversion", fromC.str() == S(s.c_str()), true);
        SAME("conversion", V(static_cast<C const *>(nullptr)).size(), std::size_t(0));
        if (!s.empty()) { SAME("element", v.front() == s.front(), true); SAME("element", v.back() == s.back(), true);
            std::size_t const at = r.below(s.size()); SAME("element", v[at] == s[at], true); SAME("element", v.at(at) == s.at(at), true); }
        auto const posOf = [&] { switch (r.below(6)) { case 0: return npos; case 1: return s.size(); case 2: return s.size() + 1u + r.below(3); case 3: return npos - r.below(s.size() + 3u); default: return std::size_t(r.below(s.size() + 1u)); } };
        auto const inside = [&](V const w, std::size_t off, std::size_t len, char const * what) {
            VM_CHECK(w.size() == len && (len == 0 || w.data() == base + off), "sub-view", "%s: size %zu at offset %td, expected %zu at %zu", what, w.size(), len ? w.data() - base : 0, len, off); ++n; };
#define THROWS(what, expr, cond) do { bool t_ = false; try { (void) (expr); } catch (std::out_of_range const &) { t_ = true; } \
        VM_CHECK(t_ == (cond), what, "%s: %s std::out_of_range", #expr, t_ ? "unexpected" : "missing"); ++n; } while (0)
        for (unsigned k = 0; k < 12; ++k) {
            std::size_t const pos = posOf(), cnt = posOf();
            S const ns = needle<C>(r, kind, s); Exact<C> const nx(ns);
            V const nv = ns.empty() && r.flip() ? V() : V(nx.p.get(), nx.n);
            S const cs(ns.c_str()); C const * const c = ns.c_str();
            C const ch = !s.empty() && r.flip() ? s[r.below(s.size())] : chr<C>(r, kind);
            vm::describe(vm::format("text %s needle %s char %llx pos %zu count %zu", show(s).c_str(), show(ns).c_str(), (unsigned long long) ch, pos, cnt));
#define FINDS(m, sm) \
            SAME(#m, v.m(ch), s.sm(ch)); SAME(#m, v.m(ch, pos), s.sm(ch, pos)); \
            SAME(#m, v.m(nv), s.sm(ns)); SAME(#m, v.m(nv, pos), s.sm(ns, pos)); \
            SAME(#m, v.m(nx.p.get(), pos, nx.n), s.sm(ns.data(), pos, ns.size())); \
            SAME(#m, v.m(c), s.sm(c)); SAME(#m, v.m(c, pos), s.sm(c, pos)); \
            { std::size_t const part = r.below(nx.n + 1u); SAME(#m, v.m(nx.p.get(), pos, part), s.sm(ns.data(), pos, part)); }
            FINDS(find, find) FINDS(rfind, rfind) FINDS(findFirstOf, find_first_of) FINDS(findLastOf, find_last_of)
            FINDS(findFirstNotOf, find_first_not_of) FINDS(findLastNotOf, find_last_not_of)
            /* comparisons */
            SAME("compare", sgn(v.compare(nv)), sgn(s.compare(ns))); SAME("compare", sgn(v.compare(c)), sgn(s.compare(c)));
            SAME("compare", sgn(v.compare(nx.p.get(), nx.n)), sgn(s.compare(ns)));
            { S const s2 = r.flip() ? s : s.substr(0, r.below(s.size() + 1u)); Exact<C> const x2(s2); V const v2(x2.p.get(), x2.n);
              SAME("compare", sgn(v.compare(v2)), sgn(s.compare(s2)));
              SAME("relational", v == v2, s == s2); SAME("relational", v != v2, s != s2); SAME("relational", v < v2, s < s2);
              SAME("relational", v <= v2, s <= s2); SAME("relational", v > v2, s > s2); SAME("relational", v >= v2, s >= s2);
              SAME("relational", v == s2, s == s2); SAME("relational", s2 <= v, s2 <= s); }
            SAME("relational", v == nv, s == ns); SAME("relational", v != nv, s != ns); SAME("relational", v < nv, s < ns); SAME("relational", v <= nv, s <= ns);
            SAME("relational", v > nv, s > ns); SAME("relational", v >= nv, s >= ns);
            SAME("relational", v == ns, s == ns); SAME("relational", ns < v, ns < s); SAME("relational", v >= c, s >= cs); SAME("relational", c != v, cs != s);
            bool const out = pos > s.size();
            THROWS("compare", v.compare(pos, cnt, nv), out); THROWS("compare", v.compare(pos, cnt, c), out); THROWS("compare", v.compare(pos, cnt, nx.p.get(), nx.n), out);
            std::size_t const pos2 = r.flip() ? r.below(ns.size() + 2u) : posOf(), cnt2 = posOf();
            THROWS("compare", v.compare(pos, cnt, nv, pos2, cnt2), out || pos2 > ns.size());
            if (!out) {
                SAME("compare", sgn(v.compare(pos, cnt, nv)), sgn(s.compare(pos, cnt, ns))); SAME("compare", sgn(v.compare(pos, cnt, c)), sgn(s.compare(pos, cnt, c)));
                SAME("compare", sgn(v.compare(pos, cnt, nx.p.get(), nx.n)), sgn(s.compare(pos, cnt, ns)));
                if (pos2 <= ns.size()) SAME("compare", sgn(v.compare(pos, cnt, nv, pos2, cnt2)), sgn(s.compare(pos, cnt, ns, pos2, cnt2)));
            }
            /* prefixes and suffixes */
            auto const starts = [&](S const & x) { return s.size() >= x.size() && s.compare(0, x.size(), x) == 0; };
            auto const ends = [&](S const & x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; };
            SAME("startsWith", v.startsWith(nv), starts(ns)); SAME("startsWith", v.startsWith(nx.p.get(), nx.n), starts(ns)); SAME("startsWith", v.startsWith(c), starts(cs));
            SAME("startsWith", v.startsWith(ch), !s.empty() && s.front() == ch);
            SAME("endsWith", v.endsWith(nv), ends(ns)); SAME("endsWith", v.endsWith(nx.p.get(), nx.n), ends(ns)); SAME("endsWith", v.endsWith(c), ends(cs));
            SAME("endsWith", v.endsWith(ch), !s.empty() && s.back() == ch);
            /* sub-views */
            THROWS("at", v.at(pos), pos >= s.size());
            THROWS("substr", v.substr(pos, cnt), out); THROWS("left", v.left(pos), out); THROWS("right", v.right(pos), out);
            THROWS("leftClipped", v.leftClipped(pos), out); THROWS("rightClipped", v.rightClipped(pos), out);
            bool const clipOut = pos > s.size() || cnt > s.size() - pos;
            THROWS("clipped", v.clipped(pos, cnt), clipOut);
            if (!out) {
                inside(v.substr(pos, cnt), pos, std::min(cnt, s.size() - pos), "substr(pos, n)"); inside(v.substr(pos), pos, s.size() - pos, "substr(pos)");
                inside(v.left(pos), 0, pos, "left"); inside(v.right(pos), s.size() - pos, pos, "right");
                inside(v.leftClipped(pos), pos, s.size() - pos, "leftClipped"); inside(v.rightClipped(pos), 0, s.size() - pos, "rightClipped");
                V w(v); w.removePrefix(pos); inside(w, pos, s.size() - pos, "removePrefix"); V x(v); x.removeSuffix(pos); inside(x, 0, s.size() - pos, "removeSuffix");
                V y(v), z(nv); y.swap(z); SAME("swap", y.data() == nv.data() && y.size() == nv.size() && z.data() == v.data() && z.size() == v.size(), true);
                V a; a = v; inside(a, 0, s.size(), "assignment");
            }
            if (!clipOut) inside(v.clipped(pos, cnt), pos, s.size() - pos - cnt, "clipped");
            /* copy: into a block of exactly the size copied */
            { std::size_t const want = out ? 0 : std::min(cnt, s.size() - pos); std::unique_ptr<C[]> d(new C[want]);
              THROWS("copy", v.copy(d.get(), cnt, pos), out);
              if (!out) { SAME("copy", v.copy(d.get(), cnt, pos), want); SAME("copy", std::equal(d.get(), d.get() + want, s.begin() + std::ptrdiff_t(pos)), true); } }
            /* trimming */
            auto const trim = [&](S const & set, bool l, bool rr, std::size_t & off, std::size_t & len) {
                std::size_t a = l ? s.find_first_not_of(set) : 0, b = rr ? s.find_last_not_of(set) : s.size() - 1u;
                if (s.empty() || a == npos || b == npos) { off = 0; len = 0; return; }
                off = a; len = b + 1u - a; };
            S const chs(1, ch); std::size_t off = 0, len = 0;
#define TRIM(m, l, rr) trim(chs, l, rr, off, len); inside(v.m(ch), off, len, #m "(char)"); \
            trim(ns, l, rr, off, len); inside(v.m(nv), off, len, #m "(view)"); inside(v.m(nx.p.get(), nx.n), off, len, #m "(pointer, count)"); \
            trim(cs, l, rr, off, len); inside(v.m(c), off, len, #m "(C string)");
            TRIM(leftTrimmed, true, false) TRIM(rightTrimmed, false, true) TRIM(trimmed, true, true)
        }
        vm::event("queries", n);
        vm::signature(vm::hashBytes(s.data(), s.size() * sizeof(C)));
    });
}
template <typename C> struct Limited : std::basic_streambuf<C> { /* takes at most n characters */
    std::basic_string<C> got; std::size_t left;
    bool once = false; /* refuses one character only */
    explicit Limited(std::size_t n) : left(n) {}
    typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override {
        if (!left) { if (once) { once = false; left = std::size_t(-1); } return std::char_traits<C>::eof(); }
        --left; got += std::char_traits<C>::to_char_type(c); return std::char_traits<C>::not_eof(c); }
};
template <typename C> void output() {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        using S = std::basic_string<C>; using V = sharemind::BasicStringView<C>;
        std::basic_ostringstream<C> a, b;
        std::uint64_t sig = 0; unsigned const items = unsigned(1 + r.below(6));
        std::string desc;
        for (unsigned k = 0; k < items; ++k) {
            S s = text<C>(r, unsigned(i), 20); if (sizeof(C) > 1) for (C & c : s) if (c == C(-1)) c = C(-2); /* stream buffers cannot write WEOF */
            Exact<C> const ex(s); V const v(ex.p.get(), ex.n);
            unsigned const width = r.chance(1, 4) ? 0 : unsigned(r.chance(1, 40) ? 200 + r.below(70000) : r.below(30)), adj = unsigned(r.below(4)); C const fill = C('.' + r.below(4));
            desc += vm::format("[%zu width %u adjust %u] ", s.size(), width, adj); vm::describe(desc);
            bool const bad = r.chance(1, 20);
            for (auto * os : {&a, &b}) {
                os->width(width); os->fill(fill);
                os->setf(adj == 0 ? std::ios_base::left : adj == 1 ? std::ios_base::right : adj == 2 ? std::ios_base::internal : std::ios_base::fmtflags(), std::ios_base::adjustfield);
                if (bad) os->setstate(std::ios_base::failbit);
            }
            a << v; b << s;
            VM_CHECK(a.width() == b.width(), "output-width", "width left at %ld, with a string %ld", long(a.width()), long(b.width()));
            VM_CHECK(a.rdstate() == b.rdstate(), "output-state", "stream state");
            VM_CHECK(a.str() == b.str(), "output", "output differs from that of a string");
            a.clear(); b.clear();
            sig = sig * 1000003u + width * 131u + adj * 7u + s.size();
            /* a sink that fills up */
            std::size_t const room = width > 100 ? r.below(width + 2u) : r.below(s.size() + 12u), total = std::max<std::size_t>(s.size(), width);
            Limited<C> lim(room); lim.once = r.flip(); std::basic_ostream<C> lo(&lim); lo.width(width); lo.fill(fill); lo.flags(a.flags());
            lo << v;
            std::basic_ostringstream<C> w; w.width(width); w.fill(fill); w.flags(a.flags()); w << s;
            VM_CHECK(lo.good() == (room >= total), "output-failure", "sink of %zu for %zu characters: stream is %s", room, total, lo.good() ? "good" : "not good");
            VM_CHECK(lim.got == w.str().substr(0, room), "output-failure", "other characters went to a sink that filled up");
        }
        vm::event("outputs", items); vm::signature(sig);
    });
}
}
VM_SCENARIO(queriesChar, "asan plain", 2500, 150000, 2, 1) { queries<char>(); }
VM_SCENARIO(queriesWide, "asan", 800, 40000, 1, 1) { queries<wchar_t>(); }
VM_SCENARIO(queries16, "asan", 800, 40000, 1, 1) { queries<char16_t>(); }
VM_SCENARIO(queries32, "asan", 800, 40000, 1, 1) { queries<char32_t>(); }
VM_SCENARIO(outputChar, "asan", 3000, 150000, 1, 1) { output<char>(); }
VM_SCENARIO(outputWide, "asan", 1000, 50000, 1, 1) { output<wchar_t>(); }
/* Texts of more than 2^31 and 2^32 characters (address space only: no more than the compared prefix is touched). */
VM_SCENARIO(huge, "plain", 1, 1, 1, 1) {
    vm::runCases([](vm::Rng &, std::uint64_t) {
        std::size_t const all = (std::size_t(1) << 32) + (std::size_t(1) << 31) + 4096u;
        void * const p = ::mmap(nullptr, all, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { vm::event("no-address-space"); return; }
        char const * const c = static_cast<char const *>(p);
        std::uint64_t n = 0;
        for (std::size_t const big : {std::size_t(1) << 31, (std::size_t(1) << 31) + 1u, std::size_t(1) << 32, (std::size_t(1) << 32) + 3u, (std::size_t(1) << 32) + (std::size_t(1) << 31), all})
            for (std::size_t const small : {0u, 1u, 3u, 100u}) {
                sharemind::StringView const b(c, big), a(c, small);
                VM_CHECK(b.compare(a) > 0 && a.compare(b) < 0 && b != a && a < b && b >= a && b.compare(c, small) > 0 && a.compare(c, big) < 0, "compare-huge", "a text of %zu characters against its prefix of %zu", big, small);
                VM_CHECK(b.compare(0, small, a) == 0 && b.compare(big - small, small, c, small) == 0 && b.startsWith(a) && b.endsWith(a) && !a.startsWith(b) && !a.endsWith(b), "compare-huge", "parts of a text of %zu characters against %zu", big, small);
                VM_CHECK(b.size() == big && b.substr(big - small).size() == small && b.right(small).data() == c + (big - small) && b.leftClipped(big - small).size() == small && b.clipped(big - small, small).empty(), "sub-view-huge", "sub-views of a text of %zu characters", big);
                VM_CHECK(b.find('\0', big - 1u) == big - 1u && b.rfind('\0') == big - 1u && b.find(a, big - small) == big - small && b.rfind(a) == big - small, "find-huge", "searches at the end of a text of %zu characters", big);
                ++n;
            }
        ::munmap(p, all);
        vm::event("comparisons", n); vm::signature(n);
    });
}
VM_SCENARIO(literals, "asan", 1, 1, 1, 1) {
    vm::runCases([](vm::Rng &, std::uint64_t) {
        using namespace sharemind::StringViewLiterals;
        VM_CHECK(("a\0b"_sv.size() == 3u) && ""_sv.empty() && L"xyz"_sv.size() == 3u && u"xyz"_sv.back() == u'z' && U"\0"_sv.size() == 1u, "literal", "literal view");
        VM_CHECK(boost::hash<sharemind::StringView>()("abc"_sv) == boost::hash<sharemind::StringView>()(sharemind::StringView("xabcx" + 1, 3)), "hash", "hash of equal views");
        vm::signature(1); vm::event("literals", 5);
    });
}
