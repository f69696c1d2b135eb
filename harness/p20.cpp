/* P20: concatenation and splitting.
   VM-VARIANTS: asan plain */
#include "vm.hpp"
#include <forward_list>
#include <iomanip>
#include <list>
#include <memory>
#include <sharemind/Concat.h>
#include <sharemind/Split.h>
#include <sharemind/StringView.h>
#include <sstream>

namespace {
struct Both { std::string s; }; /* printing an rvalue consumes it */
std::ostream & operator<<(std::ostream & o, Both const & b) { return o << '<' << b.s << '>'; }
std::ostream & operator<<(std::ostream & o, Both && b) { o << '{' << b.s << '}'; b.s = "consumed"; return o; }
struct MoveOnly { std::unique_ptr<int> p; };
std::ostream & operator<<(std::ostream & o, MoveOnly const & m) { return o << *m.p; }

std::string text(vm::Rng & r, std::size_t max) {
    std::string s(r.size(max), ' ');
    unsigned const kind = unsigned(r.below(4));
    for (char & c : s) c = kind == 0 ? char(r.below(256)) : kind == 1 ? ",;a"[r.below(3)] : kind == 2 ? ",a"[r.below(8) == 0] : ",a"[r.below(8) != 0];
    return s;
}
/* One argument list through concat() and through a stream, in order. */
struct Pair { std::string got, want; };
}
VM_SCENARIO(concatenation, "asan plain", 3000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::string const a = text(r, r.chance(1, 60) ? 150000 : 40), b = text(r, r.chance(1, 60) ? 200000 : 300); std::string c = text(r, 10), d = c;
        long const n = long(r.word()); unsigned char const uc = static_cast<unsigned char>(r.below(256)); char const ch = char(r.below(256));
        double const f = double(std::int64_t(r.word())) / double(1 + r.below(1000)); bool const t = r.flip();
        void const * const p = &r; short const sh = short(r.next()); std::uint64_t const u = r.word();
        char const * const cs = a.c_str(); char arr[8] = "arr"; arr[r.below(4)] = 'x'; arr[3] = 0;
        sharemind::StringView const v(b);
        vm::describe(vm::format("n=%ld f=%g a=%s b=%s", n, f, vm::jsonStr(a).c_str(), vm::jsonStr(b.substr(0, 60)).c_str()));
        std::uint64_t sig = 0; unsigned k = 0;
        auto const same = [&](std::string const & got, std::ostringstream const & want) {
            ++k; sig = vm::mix(sig ^ vm::hashStr(got));
            VM_CHECK(got == want.str(), "concat", "concat number %u gives %s, printing gives %s", k, vm::jsonStr(got.substr(0, 100)).c_str(), vm::jsonStr(want.str().substr(0, 100)).c_str()); };
#define S1(x) { std::ostringstream o; o << x; same(sharemind::concat(x), o); }
        S1(a) S1(c) S1(cs) S1(arr) S1("literal") S1(n) S1(f) S1(uc) S1(ch) S1(t) S1(p) S1(v) S1(u) S1(sh) S1(std::string(b))
        VM_CHECK(sharemind::concat().empty(), "concat", "concat() of nothing");
        { std::ostringstream o; o << a << n; same(sharemind::concat(a, n), o); }
        { std::ostringstream o; o << n << a; same(sharemind::concat(n, a), o); }
        { std::ostringstream o; o << std::string("q") << a << cs << "x" << ch << uc << n << u << sh << f << t << v << p;
          same(sharemind::concat(std::string("q"), a, cs, "x", ch, uc, n, u, sh, f, t, v, p), o); }
        { std::ostringstream o; o << "[" << std::setw(12) << std::setfill('*') << n << std::setw(3) << a << std::boolalpha << t << std::hex << u << std::setprecision(3) << f << "]";
          same(sharemind::concat("[", std::setw(12), std::setfill('*'), n, std::setw(3), a, static_cast<std::ios_base & (*)(std::ios_base &)>(std::boolalpha), t, static_cast<std::ios_base & (*)(std::ios_base &)>(std::hex), u, std::setprecision(3), f, "]"), o); }
        { std::ostringstream o; o << c << c << c; same(sharemind::concat(c, c, c), o); }
        VM_CHECK(c == d, "arguments", "an lvalue argument was changed");
        { std::ostringstream o; o << d << d; same(sharemind::concat(std::move(d), c), o); }
        Both x{a}; Both const y{b};
        { std::ostringstream o; o << Both{a} << "," << Both{b} << "," << n << ""; std::string w = "<" + a + ">,<" + b + ">," + std::to_string(n);
          std::ostringstream o2; o2 << w; same(sharemind::concat(x, ",", y, ",", n), o2); VM_CHECK(x.s == a, "arguments", "an lvalue argument was printed as an rvalue and consumed");
          std::ostringstream o3; o3 << "1<" << a << ">"; same(sharemind::concat(1, x), o3); VM_CHECK(x.s == a, "arguments", "the last lvalue argument was consumed");
          std::ostringstream o4; o4 << "{" << a << "}2"; same(sharemind::concat(Both{a}, 2), o4); }
        MoveOnly m{std::unique_ptr<int>(new int(int(n)))};
        { std::ostringstream o; o << int(n) << a << int(n); same(sharemind::concat(m, a, m), o); VM_CHECK(m.p && *m.p == int(n), "arguments", "a move-only argument was consumed"); }
        vm::event("concatenations", k); vm::signature(sig);
    });
}
namespace {
template <typename Container, bool NoEmpty, typename Piece>
void splitOne(std::string const & s, unsigned delims, vm::Rng & r, Piece) {
    auto const isDelim = [delims](char c) { return delims == 0 ? c == ',' : delims == 1 ? (c == ',' || c == ';') : delims == 2 ? false : delims == 3 ? true : (static_cast<unsigned char>(c) & 1u) != 0u; };
    std::vector<std::string> want; std::string seps;
    { std::string cur; for (char c : s) if (isDelim(c)) { want.push_back(cur); cur.clear(); seps += c; } else cur += c; want.push_back(cur); }
    if (NoEmpty) { std::vector<std::string> w; for (auto & p : want) if (!p.empty()) w.push_back(p); want.swap(w); }
    Container const box(s.begin(), s.end());
    std::vector<std::string> got;
    long const failAt = r.chance(1, 6) ? long(r.below(want.size() + 1u)) : -1;
    using It = decltype(box.begin());
    It last = box.begin();
    bool inOrder = true, thrown = false;
    struct Stop {};
    auto const action = [&](It f, It l) {
        if (long(got.size()) == failAt) throw Stop();
        got.emplace_back(f, l);
        It x = last; std::size_t n = 0; while (x != f) { if (x == box.end() || ++n > s.size()) { inOrder = false; break; } ++x; }
        last = l;
    };
    try { NoEmpty ? sharemind::splitNoAllowEmpty(box.begin(), box.end(), isDelim, action) : sharemind::split(box.begin(), box.end(), isDelim, action); }
    catch (Stop) { thrown = true; }
    char const * const fn = NoEmpty ? "splitNoAllowEmpty" : "split";
    bool const shouldThrow = failAt >= 0 && std::size_t(failAt) < want.size();
    VM_CHECK(thrown == shouldThrow, "exception", "%s: an exception of the action %s", fn, thrown ? "appeared from nowhere" : "got lost");
    if (shouldThrow) want.resize(std::size_t(failAt));
    VM_CHECK(got.size() == want.size(), "pieces", "%s of %s visits %zu pieces, there are %zu", fn, vm::jsonStr(s.substr(0, 200)).c_str(), got.size(), want.size());
    for (std::size_t i = 0; i < got.size(); ++i)
        VM_CHECK(got[i] == want[i], "pieces", "%s of %s: piece %zu is %s, expected %s", fn, vm::jsonStr(s.substr(0, 200)).c_str(), i, vm::jsonStr(got[i]).c_str(), vm::jsonStr(want[i]).c_str());
    VM_CHECK(inOrder, "order", "%s visits the pieces out of order", fn);
    if (!NoEmpty && !thrown) { std::string join; for (std::size_t i = 0; i < got.size(); ++i) { if (i) join += seps[i - 1]; join += got[i]; } VM_CHECK(join == s, "lossless", "joining the pieces does not give back the text"); }
    vm::event("pieces", got.size());
}
struct ExactBox { /* the characters in a heap block of exactly their size */
    std::unique_ptr<char[]> p; std::size_t n;
    template <typename I> ExactBox(I f, I l) : p(new char[std::size_t(l - f)]), n(std::size_t(l - f)) { std::copy(f, l, p.get()); }
    char const * begin() const { return p.get(); } char const * end() const { return p.get() + n; }
};
}
VM_SCENARIO(splitting, "asan plain", 20000, 1000000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::string s;
        if (i < 5103) { std::uint64_t y = i / 7u; for (std::size_t n = i % 7u; n; --n, y /= 3u) s += ",a;"[y % 3u]; } /* all texts of up to six characters */
        else s = text(r, i % 4 ? 12 : 120);
        unsigned const delims = unsigned(r.below(5));
        vm::describe(vm::format("delimiters %u, text %s", delims, vm::jsonStr(s).c_str()));
        splitOne<ExactBox, false>(s, delims, r, 0); splitOne<ExactBox, true>(s, delims, r, 0);
        switch (r.below(3)) {
        case 0: splitOne<std::string, false>(s, delims, r, 0); splitOne<std::string, true>(s, delims, r, 0); break;
        case 1: splitOne<std::list<char>, false>(s, delims, r, 0); splitOne<std::list<char>, true>(s, delims, r, 0); break;
        default: splitOne<std::forward_list<char>, false>(s, delims, r, 0); splitOne<std::forward_list<char>, true>(s, delims, r, 0); break;
        }
        vm::signature(vm::hashStr(s) * 5u + delims);
    });
}
