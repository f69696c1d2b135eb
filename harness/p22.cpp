/* P22: bit vectors.
   VM-VARIANTS: asan ndebug */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <list>
#include <sharemind/BitVector.h>
#include <sharemind/NetworkMessage.h>
#include <sstream>
#include <iterator>
#include <vector>

namespace {
using namespace sharemind;
using Model = std::vector<signed char>; /* 0, 1, or -1: not defined (after growing by resize()) */

struct Filler { vm::Rng * r; std::vector<unsigned char> given; void fillBytes(void * p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { given.push_back(static_cast<unsigned char>(r->next())); static_cast<unsigned char *>(p)[i] = given.back(); } } };
/* A message of the simplest kind. */
struct Words { std::vector<std::uint64_t> w; std::size_t at = 0; void write(std::uint64_t v) { w.push_back(v); } bool read(std::uint64_t & v) { if (at >= w.size()) return false; v = w[at++]; return true; } };

template <typename V> void check(V & v, Model const & m, char const * after) {
    V const & c = v;
    VM_CHECK(c.size() == m.size() && c.empty() == m.empty(), "size", "after %s: the size is %zu, should be %zu", after, std::size_t(c.size()), m.size());
    for (std::size_t i = 0; i < m.size(); ++i)
        if (m[i] >= 0)
            VM_CHECK(c[i] == bool(m[i]) && bool(v[i]) == bool(m[i]) && ~v[i] == !m[i], "bit", "after %s: bit %zu of %zu is %d, should be %d", after, i, m.size(), int(c[i]), int(m[i]));
    if (!m.empty()) {
        if (m.front() >= 0) VM_CHECK(c.front() == bool(m.front()), "front", "after %s: front()", after);
        if (m.back() >= 0) VM_CHECK(c.back() == bool(m.back()) && c.at(m.size() - 1) == bool(m.back()), "back", "after %s: back()", after);
    }
}
bool defined(Model const & m) { for (auto x : m) if (x < 0) return false; return true; }
template <typename V, typename F> bool throwsOutOfRange(F f) { try { f(); } catch (std::out_of_range const &) { return true; } return false; }

template <typename Block> void history(vm::Rng & r) {
    using V = BitVec<Block>;
    enum { N = 3 };
    unsigned const ops = unsigned(20 + r.below(100)); std::uint64_t sig = 0, changes = 0; unsigned bits = 8 * sizeof(Block);
    std::vector<V> v; std::vector<Model> m(N); for (unsigned i = 0; i < N; ++i) v.emplace_back();
    auto const size = [&]() -> std::size_t { switch (r.below(4)) { case 0: return std::size_t(r.below(4)) * bits; case 1: return std::size_t(r.below(4)) * bits + r.below(3); case 2: { auto const x = std::size_t(1 + r.below(4)) * bits; return x - 1; } default: return r.below(200); } };
    auto const random = [&](std::size_t n) { Model x(n); bool const dense = r.flip(); for (auto & b : x) b = dense ? !r.chance(1, 8) : r.flip(); return x; };
    auto const setKnown = [&](V & x, Model & y) { for (std::size_t i = 0; i < y.size(); ++i) if (y[i] < 0) { bool const b = r.flip(); x[i] = b; y[i] = b; } };
    for (unsigned i = 0; i < ops; ++i) {
        unsigned const a = unsigned(r.below(N)), b = unsigned(r.below(N)), op = unsigned(r.below(26)); V & x = v[a]; Model & y = m[a]; char const * name = "?";
        switch (op) {
        case 0: { name = "construction from a size"; std::size_t const n = size(); bool const val = r.flip(); x = V(n, val); y.assign(n, val); } break;
        case 1: { name = "construction from a range"; Model const s = random(size());
            switch (r.below(4)) {
            case 0: x = V(s.begin(), s.end()); break;
            case 1: { std::list<bool> const l(s.begin(), s.end()); x = V(l.begin(), l.end()); } break;
            case 2: { std::vector<bool> const l(s.begin(), s.end()); x = V(l.begin(), l.end()); } break;
            default: { std::stringstream ss; for (auto e : s) ss << int(e) << ' '; x = V(std::istream_iterator<int>(ss), std::istream_iterator<int>()); }
            } y = s; } break;
        case 2: case 3: case 4: { name = "push_back"; std::size_t const n = 1 + r.below(70); for (std::size_t k = 0; k < n; ++k) { bool const val = r.flip(); x.push_back(val); y.push_back(val); } } break;
        case 5: { name = "pop_back"; std::size_t n = r.below(70); while (n-- && !y.empty()) { x.pop_back(); y.pop_back(); } } break;
        case 6: case 7: { name = "append"; if (y.size() + m[b].size() > 3000) break; Model const o = m[b]; x.append(v[b]); y.insert(y.end(), o.begin(), o.end()); } break;
        case 8: { name = "resize"; std::size_t const n = size(); x.resize(n); std::size_t const was = y.size(); y.resize(n, -1); (void) was; } break;
        case 9: name = r.flip() ? (x.clear(), "clear") : (x.clear_and_release(), "clear_and_release"); y.clear(); break;
        case 10: name = "set"; x.set(); for (auto & e : y) e = 1; break;
        case 11: name = "reset"; x.reset(); for (auto & e : y) e = 0; break;
        case 12: name = "flip"; x.flip(); for (auto & e : y) e = static_cast<signed char>(e < 0 ? e : !e); break;
        case 13: case 14: { name = "writing bits"; if (y.empty()) break;
            for (unsigned k = 0; k < 20; ++k) {
                std::size_t const p = r.below(y.size()), q = r.below(y.size()); if (y[p] < 0) { x[p] = true; y[p] = 1; } if (y[q] < 0) { x.at(q) = false; y[q] = 0; }
                bool const val = r.flip(); bool const old = y[p]; auto ref = x[p];
                switch (r.below(8)) {
                case 0: ref = val; y[p] = val; break;
                case 1: ref |= val; y[p] = old | val; break;
                case 2: ref &= val; y[p] = old & val; break;
                case 3: ref ^= val; y[p] = old ^ val; break;
                case 4: ref -= val; y[p] = old && !val; break;
                case 5: ref.flip(); y[p] = !old; break;
                case 6: ref = x[q]; y[p] = y[q]; break;
                default: { bool const back = (x.at(p) = val); VM_CHECK(bool(back) == val, "reference", "assignment returns something else"); y[p] = val; } break;
                }
            } } break;
        case 15: { name = "assign(range)"; if (y.empty()) break; Model const s = random(y.size());
            if (r.flip()) x.assign(s.begin(), s.end()); else { std::stringstream ss; for (auto e : s) ss << int(e) << ' '; x.assign(std::istream_iterator<int>(ss), std::istream_iterator<int>()); } y = s; } break;
        case 16: { name = "assign(n, value)"; std::size_t const n = size(); bool const val = r.flip(); x.assign(n, val); y.assign(n, val); } break;
        case 17: { name = "assign(other)"; if (y.size() != m[b].size()) break; x.assign(v[b]); y = m[b]; } break;
        case 18: { name = "assignBits"; std::size_t const w = r.below(5); std::vector<std::uint64_t> s(w); for (auto & e : s) e = r.word(); x.assign(64 * w, r.flip()); x.assignBits(s.begin(), s.end());
            y.resize(64 * w); for (std::size_t k = 0; k < 64 * w; ++k) y[k] = (s[k / 64] >> (k % 64)) & 1; } break;
        case 19: case 20: case 21: { name = "bitwise operation"; V & z = v[b]; Model const o = m[b]; if (y.size() != o.size() || !defined(y) || !defined(o)) break;
            Model want(y); unsigned const k = unsigned(r.below(3)); for (std::size_t p = 0; p < y.size(); ++p) want[p] = static_cast<signed char>(k == 0 ? y[p] & o[p] : k == 1 ? y[p] | o[p] : y[p] ^ o[p]);
            { V const & cx = x; V const & cz = z; V res(k == 0 ? cx & cz : k == 1 ? cx | cz : cx ^ cz); check(res, want, "binary operation"); check(x, y, "binary operation, left"); }
            V & back = k == 0 ? x &= z : k == 1 ? x |= z : x ^= z; VM_CHECK(&back == &x, "compound", "returns another object"); y = want; } break;
        case 22: { name = "copy"; if (a == b) break; V c(x); v[b] = c; m[b] = y; check(c, y, name); VM_CHECK(c == x && !(c != x), "equal", "a copy is not equal"); } break;
        case 23: { name = "move or swap"; if (a == b) break; if (r.flip()) { V c(std::move(x)); VM_CHECK(x.size() == 0 && x.empty(), "moved", "moved from and not empty"); v[b] = std::move(c); VM_CHECK(c.size() == 0 && c.empty(), "moved", "moved from by assignment and not empty"); m[b] = std::move(y); y.clear(); for (unsigned k = unsigned(r.below(100)); k; --k) { x.push_back(k & 1); y.push_back(k & 1); c.push_back(!(k & 1)); } check(c, [&] { Model z(y); for (auto & e : z) e = !e; return z; }(), "moving and pushing"); } else { x.swap(v[b]); y.swap(m[b]); } } break;
        case 24: { name = "randomize"; Filler f{&r, {}}; x.randomize(f); VM_CHECK(f.given.size() >= (y.size() + 7u) / 8u, "randomize", "%zu random bytes for %zu bits", f.given.size(), y.size()); for (std::size_t p = 0; p < y.size(); ++p) y[p] = (f.given[p / 8u] >> (p % 8u)) & 1; } break;
        default: { name = "serialization"; setKnown(x, y); V const & c = x; Words w; c.serialize(w); OutgoingNetworkMessage out; c.serialize(out);
            V got(y.size(), r.flip()); VM_CHECK(got.deserialize(w) && w.at == w.w.size(), "serialization", "reading back fails or does not end at the end"); check(got, y, name); VM_CHECK(got == c, "serialization", "what was read back is not equal");
            IncomingNetworkMessage in(out.getData(), out.getSize()); V got2(y.size(), r.flip()); VM_CHECK(got2.deserialize(in) && in.getRemainingSize() == 0 && got2 == c, "serialization", "reading back from a message fails"); check(got2, y, name);
            V other(y.size() + 1 + r.below(70), true); w.at = 0; VM_CHECK(!other.deserialize(w), "serialization", "read into a vector of another size"); for (std::size_t p = 0; p < other.size(); ++p) VM_CHECK(other[p], "serialization", "refused and changed");
            if (!y.empty()) { Words s; s.w.assign(w.w.begin(), w.w.begin() + long(r.below(w.w.size()))); V shortV(y.size()); VM_CHECK(!shortV.deserialize(s), "serialization", "read from a truncated message"); } } break;
        }
        ++changes;
        for (unsigned k = 0; k < N; ++k) check(v[k], m[k], name);
        if (defined(m[a]) && defined(m[b])) VM_CHECK((v[a] == v[b]) == (m[a] == m[b]) && (v[a] != v[b]) == (m[a] != m[b]), "equality", "after %s: %zu and %zu bits compare wrongly", name, m[a].size(), m[b].size());
        if (!m[b].empty() && defined(m[b]) && r.chance(1, 4)) { /* one bit makes the difference */
            V c(v[b]); std::size_t const p = r.below(m[b].size()); c[p].flip(); VM_CHECK(!(c == v[b]) && c != v[b], "equality", "bit %zu of %zu does not matter", p, m[b].size()); c[p].flip(); VM_CHECK(c == v[b], "equality", "not equal after flipping back"); }
        std::size_t const beyond = y.size() + r.below(100);
        V const & c = x; VM_CHECK(throwsOutOfRange<V>([&] { (void) c.at(beyond); }) && throwsOutOfRange<V>([&] { (void) x.at(beyond); }), "range", "at(%zu) of %zu bits does not throw", beyond, y.size());
        sig = vm::mix(sig ^ op ^ (std::uint64_t(y.size()) << 8) ^ (a << 30));
    }
    vm::event("operations", changes); vm::signature(sig);
}
VM_SCENARIO(histories, "asan ndebug", 2500, 150000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::describe(vm::format("blocks of %u bytes", 1u << (i % 4)));
        switch (i % 4) { case 0: history<std::uint8_t>(r); break; case 1: history<std::uint16_t>(r); break; case 2: history<std::uint32_t>(r); break; default: history<std::uint64_t>(r); break; }
    });
}

/* Operations which run out of memory leave the vectors as they were, and usable. */
template <typename Block> void failing(vm::Rng & r) {
    using V = BitVec<Block>;
    unsigned const ops = unsigned(10 + r.below(30)), bits = 8 * sizeof(Block); std::uint64_t sig = 0, failed = 0;
    V v[2]; Model m[2];
    for (unsigned i = 0; i < ops; ++i) {
        unsigned const a = unsigned(r.below(2)), b = unsigned(r.below(2)), op = unsigned(r.below(7)); V & x = v[a]; Model & y = m[a]; V & z = v[b];
        if (y.size() + m[b].size() > 2000) { x.clear(); y.clear(); }
        Model const o = m[b];
        std::size_t const n = r.flip() ? std::size_t(r.below(4)) * bits : r.below(300); bool const val = r.flip();
        Model want(y); char const * name = "?"; bool thrown = false;
        switch (op) { case 0: want.push_back(val); break; case 1: case 2: want.insert(want.end(), m[b].begin(), m[b].end()); break; case 3: want.assign(n, val); break; case 4: want = o; break; case 5: want.assign(n, val); break; default: for (std::size_t k = 0; k < n; ++k) want.push_back(bool(k % 3)); break; }
        std::size_t pushed = 0;
        {
            vm::Oom oom(r.flip() ? long(1 + r.below(3)) : 0);
            try {
                switch (op) {
                case 0: name = "push_back"; x.push_back(val); break;
                case 1: case 2: name = "append"; x.append(z); break;
                case 3: name = "assign(n, value)"; x.assign(n, val); break;
                case 4: name = "copy assignment"; x = z; break;
                case 5: { name = "construction"; V t(n, val); V c(t); c.swap(x); break; }
                default: name = "pushing"; for (; pushed < n; ++pushed) x.push_back(bool(pushed % 3)); break;
                }
            } catch (std::bad_alloc const &) { thrown = true; }
            VM_CHECK(!thrown || vm::Oom::fired(), "exception", "%s: std::bad_alloc without a reason", name);
        }
        if (!thrown) y = want; else { ++failed; if (op == 6) { want.resize(y.size() + pushed); y = want; } }
        for (unsigned k = 0; k < 2; ++k) check(v[k], m[k], thrown ? "an operation that ran out of memory" : name);
        VM_CHECK((v[0] == v[1]) == (m[0] == m[1]), "equality", "after %s%s: compare wrongly", name, thrown ? " that ran out of memory" : "");
        if (!y.empty()) { std::size_t const p = r.below(y.size()); x[p] = val; y[p] = val; }
        sig = vm::mix(sig ^ op ^ (std::uint64_t(thrown) << 5) ^ (std::uint64_t(y.size()) << 8));
    }
    vm::event("operations_that_ran_out_of_memory", failed); vm::event("operations", ops); vm::signature(sig);
}
VM_SCENARIO(outOfMemory, "asan ndebug", 1500, 80000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        switch (i % 4) { case 0: failing<std::uint8_t>(r); break; case 1: failing<std::uint16_t>(r); break; case 2: failing<std::uint32_t>(r); break; default: failing<std::uint64_t>(r); break; }
    });
}
}
