/* P23: network messages: round trips, wire contents, hostile input.
   VM-VARIANTS: asan asanal ndebug */
#include "vm_oom.hpp"
#include <memory>
#include <sharemind/NetworkMessage.h>

namespace {
using In = sharemind::IncomingNetworkMessage; using Out = sharemind::OutgoingNetworkMessage;
using Bytes = std::string;
struct Pod { std::uint32_t a; std::uint16_t b; std::uint16_t c; std::uint64_t d; };
bool operator==(Pod const & x, Pod const & y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
template <typename T> Bytes raw(T const & v) { return Bytes(reinterpret_cast<char const *>(&v), sizeof(T)); }
Bytes le(std::uint64_t v, unsigned n) { Bytes b; for (unsigned i = 0; i < n; ++i) b += char(v >> (8 * i)); return b; }
/* A received message: a heap block of exactly its bytes. */
struct Received {
    std::unique_ptr<char[]> p; std::unique_ptr<In> in;
    explicit Received(Bytes const & b, bool null) : p(b.empty() && null ? nullptr : new char[b.size()]) { if (p) std::copy(b.begin(), b.end(), p.get()); in.reset(new In(p.get(), b.size())); }
};
Bytes text(vm::Rng & r, std::size_t max) { Bytes s(r.size(max), 'x'); for (auto & c : s) c = char(r.next()); return s; }

enum Kind : unsigned { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Bool, Struct, CArray, StrConst, StrLvalue, StrRvalue, StrChars, StrCharsMutable, StrRange, StrLiteral, StrDerived, Arr8, Arr32, ArrPod, SizeArr, Size64, Size32, Size16, Size8, Raw, Nested, NestedIn, Kinds };
struct Item { Kind k; std::uint64_t v; Bytes s; };
struct MyString : std::string { using std::string::string; MyString(Bytes const & b) : std::string(b) {} int more = 7; };
constexpr std::size_t arraySize(Bytes const & s, std::size_t e) { return s.size() / e; }
Pod podOf(std::uint64_t v) { return Pod{std::uint32_t(v), std::uint16_t(v >> 7), std::uint16_t(v >> 13), vm::mix(v)}; }
Item item(vm::Rng & r, std::size_t max) { return Item{Kind(r.below(Kinds)), r.word(), text(r, r.chance(1, 20) ? 3000 : max)}; }
template <typename T> T as(std::uint64_t v) { T t; std::memcpy(&t, &v, sizeof(T)); return t; }
char const * const literal = "a literal";
/* What the element must look like in the message. */
Bytes encoded(Item const & i) {
    switch (i.k) {
    case U8: case I8: return le(i.v, 1); case U16: case I16: return raw(std::uint16_t(i.v)); case U32: case I32: return raw(std::uint32_t(i.v)); case U64: case I64: return raw(i.v);
    case F32: return raw(as<float>(i.v)); case F64: return raw(as<double>(i.v));
    case Bool: return le(i.v & 1u, 1);
    case Struct: return raw(podOf(i.v)); case CArray: return raw(podOf(i.v)) + raw(podOf(i.v + 1)) + raw(podOf(i.v + 2));
    case StrConst: case StrLvalue: case StrRvalue: case StrRange: case StrDerived: return le(i.s.size(), 8) + i.s;
    case StrChars: case StrCharsMutable: return le(std::strlen(i.s.c_str()), 8) + i.s.c_str();
    case StrLiteral: return le(std::strlen(literal), 8) + literal;
    case Arr8: return i.s; case Arr32: return i.s.substr(0, arraySize(i.s, 4) * 4); case ArrPod: return i.s.substr(0, arraySize(i.s, sizeof(Pod)) * sizeof(Pod));
    case SizeArr: return le(arraySize(i.s, 4), 8) + i.s.substr(0, arraySize(i.s, 4) * 4);
    case Size64: return le(i.v, 8); case Size32: return le(i.v, 4); case Size16: return le(i.v, 2); case Size8: return le(i.v, 1);
    case Raw: case Nested: case NestedIn: return i.s;
    default: std::abort();
    }
}
template <typename T> std::vector<T> elements(Bytes const & s) { std::vector<T> v(arraySize(s, sizeof(T))); if (!v.empty()) std::memcpy(static_cast<void *>(v.data()), s.data(), v.size() * sizeof(T)); return v; }
void write(Out & m, Item const & i, bool variant) {
    switch (i.k) {
    case U8: { std::uint8_t v(static_cast<std::uint8_t>(i.v)); variant ? m.write(v) : m.write(std::uint8_t(v)); } break;
    case U16: { std::uint16_t const v(static_cast<std::uint16_t>(i.v)); m.write(v); } break;
    case U32: { std::uint32_t v(static_cast<std::uint32_t>(i.v)); m.write(std::move(v)); } break;
    case U64: m.write(i.v); break;
    case I8: m.write(std::int8_t(i.v)); break; case I16: m.write(std::int16_t(i.v)); break; case I32: m.write(std::int32_t(i.v)); break; case I64: { std::int64_t v = std::int64_t(i.v); m.write(v); } break;
    case F32: m.write(as<float>(i.v)); break; case F64: { double v = as<double>(i.v); m.write(v); } break;
    case Bool: { bool v = i.v & 1u; bool const cv = v; variant ? m.write(v) : m.write(cv); } break;
    case Struct: { Pod p = podOf(i.v); Pod const cp = p; variant ? m.write(p) : m.write(cp); } break;
    case CArray: { Pod a[3] = {podOf(i.v), podOf(i.v + 1), podOf(i.v + 2)}; m.write(a); } break;
    case StrConst: { Bytes const & s = i.s; m.write(s); } break;
    case StrLvalue: { Bytes s = i.s; m.write(s); VM_CHECK(s == i.s, "argument", "writing changed the string"); } break;
    case StrRvalue: m.write(Bytes(i.s)); break;
    case StrDerived: { MyString s(i.s); MyString const & cs = s; if (variant) m.write(s); else m.write(cs); } break;
    case StrChars: m.write(i.s.c_str()); break;
    case StrCharsMutable: { std::vector<char> v(i.s.begin(), i.s.end()); v.push_back(0); char * p = v.data(); char * const cp = p; if (variant) m.write(p); else m.write(cp); } break;
    case StrRange: { std::unique_ptr<char[]> p(new char[i.s.size()]); std::copy(i.s.begin(), i.s.end(), p.get()); m.write(p.get(), i.s.size()); } break;
    case StrLiteral: if (variant) m.write("a literal"); else m.write(literal); break;
    case Arr8: { std::unique_ptr<char[]> p(new char[i.s.size()]); std::copy(i.s.begin(), i.s.end(), p.get()); if (variant) m.writeArray(p.get(), i.s.size()); else m.writeArray(p.get(), std::uint32_t(i.s.size())); } break;
    case Arr32: { auto const v = elements<std::uint32_t>(i.s); m.writeArray(v.data(), v.size()); } break;
    case ArrPod: { auto const v = elements<Pod>(i.s); if (variant) m.writeArray(v.data(), std::uint16_t(v.size())); else m.writeArray(v.data(), v.size()); } break;
    case SizeArr: { auto const v = elements<std::uint32_t>(i.s); if (variant) m.writeSizeAndArray(v.data(), std::uint16_t(v.size())); else m.writeSizeAndArray(v.data(), v.size()); } break;
    case Size64: m.writeSize(std::uint64_t(i.v)); break;
    case Size32: m.writeSize<std::uint32_t>(std::uint32_t(i.v)); break;
    case Size16: m.writeSize<std::uint16_t>(std::uint16_t(i.v)); break;
    case Size8: m.writeSize<std::uint8_t>(std::uint8_t(i.v)); break;
    case Raw: m.writeBytes(i.s.data(), i.s.size()); break;
    case Nested: { Out n; n.writeBytes(i.s.data(), i.s.size()); if (variant) m.write(n); else { sharemind::NetworkMessage const & c = n; m.write(c); } } break;
    case NestedIn: { Received n(i.s, variant); m.write(*n.in); VM_CHECK(n.in->getOffset() == 0, "nested", "writing moved the read position of the nested message"); } break;
    default: std::abort();
    }
}
/* The model of a reader: position in known bytes. */
struct Cursor {
    Bytes const b; std::size_t pos = 0;
    std::size_t left() const { return b.size() - pos; }
    std::uint64_t num(unsigned n) const { std::uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= std::uint64_t(static_cast<unsigned char>(b[pos + i])) << (8 * i); return v; }
};
std::uint64_t reads, fails;
void position(In const & in, Received const & m, Cursor const & c, char const * op) {
    VM_CHECK(in.getOffset() == c.pos, "position", "after %s the position is %zu, expected %zu of %zu", op, in.getOffset(), c.pos, c.b.size());
    VM_CHECK(in.getRemainingSize() == c.left() && in.getSize() == c.b.size() && in.getData() == m.p.get() && in.getPtr() == m.p.get() + c.pos, "position", "after %s sizes or pointers are off", op);
}
void outcome(bool got, bool want, char const * op, Cursor const & c) {
    VM_CHECK(got == want, "outcome", "%s %s at %zu of %zu bytes", op, got ? "succeeds" : "fails", c.pos, c.b.size());
    if (want) ++reads; else ++fails;
}
template <typename T> void readValue(In & in, Cursor & c, char const * op) {
    bool const want = c.left() >= sizeof(T); struct { T t; T after; } d; std::memset(static_cast<void *>(&d), 0x5a, sizeof d); Bytes const guard = raw(d.after);
    outcome(in.read(d.t), want, op, c);
    VM_CHECK(raw(d.after) == guard, "value", "%s wrote more than the value", op);
    if (want) { VM_CHECK(raw(d.t) == c.b.substr(c.pos, sizeof(T)), "value", "%s gives other bytes at %zu", op, c.pos); c.pos += sizeof(T); }
}
template <typename Ser, typename Sz> void readSize(In & in, Cursor & c, char const * op, bool second) {
    bool want = c.left() >= sizeof(Ser); Sz d{}; int thrown = 0; bool got = false;
    bool const over = want && c.num(sizeof(Ser)) > std::numeric_limits<Sz>::max();
    try { got = second ? in.template readSize<Ser>(d, std::range_error("own")) : in.template readSize<Ser>(d); }
    catch (std::bad_array_new_length const &) { thrown = 1; } catch (std::range_error const & e) { thrown = std::string(e.what()) == "own" ? 2 : 3; }
    VM_CHECK(thrown == (over ? second ? 2 : 1 : 0), "overflow", "%s: exception %d, overflow %d", op, thrown, over);
    if (over) { ++fails; return; }
    outcome(got, want, op, c);
    if (want) { VM_CHECK(d == c.num(sizeof(Ser)), "value", "%s gives another size at %zu", op, c.pos); c.pos += sizeof(Ser); }
}
template <typename T, typename Sz> void readArray(In & in, Cursor & c, Sz n, char const * op) {
    std::uint64_t const most = c.left() / sizeof(T); bool const want = n <= most;
    std::size_t const cap = want ? std::size_t(n) : 0; std::unique_ptr<T[]> d(cap ? new T[cap] : nullptr);
    outcome(in.readArray(d.get(), n), want, op, c);
    if (want) { VM_CHECK(cap == 0 || std::memcmp(d.get(), c.b.data() + c.pos, cap * sizeof(T)) == 0, "value", "%s gives other bytes", op); c.pos += cap * sizeof(T); }
}
void readString(In & in, Cursor & c, vm::Rng * oom) {
    bool want = c.left() >= 8; std::uint64_t len = 0; if (want) { len = c.num(8); want = len <= c.left() - 8; }
    Bytes s = "before the read"; bool got = false, threw = false;
    try { vm::Oom o(oom ? 1 : 0); got = in.read(s); } catch (std::bad_alloc const &) { threw = true; }
    if (threw) { VM_CHECK(oom && want, "exception", "reading a string of %" PRIu64 " of %zu bytes runs out of memory", len, c.left()); ++fails; return; }
    outcome(got, want, "read(string)", c);
    if (want) { VM_CHECK(s == c.b.substr(c.pos + 8, std::size_t(len)), "value", "read(string) gives another string at %zu", c.pos); c.pos += 8 + std::size_t(len); }
}
void readBool(In & in, Cursor & c) {
    bool const want = c.left() >= 1 && static_cast<unsigned char>(c.b[c.pos]) <= 1; bool v = false;
    outcome(in.read(v), want, "read(bool)", c);
    if (want) { VM_CHECK(v == (c.b[c.pos] == 1), "value", "read(bool) gives the other value"); ++c.pos; }
}
void readBytes(In & in, Cursor & c, std::size_t n) {
    bool const want = n <= c.left(); std::unique_ptr<char[]> d(want && n ? new char[n] : nullptr);
    outcome(in.readBytes(d.get(), n), want, "readBytes", c);
    if (want) { VM_CHECK(n == 0 || std::memcmp(d.get(), c.b.data() + c.pos, n) == 0, "value", "readBytes gives other bytes"); c.pos += n; }
}
/* Reads what was written, by the means the reader of such an element has. */
void readBack(In & in, Cursor & c, Item const & i, bool variant) {
    switch (i.k) {
    case U8: readValue<std::uint8_t>(in, c, "read(u8)"); break; case U16: readValue<std::uint16_t>(in, c, "read(u16)"); break; case U32: readValue<std::uint32_t>(in, c, "read(u32)"); break; case U64: readValue<std::uint64_t>(in, c, "read(u64)"); break;
    case I8: readValue<std::int8_t>(in, c, "read(i8)"); break; case I16: readValue<std::int16_t>(in, c, "read(i16)"); break; case I32: readValue<std::int32_t>(in, c, "read(i32)"); break; case I64: readValue<std::int64_t>(in, c, "read(i64)"); break;
    case F32: readValue<float>(in, c, "read(float)"); break; case F64: readValue<double>(in, c, "read(double)"); break;
    case Bool: readBool(in, c); break;
    case Struct: readValue<Pod>(in, c, "read(struct)"); break;
    case CArray: { struct A { Pod p[3]; }; if (variant) readValue<A>(in, c, "read(array)"); else readArray<Pod>(in, c, 3u, "readArray"); } break;
    case StrConst: case StrLvalue: case StrRvalue: case StrChars: case StrCharsMutable: case StrRange: case StrLiteral: case StrDerived: readString(in, c, nullptr); break;
    case Arr8: readArray<char>(in, c, i.s.size(), "readArray(char)"); break;
    case Arr32: readArray<std::uint32_t>(in, c, std::uint32_t(arraySize(i.s, 4)), "readArray(u32)"); break;
    case ArrPod: readArray<Pod>(in, c, std::uint8_t(arraySize(i.s, sizeof(Pod))), "readArray(struct)"); break;
    case SizeArr: readSize<std::uint64_t, std::size_t>(in, c, "readSize", variant); readArray<std::uint32_t>(in, c, arraySize(i.s, 4), "readArray(u32)"); break;
    case Size64: readSize<std::uint64_t, std::uint64_t>(in, c, "readSize", variant); break;
    case Size32: readSize<std::uint32_t, std::uint64_t>(in, c, "readSize<u32>", variant); break;
    case Size16: readSize<std::uint16_t, std::uint16_t>(in, c, "readSize<u16>", variant); break;
    case Size8: readSize<std::uint8_t, std::uint32_t>(in, c, "readSize<u8>", variant); break;
    default: readBytes(in, c, i.s.size());
    }
}
Bytes contents(Out const & m) { return Bytes(static_cast<char const *>(m.getData()), m.getSize()); }
void same(Out const & m, Bytes const & want, char const * when, unsigned kind) {
    VM_CHECK(m.getSize() == want.size() && m.size == want.size() && m.getOffset() == want.size() && m.getRemainingSize() == 0, "written-size", "%s (kind %u) the message has %zu bytes (position %zu), expected %zu", when, kind, m.getSize(), m.getOffset(), want.size());
    VM_CHECK(m.data == m.getData() && (want.empty() || std::memcmp(m.getData(), want.data(), want.size()) == 0), "written-bytes", "%s (kind %u) the bytes differ", when, kind);
}
}

VM_SCENARIO(round_trips, "asan asanal ndebug", 40000, 1500000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        Out m; Bytes want; std::vector<Item> items; std::size_t const n = r.size(24); std::uint64_t sig = n;
        same(m, want, "before writing", 0);
        for (std::size_t i = 0; i < n; ++i) {
            items.push_back(item(r, 40)); Item const & it = items.back();
            vm::describe(vm::format("element %zu of %zu, kind %u, %zu bytes of text", i, n, it.k, it.s.size()));
            write(m, it, r.flip()); want += encoded(it); same(m, want, "after writing", it.k); sig = vm::mix(sig ^ it.k ^ (encoded(it).size() << 8));
        }
        reads = fails = 0;
        Received rec(want, r.flip()); In & in = *rec.in; Cursor c{want}; position(in, rec, c, "construction");
        for (unsigned pass = 0; pass < 2; ++pass) {
            std::vector<std::size_t> starts;
            for (auto const & it : items) { starts.push_back(c.pos); std::size_t const before = c.pos; readBack(in, c, it, r.flip()); position(in, rec, c, "reading an element");
                VM_CHECK(c.pos == before + encoded(it).size(), "round-trip", "reading an element of kind %u uses %zu bytes, writing used %zu", it.k, c.pos - before, encoded(it).size()); }
            VM_CHECK(in.getRemainingSize() == 0, "round-trip", "%zu bytes left at the end", in.getRemainingSize());
            readValue<std::uint8_t>(in, c, "read(u8) at the end"); readString(in, c, nullptr); readBool(in, c); readBytes(in, c, 1); readBytes(in, c, 0); readArray<std::uint32_t>(in, c, 0u, "readArray(0)"); readSize<std::uint64_t, std::size_t>(in, c, "readSize at the end", r.flip());
            position(in, rec, c, "reading at the end");
            if (want.empty()) break;
            /* seek to some element and read on from there */
            std::size_t const k = r.below(items.size()); if (starts[k] == want.size()) break;
            VM_CHECK(in.seek(starts[k]), "seek", "seeking to %zu of %zu fails", starts[k], want.size()); c.pos = starts[k]; position(in, rec, c, "seeking");
            items.erase(items.begin(), items.begin() + std::ptrdiff_t(k));
        }
        vm::event("elements-written", n); vm::event("successful-reads", reads); vm::event("refused-reads", fails);
        vm::signature(sig); vm::sample(vm::format("%zu elements in %zu bytes", n, want.size()));
    });
}
VM_SCENARIO(hostile_input, "asan asanal ndebug", 100000, 4000000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        Bytes b; reads = fails = 0; std::uint64_t sig = 0;
        if (r.chance(1, 4)) b = text(r, 64);
        else {
            for (std::size_t n = r.size(10); n; --n) { Item i = item(r, 12); if (r.chance(1, 4)) { i.k = Size64; i.v = r.flip() ? r.below(80) : r.word(); } b += encoded(i); }
            if (r.flip()) b.resize(r.below(b.size() + 1u));
            for (std::size_t k = r.below(4); k && !b.empty(); --k) b[r.below(b.size())] = char(r.flip() ? r.below(3) : r.next());
            if (r.chance(1, 4) && b.size() >= 8) { std::uint64_t const v = b.size() - 8 + r.below(5) - 2 - r.below(8); auto const e = le(v, 8); std::size_t const at = r.below(b.size() - 7); b.replace(at, 8, e); }
        }
        Received rec(b, r.flip()); In & in = *rec.in; Cursor c{b};
        for (unsigned k = 0, n = 4 + unsigned(r.below(30)); k < n; ++k) {
            std::size_t const at = c.pos; unsigned const op = unsigned(r.below(24)); bool const variant = r.flip();
            vm::describe(vm::format("operation %u at %zu of %zu bytes", op, c.pos, b.size()));
            switch (op) {
            case 0: readValue<std::uint8_t>(in, c, "read(u8)"); break;
            case 1: readValue<std::uint16_t>(in, c, "read(u16)"); break;
            case 2: readValue<std::int32_t>(in, c, "read(i32)"); break;
            case 3: readValue<std::uint64_t>(in, c, "read(u64)"); break;
            case 4: readValue<Pod>(in, c, "read(struct)"); break;
            case 5: readBool(in, c); break;
            case 6: case 7: case 8: readString(in, c, nullptr); break;
            case 9: readString(in, c, &r); break;
            case 10: readSize<std::uint64_t, std::size_t>(in, c, "readSize", variant); break;
            case 11: readSize<std::uint64_t, std::uint8_t>(in, c, "readSize(u8)", variant); break;
            case 12: readSize<std::uint64_t, std::uint32_t>(in, c, "readSize(u32)", variant); break;
            case 13: readSize<std::uint16_t, std::uint8_t>(in, c, "readSize<u16>(u8)", variant); break;
            case 14: readSize<std::uint32_t, std::uint16_t>(in, c, "readSize<u32>(u16)", variant); break;
            case 15: readArray<std::uint64_t>(in, c, variant ? r.word() : r.below(b.size() / 8 + 3), "readArray(u64)"); break;
            case 16: readArray<Pod>(in, c, std::size_t(variant ? r.word() : r.below(4)), "readArray(struct)"); break;
            case 17: readArray<char>(in, c, variant ? std::size_t(r.word()) : c.left() + r.below(3) - (c.left() ? 1u : 0u), "readArray(char)"); break;
            case 18: readArray<std::uint32_t>(in, c, std::uint32_t(variant ? r.word() : r.below(5)), "readArray(u32, u32)"); break;
            case 19: readBytes(in, c, variant ? std::size_t(r.word()) : std::size_t(r.below(b.size() + 2))); break;
            default: {
                std::size_t const to = r.chance(1, 6) ? std::size_t(r.word()) : std::size_t(r.below(b.size() + 3)); bool const ok = in.seek(to);
                if (to != b.size()) VM_CHECK(ok == (to < b.size()), "seek", "seeking to %zu of %zu %s", to, b.size(), ok ? "succeeds" : "fails"); /* the end itself: either way */
                if (ok) c.pos = to; } break;
            }
            position(in, rec, c, "an operation"); sig = vm::mix(sig ^ op ^ (at << 8) ^ (c.pos << 24));
        }
        VM_CHECK(Bytes(rec.p.get() ? rec.p.get() : "", b.size()) == b, "message", "reading changed the message");
        vm::event("successful-reads", reads); vm::event("refused-reads", fails); vm::signature(sig);
        vm::sample(vm::format("%zu bytes: %" PRIu64 " reads succeed, %" PRIu64 " are refused", b.size(), reads, fails));
    });
}
/* Sizes no message can have are refused, with nothing changed. */
VM_SCENARIO(limits, "asan ndebug", 8000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        Out m; Bytes want = text(r, 30); m.writeBytes(want.data(), want.size()); std::uint64_t sig = want.size(); unsigned lengthErrors = 0, noMemory = 0;
        constexpr std::size_t max = std::numeric_limits<std::size_t>::max();
        for (unsigned k = 0; k < 12; ++k) {
            unsigned const op = unsigned(r.below(6)); std::size_t const big = r.flip() ? max - r.below(80) : r.flip() ? max / 2 + r.below(max / 2) : max / 8 + r.below(100);
            std::uint64_t const dummy[4] = {1, 2, 3, 4}; Pod const pods[1] = {podOf(1)}; int thrown = 0; bool fits = true; /* does the sum fit a size at all? */
            vm::describe(vm::format("operation %u, %zu elements, %zu bytes before", op, big, want.size()));
            try {
                switch (op) {
                case 0: fits = big <= max - want.size(); m.writeBytes(dummy, big); break;
                case 1: fits = big <= (max - want.size()) / 8; m.writeArray(dummy, big); break;
                case 2: fits = big <= (max - want.size()) / sizeof(Pod); m.writeArray(pods, big); break;
                case 3: fits = big <= (max - want.size() - 8) / 8; m.writeSizeAndArray(dummy, big); break;
                case 4: fits = big <= max - want.size() - 8; m.write(reinterpret_cast<char const *>(dummy), big); break;
                default: { fits = big <= max - want.size(); sharemind::NetworkMessagePayload p{dummy, big}; struct N : sharemind::NetworkMessage {} n; n.data = p.data; n.size = p.size; m.write(n); } break;
                }
            } catch (sharemind::NetworkMessage::MessageLengthError const & e) { thrown = 1; ++lengthErrors; VM_CHECK(dynamic_cast<sharemind::NetworkMessage::Exception const *>(&e) && dynamic_cast<sharemind::Exception const *>(&e), "exception", "not a message exception"); }
            catch (std::bad_alloc const &) { thrown = 2; ++noMemory; }
            VM_CHECK(thrown == (fits ? 2 : 1), "limit", "operation %u of %zu elements on %zu bytes: outcome %d", op, big, want.size(), thrown);
            same(m, want, "after a refused write", op);
            Item const it = item(r, 20); write(m, it, r.flip()); want += encoded(it); same(m, want, "writing after a refused write", it.k); sig = vm::mix(sig ^ op ^ it.k << 4 ^ big << 16);
        }
        vm::event("length-errors", lengthErrors); vm::event("allocation-failures", noMemory); vm::signature(sig);
        vm::sample(vm::format("%u length errors, %u allocation failures, %zu bytes in the end", lengthErrors, noMemory, want.size()));
    });
}
