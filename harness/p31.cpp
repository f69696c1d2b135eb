/* P31: exceptions and their cause chains.
   VM-VARIANTS: asan asanp tsan plain */
#include "vm.hpp"
#include "vm_oom.hpp"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <sharemind/Exception.h>
#include <sharemind/ExceptionMacros.h>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>

/* The whole family of macros: inline ones, and those with separate definitions in a namespace. */
namespace lib {
SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Base);
SHAREMIND_DETAIL_DEFINE_EXCEPTION(Base, Mid);
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(Mid, Fixed, "a fixed message");
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(Base, Str);
SHAREMIND_DECLARE_EXCEPTION_NOINLINE(sharemind::Exception, NBase);
SHAREMIND_DECLARE_EXCEPTION_CONST_MSG_NOINLINE(NBase, NFixed);
SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(NBase, NStr);
struct Owner { SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(NBase, Inner); };
}
SHAREMIND_DEFINE_EXCEPTION_NOINLINE(sharemind::Exception, lib::, NBase);
SHAREMIND_DEFINE_EXCEPTION_CONST_MSG_NOINLINE(lib::NBase, lib::, NFixed, "another fixed message");
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(lib::NBase, lib::, NStr);
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(lib::NBase, lib::Owner::, Inner);

namespace {
struct User { std::string s; }; /* not polymorphic */
struct Sealed final : std::exception { std::string s; explicit Sealed(std::string x) : s(std::move(x)) {} char const * what() const noexcept override { return s.c_str(); } };

std::string text(vm::Rng & r) {
    std::size_t const n = r.flip() ? r.size(20) : r.size(2000);
    std::string s(n, ' '); for (char & c : s) c = char(r.chance(1, 50) ? 0 : 1 + r.below(255));
    return s;
}
bool same(char const * got, std::string const & want) { return std::strcmp(got, want.c_str()) == 0; }
template <typename E> E make(std::string const & s) { return E(s); }

/* Throws it and catches it as each of its bases; returns by how many. */
template <typename E> void catchAs(E const & e, std::string const & want, vm::Rng & r) {
#define AS(type) { bool ok = false; try { if (r.flip()) throw e; throw E(e); } catch (type const & x) { std::exception const & y = x; ok = same(y.what(), want); } catch (...) {} VM_CHECK(ok, "catch", "an exception with the message %s was not caught as " #type " with its message", vm::jsonStr(want).c_str()); }
    AS(E) AS(sharemind::Exception) AS(std::exception)
    std::exception_ptr p = r.flip() ? std::make_exception_ptr(e) : [&e] { try { throw e; } catch (...) { return std::current_exception(); } }();
    std::exception_ptr q = p; p = nullptr;
    bool ok = false;
    try { try { try { std::rethrow_exception(q); } catch (...) { q = nullptr; throw; } } catch (sharemind::Exception &) { throw; } } catch (E & x) { E y(std::move(x)); ok = same(y.what(), want); }
    VM_CHECK(ok, "rethrow", "an exception with the message %s lost it on the way through handlers", vm::jsonStr(want).c_str());
    vm::event("catches", 5);
}
/* Copies of one exception type with different messages. */
template <typename E> void copies(vm::Rng & r, char const * name, std::uint64_t & sig, std::uint64_t & made) {
    struct Slot { std::unique_ptr<E> e; std::string s; };
    std::vector<Slot> v; unsigned const ops = unsigned(5 + r.below(40));
    for (unsigned i = 0; i < ops; ++i) {
        std::size_t const a = v.empty() ? 0 : r.below(v.size()), b = v.empty() ? 0 : r.below(v.size());
        unsigned const op = v.empty() ? 0 : unsigned(r.below(8)); sig = vm::mix(sig ^ op);
        switch (op) {
        case 0: { std::string s = text(r); std::string const keep = s;
            try { vm::Oom o(r.chance(1, 8) ? long(1 + r.below(3)) : 0); std::unique_ptr<E> e(new E(s)); vm::Oom::countdown() = 0; ++made;
                s.assign(s.size(), '#'); /* the exception must not refer to the caller's text */
                v.push_back({std::move(e), keep}); }
            catch (std::bad_alloc const &) { VM_CHECK(vm::Oom::fired(), "bad-alloc", "%s: std::bad_alloc from nowhere", name); vm::event("failed_allocations"); }
            } break;
        case 1: case 2: { bool fired;  void * const mem = ::operator new(sizeof(E)); E * e; { vm::Oom o(1); e = r.flip() ? new (mem) E(*v[a].e) : new (mem) E(std::move(*v[a].e)); fired = vm::Oom::fired(); }
            VM_CHECK(!fired, "copy-allocates", "%s: copying or moving an exception allocates", name);
            VM_CHECK(same(v[a].e->what(), v[a].s), "message", "%s: the source of a copy or move lost its message", name);
            std::string s = v[a].s; v.push_back({std::unique_ptr<E>(e), std::move(s)}); } break;
        case 3: case 4: { vm::Oom o(1); if (r.flip()) *v[b].e = *v[a].e; else { E x(*v[a].e); *v[b].e = std::move(x); } bool const fired = vm::Oom::fired(); vm::Oom::countdown() = 0; VM_CHECK(!fired, "copy-allocates", "%s: assigning an exception allocates", name); v[b].s = v[a].s; } break;
        case 5: std::swap(*v[a].e, *v[b].e); std::swap(v[a].s, v[b].s); break;
        case 6: catchAs(*v[a].e, v[a].s, r); break;
        default: if (a != v.size() - 1) std::swap(v[a], v.back()); v.pop_back(); break;
        }
        for (auto const & x : v) VM_CHECK(same(x.e->what(), x.s) && same(static_cast<std::exception const &>(*x.e).what(), x.s), "message", "%s: an exception made with the message %s says %s", name, vm::jsonStr(x.s).c_str(), vm::jsonStr(x.e->what()).c_str());
    }
    vm::event("exceptions", made);
}
template <typename E> void fixedMessage(char const * want, vm::Rng & r) {
    E a; E const b(a); E c(std::move(a)); c = b; a = std::move(c); a = a;
    VM_CHECK(same(a.what(), want) && same(b.what(), want), "message", "an exception with a fixed message says something else");
    catchAs(a, want, r);
}
}
VM_SCENARIO(messages, "asan plain", 1500, 100000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        vm::describe(vm::format("case %llu", (unsigned long long) i)); std::uint64_t sig = i, made = 0;
        switch (r.below(3)) {
        case 0: copies<lib::Str>(r, "inline", sig, made); break;
        case 1: copies<lib::NStr>(r, "noinline", sig, made); break;
        default: copies<lib::Owner::Inner>(r, "noinline member", sig, made); break;
        }
        { auto const s = std::make_shared<std::string const>(text(r)); std::string const keep = *s; auto t = std::make_shared<std::string const>(keep); lib::NStr a(t); lib::NStr b(s); if (r.flip()) std::swap(a, b); t.reset(); VM_CHECK(same(a.what(), keep), "message", "an exception from a shared message lost it"); VM_CHECK(same(a.what(), keep) && same(b.what(), keep), "message", "an exception from a shared message says something else"); catchAs(b, keep, r); }
        fixedMessage<lib::Fixed>("a fixed message", r); fixedMessage<lib::NFixed>("another fixed message", r);
#define CAUGHT(E, B) { bool ok = false; try { E const e{}; if (r.flip()) throw e; throw E(); } catch (B const &) { ok = true; } catch (...) {} VM_CHECK(ok, "catch", #E " was not caught as " #B); }
        CAUGHT(lib::Fixed, lib::Mid) CAUGHT(lib::Fixed, lib::Base) CAUGHT(lib::Fixed, sharemind::Exception) CAUGHT(lib::NFixed, lib::NBase) CAUGHT(lib::NFixed, sharemind::Exception) CAUGHT(lib::Mid, lib::Base) CAUGHT(lib::Mid, std::exception) CAUGHT(lib::NBase, std::exception)
        { bool ok = false; try { throw lib::NStr(text(r)); } catch (lib::Str const &) {} catch (lib::NBase const &) { ok = true; } VM_CHECK(ok, "catch", "NStr was not caught as NBase"); }
        { bool ok = false; try { throw lib::Str(text(r)); } catch (lib::Mid const &) {} catch (lib::Base const &) { ok = true; } VM_CHECK(ok, "catch", "Str was not caught as Base"); }
        vm::signature(sig);
    });
}
VM_SCENARIO(errors, "asan plain", 3000, 100000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        int const e = i < 300 ? int(i) - 20 : r.flip() ? int(r.below(150)) : int(r.word());
        vm::describe(vm::format("error %d", e));
        std::string const want = ::strerror(e);
        int const before = int(r.below(100)); errno = before;
        sharemind::ErrnoException const a(e);
        VM_CHECK(a.errorNumber() == e, "errno", "the exception for error %d reports %d", e, a.errorNumber());
        VM_CHECK(want == a.what(), "errno-text", "the exception for error %d says %s, the system says %s", e, vm::jsonStr(a.what()).c_str(), vm::jsonStr(want).c_str());
        std::unique_ptr<sharemind::ErrnoException> b(new sharemind::ErrnoException(a)); sharemind::ErrnoException c(std::move(*b)); b.reset(new sharemind::ErrnoException(int(r.below(50)))); *b = c; c = sharemind::ErrnoException(1); c = *b; b.reset();
        VM_CHECK(c.errorNumber() == e && want == c.what(), "errno-copy", "a copy of the exception for error %d reports %d: %s", e, c.errorNumber(), vm::jsonStr(c.what()).c_str());
        catchAs(c, want, r);
        bool ok = false; try { throw c; } catch (sharemind::ErrnoException const & x) { ok = x.errorNumber() == e; } VM_CHECK(ok, "errno-copy", "the error number got lost in a throw");
        vm::event("errors"); vm::signature(std::uint64_t(std::int64_t(e)));
    });
}
/* ---- chains */
namespace {
enum Kind { kStr, kNStr, kUser, kErrno, kFixed, kSealed, kStd };
struct Want { Kind k; std::string s; int n; };
template <typename E> struct KindOf;
#define KIND(E, kk) template <> struct KindOf<E> { enum : int { v = kk }; };
KIND(lib::Str, kStr) KIND(lib::NStr, kNStr) KIND(User, kUser) KIND(sharemind::ErrnoException, kErrno) KIND(lib::NFixed, kFixed) KIND(Sealed, kSealed) KIND(std::runtime_error, kStd)
template <typename E> E fresh(Want const & w, ...) { return E(w.s); }
template <> User fresh<User>(Want const & w, ...) { return User{w.s}; }
template <> sharemind::ErrnoException fresh<sharemind::ErrnoException>(Want const & w, ...) { return sharemind::ErrnoException(w.n); }
template <> lib::NFixed fresh<lib::NFixed>(Want const &, ...) { return {}; }
Want want(Kind k, vm::Rng & r) { std::string s = text(r); s = s.c_str(); return Want{k, s, int(r.below(140))}; }
bool matches(std::exception_ptr const & p, Want const & w) {
    try { std::rethrow_exception(p); }
    catch (lib::Str const & e) { return w.k == kStr && w.s == e.what(); }
    catch (lib::NStr const & e) { return w.k == kNStr && w.s == e.what(); }
    catch (lib::NFixed const & e) { return w.k == kFixed && same(e.what(), "another fixed message"); }
    catch (sharemind::ErrnoException const & e) { return w.k == kErrno && e.errorNumber() == w.n; }
    catch (User const & e) { return w.k == kUser && w.s == e.s; }
    catch (Sealed const & e) { return w.k == kSealed && w.s == e.s; }
    catch (std::runtime_error const & e) { return w.k == kStd && w.s == e.what(); }
    catch (...) { return false; }
}
bool carries(std::exception_ptr const & p, std::exception_ptr & cause) {
    try { std::rethrow_exception(p); } catch (std::nested_exception const & n) { cause = n.nested_ptr(); return true; } catch (...) { return false; }
}
/* want: outermost first */
void walk(std::exception_ptr p, std::vector<Want> const & w, char const * what) {
    for (std::size_t i = 0; i < w.size(); ++i) {
        VM_CHECK(bool(p), "chain-short", "%s: the chain ends after %zu of %zu exceptions", what, i, w.size());
        VM_CHECK(matches(p, w[i]), "chain-link", "%s: exception %zu of %zu in the chain is not the one thrown (kind %d)", what, i, w.size(), int(w[i].k));
        std::exception_ptr next; bool const c = carries(p, next);
        VM_CHECK(i + 1 == w.size() || c, "chain-short", "%s: exception %zu of %zu has no cause", what, i, w.size());
        p = c ? next : nullptr;
    }
    VM_CHECK(!p, "chain-long", "%s: the chain goes on after its %zu exceptions", what, w.size());
    vm::event("links", w.size());
}
enum Mode { throwNestedM, throwWithNestedM };
/* Passes the exceptions as lvalues, constant lvalues or rvalues. */
template <typename ... Es, std::size_t ... Is> std::exception_ptr thrown(Mode m, unsigned cat, std::vector<Want> const & w, std::index_sequence<Is...>) {
    std::tuple<Es...> t(fresh<Es>(w[Is])...); std::tuple<Es...> const u(t);
    std::exception_ptr p;
    try {
        switch (cat) {
        case 0: m == throwNestedM ? sharemind::throwNested(std::get<Is>(t)...) : sharemind::throwWithNested(std::get<Is>(t)...); break;
        case 1: m == throwNestedM ? sharemind::throwNested(std::get<Is>(u)...) : sharemind::throwWithNested(std::get<Is>(u)...); break;
        default: m == throwNestedM ? sharemind::throwNested(fresh<Es>(w[Is])...) : sharemind::throwWithNested(fresh<Es>(w[Is])...); break;
        }
        VM_CHECK(false, "returned", "throwing returned");
    } catch (...) { p = std::current_exception(); }
    if (cat != 2) { std::vector<bool> ok{matches(std::make_exception_ptr(std::get<Is>(t)), w[Is])..., matches(std::make_exception_ptr(std::get<Is>(u)), w[Is])...}; for (bool b : ok) VM_CHECK(b, "argument", "throwing consumed an lvalue exception"); }
    return p;
}
template <typename ... Es> void chain(vm::Rng & r, std::uint64_t & sig) {
    Kind const kinds[] = {Kind(KindOf<Es>::v)...}; std::vector<Want> w; for (Kind k : kinds) w.push_back(want(k, r));
    Mode const m = r.flip() ? throwNestedM : throwWithNestedM; unsigned const cat = unsigned(r.below(3)), ctx = unsigned(r.below(4));
    vm::describe(vm::format("%s of %zu exceptions, argument category %u, context %u", m == throwNestedM ? "throwNested" : "throwWithNested", w.size(), cat, ctx));
    std::vector<Want> expected(w.rbegin(), w.rend()), context; std::exception_ptr p, after; auto const seq = std::index_sequence_for<Es...>();
    if (ctx == 0) p = thrown<Es...>(m, cat, w, seq);
    else {
        Want const c = want(ctx == 2 ? kUser : kStr, r); context.push_back(c); Want const deeper = want(kNStr, r);
        try { if (ctx == 1) throw lib::Str(c.s); if (ctx == 2) throw User{c.s};
              context.push_back(deeper); sharemind::throwNested(lib::NStr(deeper.s), lib::Str(c.s)); }
        catch (...) { p = thrown<Es...>(m, cat, w, seq); after = std::current_exception(); walk(after, context, "the exception handled meanwhile"); }
        if (m == throwWithNestedM && kinds[0] != kSealed) expected.insert(expected.end(), context.begin(), context.end());
    }
    VM_CHECK(!std::current_exception(), "current", "an exception is still being handled");
    walk(p, expected, m == throwNestedM ? "throwNested" : "throwWithNested");
    /* again, through another thrower: rethrown as it is */
    try { try { std::rethrow_exception(p); } catch (...) { sharemind::throwWithNested(); } }
    catch (...) { walk(std::current_exception(), expected, "throwWithNested() without arguments"); }
    after = nullptr; walk(p, expected, "later");
    sig = vm::mix(sig ^ std::uint64_t(m * 16 + cat * 4 + ctx) ^ vm::hashStr(w[0].s));
}
using lib::Str; using lib::NStr; using lib::NFixed; using sharemind::ErrnoException; using Std = std::runtime_error;
void anyChain(vm::Rng & r, std::uint64_t & sig) {
    switch (r.below(14)) {
    case 0: return chain<Str>(r, sig); case 1: return chain<User>(r, sig); case 2: return chain<Str, NStr>(r, sig); case 3: return chain<User, User>(r, sig);
    case 4: return chain<Sealed, Str>(r, sig); case 5: return chain<NStr, User, Str>(r, sig); case 6: return chain<ErrnoException, NFixed, Std>(r, sig); case 7: return chain<Str, Str, Str>(r, sig);
    case 8: return chain<Sealed, ErrnoException, NStr, User>(r, sig); case 9: return chain<Std, Str, Std, NStr>(r, sig); case 10: return chain<NFixed, User, ErrnoException, Str, NStr>(r, sig);
    case 11: return chain<Str, NStr, Str, NStr, Str, NStr>(r, sig); case 12: return chain<User, Std, User, NFixed, User, ErrnoException, User>(r, sig); default: return chain<Sealed, Std>(r, sig);
    }
}
/* Causes added one handler at a time. */
void deep(vm::Rng & r, unsigned n, std::vector<Want> & w) {
    std::exception_ptr p; w.clear();
    for (unsigned i = 0; i < n; ++i) {
        Want x = want(r.flip() ? kStr : r.flip() ? kUser : kErrno, r);
        auto const go = [&x] { switch (x.k) { case kStr: sharemind::throwWithNested(lib::Str(x.s)); case kUser: sharemind::throwWithNested(User{x.s}); default: sharemind::throwWithNested(ErrnoException(x.n)); } };
        try { if (p) { try { std::rethrow_exception(p); } catch (...) { p = nullptr; go(); } } else go(); } catch (...) { p = std::current_exception(); }
        w.insert(w.begin(), x);
    }
    walk(p, w, "a chain grown handler by handler");
}
}
VM_SCENARIO(chains, "asan plain", 4000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::uint64_t sig = i; anyChain(r, sig);
        if (r.chance(1, 10)) { std::vector<Want> w; deep(r, unsigned(1 + r.below(60)), w); }
        { /* a type which cannot carry a cause arrives itself */
            Want const s = want(kSealed, r); bool ok = false;
            try { try { throw lib::Str("cause"); } catch (...) { sharemind::throwWithNested(Sealed(s.s)); } } catch (Sealed const & e) { ok = e.s == s.s; }
            VM_CHECK(ok, "sealed", "a final exception thrown over a cause did not arrive");
            ok = false; try { sharemind::throwNested(lib::Str("cause"), Sealed(s.s)); } catch (Sealed const & e) { ok = e.s == s.s; }
            VM_CHECK(ok, "sealed", "a final exception thrown over a cause did not arrive"); }
        vm::signature(sig);
    });
}
/* Carried to other threads and taken apart by all of them at once. */
VM_SCENARIO(threads, "asanp tsan", 120, 5000, 2, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        unsigned const n = unsigned(2 + r.below(3)); vm::describe(vm::format("%u threads", n));
        vm::Perturb p(vm::caseSeed(), unsigned(r.below(3)));
        std::vector<Want> w; Want const a = want(kNStr, r), b = want(kErrno, r), c = want(kStr, r); w = {c, b, a};
        std::exception_ptr e; try { sharemind::throwNested(lib::NStr(a.s), ErrnoException(b.n), lib::Str(c.s)); } catch (...) { e = std::current_exception(); }
        std::unique_ptr<lib::Str> s(new lib::Str(a.s)); std::atomic<unsigned> left{n};
        std::vector<lib::Str> each(n, *s); s.reset();
        std::vector<std::function<void ()>> fns;
        for (unsigned t = 0; t < n; ++t) { std::uint64_t const seed = r.word();
            fns.push_back([&, t, seed] { vm::Rng q(seed); 
                for (unsigned k = 0; k < 5; ++k) {
                    switch (q.below(3)) {
                    case 0: walk(e, w, "shared by threads"); break;
                    case 1: { lib::Str x(each[t]); VM_CHECK(a.s == x.what(), "message", "a copy used by several threads lost its message"); lib::Str y(b.s); x = y; y = each[t]; each[t] = y; VM_CHECK(b.s == x.what() && a.s == each[t].what(), "message", "a copy used by several threads has another's message"); } break;
                    default: try { try { std::rethrow_exception(e); } catch (...) { sharemind::throwWithNested(lib::Str(a.s)); } } catch (...) { auto v = w; v.insert(v.begin(), Want{kStr, a.s, 0}); walk(std::current_exception(), v, "grown from a shared one"); }
                    }
                    { int const num = int(q.below(140)); ErrnoException const x(num); VM_CHECK(x.errorNumber() == num && x.what()[0], "errno", "error number lost between threads");
                      if (num < 134) { static std::vector<std::string> const table = [] { std::vector<std::string> o; for (int z = 0; z < 140; ++z) o.push_back(::strerror(z)); return o; }(); VM_CHECK(table[std::size_t(num)] == x.what(), "errno-text", "error %d got the text of another: %s", num, vm::jsonStr(x.what()).c_str()); } }
                    vm::jitter(q);
                }
                { lib::Str const mine(each[t]); each[t] = lib::Str("gone"); VM_CHECK(a.s == mine.what(), "message", "lost while others let go"); }
                --left; }); }
        vm::parallel(fns);
        walk(e, w, "after the threads");
        vm::event("threads", n); vm::signature(i);
    });
}
