/* P36: diagnostics of exception chains: the verbose printer, the terminate and
   unexpected handlers, the test assertions.
   VM-VARIANTS: asan plain */
#include "vm.hpp"
#include <cxxabi.h>
#include <poll.h>
#include <sharemind/DebugVerboseHandlers.h>
#include <sharemind/TestAssert.h>
#include <sharemind/ThrowWithNested.h>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/wait.h>
#include <system_error>
#include <typeinfo>

namespace {
struct Plain : std::exception { /* counts its instances */
    vm::Tracked t; std::string m;
    Plain() : t(1) {}
    explicit Plain(std::string s) : t(1), m(std::move(s)) {}
    char const * what() const noexcept override { return m.c_str(); }
};
struct Base { virtual ~Base() {} int pad = 0; };
struct Second : Base, Plain { using Plain::Plain; };           /* std::exception is not the first base */
struct Virtual : virtual Plain { explicit Virtual(std::string s) { m = std::move(s); } Virtual(Virtual const & o) : Plain(o) { m = o.m; } };
struct Own : std::runtime_error, std::nested_exception { using std::runtime_error::runtime_error; }; /* captures the cause itself */
struct Foreign { vm::Tracked t; std::string m; explicit Foreign(std::string s) : t(1), m(std::move(s)) {} };
struct Hidden : std::runtime_error, private std::nested_exception { using std::runtime_error::runtime_error; }; /* the cause is not accessible */

struct Link { unsigned kind; bool nested, sharemind; std::string message; };
template <typename E> [[noreturn]] void raise(Link const & l, E e) {
    if (!l.nested) throw e;
    if (l.sharemind) sharemind::throwWithNested(std::move(e)); else std::throw_with_nested(std::move(e));
}
[[noreturn]] void raiseOne(Link const & l) {
    switch (l.kind) {
    case 0: raise(l, std::runtime_error(l.message)); case 1: raise(l, Plain(l.message)); case 2: raise(l, Second(l.message)); case 3: raise(l, Virtual(l.message));
    case 4: throw Own(l.message); case 5: raise(l, Foreign(l.message)); case 6: throw int(l.message.size()); case 7: throw Hidden(l.message);
    case 9: raise(l, std::bad_alloc()); case 10: raise(l, std::bad_exception()); case 11: raise(l, std::logic_error(l.message));
    default: raise(l, std::system_error(std::make_error_code(std::errc::io_error), l.message));
    }
}
[[noreturn]] void raiseAll(std::vector<Link> const & c, std::size_t i = 0) {
    if (i + 1 >= c.size()) raiseOne(c[i]);
    try { raiseAll(c, i + 1); } catch (...) { raiseOne(c[i]); }
}
std::exception_ptr capture(std::vector<Link> const & c) { try { raiseAll(c); } catch (...) { return std::current_exception(); } }
std::string message(Link const & l) { return l.kind == 8 ? std::system_error(std::make_error_code(std::errc::io_error), l.message).what() : l.kind == 9 ? std::bad_alloc().what() : l.kind == 10 ? std::bad_exception().what() : l.message; }
bool standard(Link const & l) { return l.kind != 5 && l.kind != 6; }
bool carries(Link const & l) { return standard(l) && (l.kind == 4 || (l.nested && l.kind != 7)); }
/* How far the chain can be followed: an exception which is no std::exception ends it. */
std::size_t visible(std::vector<Link> const & c) { std::size_t n = 0; for (;;) { ++n; if (n == c.size() || !carries(c[n - 1])) return n; } }
std::vector<Link> chain(vm::Rng & r) {
    std::vector<Link> c(1 + (r.chance(1, 60) ? r.below(400) : r.size(r.chance(1, 30) ? 60 : 6))); bool const straight = r.flip();
    for (auto & l : c) {
        l.kind = unsigned(straight && r.flip() ? r.below(5) : straight ? 8 + r.below(4) : r.below(12)); l.nested = !(straight ? r.chance(1, 40u + c.size()) : r.chance(1, 5)); l.sharemind = r.flip() ;
        l.message.resize(r.size(r.chance(1, 40) ? 3000 : 40)); for (char & x : l.message) x = char(r.chance(1, 6) ? " %s%n\t[]/:\""[r.below(10)] : r.chance(1, 10) ? 128 + r.below(128) : '!' + r.below(90));
    }
    std::string d = vm::format("%zu exceptions:", c.size()); for (auto const & l : c) d += vm::format(" %u%s", l.kind, l.nested ? "+" : "");
    vm::describe(d); return c;
}
/* Names of the exceptions' types, found independently. */
std::vector<std::string> typeNames(std::exception_ptr e) {
    std::vector<std::string> n;
    while (e) { std::exception_ptr next; try { std::rethrow_exception(e); } catch (std::exception const & s) { n.push_back(typeid(s).name()); if (auto const * x = dynamic_cast<std::nested_exception const *>(&s)) next = x->nested_ptr(); } catch (Foreign const & f) { (void) f; n.push_back(abi::__cxa_current_exception_type()->name()); } catch (int) { n.push_back(typeid(int).name()); } e = next; }
    return n;
}
std::string expected(std::vector<Link> const & c, bool & tail) {
    std::vector<std::string> const types = typeNames(capture(c)); std::size_t const n = visible(c); std::string s;
    VM_CHECK(types.size() == n, "harness", "the chain has %zu exceptions, should have %zu", types.size(), n);
    for (std::size_t i = 0; i < n; ++i) s += vm::format("%zu: [%s]", i + 1, types[i].c_str()) + (standard(c[i]) ? " " + message(c[i]) + "\n" : "\n");
    tail = !standard(c[n - 1]); return s;
}
void same(std::string const & got, std::string const & want, bool tail, char const * how) {
    VM_CHECK(got.compare(0, want.size(), want) == 0, "chain", "%s is %s, should be %s", how, vm::jsonStr(got).c_str(), vm::jsonStr(want).c_str());
    if (tail) VM_CHECK(got.size() > want.size(), "chain", "%s does not say that the rest cannot be printed", how); else VM_CHECK(got.size() == want.size(), "chain", "%s goes on with %s", how, vm::jsonStr(got.substr(want.size())).c_str());
}
}
VM_SCENARIO(prints, "asan plain", 4000, 200000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        vm::LiveBalance b; std::uint64_t sig = 0;
        { std::vector<Link> const c = chain(r); bool tail; std::string const want = expected(c, tail); std::exception_ptr e = capture(c); std::ostringstream o; o << "before\n";
          bool const inHandler = r.flip(), twice = r.flip();
          if (inHandler) { try { throw 1; } catch (int) { sharemind::verbosePrintException(e, o); VM_CHECK(std::current_exception() != e, "current", "the printed exception is still being handled"); } } else { sharemind::verbosePrintException(e, o); VM_CHECK(!std::current_exception(), "current", "an exception is still being handled after printing"); }
          same(o.str().substr(7), want, tail, "the print"); 
          if (twice) { std::ostringstream p; sharemind::verbosePrintException(e, p); same(p.str(), want, tail, "the second print"); }
          vm::event("printed"); vm::event("exceptions", visible(c)); if (tail) vm::event("ends_unknown"); sig = vm::hashStr(want); }
        b.expect(0, "printing a chain"); vm::signature(sig);
    });
}
VM_SCENARIO(threads, "asan", 60, 3000, 1, 4) {
    vm::runCases([](vm::Rng & r, std::uint64_t) { /* one chain printed by several threads */
        vm::LiveBalance b; std::uint64_t sig;
        { std::vector<Link> const c = chain(r); bool tail; std::string const want = expected(c, tail); std::exception_ptr const e = capture(c); std::vector<std::ostringstream> os(4); std::vector<std::function<void()> > fs;
          for (auto & o : os) fs.push_back([&o, &e] { sharemind::verbosePrintException(e, o); });
          vm::parallel(fs); for (auto const & o : os) same(o.str(), want, tail, "the print of one of several threads"); sig = vm::hashStr(want); }
        b.expect(0, "printing a chain"); vm::event("threaded_prints", 4); vm::signature(sig);
    });
}
/* ---- what ends the process: watched from outside it */
namespace {
struct Outcome { bool aborted; int status; std::string text; };
template <typename F> Outcome outside(F && f) {
    int p[2]; if (::pipe(p) != 0) { std::perror("pipe"); std::_Exit(2); }
    std::fflush(nullptr); pid_t const pid = ::fork(); if (pid < 0) { std::perror("fork"); std::_Exit(2); }
    if (pid == 0) {
        rlimit const none = {0, 0}; ::setrlimit(RLIMIT_CORE, &none); ::signal(SIGABRT, SIG_DFL); ::alarm(60); ::dup2(p[1], 2); ::close(p[0]); ::close(p[1]);
        std::set_terminate(&std::abort); f(); std::fflush(nullptr); std::_Exit(7);
    }
    ::close(p[1]); Outcome o; char buf[4096]; for (ssize_t n; (n = ::read(p[0], buf, sizeof(buf))) != 0; ) { if (n < 0) { if (errno == EINTR) continue; break; } o.text.append(buf, std::size_t(n)); } ::close(p[0]);
    int s = 0; while (::waitpid(pid, &s, 0) < 0 && errno == EINTR) {}
    o.aborted = WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT; o.status = s;
    VM_CHECK(o.aborted || (WIFEXITED(s) && WEXITSTATUS(s) == 7), "ending", "the process ended with status %#x, having written %s", unsigned(s), vm::jsonStr(o.text.substr(0, 600)).c_str()); vm::event(o.aborted ? "aborted" : "went_on"); return o;
}
void uncaught(std::vector<Link> const & c) noexcept { raiseAll(c); }
}
VM_SCENARIO(terminate, "asan plain", 1600, 20000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::vector<Link> const c = chain(r); bool tail; std::string const want = expected(c, tail); unsigned const how = unsigned(i % 8u); bool const scoped = r.flip();
        auto const die = [&] {
            switch (how) {
            case 0: uncaught(c); break;
            case 1: try { raiseAll(c); } catch (...) { std::terminate(); }
            case 2: { std::thread t([&c] { raiseAll(c); }); t.join(); } break;
            case 3: try { raiseAll(c); } catch (...) { sharemind::verboseTerminateHandler(); }
            case 4: try { raiseAll(c); } catch (...) { std::unexpected(); }
            case 5: try { raiseAll(c); } catch (...) { sharemind::verboseUnexpectedHandler(); }
            case 6: std::terminate();
            default: std::unexpected();
            }
        };
        Outcome const o = outside([&] { if (scoped) { sharemind::ScopedDebugVerboseHandlers const h; die(); } else { sharemind::enableDebugVerboseHandlers(); die(); } });
        VM_CHECK(o.aborted, "not-aborted", "the process went on after way %u of ending it", how);
        std::size_t const eol = o.text.find('\n'); VM_CHECK(eol != std::string::npos && eol > 0, "silent", "ending the process wrote %s", vm::jsonStr(o.text).c_str());
        std::string const head = o.text.substr(0, eol), rest = o.text.substr(eol + 1);
        VM_CHECK((head.find("unexpected") != std::string::npos) == (how == 4 || how == 5 || how == 7) && (head.find("terminate") != std::string::npos) == !(how == 4 || how == 5 || how == 7), "which", "the ending is announced as %s", vm::jsonStr(head).c_str());
        if (how < 6) same(rest, want, tail, "the handler's print"); else VM_CHECK(rest.empty(), "chain", "without an exception, the handler writes %s", vm::jsonStr(rest).c_str());
        vm::event("endings"); vm::signature(vm::hashStr(want) ^ how);
    });
}
/* ---- handlers of a scope */
namespace {
void t0() { std::abort(); } void t1() { std::abort(); } void u0() { std::abort(); } void u1() { std::abort(); }
using TH = std::terminate_handler; using UH = std::unexpected_handler;
void scopes(vm::Rng & r, unsigned depth, std::uint64_t & sig) {
    TH const t = std::get_terminate(); UH const u = std::get_unexpected(); unsigned const what = unsigned(r.below(3)); sig = vm::mix(sig ^ what);
    if (what == 0) { TH const nt = r.flip() ? &t0 : &t1; UH const nu = r.flip() ? &u0 : &u1; std::set_terminate(nt); std::set_unexpected(nu); if (depth) scopes(r, depth - 1, sig); VM_CHECK(std::get_terminate() == nt && std::get_unexpected() == nu, "restored", "a scope does not leave the handlers as they were"); std::set_terminate(t); std::set_unexpected(u); return; }
    try {
        sharemind::ScopedDebugVerboseHandlers const s; VM_CHECK(std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler, "installed", "the handlers are not installed");
        for (unsigned k = 0; depth && k < 2; ++k) { scopes(r, depth - 1, sig); VM_CHECK(std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler, "restored", "an inner scope does not put the handlers back"); }
        vm::event("scopes"); if (r.chance(1, 3)) { std::set_terminate(r.flip() ? &t0 : &t1); if (r.flip()) std::set_unexpected(&u1); vm::event("replaced_inside"); } if (what == 2) throw 1;
    } catch (int) {}
    VM_CHECK(std::get_terminate() == t, "restored", "the terminate handler is not put back"); VM_CHECK(std::get_unexpected() == u, "restored", "the unexpected handler is not put back");
}
}
VM_SCENARIO(handlers, "asan", 500, 20000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) { TH const t = std::get_terminate(); UH const u = std::get_unexpected(); std::uint64_t sig = 0; scopes(r, unsigned(r.below(6)), sig); std::set_terminate(t); std::set_unexpected(u); vm::signature(sig); 
        if (r.chance(1, 10)) { sharemind::enableDebugVerboseHandlers(); VM_CHECK(std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler, "installed", "the handlers are not installed"); std::set_terminate(t); std::set_unexpected(u); } });
}
/* ---- test assertions */
namespace {
std::string bracketed(std::vector<Link> const & c) {
    std::size_t const n = visible(c); std::string s;
    for (std::size_t i = 0; i < n; ++i) s += vm::format("[%zu/%zu] ", i + 1, n) + (standard(c[i]) ? message(c[i]) + "\n" : "");
    return s; /* a foreign exception is only said to be unknown */
}
struct Truth { bool v; explicit operator bool() const { return v; } };
}
VM_SCENARIO(assertions, "asan plain", 1600, 30000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        std::vector<Link> const c = chain(r); bool const ok = r.flip(); unsigned const how = unsigned(i % 13u); std::vector<Link> seen(c); if (how == 7) seen.push_back(Link{6, false, false, "x"}); /* thrown while an int is handled */ std::string const want = bracketed(seen); bool const closed = standard(seen[visible(seen) - 1]); vm::describe(vm::format("assertion %u, %s", how, ok ? "which holds" : "which does not"));
        std::string text; bool abortion = !ok, withChain = false; int count = 1;
        Outcome const o = outside([&] {
            int n = 0; auto const cond = [&n, ok](int k, int) { ++n; return ok && k == 3; }; auto const maybe = [&n, ok, &c] { ++n; if (!ok) raiseAll(c); return n; };
            switch (how) {
            case 0: SHAREMIND_TESTASSERT(cond(3, 4)); break;
            case 1: SHAREMIND_TESTASSERT(Truth{cond(3, 4)}); break;
            case 2: SHAREMIND_TESTASSERT((maybe(), cond(ok ? 3 : 4, 1))); break;
            case 3: SHAREMIND_TEST_DOES_NOT_THROW(maybe()); break;
            case 4: SHAREMIND_TEST_THROWS(++n; if (ok) raiseAll(c)); break;
            case 5: if (ok) { ++n; try { raiseAll(c); } catch (...) { SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; } } else { ++n; SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; } break;
            case 6: ++n; if (!ok) SHAREMIND_TEST_UNREACHABLE; else ++n; break;
            case 7: try { throw 1; } catch (int) { SHAREMIND_TESTASSERT(maybe() == 1); } break;
            case 8: SHAREMIND_TESTASSERT(++n == (ok ? 1 : 2)); break;
            case 9: SHAREMIND_TESTASSERT(++n, ok); break;
            case 10: SHAREMIND_TESTASSERT(std::pair<int, bool>(++n, ok).second); break;
            case 11: SHAREMIND_TESTASSERT(++n ? ok : !ok); break;
            default: SHAREMIND_TESTASSERT(cond(3, 4) || n > 1); break;
            }
            std::fprintf(stderr, "evaluated %d", n);
        });
        switch (how) {
        case 0: text = "cond(3, 4)"; break; case 1: text = "Truth{cond(3, 4)}"; break; case 2: text = "(maybe(), cond(ok ? 3 : 4, 1))"; withChain = true; count = 2; break; case 3: text = "maybe()"; withChain = true; break;
        case 4: text = "++n; if (ok) raiseAll(c)"; break; case 5: abortion = false; break; case 6: count = 2; break; case 7: text = "maybe() == 1"; withChain = true; break; case 8: text = "++n == (ok ? 1 : 2)"; break; case 9: text = "++n, ok"; break; case 10: text = "std::pair<int, bool>(++n, ok).second"; break; case 11: text = "++n ? ok : !ok"; break; default: text = "cond(3, 4) || n > 1"; break;
        }
        VM_CHECK(o.aborted == abortion, "assertion", "assertion %u %s, but the process %s, having written %s", how, ok ? "holds" : "does not hold", o.aborted ? "is aborted" : "goes on", vm::jsonStr(o.text.substr(0, 500)).c_str());
        if (how == 5) {
            std::string const end = "evaluated 1"; std::string s = o.text; VM_CHECK(s.size() >= end.size() && s.compare(s.size() - end.size(), end.size(), end) == 0, "assertion", "printing the current exception ends in %s", vm::jsonStr(s).c_str()); s.resize(s.size() - end.size());
            if (ok) { VM_CHECK(s.compare(0, want.size(), want) == 0 && (closed ? s.size() == want.size() : s.size() > want.size()), "assertion-chain", "the exceptions are printed as %s, should be %s", vm::jsonStr(s).c_str(), vm::jsonStr(want).c_str()); }
            else VM_CHECK(!s.empty() && s.find('[') == std::string::npos, "assertion-chain", "no exception is printed as %s", vm::jsonStr(s).c_str());
        } else if (!abortion) VM_CHECK(o.text == vm::format("evaluated %d", count), "evaluated", "assertion %u holds; the process writes %s", how, vm::jsonStr(o.text).c_str());
        else {
            std::size_t const eol = o.text.find('\n'); VM_CHECK(eol != std::string::npos && o.text.find("p36.cpp:") < eol && o.text.find(text) < eol, "assertion-text", "the failure of `%s' is reported as %s", text.c_str(), vm::jsonStr(o.text.substr(0, 500)).c_str());
            std::string const s = o.text.substr(eol + 1); if (!withChain) VM_CHECK(s.empty(), "assertion-chain", "a failed assertion goes on with %s", vm::jsonStr(s.substr(0, 500)).c_str());
            else VM_CHECK(s.compare(0, want.size(), want) == 0 && (closed ? s.size() == want.size() : s.size() > want.size()), "assertion-chain", "the exceptions are printed as %s, should be %s", vm::jsonStr(s.substr(0, 1000)).c_str(), vm::jsonStr(want.substr(0, 1000)).c_str());
        }
        vm::event("assertions"); vm::signature(vm::mix(vm::hashStr(want) ^ how ^ (ok ? 64u : 0u)));
    });
}
