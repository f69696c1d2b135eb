/* P35: integer literals. The literals are written by gen_p35.py, anew for every seed.
   VM-VARIANTS: plain asan ndebug native
   VM-SAN-FLAGS: -O0 */
#include "vm.hpp"
#if defined(VM_VARIANT_native)
/* Only looks at another program, hence can be built whatever the literals are like. */
#elif defined(VM_VARIANT_ndebug) /* either order of inclusion */
#include <sharemind/CstdintLiterals.h>
#include <sharemind/CstddefLiterals.h>
#else
#include <sharemind/CstddefLiterals.h>
#include <sharemind/CstdintLiterals.h>
#endif
#include <cstdlib>
#include <fstream>
#include <type_traits>

#ifdef VM_VARIANT_plain
/* What the literal templates say about a text. Built apart from the operators,
   which do not compile where a literal is refused. */
namespace {
namespace IL = sharemind::IntegerLiterals;
struct Traits { bool valid, overflow; std::uint64_t value; };
template <typename L, bool = L::valid> struct Get { static Traits get() { return {true, L::overflow, L::value}; } };
template <typename L> struct Get<L, false> { static Traits get() { return {false, false, 0}; } };
template <typename L> Traits traits() { return Get<L>::get(); }
struct Text { char const * what; Traits t; std::uint64_t value; bool overflow; bool malformed; };
#include "texts.inc"
}
VM_SCENARIO(texts, "plain", 29, 29, 1, 1) {
    vm::runCases([](vm::Rng &, std::uint64_t i) {
        TextSet const & s = textsSets[i % (sizeof(textsSets) / sizeof(TextSet))]; vm::describe(s.type);
        for (Text const * t = s.begin; t != s.begin + s.n; ++t) {
            vm::event("texts"); vm::signature(vm::hashStr(t->what));
            if (t->malformed) { VM_CHECK(!t->t.valid, "malformed", "%s is taken for an integer literal", t->what); vm::event("malformed"); continue; }
            VM_CHECK(t->t.valid, "refused", "the literal %s is refused as malformed", t->what);
            VM_CHECK(t->t.overflow == t->overflow, t->overflow ? "overflow-missed" : "refused", "the literal %s is %s range", t->what, t->overflow ? "out of range, but taken as in" : "in range, but refused as out of");
            VM_CHECK(t->t.value == t->value, "value", "the literal %s has the value %llu modulo 2^64, should be %llu", t->what, (unsigned long long) t->t.value, (unsigned long long) t->value);
        }
    });
}
#elif defined(VM_VARIANT_native)
/* What becomes of a program with such literals, as told by the compiler which
   evaluates them: those that are refused are refused where they stand. */
VM_SCENARIO(refused, "native", 1, 1, 1, 1) {
    vm::runCases([](vm::Rng &, std::uint64_t) {
        std::ifstream list("../refused.txt"); std::vector<std::pair<bool, std::string> > lits; bool refused; std::string lit;
        while (list >> refused >> lit) lits.emplace_back(refused, lit);
        if (lits.empty()) { std::fprintf(stderr, "HARNESS-ERROR: no list of literals\n"); std::exit(2); }
        int const status = std::system("LC_ALL=C g++ -std=c++14 -fsyntax-only -fno-diagnostics-show-caret -fmax-errors=0 -I../inc ../refused.cpp >refused.out 2>&1");
        std::vector<bool> told(lits.size(), false); bool other = false; std::ifstream out("refused.out"); std::string line;
        while (std::getline(out, line)) {
            auto const at = line.find("refused.cpp:");
            if (at == std::string::npos) { other = other || line.find("fatal error") != std::string::npos; continue; }
            long const n = std::strtol(line.c_str() + at + 12, nullptr, 10) - 4;
            if (n >= 0 && std::size_t(n) < lits.size()) { if (line.find("In function") == std::string::npos && line.find("warning:") == std::string::npos && line.find("note:") == std::string::npos) told[std::size_t(n)] = true; } else if (line.find("error") != std::string::npos) other = true;
        }
        if (other) { std::fprintf(stderr, "HARNESS-ERROR: the program of literals does not compile for another reason\n"); std::exit(2); }
        for (std::size_t i = 0; i < lits.size(); ++i) {
            VM_CHECK(told[i] || !lits[i].first, "accepted", "the literal %s compiles, although it is malformed or out of range", lits[i].second.c_str());
            VM_CHECK(!told[i] || lits[i].first, "refused", "the literal %s does not compile", lits[i].second.c_str());
            vm::event(lits[i].first ? "refused where they stand" : "accepted"); vm::signature(vm::hashStr(lits[i].second.c_str()));
        }
        VM_CHECK(status != 0, "accepted", "a program with literals out of range compiles");
    });
}
#else
namespace {
using namespace sharemind;
struct Row { char const * text; bool type; std::uint64_t got, want; };
#include "literals.inc"
}
VM_SCENARIO(operators, "asan ndebug", 29, 29, 1, 1) {
    vm::runCases([](vm::Rng &, std::uint64_t i) {
        RowSet const & s = rowsSets[i % (sizeof(rowsSets) / sizeof(RowSet))]; vm::describe(s.type);
        for (Row const * t = s.begin; t != s.begin + s.n; ++t) {
            VM_CHECK(t->type, "type", "the literal %s has another type", t->text);
            VM_CHECK(t->got == t->want, "value", "the literal %s denotes %#llx, should be %#llx", t->text, (unsigned long long) t->got, (unsigned long long) t->want);
            vm::event("literals"); vm::signature(vm::hashStr(t->text));
        }
    });
}
#endif
