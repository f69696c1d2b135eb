/* Allocation fault injection: the n-th allocation of the calling thread fails.
   Replaces operator new and delete, so include it in one file only. */
#ifndef VM_OOM_HPP
#define VM_OOM_HPP
#include <cstdlib>
#include <new>
#include "vm.hpp"
namespace vm {
struct Oom {
    static long & countdown() { static thread_local long v = 0; return v; }
    static bool & fired() { static thread_local bool v = false; return v; }
    explicit Oom(long n) { countdown() = n; fired() = false; } /* n-th from now fails; 0: none */
    ~Oom() { countdown() = 0; }
};
inline bool oomNow() noexcept {
    long & c = Oom::countdown();
    if (c > 0 && --c == 0) { Oom::fired() = true; return true; }
    return false;
}
static bool const oomInstalled = (Tracked::failPoint() = [] { if (oomNow()) throw std::bad_alloc(); }, true);
}
void * operator new(std::size_t n) {
    if (vm::oomNow()) throw std::bad_alloc();
    if (void * const p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void * operator new[](std::size_t n) { return ::operator new(n); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { return vm::oomNow() ? nullptr : std::malloc(n ? n : 1); }
void * operator new[](std::size_t n, std::nothrow_t const & t) noexcept { return ::operator new(n, t); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { std::free(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
void operator delete[](void * p, std::size_t) noexcept { std::free(p); }
#endif
