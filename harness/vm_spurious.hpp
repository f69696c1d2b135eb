/* Spurious wakeups: while perturbation is on, waiting for a condition variable
   sometimes returns without having been notified, as the standard allows. The
   functions replace the C library's, so include this in one file only. Not in
   effect with ThreadSanitizer, which needs to see the real calls. */
#ifndef VM_SPURIOUS_HPP
#define VM_SPURIOUS_HPP
#include "vm.hpp"
#if !VM_TSAN
#include <dlfcn.h>
namespace vm {
inline std::atomic<std::uint64_t> & spuriousWakeups() { static std::atomic<std::uint64_t> v{0}; return v; }
inline bool spuriousNow() noexcept {
    if (!__atomic_load_n(&vm_perturb_on, __ATOMIC_RELAXED)) return false;
    static std::atomic<std::uint64_t> n{0};
    if (mix(vm_perturb_seed ^ (n.fetch_add(1, std::memory_order_relaxed) * 977u)) % 5u) return false;
    spuriousWakeups().fetch_add(1, std::memory_order_relaxed);
    return true;
}
inline int wakeSpuriously(::pthread_mutex_t * m) noexcept {
    ::pthread_mutex_unlock(m); ::sched_yield(); ::pthread_mutex_lock(m); return 0;
}
template <typename F> F realFunction(char const * name, char const * version) noexcept {
    void * p = ::dlvsym(RTLD_NEXT, name, version);
    if (!p) p = ::dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}
}
extern "C" int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    using F = int (*)(pthread_cond_t *, pthread_mutex_t *);
    static F const f = vm::realFunction<F>("pthread_cond_wait", "GLIBC_2.3.2");
    return vm::spuriousNow() ? vm::wakeSpuriously(m) : f(c, m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, struct timespec const * t) {
    using F = int (*)(pthread_cond_t *, pthread_mutex_t *, struct timespec const *);
    static F const f = vm::realFunction<F>("pthread_cond_timedwait", "GLIBC_2.3.2");
    return vm::spuriousNow() ? vm::wakeSpuriously(m) : f(c, m, t);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, struct timespec const * t) {
    using F = int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, struct timespec const *);
    static F const f = vm::realFunction<F>("pthread_cond_clockwait", "GLIBC_2.30");
    return vm::spuriousNow() ? vm::wakeSpuriously(m) : f(c, m, k, t);
}
#else
namespace vm { inline std::atomic<std::uint64_t> & spuriousWakeups() { static std::atomic<std::uint64_t> v{0}; return v; } }
#endif
#endif
