/* Schedule perturbation hook, compiled without any instrumentation and linked
   into the harness. Compiled with -fsanitize-coverage=trace-pc the library (and
   harness) calls it at every basic block; while perturbation is on it yields,
   spins or sleeps with small probability, which explores many more interleavings
   than free running threads do. The decisions come from the case seed, one
   stream per thread. */
#define _GNU_SOURCE
#include <sched.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

int vm_perturb_on = 0;
uint64_t vm_perturb_seed = 1;
unsigned vm_perturb_level = 0;
uint64_t vm_perturb_threads = 0;
uint64_t vm_perturb_actions = 0;

static __thread uint64_t tls_s = 0, tls_epoch = 0;

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void __sanitizer_cov_trace_pc(void) {
    if (__builtin_expect(!__atomic_load_n(&vm_perturb_on, __ATOMIC_RELAXED), 1))
        return;
    uint64_t const seed = __atomic_load_n(&vm_perturb_seed, __ATOMIC_RELAXED);
    if (tls_epoch != seed) {
        tls_epoch = seed;
        tls_s = mix(seed + __atomic_fetch_add(&vm_perturb_threads, 1, __ATOMIC_RELAXED));
    }
    tls_s = tls_s * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t const r = tls_s >> 33;
    if ((r & 0xfffu) >= __atomic_load_n(&vm_perturb_level, __ATOMIC_RELAXED))
        return;
    __atomic_fetch_add(&vm_perturb_actions, 1, __ATOMIC_RELAXED);
    unsigned const k = (unsigned)(r >> 12) & 0x3fu;
    if (k < 40u) {
        syscall(SYS_sched_yield);
    } else if (k < 60u) {
        for (volatile unsigned i = (unsigned)(r >> 18) & 0x3ffu; i; i = i - 1) {}
    } else {
        struct timespec ts = {0, (long)((r >> 18) & 0x7fffu)};
        syscall(SYS_nanosleep, &ts, (void *)0);
    }
}
