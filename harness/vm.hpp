/* Runtime-monitoring framework shared by all harnesses.

   A harness is one program with several scenarios. A scenario runs a fixed
   number of generated cases against the real headers; monitors inside it report
   violations, and the sanitizers it is compiled with watch the rest. The
   runner (checks/run.py) starts one process per scenario, variant and shard.

   Protocol with the runner (files given on the command line):
     --out F    JSON result: counters, distinct signatures, samples
     --case F   a small memory-mapped file that always names the current case
   Exit codes: 0 held, 70 monitor violation, 71 deadlock found by the watchdog,
   72 the case deadline passed while threads were still running, 2 bad usage.
*/
#ifndef VM_HPP
#define VM_HPP

#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_THREAD__)
#define VM_TSAN 1
#include <sanitizer/tsan_interface.h>
#else
#define VM_TSAN 0
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VM_ASAN 1
#else
#define VM_ASAN 0
#endif


extern "C" {
extern int vm_perturb_on;
extern std::uint64_t vm_perturb_seed;
extern unsigned vm_perturb_level;
extern std::uint64_t vm_perturb_threads;
extern std::uint64_t vm_perturb_actions;
}

namespace vm {

/* ---------------------------------------------------------------- RNG ---- */
inline std::uint64_t mix(std::uint64_t z) noexcept {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline std::uint64_t hashBytes(void const * p, std::size_t n,
                               std::uint64_t h = 1469598103934665603ull) noexcept
{
    auto const * c = static_cast<unsigned char const *>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline std::uint64_t hashStr(std::string const & s) noexcept
{ return hashBytes(s.data(), s.size()); }

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) noexcept : s(mix(seed ^ 0xabcdef1234ull)) {}
    std::uint64_t next() noexcept { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    /** uniform in [0, n) */
    std::uint64_t below(std::uint64_t n) noexcept { return n ? next() % n : 0u; }
    /** uniform in [a, b] */
    std::int64_t range(std::int64_t a, std::int64_t b) noexcept
    { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a) + 1u)); }
    bool chance(unsigned num, unsigned den) noexcept { return below(den) < num; }
    bool flip() noexcept { return next() & 1u; }
    /** size with a bias to small and boundary values */
    std::size_t size(std::size_t max) noexcept {
        switch (below(6)) {
        case 0: return below(max + 1u < 4u ? max + 1u : 4u);
        case 1: return max - below(max + 1u < 3u ? max + 1u : 3u);
        case 2: return below(max + 1u < 17u ? max + 1u : 17u);
        default: return below(max + 1u);
        }
    }
    /** 64-bit word with a bias to boundary patterns */
    std::uint64_t word() noexcept {
        switch (below(8)) {
        case 0: return 0u;
        case 1: return ~std::uint64_t(0);
        case 2: return std::uint64_t(1) << below(64);
        case 3: return (std::uint64_t(1) << below(64)) - 1u;
        case 4: return below(16);
        case 5: return ~below(16);
        case 6: return next() >> below(64);
        default: return next();
        }
    }
};

/* ------------------------------------------------------------- state ---- */
struct CaseFile { char text[4096]; };

struct Scenario {
    char const * name;
    char const * variants; /* space separated */
    unsigned quickCases, thoroughCases;
    unsigned shards;       /* processes to split the quick cases into */
    unsigned slots;        /* runner slots the process takes */
    void (*fn)();
};
inline std::vector<Scenario> & scenarios() {
    static auto * v = new std::vector<Scenario>;
    return *v;
}
struct Registrar {
    Registrar(char const * name, char const * variants, unsigned q, unsigned t,
              unsigned shards, unsigned slots, void (*fn)())
    { scenarios().push_back(Scenario{name, variants, q, t, shards, slots, fn}); }
};
#define VM_SCENARIO(name, variants, quick, thorough, shards, slots) \
    static void vm_scn_ ## name(); \
    static ::vm::Registrar vm_reg_ ## name{#name, variants, quick, thorough, \
                                           shards, slots, &vm_scn_ ## name}; \
    static void vm_scn_ ## name()

struct State {
    std::uint64_t seed = 1;
    std::string scenario;
    unsigned cases = 0, shard = 0, shardCount = 1;
    long onlyCase = -1;
    bool thorough = false;
    bool verbose = false;
    std::string outPath;
    CaseFile * caseFile = nullptr;
    std::atomic<std::uint64_t> caseIndex{0};
    std::atomic<std::uint64_t> caseStartNs{0}; /* 0: no case is running */
    double caseDeadlineS = 60.0;
    std::mutex m;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> sigs;
    std::uint64_t nontrivial = 0;
    std::vector<std::string> samples;
    std::uint64_t evaluations = 0;
};
inline State & st() { static State * s = new State; return *s; }

inline std::uint64_t nowNs() noexcept {
    struct timespec ts;
    ::clock_gettime(CLOCK_MONOTONIC, &ts);
    return std::uint64_t(ts.tv_sec) * 1000000000u + std::uint64_t(ts.tv_nsec);
}

inline std::string jsonStr(std::string const & s) {
    std::string r = "\"";
    for (unsigned char const c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) {
            char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b;
        } else r += char(c);
    }
    return r + "\"";
}

inline std::string vformat(char const * fmt, va_list ap) {
    char buf[3000];
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
__attribute__((format(printf, 1, 2)))
inline std::string format(char const * fmt, ...) {
    va_list ap; va_start(ap, fmt);
    std::string r = vformat(fmt, ap);
    va_end(ap);
    return r;
}

/** Set the description of the running case (read by the runner after a crash). */
inline void describe(std::string const & s) {
    if (st().caseFile)
        std::snprintf(st().caseFile->text + 64, sizeof(CaseFile) - 64, "%s", s.c_str());
    if (st().verbose)
        std::fprintf(stderr, "case: %s\n", s.c_str());
}

/** Counts an observed event. */
inline void event(char const * name, std::uint64_t n = 1) {
    std::lock_guard<std::mutex> g(st().m);
    st().counters[name] += n;
}
/** Records the signature of one evaluated case or observed interleaving. */
inline void signature(std::uint64_t h) {
    std::lock_guard<std::mutex> g(st().m);
    if (st().sigs.size() < 2000000u)
        st().sigs.insert(h);
}
inline void sample(std::string const & s) {
    std::lock_guard<std::mutex> g(st().m);
    if (st().samples.size() < 3u)
        st().samples.push_back(s.size() > 600 ? s.substr(0, 600) : s);
}

inline void writeResult(std::string const & status, std::string const & key,
                        std::string const & detail)
{
    State & s = st();
    if (s.outPath.empty())
        return;
    std::string o = "{\"status\":" + jsonStr(status);
    o += ",\"key\":" + jsonStr(key) + ",\"detail\":" + jsonStr(detail);
    o += ",\"case\":" + std::to_string(s.caseIndex.load());
    o += ",\"evaluations\":" + std::to_string(s.evaluations);
    o += ",\"distinct\":" + std::to_string(s.sigs.size());
    o += ",\"counters\":{";
    bool first = true;
    for (auto const & c : s.counters) {
        if (!first) o += ",";
        first = false;
        o += jsonStr(c.first) + ":" + std::to_string(c.second);
    }
    o += "},\"samples\":[";
    for (std::size_t i = 0; i < s.samples.size(); ++i)
        o += (i ? "," : "") + jsonStr(s.samples[i]);
    o += "],\"sigs\":[";
    { /* only a bounded sample of signatures is merged across shards */
        std::size_t n = 0;
        for (auto const h : s.sigs) {
            if (n >= 200000u) break;
            o += (n++ ? "," : "") + std::to_string(h);
        }
    }
    o += "]}";
    if (FILE * f = std::fopen(s.outPath.c_str(), "w")) {
        std::fwrite(o.data(), 1, o.size(), f);
        std::fclose(f);
    }
}

inline void stopNow(int code, char const * status, std::string const & key,
                    std::string const & detail)
{
    static std::atomic<bool> once{false};
    if (once.exchange(true))
        for (;;) ::pause();
    __atomic_store_n(&vm_perturb_on, 0, __ATOMIC_RELAXED);
    std::fprintf(stderr, "VM-%s scenario=%s case=%" PRIu64 " key=%s: %s\n",
                 status, st().scenario.c_str(), st().caseIndex.load(),
                 key.c_str(), detail.c_str());
    std::fflush(stderr);
    if (st().m.try_lock()) { /* may be held by a stuck or killed thread */
        writeResult(status, key, detail);
        st().m.unlock();
    } else {
        ::usleep(200000);
        writeResult(status, key, detail);
    }
    ::_exit(code);
}

__attribute__((format(printf, 2, 3)))
inline void violation(char const * key, char const * fmt, ...) {
    va_list ap; va_start(ap, fmt);
    std::string const d = vformat(fmt, ap);
    va_end(ap);
    stopNow(70, "violation", key, d);
}
/** The monitored condition. */
#define VM_CHECK(cond, key, ...) \
    do { if (!(cond)) ::vm::violation(key, __VA_ARGS__); } while (0)

/* --------------------------------------------------------- perturbation -- */
/* See vm_hook.c. */
struct Perturb { /* RAII: on while a concurrent case runs */
    explicit Perturb(std::uint64_t seed, unsigned level) {
        __atomic_store_n(&vm_perturb_seed, seed ? seed : 1u, __ATOMIC_RELAXED);
        __atomic_store_n(&vm_perturb_threads, std::uint64_t(0), __ATOMIC_RELAXED);
        __atomic_store_n(&vm_perturb_level, level, __ATOMIC_RELAXED);
        __atomic_store_n(&vm_perturb_on, level != 0, __ATOMIC_RELAXED);
    }
    ~Perturb() { __atomic_store_n(&vm_perturb_on, 0, __ATOMIC_RELAXED); }
};

/* ------------------------------------------------------------- cases ---- */
/** Runs the scenario's share of cases; fn(rng, index). */
inline void runCases(std::function<void (Rng &, std::uint64_t)> fn) {
    State & s = st();
    for (std::uint64_t i = s.shard; i < s.cases; i += s.shardCount) {
        if (s.onlyCase >= 0 && i != std::uint64_t(s.onlyCase))
            continue;
        s.caseIndex = i;
        if (s.caseFile)
            std::snprintf(s.caseFile->text, 64, "%" PRIu64, i);
        describe("");
        Rng rng(mix(s.seed) ^ mix(hashStr(s.scenario)) ^ mix(i * 2u + 1u));
        s.caseStartNs = nowNs();
        fn(rng, i);
        s.caseStartNs = 0;
        ++s.evaluations;
    }
}
inline std::uint64_t caseSeed() {
    return mix(st().seed) ^ mix(hashStr(st().scenario)) ^ mix(st().caseIndex * 31u + 7u);
}

/* ---------------------------------------------------- thread utilities --- */
/** Starts the given functions together and joins them all. */
inline void parallel(std::vector<std::function<void ()> > fns) {
    std::atomic<unsigned> ready{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    for (auto & f : fns)
        ts.emplace_back([&ready, &go, &f] {
            ++ready;
            while (!go.load(std::memory_order_acquire))
                ::sched_yield();
            f();
        });
    while (ready.load() != fns.size())
        ::sched_yield();
    go.store(true, std::memory_order_release);
    for (auto & t : ts)
        t.join();
}

/** Random short delay inside harness threads. */
inline void jitter(Rng & r) {
    switch (r.below(8)) {
    case 0: ::sched_yield(); break;
    case 1: { volatile unsigned n = unsigned(r.below(200)); while (n) n = n - 1; } break;
    case 2: if (r.chance(1, 8)) {
            struct timespec ts{0, long(r.below(60000))};
            ::nanosleep(&ts, nullptr);
        } break;
    default: break;
    }
}

/* -------------------------------------------------------- lifetime log --- */
/** Counts live instances; any use of a dead instance is a violation. */
struct Tracked {
    static std::atomic<long> & live() { static std::atomic<long> v{0}; return v; }
    static std::atomic<long> & made() { static std::atomic<long> v{0}; return v; }
    /* relaxed: the bookkeeping must not order the threads it watches */
    static void born() noexcept { live().fetch_add(1, std::memory_order_relaxed); made().fetch_add(1, std::memory_order_relaxed); }
    enum : std::uint32_t { Alive = 0xa11fe5a5u, Dead = 0xdeadf00du };
    std::uint32_t magic;
    long value;
    long * heap; /* makes leaks and double destruction visible to the sanitizers */
    static long * makeHeap(long v) noexcept
    { long * const p = static_cast<long *>(std::malloc(sizeof(long))); *p = v; return p; }
    /** Set by vm_oom.hpp: construction and copying fail like an allocation would. */
    static void (* & failPoint())() { static void (* f)() = nullptr; return f; }
    static long * makeHeapOrThrow(long v) { if (failPoint()) failPoint()(); return makeHeap(v); }
    explicit Tracked(long v = 0) : magic(Alive), value(v), heap(makeHeapOrThrow(v)) { born(); }
    Tracked(Tracked const & o) : magic(Alive), value(o.check()), heap(makeHeapOrThrow(value)) { born(); }
    Tracked(Tracked && o) noexcept : magic(Alive), value(o.check()), heap(makeHeap(value)) {
        born();
        o.value = -1; *o.heap = -1;
    }
    Tracked & operator=(Tracked const & o)
    { check(); value = o.check(); *heap = value; return *this; }
    Tracked & operator=(Tracked && o) noexcept {
        check();
        if (this != &o) { value = o.check(); *heap = value; o.value = -1; *o.heap = -1; }
        return *this;
    }
    ~Tracked() {
        if (magic != Alive)
            violation("lifetime-double-destroy", "destroying an object that is not alive");
        magic = Dead;
        std::free(heap);
        live().fetch_sub(1, std::memory_order_relaxed);
    }
    long check() const {
        if (magic != Alive)
            violation("lifetime-use-of-dead", "using an object that is not alive");
        if (*heap != value)
            violation("lifetime-corrupt", "object content corrupted");
        return value;
    }
    long get() const { return check(); }
    friend bool operator==(Tracked const & a, Tracked const & b) { return a.check() == b.check(); }
    friend bool operator!=(Tracked const & a, Tracked const & b) { return a.check() != b.check(); }
    friend bool operator<(Tracked const & a, Tracked const & b) { return a.check() < b.check(); }
    friend bool operator>(Tracked const & a, Tracked const & b) { return a.check() > b.check(); }
    friend bool operator<=(Tracked const & a, Tracked const & b) { return a.check() <= b.check(); }
    friend bool operator>=(Tracked const & a, Tracked const & b) { return a.check() >= b.check(); }
};

/** An exception with a tracked payload. The reference count of exception objects
    is in libstdc++.so, which is not instrumented, so the race detector is told
    of the one ordering it gives: reading comes before the destruction. */
struct Err {
    Tracked t;
    explicit Err(long v) : t(v) {}
    Err(Err const &) = default;
#if VM_TSAN
    static char * edge() { static char c; return &c; }
    ~Err() { __tsan_acquire(edge()); }
    long get() const { long const v = t.get(); __tsan_release(edge()); return v; }
#else
    long get() const { return t.get(); }
#endif
};

/** Scope monitor: number of live Tracked must be the same at the end. */
struct LiveBalance {
    long before = Tracked::live();
    char const * key;
    explicit LiveBalance(char const * k = "lifetime-balance") : key(k) {}
    void expect(long diff, char const * what) const {
        long const d = Tracked::live() - before;
        if (d != diff)
            violation(key, "%s: %ld tracked objects alive, expected %ld", what, d, diff);
    }
};

} /* namespace vm */

#ifndef VM_NO_MAIN
/* One translation unit per harness, so definitions live here. */
namespace vm {
/** Deadlock watchdog: sound under load because it only fires when every other
    thread has been asleep, without a single context switch, for several
    seconds while a case is running. */
struct ThreadStat { char state; unsigned long sw; };
inline bool readTask(char const * tid, ThreadStat & out) {
    char path[64], buf[2048];
    std::snprintf(path, sizeof path, "/proc/self/task/%s/status", tid);
    int const fd = ::open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return false;
    ssize_t const n = ::read(fd, buf, sizeof buf - 1);
    ::close(fd);
    if (n <= 0) return false;
    buf[n] = 0;
    out.state = '?'; out.sw = 0;
    if (char const * p = std::strstr(buf, "\nState:")) {
        p += 7; while (*p == ' ' || *p == '\t') ++p;
        out.state = *p;
    }
    if (char const * p = std::strstr(buf, "\nvoluntary_ctxt_switches:"))
        out.sw = std::strtoul(p + 25, nullptr, 10);
    return true;
}

/** Threads of the sanitizer runtime, which wake up regularly. */
inline std::unordered_set<long> & ignoredTasks() {
    static auto * s = new std::unordered_set<long>; /* in use until the very end */
    return *s;
}
inline void findRuntimeThreads() {
    std::thread([]{}).join(); /* makes the runtime start its threads */
    ::usleep(1000);
    long const self = long(::syscall(SYS_gettid));
    if (DIR * const d = ::opendir("/proc/self/task")) {
        while (auto * const e = ::readdir(d))
            if (e->d_name[0] >= '0' && e->d_name[0] <= '9' && std::atol(e->d_name) != self)
                ignoredTasks().insert(std::atol(e->d_name));
        ::closedir(d);
    }
}

inline void watchdog() {
    pid_t const self = pid_t(::syscall(SYS_gettid));
    std::map<long, unsigned long> last;
    unsigned quiet = 0;
    std::uint64_t lastStart = 0;
    for (;;) {
        ::usleep(250000);
        std::uint64_t const start = st().caseStartNs.load();
        if (!start) { quiet = 0; last.clear(); continue; }
        if (start != lastStart) { lastStart = start; quiet = 0; last.clear(); continue; }
        bool allAsleep = true, changed = false;
        unsigned nThreads = 0;
        std::map<long, unsigned long> cur;
        if (DIR * const d = ::opendir("/proc/self/task")) {
            while (auto * const e = ::readdir(d)) {
                if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
                long const tid = std::atol(e->d_name);
                if (tid == self || ignoredTasks().count(tid)) continue;
                ThreadStat ts;
                if (!readTask(e->d_name, ts)) { changed = true; continue; }
                ++nThreads;
                cur[tid] = ts.sw;
                if (ts.state != 'S') allAsleep = false;
                auto const it = last.find(tid);
                if (it == last.end() || it->second != ts.sw) changed = true;
            }
            ::closedir(d);
        }
        bool const progress = changed || !allAsleep || cur.size() != last.size();
        last = cur;
        quiet = progress ? 0 : quiet + 1;
        if (quiet >= 24 && st().caseStartNs.load() == start) /* 6 s */
            stopNow(71, "deadlock", "deadlock",
                    format("all %u threads blocked for 6 s", nThreads));
        if (double(nowNs() - start) / 1e9 > st().caseDeadlineS)
            stopNow(72, "deadline", "no-progress",
                    format("case still running after %.0f s", st().caseDeadlineS));
    }
}
} /* namespace vm */

int main(int argc, char ** argv) {
    using namespace vm;
    State & s = st();
    std::string casePath;
    bool list = false;
    double scale = 1.0;
    for (int i = 1; i < argc; ++i) {
        std::string const a = argv[i];
        auto const val = [&]() -> char const * {
            if (i + 1 >= argc) { std::fprintf(stderr, "missing value for %s\n", a.c_str()); std::exit(2); }
            return argv[++i];
        };
        if (a == "--list") list = true;
        else if (a == "--scenario") s.scenario = val();
        else if (a == "--seed") s.seed = std::strtoull(val(), nullptr, 10);
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--scale") scale = std::atof(val());
        else if (a == "--shard") { s.shard = unsigned(std::atoi(val())); }
        else if (a == "--shards") { s.shardCount = unsigned(std::atoi(val())); }
        else if (a == "--case-deadline") s.caseDeadlineS = std::atof(val());
        else if (a == "--only-case") s.onlyCase = std::atol(val());
        else if (a == "--out") s.outPath = val();
        else if (a == "--case-file") casePath = val();
        else if (a == "--verbose") s.verbose = true;
        else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (list) {
        for (auto const & x : scenarios())
            std::printf("%s\t%s\t%u\t%u\t%u\t%u\n", x.name, x.variants, x.quickCases,
                        x.thoroughCases, x.shards, x.slots);
        return 0;
    }
    if (!casePath.empty()) {
        int const fd = ::open(casePath.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (fd >= 0 && ::ftruncate(fd, sizeof(CaseFile)) == 0) {
            void * const p = ::mmap(nullptr, sizeof(CaseFile), PROT_READ | PROT_WRITE,
                                    MAP_SHARED, fd, 0);
            if (p != MAP_FAILED)
                s.caseFile = static_cast<CaseFile *>(p);
            ::close(fd);
        }
    }
    for (auto const & x : scenarios())
        if (s.scenario == x.name) {
            s.cases = unsigned((s.thorough ? x.thoroughCases : x.quickCases) * scale);
            if (!s.cases) s.cases = 1;
            findRuntimeThreads();
            std::thread(watchdog).detach();
            x.fn();
            if (vm_perturb_actions)
                event("perturbation-actions", vm_perturb_actions);
            std::lock_guard<std::mutex> g(s.m);
            writeResult("held", "", "");
            return 0; /* runs the leak checker */
        }
    std::fprintf(stderr, "no scenario %s\n", s.scenario.c_str());
    return 2;
}
#endif /* VM_NO_MAIN */

#endif /* VM_HPP */
