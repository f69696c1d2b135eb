/* P24: files loaded to memory, descriptor holders, system call loops, memory streams.
   VM-VARIANTS: asan ndebug
   VM-LIBS: -U_FORTIFY_SOURCE -Wl,--wrap=read -Wl,--wrap=open -Wl,--wrap=close -Wl,--wrap=fstat -Wl,--wrap=fcntl */
#include "vm_oom.hpp"
#include <functional>
#include <iterator>
#include <memory>
#include <set>
#include <sharemind/Datum.h>
#include <sharemind/FileDescriptor.h>
#include <sharemind/InputMemoryStream.h>
#include <sharemind/Posix.h>
#include <sstream>
#include <sys/resource.h>

/* The system calls of the code under test, watched and made to misbehave. */
struct Faults {
    bool on = false; std::function<int (int, std::size_t, ssize_t &)> read; /* 0: pass, 1: limited to the size, 2: result given, errno set */
    int failOpen = 0, failStat = 0; std::function<int (int, int &)> fcntl; std::set<int> watched; std::vector<int> closed; std::uint64_t reads = 0, eintrs = 0, shorts = 0, badCloses = 0;
};
static thread_local Faults * g_f = nullptr;
struct NoOom { long const saved = vm::Oom::countdown(); NoOom() { vm::Oom::countdown() = 0; } ~NoOom() { vm::Oom::countdown() = saved; } }; /* our own allocations are not the code's */
extern "C" {
ssize_t __real_read(int, void *, size_t); int __real_open(char const *, int, ...); int __real_close(int); int __real_fstat(int, struct ::stat *); int __real_fcntl(int, int, ...);
ssize_t __wrap_read(int fd, void * p, size_t n) { NoOom const guard;
    if (g_f && g_f->read) { ++g_f->reads; ssize_t r = ssize_t(n); int const k = g_f->read(fd, n, r); if (k == 2) return r; return __real_read(fd, p, k == 1 ? size_t(r) : n); }
    return __real_read(fd, p, n);
}
int __wrap_open(char const * f, int flags, int mode) { NoOom const guard;
    if (!g_f) return __real_open(f, flags, mode);
    if (g_f->failOpen) { errno = g_f->failOpen; return -1; }
    int const fd = __real_open(f, flags, mode); if (fd >= 0) g_f->watched.insert(fd); return fd;
}
int __wrap_close(int fd) { NoOom const guard;
    if (!g_f) return __real_close(fd);
    g_f->closed.push_back(fd);
    if (!g_f->watched.erase(fd)) { ++g_f->badCloses; errno = EBADF; return -1; }
    int const r = __real_close(fd); errno = 77; /* whatever: the cause must have been taken before */ return r;
}
int __wrap_fstat(int fd, struct ::stat * s) { if (g_f && g_f->failStat) { errno = g_f->failStat; return -1; } return __real_fstat(fd, s); }
int __wrap_fcntl(int fd, int cmd, long arg) { NoOom const guard; int r = 0; if (g_f && g_f->fcntl && g_f->fcntl(cmd, r)) return r; r = __real_fcntl(fd, cmd, arg); if (g_f && r >= 0 && (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD)) g_f->watched.insert(r); return r; }
}
namespace {
struct Watch { Faults f; Watch() { g_f = &f; } ~Watch() { g_f = nullptr; } Watch(Watch const &) = delete; };
/* The watchdog opens files in /proc meanwhile. */
unsigned openFds() { unsigned n = 0; if (DIR * const d = ::opendir("/proc/self/fd")) { while (auto * const e = ::readdir(d)) { char b[64]; ssize_t const k = ::readlinkat(::dirfd(d), e->d_name, b, sizeof b); if (k > 0 && std::strncmp(b, "/proc/", 6) != 0) ++n; } ::closedir(d); } return n; }
void writeFile(char const * name, std::string const & s, bool append) { std::FILE * const f = std::fopen(name, append ? "ab" : "wb"); if (!f || std::fwrite(s.data(), 1, s.size(), f) != s.size() || std::fclose(f)) { std::fprintf(stderr, "cannot write %s\n", name); std::_Exit(2); } }
std::string bytes(vm::Rng & r, std::size_t n) { std::string s(n, 0); std::uint64_t w = r.next(); for (std::size_t i = 0; i < n; ++i) { if (i % 8 == 0) w = vm::mix(w); s[i] = char(w >> (8 * (i % 8))); } return s; }
std::string contents(sharemind::Datum const & d) { return std::string(static_cast<char const *>(d.constData()), d.size()); }
/* What a failed load reports: 0 nothing nested, else the errno, or -1 changed, -2 type, -3 memory. */
struct Failure { bool load = false, bare = false; int cause = 0; std::string what; };
Failure diagnose(std::exception_ptr const p) {
    Failure f;
    try { std::rethrow_exception(p); }
    catch (sharemind::Datum::LoadException const & e) { f.load = true; f.what = e.what();
        try { std::rethrow_if_nested(e); }
        catch (sharemind::ErrnoException const & n) { f.cause = n.errorNumber(); if (f.cause <= 0) f.cause = -9; }
        catch (sharemind::Datum::FileSizeChangedException const &) { f.cause = -1; }
        catch (sharemind::Datum::FileTypeNotSupportedException const &) { f.cause = -2; }
        catch (std::bad_alloc const &) { f.cause = -3; } catch (std::length_error const &) { f.cause = -3; }
    } catch (std::bad_alloc const &) { f.bare = true; f.cause = -3; }
    return f;
}
}

VM_SCENARIO(loading_files, "asan ndebug", 10000, 300000, 4, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        char const * const name = "file with data.bin"; unsigned const fdsBefore = openFds();
        std::size_t const sizes[] = {0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 262144};
        std::size_t const size = r.chance(1, 3) ? sizes[r.below(i % 10 == 0 ? 15 : 10)] : r.below(i % 10 == 0 ? 200000 : 3000);
        std::string const before = bytes(r, size); std::string now = before; writeFile(name, before, false);
        /* the plan of misbehaviour */
        unsigned const kind = unsigned(r.below(10)); unsigned const at = unsigned(r.below(5)); bool const shorts = r.chance(3, 4), eintrs = r.flip(); bool hit = false; int err = 0; unsigned n = 0;
        std::string target = name; int const errnos[] = {EIO, EBADF, EISDIR, ENOMEM, EAGAIN, EINVAL, ESTALE}; std::size_t delivered = 0;
        Watch w; Faults & f = w.f; std::uint64_t fseed = r.next(); bool const large = size > 20000;
        f.read = [&](int fd, std::size_t want, ssize_t & res) {
            vm::Rng q(fseed = vm::mix(fseed));
            if (!f.watched.count(fd)) vm::violation("descriptor", "reading from descriptor %d, which is not open for the file", fd);
            if (want == 0 || want > std::size_t(std::numeric_limits<ssize_t>::max())) vm::violation("read-size", "reading %zu bytes", want);
            if (eintrs && q.chance(1, 4)) { ++f.eintrs; errno = EINTR; res = -1; return 2; }
            if (kind == 2 && hit) { res = 0; return 2; } /* and stays so */
            if (n++ == at) {
                if (kind == 1) { hit = true; errno = err = errnos[q.below(7)]; res = -1; return 2; }
                if (kind == 2 && delivered < before.size()) { hit = true; res = 0; return 2; } /* the file has become shorter */
                if (kind == 3) { hit = true; std::string const more = bytes(q, 1 + q.below(100)); now += more; g_f = nullptr; writeFile(name, more, true); g_f = &f; }
            }
            if (shorts && want > 1 && q.chance(3, 4)) { ++f.shorts; res = ssize_t(1 + q.below(large ? want - 1 : q.flip() ? want - 1 : std::min<std::size_t>(want - 1, 7))); delivered += std::size_t(res); return 1; }
            delivered += want; return 0;
        };
        if (kind == 4) { f.failOpen = err = std::min(int(EACCES), 1 + int(r.below(100))); hit = true; }
        if (kind == 5) { f.failStat = err = 1 + int(r.below(100)); hit = true; }
        if (kind == 6) { target = r.flip() ? "." : "/dev/null"; hit = true; }
        if (kind == 7) { target = "no such file"; err = ENOENT; hit = true; }
        if (kind == 8) { target = "/proc/self/auxv"; std::FILE * const a = std::fopen("/proc/self/auxv", "rb"); char b[4096]; now.assign(b, std::fread(b, 1, sizeof b, a)); std::fclose(a); }
        vm::describe(vm::format("size=%zu kind=%u at=%u short=%d eintr=%d", size, kind, at, shorts, eintrs));
        unsigned const how = unsigned(r.below(3)); std::unique_ptr<sharemind::Datum> d; std::string const old = "old contents"; std::exception_ptr ex;
        try { vm::Oom o(kind == 9 ? 1 + long(r.below(12)) : 0);
            if (how == 0) d.reset(new sharemind::Datum(target));
            else { vm::Oom::countdown() = 0; d.reset(new sharemind::Datum(old.data(), old.size())); if (how == 2) d->resize(size + 5); vm::Oom o2(kind == 9 ? 1 + long(r.below(12)) : 0); d->loadFromFile(target); }
        } catch (...) { ex = std::current_exception(); }
        g_f = nullptr;
        bool const oom = vm::Oom::fired() && kind == 9;
        VM_CHECK(f.badCloses == 0, "double-close", "closed a descriptor which is not open"); VM_CHECK(f.watched.empty(), "descriptor-leak", "the file is still open");
        VM_CHECK(openFds() == fdsBefore, "descriptor-leak", "%u descriptors open, %u before", openFds(), fdsBefore);
        if (ex) {
            Failure const x = diagnose(ex); vm::event("failed-loads");
            VM_CHECK(x.load || (x.bare && oom), "exception", "not reported as a failure to load the file"); if (x.load) VM_CHECK(x.what.find(target) != std::string::npos, "exception", "the message does not name the file: %s", x.what.c_str());
            bool const longer = (kind == 3 && hit) || kind == 8;
            int const want = oom ? -3 : err ? err : kind == 6 ? -2 : kind == 2 && hit ? -1 : longer ? -1 : 0;
            VM_CHECK(oom || hit || longer, "spurious-failure", "loading %zu bytes failed (cause %d) without any reason", size, x.cause);
            VM_CHECK(x.cause == want, "cause", "the cause is %d, expected %d (kind %u)", x.cause, want, kind);
            if (how == 1) VM_CHECK(d && contents(*d) == old, "state", "a failed load changed the contents");
        } else {
            vm::event("loads"); bool const needError = hit && kind != 3;
            VM_CHECK(!needError, "missed-failure", "loading succeeds with %zu bytes in spite of a failure (kind %u, error %d)", d->size(), kind, err);
            VM_CHECK(d->size() == now.size(), "partial", "%zu bytes loaded of a file of %zu (kind %u)", d->size(), now.size(), kind);
            VM_CHECK(contents(*d) == now, "contents", "the contents differ from the file's %zu bytes", now.size());
        }
        vm::event("reads", f.reads); vm::event("short-reads", f.shorts); vm::event("interrupted-reads", f.eintrs); if (hit) vm::event("faults"); if (oom) vm::event("allocation-failures");
        vm::signature(vm::mix(size) ^ vm::mix(kind * 64 + at * 8 + shorts * 4 + eintrs * 2 + (ex != nullptr)) ^ vm::mix(f.reads)); vm::sample(vm::format("size %zu kind %u: %" PRIu64 " reads, %" PRIu64 " short, %" PRIu64 " interrupted, %s", size, kind, f.reads, f.shorts, f.eintrs, ex ? "failed" : "loaded"));
    });
}
VM_SCENARIO(datum_histories, "asan ndebug", 10000, 300000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        using sharemind::Datum; std::vector<Datum> v(3); std::vector<std::string> m(3); std::uint64_t sig = 0;
        for (unsigned k = 0; k < 40; ++k) {
            std::size_t const a = r.below(3), b = r.below(3); unsigned const op = unsigned(r.below(14)); std::string const s = bytes(r, r.size(40)); char const c = char(r.next());
            vm::describe(vm::format("step %u operation %u", k, op));
            switch (op) {
            case 0: v[a] = Datum(s.size(), c); m[a].assign(s.size(), c); break;
            case 1: v[a] = Datum(s.empty() && r.flip() ? nullptr : s.data(), s.size()); m[a] = s; break;
            case 2: v[a] = v[b]; m[a] = std::string(m[b]); break;
            case 3: if (a == b) break; v[a] = std::move(v[b]); m[a] = m[b]; v[b] = Datum(); m[b].clear(); break;
            case 4: { Datum x(v[b]); v[a] = std::move(x); m[a] = std::string(m[b]); } break;
            case 5: { Datum x(std::move(v[a])); VM_CHECK(contents(x) == m[a], "move", "a moved datum has other contents"); v[a] = Datum(); m[a].clear(); } break;
            case 6: case 7: v[a].resize(s.size(), c); m[a].resize(s.size(), c); break;
            case 8: v[a].assign(s.empty() && r.flip() ? nullptr : s.data(), s.size()); m[a] = s; break;
            case 9: v[a].clear(); m[a].clear(); break;
            case 10: if (!m[a].empty()) { std::size_t const p = r.below(m[a].size()); static_cast<char *>(v[a].data())[p] = c; m[a][p] = c; } break;
            case 11: { Datum x(s.size()); VM_CHECK(contents(x) == std::string(s.size(), 0), "construction", "not zero filled"); } break;
            case 12: { std::string const t = m[b]; v[a].assign(t.data(), t.size()); m[a] = t; } break;
            default: { writeFile("datum.bin", s, false); v[a].loadFromFile("datum.bin"); m[a] = s; } break;
            }
            for (std::size_t x = 0; x < 3; ++x) {
                Datum const & d = v[x];
                VM_CHECK(d.size() == m[x].size() && d.empty() == m[x].empty(), "size", "size %zu, expected %zu after operation %u", d.size(), m[x].size(), op);
                VM_CHECK(contents(d) == m[x], "contents", "contents differ after operation %u", op);
                VM_CHECK(static_cast<char const *>(d.constDataEnd()) - static_cast<char const *>(d.constData()) == std::ptrdiff_t(m[x].size()) && v[x].data() == d.constData() && v[x].dataEnd() == d.constDataEnd(), "bounds", "the end is not at the size");
                for (std::size_t y = 0; y < 3; ++y) { bool const eq = m[x] == m[y]; VM_CHECK((v[x] == v[y]) == eq && (v[x] != v[y]) != eq, "equality", "equality is wrong"); if (eq) VM_CHECK(v[x].hash() == v[y].hash() && hash_value(v[x]) == v[y].hash(), "hash", "equal data hash differently"); }
                sig = vm::mix(sig ^ m[x].size() ^ (op << 12));
            }
        }
        vm::event("operations", 40); vm::signature(sig); vm::sample(vm::format("40 operations, sizes %zu %zu %zu", m[0].size(), m[1].size(), m[2].size()));
    });
}
VM_SCENARIO(descriptor_holders, "asan ndebug", 8000, 300000, 2, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t i) {
        /* the smallest descriptor is as good as any other */
        struct Zero { bool const on; explicit Zero(bool o) : on(o) { if (on) ::__real_close(0); } ~Zero() { if (on) { int const fd = ::__real_open("/dev/null", O_RDONLY, 0); if (fd > 0) { ::dup2(fd, 0); ::__real_close(fd); } } } } const zero(i % 4 == 0);
        using sharemind::FileDescriptor; unsigned const fdsBefore = openFds(); std::uint64_t sig = 0, closes = 0, dups = 0, failed = 0;
        {
            Watch w; Faults & f = w.f; std::vector<std::unique_ptr<FileDescriptor> > h(4); std::vector<int> m(4, -2); /* -2: no holder */ std::set<int> loose;
            auto const fresh = [&] { int const fd = __wrap_open("/dev/zero", O_RDONLY | O_CLOEXEC, 0); if (fd < 0) { std::perror("/dev/zero"); std::_Exit(2); } return fd; };
            for (unsigned k = 0; k < 40; ++k) {
                std::size_t const a = r.below(4), b = r.below(4); unsigned const op = unsigned(r.below(16)); std::vector<int> want; f.closed.clear();
                vm::describe(vm::format("step %u operation %u on %zu (%d) and %zu (%d)", k, op, a, m[a], b, m[b]));
                auto const dropped = [&](int fd) { if (fd >= 0) want.push_back(fd); };
                if (op < 3 && m[a] != -2) { dropped(m[a]); h[a].reset(); m[a] = -2; }
                else if (m[a] == -2) { if (op < 4) { h[a].reset(new FileDescriptor()); m[a] = -1; } else if (op < 6 && m[b] != -2) { h[a].reset(new FileDescriptor(std::move(*h[b]))); m[a] = m[b]; m[b] = -1; } else { int const fd = fresh(); h[a].reset(new FileDescriptor(fd)); m[a] = fd; } }
                else switch (op) {
                case 3: case 4: case 5: if (m[b] == -2) break; if (a != b) { dropped(m[a]); m[a] = m[b]; m[b] = -1; } { FileDescriptor & back = (*h[a] = std::move(*h[b])); VM_CHECK(&back == h[a].get(), "assignment", "returns another object"); } break;
                case 6: dropped(m[a]); { int const fd = fresh(); h[a]->reset(fd); m[a] = fd; } break;
                case 7: h[a]->reset(m[a]); break;
                case 8: dropped(m[a]); h[a]->reset(-1); m[a] = -1; break;
                case 9: { int const fd = h[a]->release(); VM_CHECK(fd == m[a], "release", "released %d, held %d", fd, m[a]); if (fd >= 0) loose.insert(fd); m[a] = -1; } break;
                case 10: dropped(m[a]); h[a]->close(); m[a] = -1; break;
                case 11: if (!loose.empty()) { dropped(m[a]); m[a] = *loose.begin(); loose.erase(loose.begin()); h[a]->reset(m[a]); } break;
                case 12: dropped(m[a]); { int const fd = fresh(); *h[a] = FileDescriptor(fd); m[a] = fd; } break;
                default: { /* duplicate */
                    unsigned interrupts = unsigned(r.below(3)); int const err = r.chance(1, 4) ? EMFILE : 0; int expect = m[a] < 0 ? EBADF : err; unsigned calls = 0;
                    f.fcntl = [&](int cmd, int & res) { if (cmd == F_GETFD || cmd == F_SETFD) return 0; ++calls; if (interrupts) { --interrupts; errno = EINTR; res = -1; return 1; } if (err && m[a] >= 0) { errno = err; res = -1; return 1; } return 0; };
                    int got = 0; bool thrown = false;
                    try { FileDescriptor d(h[a]->duplicate()); f.fcntl = nullptr; got = d.nativeHandle(); ++dups;
                        VM_CHECK(got >= 0 && got != m[a] && d.valid(), "duplicate", "descriptor %d of %d", got, m[a]);
                        VM_CHECK(__real_fcntl(got, F_GETFD) & FD_CLOEXEC, "duplicate", "the copy would be inherited by programs executed");
                        char c = 'x'; VM_CHECK(__real_read(got, &c, 1) == 1 && c == 0, "duplicate", "the copy does not refer to the same file");
                        if (r.flip()) { dropped(m[a]); *h[a] = std::move(d); m[a] = got; } else dropped(got);
                    } catch (FileDescriptor::FailedToDuplicateException const & e) { thrown = true; ++failed; int cause = 0; try { std::rethrow_if_nested(e); } catch (sharemind::ErrnoException const & n) { cause = n.errorNumber(); } VM_CHECK(cause == expect, "cause", "duplicating reports error %d, expected %d", cause, expect); }
                    f.fcntl = nullptr; VM_CHECK(thrown == (expect != 0), "duplicate", "duplicating %d: %s", m[a], thrown ? "failed" : "succeeded");
                } break;
                }
                std::vector<int> got; for (int const fd : f.closed) if (fd >= 0) got.push_back(fd);
                VM_CHECK(got == want, "closing", "operation %u closed %zu descriptors (first %d), expected %zu (first %d)", op, got.size(), got.empty() ? -1 : got[0], want.size(), want.empty() ? -1 : want[0]);
                VM_CHECK(f.badCloses == 0, "double-close", "closed a descriptor that was not open"); closes += got.size();
                std::set<int> open(loose); for (std::size_t x = 0; x < 4; ++x) { if (m[x] >= 0) open.insert(m[x]);
                    if (m[x] != -2) VM_CHECK(h[x]->nativeHandle() == m[x] && h[x]->valid() == (m[x] >= 0), "handle", "holder %zu has %d, expected %d after operation %u", x, h[x]->nativeHandle(), m[x], op); }
                VM_CHECK(open == f.watched, "ownership", "%zu descriptors are open, expected %zu", f.watched.size(), open.size());
                sig = vm::mix(sig ^ op ^ (a << 4) ^ (b << 6) ^ (std::uint64_t(open.size()) << 8));
            }
            h.clear(); VM_CHECK(f.watched == loose && f.badCloses == 0, "ownership", "after the end of all holders %zu descriptors are open, %zu were released", f.watched.size(), loose.size());
            for (int const fd : std::set<int>(loose)) __wrap_close(fd);
        }
        VM_CHECK(openFds() == fdsBefore, "descriptor-leak", "%u descriptors open, %u before", openFds(), fdsBefore);
        vm::event("closes", closes); vm::event("duplicates", dups); vm::event("failed-duplicates", failed); vm::signature(sig); vm::sample(vm::format("%" PRIu64 " closes, %" PRIu64 " duplicates, %" PRIu64 " failures", closes, dups, failed));
    });
}
namespace {
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(sharemind::Exception, GetError, "get");
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(sharemind::Exception, SetError, "set");
struct Script { std::vector<std::pair<long, int> > s; std::size_t n = 0; long a = 0; std::string b; };
Script * g_script;
long scripted(long a, std::string const & b) { Script & s = *g_script; s.a = a; s.b = b; if (s.n >= s.s.size()) vm::violation("retry", "called %zu times", s.n + 1); auto const & x = s.s[s.n++]; errno = x.second; return x.first; }
}
VM_SCENARIO(system_call_loops, "asan ndebug", 8000, 300000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        { Script s; std::size_t const n = r.below(6); for (std::size_t i = 0; i < n; ++i) s.s.push_back({-1, r.flip() ? EINTR : EAGAIN}); int err = r.flip() ? 1 + int(r.below(100)) : 0; if (err == EINTR || err == EAGAIN) err = 0;
            long const res = long(r.below(5)) - 2; auto const ok = [](long v) { return v != -1; }; bool const fails = err || res == -1; if (fails && !err) err = EPERM; s.s.push_back({fails ? -1 : res, err ? err : EINTR}); g_script = &s;
            long const arg = long(r.word()); std::string const text = bytes(r, r.below(40)); long got = 0; int cause = 0; bool thrown = false; std::string const copy = text;
            vm::describe(vm::format("%zu retries then %ld/%d", n, fails ? -1 : res, err));
            try { got = sharemind::syscallLoop<GetError>(scripted, ok, arg, copy); } catch (GetError const & e) { thrown = true; VM_CHECK(std::string(e.what()) == "get", "exception", "message"); try { std::rethrow_if_nested(e); } catch (sharemind::ErrnoException const & x) { cause = x.errorNumber(); VM_CHECK(std::string(x.what()) == std::strerror(err), "cause", "text %s", x.what()); } }
            VM_CHECK(s.n == n + 1, "retry", "%zu calls, expected %zu", s.n, n + 1); VM_CHECK(s.a == arg && s.b == text, "arguments", "arguments differ at the last call");
            VM_CHECK(thrown == fails && (fails ? cause == err : got == res), "result", "result %ld thrown %d cause %d, expected %ld/%d", got, thrown, cause, res, err); vm::signature(vm::mix(n * 1000 + std::uint64_t(err)) ^ std::uint64_t(res)); }
        { /* adding flags keeps the others */
            int p[2]; if (::pipe2(p, (r.flip() ? O_NONBLOCK : 0) | (r.flip() ? O_CLOEXEC : 0)) != 0) { std::perror("pipe2"); std::_Exit(2); }
            int const fl = __real_fcntl(p[0], F_GETFL), fd = __real_fcntl(p[0], F_GETFD); unsigned interrupts = unsigned(r.below(4)), failAt = unsigned(r.below(6)), calls = 0; int const err = r.flip() ? EIO : EPERM;
            Watch w; w.f.fcntl = [&](int, int & res) { if (interrupts) { --interrupts; errno = r.flip() ? EINTR : EAGAIN; res = -1; return 1; } if (calls++ == failAt) { errno = err; res = -1; return 1; } return 0; };
            bool const useFd = r.flip(); int const add = useFd ? FD_CLOEXEC : r.flip() ? O_NONBLOCK : O_APPEND; unsigned outcome = 0; int cause = 0;
            vm::describe(vm::format("flags %x %x add %x fd=%d fail at %u", fl, fd, add, useFd, failAt));
            auto const nested = [&](std::exception const & e) { try { std::rethrow_if_nested(e); } catch (sharemind::ErrnoException const & x) { cause = x.errorNumber(); } };
            try { if (useFd) sharemind::fcntlAddFd<GetError, SetError>(p[0], add); else sharemind::fcntlAddFl<GetError, SetError>(p[0], add); } catch (GetError const & e) { outcome = 1; nested(e); } catch (SetError const & e) { outcome = 2; nested(e); }
            g_f = nullptr; unsigned const expect = failAt == 0 ? 1 : failAt == 1 ? 2 : 0; int const fl2 = __real_fcntl(p[0], F_GETFL), fd2 = __real_fcntl(p[0], F_GETFD);
            VM_CHECK(outcome == expect && (outcome == 0 || cause == err), "flags-error", "outcome %u cause %d, expected %u %d", outcome, cause, expect, err);
            VM_CHECK(fl2 == (outcome == 0 && !useFd ? fl | add : fl) && fd2 == (outcome == 0 && useFd ? fd | add : fd), "flags", "flags are %x %x, were %x %x, adding %x", fl2, fd2, fl, fd, add);
            ::close(p[0]); ::close(p[1]); vm::signature(vm::mix(unsigned(fl * 64 + fd) ^ unsigned(add << 8)) ^ failAt); }
        vm::event("loops", 2); vm::sample("scripted results and pipe flags");
    });
}
VM_SCENARIO(memory_streams, "asan", 10000, 300000, 1, 1) {
    vm::runCases([](vm::Rng & r, std::uint64_t) {
        std::string s = bytes(r, r.size(60)); if (r.flip()) for (auto & c : s) c = "12 a\n\0-"[r.below(7)];
        std::unique_ptr<char[]> p(new char[s.size()]); std::copy(s.begin(), s.end(), p.get());
        sharemind::InputMemoryStream in(p.get(), s.size()); std::istringstream ref(s); std::uint64_t sig = s.size(); unsigned ops = 0;
        auto const same = [&](unsigned op) { VM_CHECK(in.rdstate() == ref.rdstate(), "state", "operation %u leaves state %d, a string stream %d", op, int(in.rdstate()), int(ref.rdstate())); VM_CHECK(in.gcount() == ref.gcount(), "count", "operation %u counts %td, a string stream %td", op, in.gcount(), ref.gcount()); };
        for (unsigned k = 0; k < 30; ++k, ++ops) {
            unsigned const op = unsigned(r.below(12)); std::size_t const n = r.below(10);
            vm::describe(vm::format("operation %u (%zu) number %u on %zu bytes", op, n, k, s.size()));
            switch (op) {
            case 0: { auto const a = in.get(), b = ref.get(); VM_CHECK(a == b, "get", "get() gives %d, expected %d", a, b); } break;
            case 1: { auto const a = in.peek(), b = ref.peek(); VM_CHECK(a == b, "peek", "peek() gives %d, expected %d", a, b); } break;
            case 2: case 3: { char a[16] = {}, b[16] = {}; in.read(a, std::streamsize(n)); ref.read(b, std::streamsize(n)); VM_CHECK(std::memcmp(a, b, 16) == 0, "read", "read() gives other bytes"); } break;
            case 4: { std::string a, b; std::getline(in, a); std::getline(ref, b); VM_CHECK(a == b, "getline", "getline() gives another line"); } break;
            case 5: { std::string a, b; in >> a; ref >> b; VM_CHECK(a == b, "extract", "another word"); } break;
            case 6: { int a = 0, b = 0; in >> a; ref >> b; VM_CHECK(a == b, "extract", "another number"); } break;
            case 7: { char a[16] = {}, b[16] = {}; auto const x = in.readsome(a, std::streamsize(n)), y = ref.readsome(b, std::streamsize(n)); VM_CHECK(x == y && std::memcmp(a, b, 16) == 0, "readsome", "readsome() gives %td, expected %td", x, y); } break;
            case 8: in.unget(); ref.unget(); break;
            case 9: in.ignore(std::streamsize(n)); ref.ignore(std::streamsize(n)); break;
            case 10: in.clear(); ref.clear(); break;
            default: if (r.chance(1, 4)) { std::string const a((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), b((std::istreambuf_iterator<char>(ref)), std::istreambuf_iterator<char>()); VM_CHECK(a == b, "rest", "the rest has %zu bytes, expected %zu", a.size(), b.size()); } break;
            }
            same(op); sig = vm::mix(sig ^ op ^ (n << 8) ^ (std::uint64_t(in.rdstate()) << 16));
        }
        VM_CHECK(std::string(p.get(), s.size()) == s, "source", "reading changed the data");
        { sharemind::InputMemoryStream all(p.get(), s.size()); std::ostringstream o; if (!s.empty()) o << all.rdbuf(); VM_CHECK(o.str() == s, "rest", "copying the stream gives %zu of %zu bytes", o.str().size(), s.size()); }
        vm::event("operations", ops); vm::signature(sig); vm::sample(vm::format("%zu bytes, %u operations", s.size(), ops));
    });
}
