// Built without instrumentation (see iosim.h).
#include "iosim.h"
#include "sched.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace iosim {
static char g_dir[512];
static size_t g_len = 0;
static volatile int g_on = 0;
static unsigned char g_fd[4096];
static long g_count[kOps];
static Fault* g_faults = nullptr;
static int g_nf = 0;
static int64_t g_cap = -1, g_bytes = 0;
static int g_capHit = 0, g_errMode = 0;
static uint64_t g_hash = 1;

void Watch(const char* dir) {
    g_len = strlen(dir);
    if (g_len >= sizeof g_dir) abort();
    memcpy(g_dir, dir, g_len + 1);
    memset(g_count, 0, sizeof g_count);
    memset(g_fd, 0, sizeof g_fd);
    g_cap = -1;
    g_capHit = 0;
    g_bytes = 0;
    g_hash = 1;
    g_nf = 0;
    g_on = 1;
}
void Unwatch() {
    g_on = 0;
    g_nf = 0;
}
void SetFaults(Fault* f, int n) {
    g_faults = f;
    g_nf = n;
}
void SetCapacity(int64_t b) { g_cap = b; }
bool CapacityHit() { return g_capHit != 0; }
long Count(int op) {
    if (op >= 0) return g_count[op];
    long s = 0;
    for (long c : g_count) s += c;
    return s;
}
int64_t BytesWritten() { return g_bytes; }
uint64_t Hash() { return g_hash; }
int OpenCount() {
    int n = 0;
    for (unsigned char c : g_fd) n += c;
    return n;
}
void SetErrFault(int m) { g_errMode = m; }

static bool Mine(const char* path) { return g_on && path && strncmp(path, g_dir, g_len) == 0; }
static bool MineFd(int fd) { return g_on && fd >= 0 && fd < 4096 && g_fd[fd]; }
// The fault that strikes this call, if any.
static Fault* Strike(int op, size_t size) {
    long any = Count(-1);
    ++g_count[op];
    g_hash = (g_hash ^ (static_cast<uint64_t>(op) + 1 + (static_cast<uint64_t>(size) << 4))) * 1099511628211ULL;
    Fault* hit = nullptr;
    for (int i = 0; i < g_nf; ++i) {
        Fault& f = g_faults[i];
        if (f.kind == kNone || (f.op >= 0 && f.op != op)) continue;
        long k = f.op >= 0 ? f.seen : any;
        ++f.seen;
        if (k < f.at || (f.last < 1000000000L && k >= f.at + f.last)) continue;
        if (op != kRead && (f.kind == kEof || f.kind == kFlip)) continue;
        if (op != kWrite && !(op == kRead && f.op == kRead) && f.kind == kPartial) continue;
        if (op != kWrite && op != kRead && f.kind == kShort) continue;
        if (!hit) {
            hit = &f;
            ++f.fired;
        }
    }
    return hit;
}
static bool Fails(Fault* f) {
    if (!f) return false;
    if (f->kind == kCrash) _exit(0);
    if (f->kind == kError) {
        errno = f->err;
        return true;
    }
    return false;
}
static size_t Part(const Fault* f, size_t n) { return n <= 1 ? n : 1 + static_cast<size_t>((f->salt * 0x9e3779b97f4a7c15ULL) >> 33) % (n - 1); }
template <typename F>
static F Next(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
// One write: `put(n)` writes the first n bytes.
template <typename P>
static ssize_t Write(size_t n, P put) {
    Fault* f = Strike(kWrite, n);
    if (f && f->kind == kCrash) {
        if (n > 1) put(Part(f, n));
        _exit(0);
    }
    if (f && f->kind == kError) {
        errno = f->err;
        return -1;
    }
    if (f && f->kind == kPartial && n > 1) {
        ssize_t r = put(Part(f, n));
        if (r > 0) g_bytes += r;
        f->kind = kError;  // what follows fails
        f->at = 0;
        f->seen = 0;
        f->op = kWrite;
        return r;
    }
    if (f && f->kind == kPartial) {
        errno = f->err;
        return -1;
    }
    if (f && f->kind == kShort) n = Part(f, n);
    if (g_cap >= 0 && static_cast<int64_t>(n) > g_cap) {
        g_capHit = 1;
        n = static_cast<size_t>(g_cap);
        if (n == 0) {
            errno = ENOSPC;
            return -1;
        }
    }
    ssize_t r = put(n);
    if (r > 0) {
        g_bytes += r;
        if (g_cap >= 0) g_cap -= r;
    }
    return r;
}
template <typename G>
static ssize_t Read(void* buf, size_t n, G get) {
    Fault* f = Strike(kRead, n);
    if (Fails(f)) return -1;
    if (f && f->kind == kEof) return 0;
    if (f && f->kind == kShort) n = Part(f, n);
    if (f && f->kind == kPartial) {  // a part arrives, what follows fails or is not there
        f->kind = f->salt % 2 ? kError : kEof;
        f->at = 0;
        f->seen = 0;
        f->last = 1000000000L;
        return get(Part(f, n));
    }
    ssize_t r = get(n);
    if (f && f->kind == kFlip && r > 0) {
        uint64_t h = f->salt * 0x9e3779b97f4a7c15ULL;
        static_cast<unsigned char*>(buf)[(h >> 20) % static_cast<uint64_t>(r)] ^= static_cast<unsigned char>(1u << (h & 7));
    }
    return r;
}
}  // namespace iosim

using namespace iosim;
#define REAL(ret, name, ...)                 \
    static ret (*real)(__VA_ARGS__);         \
    if (!real) real = iosim::Next<ret (*)(__VA_ARGS__)>(#name)

static int AfterOpen(int fd) {
    if (fd >= 0 && fd < 4096) g_fd[fd] = 1;
    return fd;
}
// A failing close may have lost what was written (network disks, quotas).
static void Lose(int fd, const Fault* f) {
    if (!f || f->kind != kError || f->salt % 2 || (fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDONLY) return;
    struct stat st;
    if (fstat(fd, &st) == 0 && st.st_size > 0) (void)!ftruncate(fd, st.st_size - 1 - static_cast<off_t>((f->salt * 0x9e3779b97f4a7c15ULL) >> 33) % st.st_size);
}
extern "C" {
int open(const char* path, int flags, ...) {
    REAL(int, open, const char*, int, ...);
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (!Mine(path)) return real(path, flags, mode);
    if (Fails(Strike(kOpen, 0))) return -1;
    return AfterOpen(real(path, flags, mode));
}
int open64(const char* path, int flags, ...) {
    REAL(int, open64, const char*, int, ...);
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (!Mine(path)) return real(path, flags, mode);
    if (Fails(Strike(kOpen, 0))) return -1;
    return AfterOpen(real(path, flags, mode));
}
FILE* fopen(const char* path, const char* mode) {
    REAL(FILE*, fopen, const char*, const char*);
    if (!Mine(path)) return real(path, mode);
    if (Fails(Strike(kOpen, 0))) return nullptr;
    FILE* f = real(path, mode);
    if (f) AfterOpen(fileno(f));
    return f;
}
FILE* fopen64(const char* path, const char* mode) {
    REAL(FILE*, fopen64, const char*, const char*);
    if (!Mine(path)) return real(path, mode);
    if (Fails(Strike(kOpen, 0))) return nullptr;
    FILE* f = real(path, mode);
    if (f) AfterOpen(fileno(f));
    return f;
}
int close(int fd) {
    REAL(int, close, int);
    if (!MineFd(fd)) return real(fd);
    Fault* f = Strike(kClose, 0);
    if (f && f->kind == kCrash) _exit(0);
    g_fd[fd] = 0;
    Lose(fd, f);
    int rc = real(fd);  // a failing close releases the descriptor all the same
    if (f && f->kind == kError) {
        errno = f->err;
        return -1;
    }
    return rc;
}
int fclose(FILE* fp) {
    REAL(int, fclose, FILE*);
    int fd = fp ? fileno(fp) : -1;
    if (!MineFd(fd)) return real(fp);
    Fault* f = Strike(kClose, 0);
    if (f && f->kind == kCrash) _exit(0);
    g_fd[fd] = 0;
    if (f && f->kind == kError) fflush(fp), Lose(fd, f);
    int rc = real(fp);
    if (f && f->kind == kError) {
        errno = f->err;
        return -1;
    }
    return rc;
}
ssize_t read(int fd, void* b, size_t n) {
    REAL(ssize_t, read, int, void*, size_t);
    if (!MineFd(fd)) return real(fd, b, n);
    return iosim::Read(b, n, [&](size_t k) { return real(fd, b, k); });
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
    REAL(ssize_t, pread, int, void*, size_t, off_t);
    if (!MineFd(fd)) return real(fd, b, n, o);
    return iosim::Read(b, n, [&](size_t k) { return real(fd, b, k, o); });
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void*, size_t, off64_t);
    if (!MineFd(fd)) return real(fd, b, n, o);
    return iosim::Read(b, n, [&](size_t k) { return real(fd, b, k, o); });
}
size_t fread(void* b, size_t s, size_t n, FILE* fp) {
    REAL(size_t, fread, void*, size_t, size_t, FILE*);
    if (!MineFd(fileno(fp)) || s * n == 0) return real(b, s, n, fp);
    ssize_t r = iosim::Read(b, s * n, [&](size_t k) { return static_cast<ssize_t>(real(b, 1, k, fp)); });
    return r < 0 ? 0 : static_cast<size_t>(r) / s;
}
size_t __fread_chk(void* b, size_t bl, size_t s, size_t n, FILE* fp) {
    REAL(size_t, __fread_chk, void*, size_t, size_t, size_t, FILE*);
    if (!MineFd(fileno(fp)) || s * n == 0) return real(b, bl, s, n, fp);
    ssize_t r = iosim::Read(b, s * n, [&](size_t k) { return static_cast<ssize_t>(real(b, bl, 1, k, fp)); });
    return r < 0 ? 0 : static_cast<size_t>(r) / s;
}
ssize_t write(int fd, const void* b, size_t n) {
    REAL(ssize_t, write, int, const void*, size_t);
    if (!MineFd(fd)) {
        if (fd > 2) sched::Yield();
        ssize_t w = real(fd, b, n);
        if (fd > 2) sched::Yield();
        return w;
    }
    sched::Yield();
    ssize_t r = iosim::Write(n, [&](size_t k) { return real(fd, b, k); });
    sched::Yield();
    return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
    if (!MineFd(fd)) return real(fd, b, n, o);
    return iosim::Write(n, [&](size_t k) { return real(fd, b, k, o); });
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void*, size_t, off64_t);
    if (!MineFd(fd)) return real(fd, b, n, o);
    return iosim::Write(n, [&](size_t k) { return real(fd, b, k, o); });
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    REAL(ssize_t, writev, int, const struct iovec*, int);
    if (!MineFd(fd)) {
        if (fd > 2) sched::Yield();
        ssize_t w = real(fd, v, c);
        if (fd > 2) sched::Yield();
        return w;
    }
    sched::Yield();
    size_t n = 0;
    for (int i = 0; i < c; ++i) n += v[i].iov_len;
    ssize_t r = iosim::Write(n, [&](size_t k) -> ssize_t {
        if (k >= n) return real(fd, v, c);
        struct iovec w[16];
        int m = 0;
        for (int i = 0; i < c && i < 16 && k > 0; ++i) {
            w[m] = v[i];
            if (w[m].iov_len > k) w[m].iov_len = k;
            k -= w[m].iov_len;
            ++m;
        }
        return real(fd, w, m);
    });
    sched::Yield();
    return r;
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* fp) {
    REAL(size_t, fwrite, const void*, size_t, size_t, FILE*);
    if (fp == stderr && sched::Inside()) {
        sched::Yield();
        size_t r;
        if (g_errMode) {
            errno = EIO;
            r = 0;
        } else r = real(b, s, n, fp);
        sched::Yield();
        return r;
    }
    if (!g_on || !MineFd(fileno(fp)) || s * n == 0) return real(b, s, n, fp);
    ssize_t r = iosim::Write(s * n, [&](size_t k) { return static_cast<ssize_t>(real(b, 1, k, fp)); });
    return r < 0 ? 0 : static_cast<size_t>(r) / s;
}
int ftruncate(int fd, off_t len) noexcept {
    REAL(int, ftruncate, int, off_t);
    if (MineFd(fd) && Fails(Strike(kTruncate, 0))) return -1;
    return real(fd, len);
}
int ftruncate64(int fd, off64_t len) noexcept {
    REAL(int, ftruncate64, int, off64_t);
    if (MineFd(fd) && Fails(Strike(kTruncate, 0))) return -1;
    return real(fd, len);
}
int fsync(int fd) {
    REAL(int, fsync, int);
    if (MineFd(fd) && Fails(Strike(kSync, 0))) return -1;
    return real(fd);
}
int stat(const char* path, struct stat* st) noexcept {
    REAL(int, stat, const char*, struct stat*);
    if (Mine(path) && Fails(Strike(kStat, 0))) return -1;
    return real(path, st);
}
int putc(int c, FILE* fp) {
    REAL(int, putc, int, FILE*);
    if (fp == stderr) sched::Yield();
    return real(c, fp);
}
}
