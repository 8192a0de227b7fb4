#include "sim.h"
#include "sched.h"
#include <new>
#include <unistd.h>
#include <atomic>
#include <dirent.h>
#include <malloc.h>

// ---- Eigen assertions are undefined behaviour in the shipped build ----------------------------------
[[noreturn]] void hbsim_eigen_assert(const char* expr, const char* file, int line) noexcept(false) {
    const char* base = strrchr(file, '/');
    dprintf(2, "HBSIM-UB eigen_assert %s (%s:%d)\n", expr, base ? base + 1 : file, line);
    _exit(86);
}

// ---- allocation failures -----------------------------------------------------------------------------
namespace hooks {
thread_local bool allocCount = false;
thread_local int64_t allocSeen = 0;
thread_local int64_t allocFailAt = -1;
thread_local bool allocFired = false;
void ArmAlloc(int64_t failAt) {
    allocSeen = 0;
    allocFailAt = failAt;
    allocFired = false;
    allocCount = true;
}
void DisarmAlloc() {
    allocCount = false;
    allocFailAt = -1;
}
static inline void Tick() {
    if (!allocCount) return;
    if (allocSeen++ == allocFailAt) {
        allocFired = true;
        allocFailAt = -1;
        throw std::bad_alloc();
    }
}
}  // namespace hooks

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
void* operator new(std::size_t n) {
    hooks::Tick();
    sched::YieldAlloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
#else
// Every block carries its size, so that what is in use is known to the byte.
static std::atomic<int64_t> g_newBytes{0};
static constexpr std::size_t kHead = 16;
void* operator new(std::size_t n) {
    hooks::Tick();
    sched::YieldAlloc();
    char* p = static_cast<char*>(std::malloc(n + kHead));
    if (!p) throw std::bad_alloc();
    *reinterpret_cast<std::size_t*>(p) = n;
    g_newBytes.fetch_add(static_cast<int64_t>(n), std::memory_order_relaxed);
    return p + kHead;
}
void operator delete(void* q) noexcept {
    if (!q) return;
    char* p = static_cast<char*>(q) - kHead;
    g_newBytes.fetch_sub(static_cast<int64_t>(*reinterpret_cast<std::size_t*>(p)), std::memory_order_relaxed);
    std::free(p);
}
#endif
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
    try {
        return operator new(n);
    } catch (...) {
        return nullptr;
    }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

// ---- what is in use ----------------------------------------------------------------------------------
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
namespace hooks {
bool CountsBlocks() { return false; }
int64_t LiveBlocks() { return 0; }
int64_t LiveBytes() { return 0; }
int64_t LiveAll() { return 0; }
int64_t LiveNc() { return 0; }
}  // namespace hooks
#else
static std::atomic<int64_t> g_ours{0}, g_all{0};
static void* Took(void* p, std::atomic<int64_t>& n) {
    if (p) n.fetch_add(1, std::memory_order_relaxed);
    return p;
}
extern "C" {
// the calls of the code linked into this program (the library under test; -Wl,--wrap)
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) { return Took(__real_malloc(n), g_ours); }
void* __wrap_calloc(size_t a, size_t b) { return Took(__real_calloc(a, b), g_ours); }
void* __wrap_realloc(void* p, size_t n) {
    void* q = __real_realloc(p, n);
    if (!p) Took(q, g_ours);
    return q;
}
void __wrap_free(void* p) {
    if (p) g_ours.fetch_sub(1, std::memory_order_relaxed);
    __real_free(p);
}
// what NetCDF hands over, to be given back: texts, the content of files built in memory, open files
typedef struct {
    size_t size;
    void* memory;
    int flags;
} Memio;
static std::atomic<int64_t> g_nc{0};
int __real_nc_get_att_string(int, int, const char*, char**);
int __real_nc_free_string(size_t, char**);
int __real_nc_close_memio(int, Memio*);
int __real_nc_close(int);
int __real_nc_open(const char*, int, int*);
int __real_nc_create(const char*, int, int*);
int __real_nc_open_mem(const char*, int, size_t, void*, int*);
int __real_nc_create_mem(const char*, int, size_t, int*);
int __real_nc_inq_attlen(int, int, const char*, size_t*);
int __wrap_nc_get_att_string(int nc, int v, const char* n, char** d) {
    int st = __real_nc_get_att_string(nc, v, n, d);
    size_t len = 0;
    if (st == 0 && __real_nc_inq_attlen(nc, v, n, &len) == 0) g_ours.fetch_add(static_cast<int64_t>(len));
    return st;
}
int __wrap_nc_inq_attlen(int nc, int v, const char* n, size_t* l) { return __real_nc_inq_attlen(nc, v, n, l); }
int __wrap_nc_free_string(size_t len, char** d) {
    g_ours.fetch_sub(static_cast<int64_t>(len));
    return __real_nc_free_string(len, d);
}
int __wrap_nc_close_memio(int nc, Memio* c) {
    --g_nc;
    int st = __real_nc_close_memio(nc, c);
    if (st == 0 && c && c->memory) g_ours.fetch_add(1);
    return st;
}
int __wrap_nc_close(int nc) {
    --g_nc;
    return __real_nc_close(nc);
}
static int Opened(int st) {
    if (st == 0) ++g_nc;
    return st;
}
int __wrap_nc_open(const char* p, int m, int* id) { return Opened(__real_nc_open(p, m, id)); }
int __wrap_nc_create(const char* p, int m, int* id) { return Opened(__real_nc_create(p, m, id)); }
int __wrap_nc_open_mem(const char* p, int m, size_t n, void* b, int* id) { return Opened(__real_nc_open_mem(p, m, n, b, id)); }
int __wrap_nc_create_mem(const char* p, int m, size_t n, int* id) { return Opened(__real_nc_create_mem(p, m, n, id)); }
// the calls of the shared libraries as well (NetCDF, HDF5 ...)
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { return Took(__libc_malloc(n), g_all); }
void* calloc(size_t a, size_t b) { return Took(__libc_calloc(a, b), g_all); }
void free(void* p) {
    if (p) g_all.fetch_sub(1, std::memory_order_relaxed);
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    void* q = __libc_realloc(p, n);
    if (!p) return Took(q, g_all);
    if (!q && n == 0) g_all.fetch_sub(1, std::memory_order_relaxed);
    return q;
}
void* memalign(size_t a, size_t n) { return Took(__libc_memalign(a, n), g_all); }
void* aligned_alloc(size_t a, size_t n) { return Took(__libc_memalign(a, n), g_all); }
int posix_memalign(void** p, size_t a, size_t n) {
    void* q = Took(__libc_memalign(a, n), g_all);
    if (!q) return 12;
    *p = q;
    return 0;
}
}
namespace hooks {
bool CountsBlocks() { return true; }
int64_t LiveBlocks() { return g_ours.load(std::memory_order_relaxed); }
int64_t LiveBytes() { return g_newBytes.load(std::memory_order_relaxed); }
int64_t LiveAll() { return g_all.load(std::memory_order_relaxed); }
int64_t LiveNc() { return g_nc.load(); }
}  // namespace hooks
#endif
int hooks::OpenFiles() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}

#if defined(__SANITIZE_THREAD__)
// The state of a file stream lies in the standard library, which is not instrumented: what its operations read and write
// is told to the race detector here.
#include <dlfcn.h>
extern "C" {
void __tsan_read8(void*);
void __tsan_write8(void*);
static bool (*g_isOpen)(const void*);
static void* (*g_open)(void*, const char*, int, int);
static void* (*g_close)(void*);
__attribute__((constructor(101))) static void FindFileOperations() {
    g_isOpen = reinterpret_cast<bool (*)(const void*)>(dlsym(RTLD_NEXT, "_ZNKSt12__basic_fileIcE7is_openEv"));
    g_open = reinterpret_cast<void* (*)(void*, const char*, int, int)>(dlsym(RTLD_NEXT, "_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei"));
    g_close = reinterpret_cast<void* (*)(void*)>(dlsym(RTLD_NEXT, "_ZNSt12__basic_fileIcE5closeEv"));
}
bool FileIsOpen(const void*) __asm__("_ZNKSt12__basic_fileIcE7is_openEv");
bool FileIsOpen(const void* self) {
    __tsan_read8(const_cast<void*>(self));
    return g_isOpen(self);
}
void* FileOpen(void*, const char*, int, int) __asm__("_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei");
void* FileOpen(void* self, const char* name, int mode, int prot) {
    __tsan_write8(self);
    return g_open(self, name, mode, prot);
}
void* FileClose(void*) __asm__("_ZNSt12__basic_fileIcE5closeEv");
void* FileClose(void* self) {
    __tsan_write8(self);
    return g_close(self);
}
}
#endif
