#include "heap.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}
namespace {
// an open-addressing table of live blocks; never allocates through operator new
struct Table {
    struct E { void* p; size_t n; };
    E* e = nullptr;
    size_t cap = 0, used = 0, live = 0, bytes = 0;
    void (*hook)(const void*, size_t) = nullptr;
    static size_t h(void* p) { uint64_t x = reinterpret_cast<uint64_t>(p) >> 4; x *= 0x9E3779B97F4A7C15ull; return size_t(x >> 20); }
    void grow()
    {
        size_t nc = cap ? (live * 4 > cap ? cap * 2 : cap) : 4096;
        E* n = static_cast<E*>(__real_calloc(nc, sizeof(E)));
        E* o = e;
        size_t oc = cap;
        e = n; cap = nc; used = 0;
        for (size_t i = 0; i < oc; i++) if (o[i].p && o[i].p != tomb()) put(o[i].p, o[i].n);
        __real_free(o);
    }
    static void* tomb() { return reinterpret_cast<void*>(1); }
    void put(void* p, size_t n)
    {
        size_t i = h(p) & (cap - 1);
        while (e[i].p) i = (i + 1) & (cap - 1);
        e[i] = {p, n};
        used++;
    }
    void add(void* p, size_t n)
    {
        if (used * 2 >= cap) grow();
        put(p, n);
        live++;
        bytes += n;
    }
    void del(void* p)
    {
        if (!live) return;
        size_t i = h(p) & (cap - 1);
        while (e[i].p) {
            if (e[i].p == p) { live--; bytes -= e[i].n; if (hook) { void (*f)(const void*, size_t) = hook; hook = nullptr; f(p, e[i].n); hook = f; } e[i].p = tomb(); return; }
            i = (i + 1) & (cap - 1);
        }
    }
    void clear() { if (e) memset(e, 0, cap * sizeof(E)); used = live = bytes = 0; }
} g_t;
thread_local bool g_watch = false, g_count = false, g_fired = false;
thread_local uint64_t g_n = 0;
thread_local long g_fail = -1;
thread_local int g_pause = 0;
size_t g_peak = 0;
void note(void* p, size_t n)
{
    if (g_watch && !g_pause && p) { g_t.add(p, n); if (n > g_peak) g_peak = n; }
}
void* alloc(size_t n)
{
    if (heap::tick()) return nullptr;
    void* p = __real_malloc(n ? n : 1);
    if (p && g_watch && !g_pause) memset(p, 0xA5, n); // what the allocator recycles is not the owner's doing
    note(p, n);
    return p;
}
void release(void* p)
{
    if (!p) return;
    if (g_t.live) g_t.del(p);
    __real_free(p);
}
}
namespace heap {
void watch(bool on) { g_watch = on; if (on) { g_t.clear(); g_peak = 0; } }
size_t outstanding() { return g_t.live; }
size_t outstanding_bytes() { return g_t.bytes; }
size_t peak_request() { return g_peak; }
void count(bool on) { g_count = on; if (on) { g_n = 0; g_fired = false; } }
void pause(int d) { g_pause += d; }
uint64_t counted() { return g_n; }
void fail_at(long k) { g_fail = k; }
bool fired() { return g_fired; }
void on_release(void (*f)(const void*, size_t)) { g_t.hook = f; }
bool tick()
{
    if (!g_count || g_pause) return false;
    bool f = g_fail >= 0 && uint64_t(g_fail) == g_n;
    g_n++;
    if (f) g_fired = true;
    return f;
}
}
extern "C" {
void* __wrap_malloc(size_t n) { void* p = alloc(n); if (!p) errno = ENOMEM; return p; }
void* __wrap_calloc(size_t a, size_t b)
{
    if (heap::tick()) { errno = ENOMEM; return nullptr; }
    void* p = __real_calloc(a, b);
    note(p, a * b);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (heap::tick()) { errno = ENOMEM; return nullptr; }
    size_t old = q ? malloc_usable_size(q) : 0;
    if (q && g_t.live) g_t.del(q);
    void* p = __real_realloc(q, n);
    if (p && n > old && g_watch && !g_pause) memset(static_cast<char*>(p) + old, 0xA5, n - old);
    note(p, n);
    return p;
}
void __wrap_free(void* p) { release(p); }
}
void* operator new(size_t n) { void* p = alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
