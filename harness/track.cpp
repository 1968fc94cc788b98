#include "track.hpp"
#include "lib.hpp"
namespace pbt { thread_local KeyView g_kv; }
#include <cerrno>
#include <cstdlib>
#include <map>
#include <mutex>
#include <new>
extern "C" {
void* __real_sodium_malloc(size_t);
void* __real_sodium_allocarray(size_t, size_t);
void __real_sodium_free(void*);
int __real_sodium_mprotect_noaccess(void*);
int __real_sodium_mprotect_readonly(void*);
int __real_sodium_mprotect_readwrite(void*);
}
// Provided by heap.cpp when it is linked in.
namespace heap { bool tick() __attribute__((weak)); void pause(int) __attribute__((weak)); }
namespace { struct Quiet { Quiet() { if (heap::pause) heap::pause(1); } ~Quiet() { if (heap::pause) heap::pause(-1); } }; }
namespace {
struct State {
    std::mutex m;
    std::map<void*, track::Region> regions;
    uint64_t allocs = 0, frees = 0, mprots = 0;
    std::string errs;
    long fail_at = -1, fail_mp = -1;
    bool fired = false;
};
State& st() { static State* s = new State; return *s; }
bool should_fail(long& k, bool& fired)
{
    if (k < 0) return false;
    if (k-- == 0) { fired = true; k = -1; return true; }
    return false;
}
void add(void* p, size_t n)
{
    Quiet q;
    if (p) { st().regions[p] = track::Region{p, n, track::RW}; st().allocs++; }
}
int prot(void* p, track::Prot pr, int (*f)(void*))
{
    std::lock_guard<std::mutex> g(st().m);
    Quiet q;
    st().mprots++;
    auto it = st().regions.find(p);
    if (it == st().regions.end()) { st().errs += "protection change on memory that is not a live secure region; "; errno = EINVAL; return -1; }
    if (should_fail(st().fail_mp, st().fired)) { errno = ENOMEM; return -1; }
    int r = f(p);
    if (r == 0) it->second.prot = pr;
    return r;
}
}
#ifdef PBT_NO_TRACK
// no bookkeeping: its mutex would order the threads and hide races from the detector
extern "C" {
void* __wrap_sodium_malloc(size_t n) { return __real_sodium_malloc(n); }
void* __wrap_sodium_allocarray(size_t a, size_t b) { return __real_sodium_allocarray(a, b); }
void __wrap_sodium_free(void* p) { __real_sodium_free(p); }
int __wrap_sodium_mprotect_noaccess(void* p) { return __real_sodium_mprotect_noaccess(p); }
int __wrap_sodium_mprotect_readonly(void* p) { return __real_sodium_mprotect_readonly(p); }
int __wrap_sodium_mprotect_readwrite(void* p) { return __real_sodium_mprotect_readwrite(p); }
}
#else
extern "C" {
void* __wrap_sodium_malloc(size_t n)
{
    std::lock_guard<std::mutex> g(st().m);
    if (should_fail(st().fail_at, st().fired) || (heap::tick && heap::tick())) { errno = ENOMEM; return nullptr; }
    void* p = __real_sodium_malloc(n);
    add(p, n);
    return p;
}
void* __wrap_sodium_allocarray(size_t a, size_t b)
{
    std::lock_guard<std::mutex> g(st().m);
    if (should_fail(st().fail_at, st().fired) || (heap::tick && heap::tick())) { errno = ENOMEM; return nullptr; }
    void* p = __real_sodium_allocarray(a, b);
    add(p, a * b);
    return p;
}
void __wrap_sodium_free(void* p)
{
    {
        std::lock_guard<std::mutex> g(st().m);
        if (p == nullptr) return;
        Quiet q;
        auto it = st().regions.find(p);
        if (it == st().regions.end()) { st().errs += "release of memory that is not a live secure region (double free?); "; return; }
        st().regions.erase(it);
        st().frees++;
    }
    __real_sodium_free(p);
}
int __wrap_sodium_mprotect_noaccess(void* p) { return prot(p, track::NOACCESS, __real_sodium_mprotect_noaccess); }
int __wrap_sodium_mprotect_readonly(void* p) { return prot(p, track::RO, __real_sodium_mprotect_readonly); }
int __wrap_sodium_mprotect_readwrite(void* p) { return prot(p, track::RW, __real_sodium_mprotect_readwrite); }
}
#endif
namespace track {
void reset()
{
    std::lock_guard<std::mutex> g(st().m);
    st().regions.clear(); st().allocs = st().frees = st().mprots = 0; st().errs.clear(); st().fail_at = st().fail_mp = -1; st().fired = false;
}
std::vector<Region> live()
{
    std::lock_guard<std::mutex> g(st().m);
    std::vector<Region> v;
    for (auto& r : st().regions) v.push_back(r.second);
    return v;
}
size_t live_count() { std::lock_guard<std::mutex> g(st().m); return st().regions.size(); }
uint64_t total_allocs() { return st().allocs; }
uint64_t total_frees() { return st().frees; }
uint64_t mprotect_calls() { return st().mprots; }
std::string errors() { std::lock_guard<std::mutex> g(st().m); return st().errs; }
std::string all_locked()
{
    for (auto& r : live())
        if (r.prot != NOACCESS) return "a live secure region of " + std::to_string(r.size) + " bytes is " + (r.prot == RO ? "readable" : "writable");
    return "";
}
void fail_alloc_at(long k) { st().fail_at = k; st().fired = false; }
void fail_mprotect_at(long k) { st().fail_mp = k; st().fired = false; }
bool fault_fired() { return st().fired; }
}
