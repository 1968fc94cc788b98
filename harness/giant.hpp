// Inputs of more than 2^32 bytes, mostly untouched zero pages.
#pragma once
#include "core.hpp"
#include <sys/mman.h>
#include <fstream>
namespace pbt {
inline size_t mem_available_gb()
{
    std::ifstream in("/proc/meminfo");
    std::string k, u;
    size_t v;
    while (in >> k >> v) { if (k == "MemAvailable:") return v >> 20; std::getline(in, u); }
    return 0;
}
inline size_t giant_size(Tape& t) { return (size_t(1) << 32) + t.range(0, 3000); }
struct Big {
    uint8_t* p;
    size_t n;
    explicit Big(size_t len) : n(len)
    {
        p = static_cast<uint8_t*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (p == MAP_FAILED) p = nullptr;
    }
    Big(Tape& t, size_t len) : Big(len)
    {
        if (!p) return;
        for (size_t at : {size_t(0), size_t(1) << 31, size_t(1) << 32}) for (size_t i = 0; i < 4096 && at + i < n; i += 7) p[at + i] = uint8_t(t.u8() | 1);
    }
    ~Big() { if (p) munmap(p, n); }
};
}
