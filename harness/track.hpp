// Link-time interposition of libsodium's secure allocator (-Wl,--wrap=...): a
// census of live secure regions, their protection, and fault injection.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace track {
enum Prot { RW = 0, RO = 1, NOACCESS = 2 };
struct Region { void* p; size_t size; Prot prot; };
void reset();                       // forget counters (regions must be empty or are forgotten)
std::vector<Region> live();
size_t live_count();
uint64_t total_allocs();
uint64_t total_frees();
std::string errors();               // double free / foreign free / foreign mprotect, "" if none
// all live regions inaccessible? "" or an explanation
std::string all_locked();
// contents of freed regions are not observable; counts of mprotect calls
uint64_t mprotect_calls();
// fail the k-th (0-based) secure allocation from now on; -1: never
void fail_alloc_at(long k);
void fail_mprotect_at(long k);
bool fault_fired();
}
