// Census of ordinary heap memory and allocation faults. Global operator new and
// delete are replaced; the C allocator is interposed at link time (needs
// --wrap=malloc,calloc,realloc,free, see props.py "wraps").
#pragma once
#include <cstddef>
#include <cstdint>
namespace heap {
// Blocks allocated while watching and not yet released. Nested use is not supported.
void watch(bool on);
size_t outstanding();
size_t outstanding_bytes();
size_t peak_request();          // largest single request since watch(true)
// While counting, every allocation (ordinary or secure) has an index.
void count(bool on);            // resets the index on true
uint64_t counted();
void fail_at(long k);           // the k-th counted allocation fails; -1: none
bool fired();
void pause(int d);              // the harness's own allocations: neither watched nor counted
// Called with every watched block about to be released (before it is), while set.
void on_release(void (*f)(const void*, size_t));
bool tick();                    // used by the allocators: true = fail this one
}
