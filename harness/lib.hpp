// Small conveniences over the library's public interface.
#pragma once
#include "core.hpp"
#include "ref.hpp"
#include "track.hpp"
#include <sse/crypto/key.hpp>
#include <sse/crypto/utils.hpp>
#include <sse/crypto/random.hpp>
#include <sodium.h>
#include <algorithm>
#include <array>
#include <memory>
namespace pbt {
// Looking inside a key: Key befriends this test template.
struct KeyView { void* key; bool empty, locked; Bytes content; const void* where; };
extern thread_local KeyView g_kv;
}
namespace tests {
// what = 0: content; 1: state only; 2: address
template <size_t L> void test_key_derivation_consistency(size_t what)
{
    auto* k = static_cast<sse::crypto::Key<L>*>(pbt::g_kv.key);
    pbt::g_kv.empty = k->is_empty();
    pbt::g_kv.locked = k->is_locked();
    pbt::g_kv.content.clear();
    if (what == 0 && !k->is_empty()) {
        const uint8_t* p = k->unlock_get();
        pbt::g_kv.content.assign(p, p + L);
        k->lock();
    }
    if (what == 2) {
        pbt::g_kv.where = nullptr;
        if (!k->is_empty()) { pbt::g_kv.where = k->unlock_get(); k->lock(); }
    }
}
}
namespace pbt {
using namespace sse::crypto;
template <size_t L> Bytes key_content(const Key<L>& k)
{
    g_kv.key = const_cast<Key<L>*>(&k);
    tests::test_key_derivation_consistency<L>(0);
    Bytes r;
    r.swap(g_kv.content);
    return r;
}
template <size_t L> bool key_empty(const Key<L>& k)
{
    g_kv.key = const_cast<Key<L>*>(&k);
    tests::test_key_derivation_consistency<L>(1);
    return g_kv.empty;
}
template <size_t L> const void* key_address(const Key<L>& k)
{
    g_kv.key = const_cast<Key<L>*>(&k);
    tests::test_key_derivation_consistency<L>(2);
    return g_kv.where;
}
template <size_t N> Key<N> mk(const Bytes& b)
{
    Bytes c = b;
    c.resize(N);
    return Key<N>(c.data());
}
template <size_t N> std::array<uint8_t, N> arr(const Bytes& b)
{
    std::array<uint8_t, N> a;
    for (size_t i = 0; i < N; i++) a[i] = i < b.size() ? b[i] : 0;
    return a;
}
template <size_t N> Bytes B(const std::array<uint8_t, N>& a) { return Bytes(a.begin(), a.end()); }
inline bool eq(const Bytes& a, const std::string& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), reinterpret_cast<const uint8_t*>(b.data())); }
template <size_t N> bool eq(const Bytes& a, const std::array<uint8_t, N>& b) { return a.size() == N && std::equal(a.begin(), a.end(), b.begin()); }
// exact-size heap copies so that AddressSanitizer sees any out-of-bounds access
struct Exact {
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { std::copy(b.begin(), b.end(), p.get()); }
    explicit Exact(size_t k, uint8_t v = 0xA5) : p(new uint8_t[k]), n(k) { std::fill(p.get(), p.get() + k, v); }
    uint8_t* data() { return p.get(); }
    Bytes bytes() const { return Bytes(p.get(), p.get() + n); }
};
// a string whose heap buffer is exactly sized (no small-string slack)
inline void lib_init_tape_rng() { rng_install(); sse::crypto::init_crypto_lib(); }
inline void lib_init_real_rng() { sse::crypto::init_crypto_lib(); }
template <size_t... I> struct Idx {};
template <size_t N, size_t... I> struct MkIdx : MkIdx<N - 1, N - 1, I...> {};
template <size_t... I> struct MkIdx<0, I...> { using type = Idx<I...>; };
}
