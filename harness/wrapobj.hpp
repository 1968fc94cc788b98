// Type-erased wrappable objects, each with the model it must agree with.
#pragma once
#include "lib.hpp"
#include "testkeys.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/tdp.hpp>
#include <tdp_impl/tdp_impl.hpp> // moving a TdpInverse needs the complete type
#include <sse/crypto/wrapper.hpp>
namespace pbt {
struct Model { // what the object is, as plain data
    Bytes key;
    unsigned height = 0;
    bool empty = false;
    uint64_t lo = 0, hi = 0;
    std::shared_ptr<RsaKey> rsa;
    std::string rsa_pem;
};
struct IObj {
    virtual ~IObj() {}
    virtual Bytes wrap(const Wrapper& w) const = 0;
    // compares the behaviour with the model on inputs drawn from the tape
    virtual void check(Tape& t, const Model& m) const = 0;
    virtual std::unique_ptr<IObj> moved() = 0;
};
struct WClass {
    const char* name;
    uint8_t type;
    Bytes ctx;
    size_t width;
    std::unique_ptr<IObj> (*make)(Tape& t, Model& m);
    std::unique_ptr<IObj> (*unwrap)(const Wrapper& w, std::vector<uint8_t>& blob);
    // "" or what is wrong with the clear serialisation
    std::string (*ser_error)(const Model& m, const Bytes& ser);
};
extern const std::vector<WClass> WCLASSES;
}
