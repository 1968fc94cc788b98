// A generated program over every class of the library, and its transcript: one
// line per call, with the outcome and every deterministic output.
#pragma once
#include "core.hpp"
#include <functional>
namespace pbt {
struct Program {
    std::string transcript;
    std::vector<std::string> randoms; // random values the program obtained (16 bytes or more each)
    std::vector<std::string> ops;     // names of the calls made
    bool collect_randoms = false;     // also make calls that draw randomness
    bool light = false;               // fewer slow calls
    std::function<void()> between;    // called after every call
    std::string wrong;                // a result that differs from its model
};
void run_program(Tape& t, Program& p);
void warm_up(); // initialises what the harness shares between programs
}
