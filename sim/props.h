#pragma once
#include "tape.h"
#include "world.h"

#include <string>

namespace props {
struct Ctx
{
    sim::Tape& t;
    uint64_t sig = 0;
    std::string sample; // one line describing the case
    explicit Ctx(sim::Tape& tape) : t(tape) {}
    void note(uint64_t v) { sig = sim::mix(sig, v); }
};
using Fn = void (*)(Ctx&);
struct Prop
{
    const char* id;
    Fn run;
    int epoch; // runs per process
};
extern const Prop kProps[];
extern const int kNumProps;
const Prop* find(const std::string& id);
} // namespace props
