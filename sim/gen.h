// Workload generation: specs and documents, drawn from the tape.
#pragma once
#include "model.h"
#include "tape.h"

namespace gen {
using sim::Rng;
using sim::Tape;
using mshio::MshSpec;

struct Opt
{
    int version = -1; // 0: 4.1, 1: 2.2, -1 draw
    int binary = -1;
    int size = -1; // 0 tiny, 1 small, 2 medium, 3 large, 4 huge; -1 draw
    int max_size = 3;
    bool plain_strings = false; // no quotes, backslashes or control characters in names
    bool nano = true;
    bool allow_unrepresentable = false;
    bool finite_only = false;
    bool entities_in_22 = true;
    bool loose_bounds = true; // tag ranges wider than needed (not expressible in 2.2)
    bool zero_fields = true;
    bool odd_dims = false; // 4.1 element blocks of an entity of another dimension
};
MshSpec spec(Tape& t, const Opt& o);

double number(Rng& r, int mode);
std::string text(Tape& t, bool plain);

struct DocOpt
{
    bool lookalikes = false; // unknown sections may hold what only begins like their end tag, which cut there is one
    Opt content;
    bool foreign = true; // unusual layouts, orders, unknown sections, several tags
};
// A well-formed document as another producer might write it, with its expected content.
model::Doc document(Tape& t, const DocOpt& o);

// How many bytes to put in front of offset `off` to bring it next to a multiple of a size buffers have.
size_t padding(Tape& t, size_t off);

// Changes one value somewhere, leaving all counts and sizes as they are (dropping an entry of a view is the only exception).
// Returns what was changed, "" when there is nothing to change. Keeps a valid spec valid, and a 2.2 document's element tags right.
std::string perturb(Tape& t, MshSpec& s);
// The same document but for one value, written in the same style.
model::Doc sibling(Tape& t, const model::Doc& d);

} // namespace gen
