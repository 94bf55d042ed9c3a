// An independent writer and reader of MSH documents, sharing no code with the library.
#pragma once
#include "model.h"
#include "tape.h"

namespace codec {

struct Style
{
    bool crlf = false; // ASCII documents only
    int sep = 0; // between tokens: 0 space, 1 tab, 2 several, 3 newline, 4 mixed
    bool blank_lines = false; // between sections
    bool trailing_space = false; // ASCII
    int stray = 0; // words outside all sections: 0 none, 1 after the end tags' lines, 2 on them
    int dbl = 0; // spelling: 0 %.17g, 1 %.16e, 2 upper case exponent, 3 plus signs, 4 shortest, 5 no leading zero
    bool int_plus = false, int_zeros = false;
    bool newline_before_end = true; // after binary payloads
    bool final_newline = true;
    int group = 0; // 2.2 binary element groups: 0 maximal runs, 1 one each, 2 random
    uint64_t seed = 0;
    int nonfinite = 0; // spelling of nan and inf
    int header_pad = 0; // binary: blanks between the format line's last number and the line end
};
void draw_style(sim::Tape& t, bool binary, Style& s);
std::string draw_payload(sim::Tape& t, const std::string& name, bool allow_binary, bool lookalikes = false, bool mid_line = false);
// When set, encode() also records every number written as text in a section the library reads.
extern std::vector<model::Field>* g_numbers;
// Writes d.bytes and fills in section positions and fields.
void encode(model::Doc& d, const Style& s);

struct Decoded
{
    std::string error; // "" when the bytes are one well-formed document
    model::Doc doc;
};
// Strict reading of one document.
Decoded decode(const std::string& bytes);

} // namespace codec
