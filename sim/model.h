// Independent reference model: what a document contains, what a load must return, when specs are equal.
#pragma once
#include <mshio/mshio.h>

#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace model {

using mshio::MshSpec;

constexpr int kMaxType = 31;
int nodes_of(int type); // own copy of the README table; -1 when unsupported
int dim_of(int type);

#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool kNano = true;
#else
constexpr bool kNano = false;
#endif

// "" when equal (doubles bit for bit, any NaN equals any NaN), else what differs.
std::string diff(const MshSpec& a, const MshSpec& b);
uint64_t digest(const MshSpec& s);
// "" when every array has the length its counts promise.
std::string consistent(const MshSpec& s);
// README: counts, sizes and ranges agree (the specs the generator makes are valid by construction; this is
// the harness's self check).
std::string valid(const MshSpec& s);

enum Kind {
    K_Format, K_Physical, K_Entities, K_Nodes, K_Elements, K_NodeData, K_ElementData, K_ElementNodeData,
    K_NanoFormat, K_Curves, K_Patches, K_Unknown
};
const char* section_name(Kind k);

struct Section
{
    Kind kind = K_Unknown;
    size_t index = 0; // data view / unknown section
    size_t begin = 0, end = 0; // byte range from '$' to the end of the end tag
    size_t body = 0, body_end = 0; // bytes between the lines of the tags
};
struct Field // a number the decoder relies on, for aimed damage
{
    size_t off = 0, len = 0;
    bool text = false;
    int width = 0; // binary: bytes
    char num = 0; // recorded numbers: i int, u unsigned, f floating point; e: how many entries follow, and nothing after them
    char what = 0; // c count, t tag, y type, v version, s data size, f file type, o byte order, d dim, p parametric, n num tags, k keyword
};

// The content of a document. For 2.2 every element carries its own list of tags.
struct Doc
{
    MshSpec spec; // the content in 4.1 terms
    std::vector<std::vector<int>> el_tags; // 2.2: tags per element, flattened order
    std::vector<std::string> unknown_names, unknown_payloads;
    std::vector<Section> sections; // in document order
    std::vector<Field> fields;
    std::string bytes;
    std::shared_ptr<const void> style; // codec::Style it was written in
    bool v22() const { return spec.mesh_format.version == "2.2"; }
    bool binary() const { return spec.mesh_format.file_type != 0; }
};

// The sections of doc that have an index below k, as a document of its own (content only).
Doc prefix(const Doc& doc, size_t k);
// "" when `got` is what loading `doc` must return.
std::string check_load(const Doc& doc, const MshSpec& got, bool node_entities = true);
// The doc a save of this spec must amount to (content and section order of the library are not fixed here).
Doc doc_of_spec(const MshSpec& spec);
// Is there a value the encoding cannot hold?
bool representable(const MshSpec& spec);
std::string summary(const MshSpec& s);

} // namespace model
