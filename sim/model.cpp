#include "model.h"

#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>

namespace model {
using namespace mshio;

namespace {
struct TypeInfo
{
    int n, d;
};
// README, "Supported element types"
const TypeInfo kTypes[kMaxType + 1] = {{-1, -1}, {2, 1}, {3, 2}, {4, 2}, {4, 3}, {8, 3}, {6, 3}, {5, 3}, {3, 1},
    {6, 2}, {9, 2}, {10, 3}, {27, 3}, {18, 3}, {14, 3}, {1, 0}, {8, 2}, {20, 3}, {15, 3}, {13, 3}, {9, 2},
    {10, 2}, {12, 2}, {15, 2}, {15, 2}, {21, 2}, {4, 1}, {5, 1}, {6, 1}, {20, 3}, {35, 3}, {56, 3}};

uint64_t bits(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
bool same(double a, double b)
{
    if (std::isnan(a) && std::isnan(b)) return true;
    return bits(a) == bits(b);
}
std::string show(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
std::string show(int v) { return std::to_string(v); }
std::string show(size_t v) { return std::to_string(v); }
std::string show(const std::string& s)
{
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < 40; i++) {
        char b[8];
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c >= 32 && c < 127)
            o += s[i];
        else {
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o + "\"(" + std::to_string(s.size()) + ")";
}

struct Differ
{
    std::string r;
    bool done() const { return !r.empty(); }
    void report(const std::string& p, const std::string& a, const std::string& b)
    {
        if (r.empty()) r = p + ": expected " + a + " got " + b;
    }
    void eq(const std::string& p, double a, double b)
    {
        if (!done() && !same(a, b)) report(p, show(a), show(b));
    }
    template <typename T>
    void eq(const std::string& p, const T& a, const T& b)
    {
        if (!done() && !(a == b)) report(p, show(a), show(b));
    }
    template <typename T>
    void vec(const char* p, const std::vector<T>& a, const std::vector<T>& b)
    {
        if (done()) return;
        if (a.size() != b.size()) return report(std::string(p) + ".size", show(a.size()), show(b.size()));
        for (size_t i = 0; i < a.size(); i++) {
            if (!equal(a[i], b[i]))
                return report(std::string(p) + "[" + std::to_string(i) + "]", show(a[i]), show(b[i]));
        }
    }
    static bool equal(double a, double b) { return same(a, b); }
    template <typename T>
    static bool equal(const T& a, const T& b)
    {
        return a == b;
    }
};

std::string at(const char* p, size_t i, const char* f)
{
    return std::string(p) + "[" + std::to_string(i) + "]." + f;
}

void diff_format(Differ& d, const MshSpec& a, const MshSpec& b)
{
    d.eq("mesh_format.version", a.mesh_format.version, b.mesh_format.version);
    d.eq("mesh_format.file_type", a.mesh_format.file_type, b.mesh_format.file_type);
    d.eq("mesh_format.data_size", a.mesh_format.data_size, b.mesh_format.data_size);
}
void diff_data(Differ& d, const char* p, const std::vector<Data>& a, const std::vector<Data>& b)
{
    d.eq(std::string(p) + ".size", a.size(), b.size());
    for (size_t i = 0; i < a.size() && !d.done(); i++) {
        d.vec(at(p, i, "string_tags").c_str(), a[i].header.string_tags, b[i].header.string_tags);
        d.vec(at(p, i, "real_tags").c_str(), a[i].header.real_tags, b[i].header.real_tags);
        d.vec(at(p, i, "int_tags").c_str(), a[i].header.int_tags, b[i].header.int_tags);
        d.eq(at(p, i, "entries.size"), a[i].entries.size(), b[i].entries.size());
        for (size_t j = 0; j < a[i].entries.size() && !d.done(); j++) {
            const DataEntry &x = a[i].entries[j], &y = b[i].entries[j];
            if (x.tag != y.tag) d.eq(at(p, i, "entry") + std::to_string(j) + ".tag", x.tag, y.tag);
            if (x.num_nodes_per_element != y.num_nodes_per_element)
                d.eq(at(p, i, "entry") + std::to_string(j) + ".num_nodes_per_element",
                    x.num_nodes_per_element, y.num_nodes_per_element);
            d.vec("data", x.data, y.data);
            if (d.done() && d.r.compare(0, 4, "data") == 0) d.r = at(p, i, "entry") + std::to_string(j) + "." + d.r;
        }
    }
}
void diff_groups(Differ& d, const MshSpec& a, const MshSpec& b)
{
    d.eq("physical_groups.size", a.physical_groups.size(), b.physical_groups.size());
    for (size_t i = 0; i < a.physical_groups.size() && !d.done(); i++) {
        const auto &x = a.physical_groups[i], &y = b.physical_groups[i];
        d.eq(at("physical_groups", i, "dim"), x.dim, y.dim);
        d.eq(at("physical_groups", i, "tag"), x.tag, y.tag);
        d.eq(at("physical_groups", i, "name"), x.name, y.name);
    }
}
template <typename E>
void diff_box(Differ& d, const char* p, size_t i, const E& x, const E& y)
{
    d.eq(at(p, i, "tag"), x.tag, y.tag);
    d.eq(at(p, i, "min_x"), x.min_x, y.min_x);
    d.eq(at(p, i, "min_y"), x.min_y, y.min_y);
    d.eq(at(p, i, "min_z"), x.min_z, y.min_z);
    d.eq(at(p, i, "max_x"), x.max_x, y.max_x);
    d.eq(at(p, i, "max_y"), x.max_y, y.max_y);
    d.eq(at(p, i, "max_z"), x.max_z, y.max_z);
    d.vec(at(p, i, "physical_group_tags").c_str(), x.physical_group_tags, y.physical_group_tags);
}
void diff_entities(Differ& d, const Entities& a, const Entities& b)
{
    d.eq("points.size", a.points.size(), b.points.size());
    d.eq("curves.size", a.curves.size(), b.curves.size());
    d.eq("surfaces.size", a.surfaces.size(), b.surfaces.size());
    d.eq("volumes.size", a.volumes.size(), b.volumes.size());
    for (size_t i = 0; i < a.points.size() && !d.done(); i++) {
        const auto &x = a.points[i], &y = b.points[i];
        d.eq(at("points", i, "tag"), x.tag, y.tag);
        d.eq(at("points", i, "x"), x.x, y.x);
        d.eq(at("points", i, "y"), x.y, y.y);
        d.eq(at("points", i, "z"), x.z, y.z);
        d.vec(at("points", i, "physical_group_tags").c_str(), x.physical_group_tags, y.physical_group_tags);
    }
    for (size_t i = 0; i < a.curves.size() && !d.done(); i++) {
        diff_box(d, "entity_curves", i, a.curves[i], b.curves[i]);
        d.vec(at("entity_curves", i, "boundary").c_str(), a.curves[i].boundary_point_tags, b.curves[i].boundary_point_tags);
    }
    for (size_t i = 0; i < a.surfaces.size() && !d.done(); i++) {
        diff_box(d, "surfaces", i, a.surfaces[i], b.surfaces[i]);
        d.vec(at("surfaces", i, "boundary").c_str(), a.surfaces[i].boundary_curve_tags, b.surfaces[i].boundary_curve_tags);
    }
    for (size_t i = 0; i < a.volumes.size() && !d.done(); i++) {
        diff_box(d, "volumes", i, a.volumes[i], b.volumes[i]);
        d.vec(at("volumes", i, "boundary").c_str(), a.volumes[i].boundary_surface_tags, b.volumes[i].boundary_surface_tags);
    }
}
void diff_nano(Differ& d, const MshSpec& a, const MshSpec& b)
{
    // without the extension a loader may note the version or skip it
    if (kNano) d.eq("nanospline_format.version", a.nanospline_format.version, b.nanospline_format.version);
    d.eq("curves.size", a.curves.size(), b.curves.size());
    d.eq("patches.size", a.patches.size(), b.patches.size());
    for (size_t i = 0; i < a.curves.size() && !d.done(); i++) {
        const auto &x = a.curves[i], &y = b.curves[i];
        d.eq(at("curves", i, "curve_tag"), x.curve_tag, y.curve_tag);
        d.eq(at("curves", i, "curve_type"), x.curve_type, y.curve_type);
        d.eq(at("curves", i, "curve_degree"), x.curve_degree, y.curve_degree);
        d.eq(at("curves", i, "num_control_points"), x.num_control_points, y.num_control_points);
        d.eq(at("curves", i, "num_knots"), x.num_knots, y.num_knots);
        d.eq(at("curves", i, "with_weights"), x.with_weights, y.with_weights);
        d.vec(at("curves", i, "data").c_str(), x.data, y.data);
    }
    for (size_t i = 0; i < a.patches.size() && !d.done(); i++) {
        const auto &x = a.patches[i], &y = b.patches[i];
        d.eq(at("patches", i, "patch_tag"), x.patch_tag, y.patch_tag);
        d.eq(at("patches", i, "patch_type"), x.patch_type, y.patch_type);
        d.eq(at("patches", i, "degree_u"), x.degree_u, y.degree_u);
        d.eq(at("patches", i, "degree_v"), x.degree_v, y.degree_v);
        d.eq(at("patches", i, "num_control_points"), x.num_control_points, y.num_control_points);
        d.eq(at("patches", i, "num_u_knots"), x.num_u_knots, y.num_u_knots);
        d.eq(at("patches", i, "num_v_knots"), x.num_v_knots, y.num_v_knots);
        d.eq(at("patches", i, "with_weights"), x.with_weights, y.with_weights);
        d.vec(at("patches", i, "data").c_str(), x.data, y.data);
    }
}
} // namespace

int nodes_of(int t) { return t < 1 || t > kMaxType ? -1 : kTypes[t].n; }
int dim_of(int t) { return t < 1 || t > kMaxType ? -1 : kTypes[t].d; }

const char* section_name(Kind k)
{
    static const char* const n[] = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData",
        "ElementData", "ElementNodeData", "NanoSplineFormat", "Curves", "Patches", "?"};
    return n[k];
}

std::string diff(const MshSpec& a, const MshSpec& b)
{
    Differ d;
    diff_format(d, a, b);
    const Nodes &n = a.nodes, &m = b.nodes;
    d.eq("nodes.num_entity_blocks", n.num_entity_blocks, m.num_entity_blocks);
    d.eq("nodes.num_nodes", n.num_nodes, m.num_nodes);
    d.eq("nodes.min_node_tag", n.min_node_tag, m.min_node_tag);
    d.eq("nodes.max_node_tag", n.max_node_tag, m.max_node_tag);
    d.eq("nodes.entity_blocks.size", n.entity_blocks.size(), m.entity_blocks.size());
    for (size_t i = 0; i < n.entity_blocks.size() && !d.done(); i++) {
        const auto &x = n.entity_blocks[i], &y = m.entity_blocks[i];
        d.eq(at("nodes", i, "entity_dim"), x.entity_dim, y.entity_dim);
        d.eq(at("nodes", i, "entity_tag"), x.entity_tag, y.entity_tag);
        d.eq(at("nodes", i, "parametric"), x.parametric, y.parametric);
        d.eq(at("nodes", i, "num_nodes_in_block"), x.num_nodes_in_block, y.num_nodes_in_block);
        d.vec(at("nodes", i, "tags").c_str(), x.tags, y.tags);
        d.vec(at("nodes", i, "data").c_str(), x.data, y.data);
    }
    const Elements &e = a.elements, &f = b.elements;
    d.eq("elements.num_entity_blocks", e.num_entity_blocks, f.num_entity_blocks);
    d.eq("elements.num_elements", e.num_elements, f.num_elements);
    d.eq("elements.min_element_tag", e.min_element_tag, f.min_element_tag);
    d.eq("elements.max_element_tag", e.max_element_tag, f.max_element_tag);
    d.eq("elements.entity_blocks.size", e.entity_blocks.size(), f.entity_blocks.size());
    for (size_t i = 0; i < e.entity_blocks.size() && !d.done(); i++) {
        const auto &x = e.entity_blocks[i], &y = f.entity_blocks[i];
        d.eq(at("elements", i, "entity_dim"), x.entity_dim, y.entity_dim);
        d.eq(at("elements", i, "entity_tag"), x.entity_tag, y.entity_tag);
        d.eq(at("elements", i, "element_type"), x.element_type, y.element_type);
        d.eq(at("elements", i, "num_elements_in_block"), x.num_elements_in_block, y.num_elements_in_block);
        d.vec(at("elements", i, "data").c_str(), x.data, y.data);
    }
    diff_entities(d, a.entities, b.entities);
    diff_groups(d, a, b);
    diff_data(d, "node_data", a.node_data, b.node_data);
    diff_data(d, "element_data", a.element_data, b.element_data);
    diff_data(d, "element_node_data", a.element_node_data, b.element_node_data);
    diff_nano(d, a, b);
    return d.r;
}

namespace {
struct Hash
{
    uint64_t h = 1469598103934665603ull;
    void raw(const void* p, size_t n)
    {
        const unsigned char* c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    }
    void u(uint64_t v)
    {
        h = (h ^ v) * 1099511628211ull;
        h ^= h >> 29;
    }
    void i(int v) { u(static_cast<uint64_t>(static_cast<int64_t>(v))); }
    void f(double v) { u(std::isnan(v) ? 0x7ff8000000000000ull : bits(v)); }
    void s(const std::string& v)
    {
        u(v.size());
        raw(v.data(), v.size());
    }
    void v(const std::vector<size_t>& x)
    {
        u(x.size());
        for (auto e : x) u(e);
    }
    void v(const std::vector<int>& x)
    {
        u(x.size());
        for (auto e : x) i(e);
    }
    void v(const std::vector<double>& x)
    {
        u(x.size());
        for (auto e : x) f(e);
    }
};
template <typename E>
void hash_box(Hash& h, const E& x)
{
    h.i(x.tag);
    h.f(x.min_x), h.f(x.min_y), h.f(x.min_z), h.f(x.max_x), h.f(x.max_y), h.f(x.max_z);
    h.v(x.physical_group_tags);
}
void hash_data(Hash& h, const std::vector<Data>& v)
{
    h.u(v.size());
    for (const auto& d : v) {
        h.u(d.header.string_tags.size());
        for (const auto& s : d.header.string_tags) h.s(s);
        h.v(d.header.real_tags);
        h.v(d.header.int_tags);
        h.u(d.entries.size());
        for (const auto& e : d.entries) {
            h.u(e.tag);
            h.i(e.num_nodes_per_element);
            h.v(e.data);
        }
    }
}
} // namespace

uint64_t digest(const MshSpec& s)
{
    Hash h;
    h.s(s.mesh_format.version), h.i(s.mesh_format.file_type), h.i(s.mesh_format.data_size);
    h.u(s.nodes.num_entity_blocks), h.u(s.nodes.num_nodes), h.u(s.nodes.min_node_tag), h.u(s.nodes.max_node_tag);
    h.u(s.nodes.entity_blocks.size());
    for (const auto& b : s.nodes.entity_blocks) {
        h.i(b.entity_dim), h.i(b.entity_tag), h.i(b.parametric), h.u(b.num_nodes_in_block);
        h.v(b.tags), h.v(b.data);
    }
    h.u(s.elements.num_entity_blocks), h.u(s.elements.num_elements);
    h.u(s.elements.min_element_tag), h.u(s.elements.max_element_tag);
    h.u(s.elements.entity_blocks.size());
    for (const auto& b : s.elements.entity_blocks) {
        h.i(b.entity_dim), h.i(b.entity_tag), h.i(b.element_type), h.u(b.num_elements_in_block);
        h.v(b.data);
    }
    h.u(s.entities.points.size());
    for (const auto& p : s.entities.points) h.i(p.tag), h.f(p.x), h.f(p.y), h.f(p.z), h.v(p.physical_group_tags);
    h.u(s.entities.curves.size());
    for (const auto& p : s.entities.curves) hash_box(h, p), h.v(p.boundary_point_tags);
    h.u(s.entities.surfaces.size());
    for (const auto& p : s.entities.surfaces) hash_box(h, p), h.v(p.boundary_curve_tags);
    h.u(s.entities.volumes.size());
    for (const auto& p : s.entities.volumes) hash_box(h, p), h.v(p.boundary_surface_tags);
    h.u(s.physical_groups.size());
    for (const auto& g : s.physical_groups) h.i(g.dim), h.i(g.tag), h.s(g.name);
    hash_data(h, s.node_data), hash_data(h, s.element_data), hash_data(h, s.element_node_data);
    h.s(s.nanospline_format.version);
    h.u(s.curves.size());
    for (const auto& c : s.curves)
        h.u(c.curve_tag), h.u(c.curve_type), h.u(c.curve_degree), h.u(c.num_control_points), h.u(c.num_knots),
            h.u(c.with_weights), h.v(c.data);
    h.u(s.patches.size());
    for (const auto& c : s.patches)
        h.u(c.patch_tag), h.u(c.patch_type), h.u(c.degree_u), h.u(c.degree_v), h.u(c.num_control_points),
            h.u(c.num_u_knots), h.u(c.num_v_knots), h.u(c.with_weights), h.v(c.data);
    return h.h;
}

namespace {
// a*b+c without overflow; false on overflow
bool muladd(size_t a, size_t b, size_t c, size_t* r)
{
    return !__builtin_mul_overflow(a, b, r) && !__builtin_add_overflow(*r, c, r);
}
std::string consistent_data(const char* p, const std::vector<Data>& v, bool per_element)
{
    for (size_t i = 0; i < v.size(); i++) {
        const auto& it = v[i].header.int_tags;
        if (it.size() < 3) return at(p, i, "int_tags") + " fewer than three";
        if (it[1] < 0 || it[2] < 0) return at(p, i, "int_tags") + " negative count";
        if (v[i].entries.size() != static_cast<size_t>(it[2])) return at(p, i, "entries") + " size != int_tags[2]";
        for (size_t j = 0; j < v[i].entries.size(); j++) {
            const auto& e = v[i].entries[j];
            if (per_element && e.num_nodes_per_element < 0) return at(p, i, "entry") + " negative num_nodes_per_element";
            size_t mul = per_element ? static_cast<size_t>(e.num_nodes_per_element) : 1, want;
            if (!muladd(static_cast<size_t>(it[1]), mul, 0, &want) || e.data.size() != want)
                return at(p, i, "entry") + std::to_string(j) + ".data size " + std::to_string(e.data.size()) + " != promised";
        }
    }
    return "";
}
} // namespace

std::string consistent(const MshSpec& s)
{
    size_t w;
    if (s.nodes.num_entity_blocks != s.nodes.entity_blocks.size()) return "nodes.num_entity_blocks != size";
    for (size_t i = 0; i < s.nodes.entity_blocks.size(); i++) {
        const auto& b = s.nodes.entity_blocks[i];
        if (b.tags.size() != b.num_nodes_in_block) return at("nodes", i, "tags") + " size != num_nodes_in_block";
        if (b.parametric == 1 && (b.entity_dim < 0 || b.entity_dim > 3)) return at("nodes", i, "entity_dim") + " out of range";
        size_t per = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
        if (muladd(b.num_nodes_in_block, per, 0, &w) && b.data.size() == w) continue;
        if (b.parametric > 1 && b.entity_dim >= 0 && b.entity_dim <= 3 &&
            muladd(b.num_nodes_in_block, 3 + static_cast<size_t>(b.entity_dim), 0, &w) && b.data.size() == w)
            continue;
        return at("nodes", i, "data") + " size " + std::to_string(b.data.size()) + " != promised";
    }
    if (s.elements.num_entity_blocks != s.elements.entity_blocks.size()) return "elements.num_entity_blocks != size";
    for (size_t i = 0; i < s.elements.entity_blocks.size(); i++) {
        const auto& b = s.elements.entity_blocks[i];
        int n = nodes_of(b.element_type);
        if (n < 0) return at("elements", i, "element_type") + " unsupported";
        if (!muladd(b.num_elements_in_block, static_cast<size_t>(n) + 1, 0, &w) || b.data.size() != w)
            return at("elements", i, "data") + " size " + std::to_string(b.data.size()) + " != promised";
    }
    std::string r = consistent_data("node_data", s.node_data, false);
    if (r.empty()) r = consistent_data("element_data", s.element_data, false);
    if (r.empty()) r = consistent_data("element_node_data", s.element_node_data, true);
    if (!r.empty()) return r;
    for (size_t i = 0; i < s.curves.size(); i++) {
        const auto& c = s.curves[i];
        if (!muladd(c.num_control_points, c.with_weights > 0 ? 4 : 3, c.num_knots, &w) || c.data.size() != w)
            return at("curves", i, "data") + " size != promised";
    }
    for (size_t i = 0; i < s.patches.size(); i++) {
        const auto& c = s.patches[i];
        size_t k;
        if (__builtin_add_overflow(c.num_u_knots, c.num_v_knots, &k) ||
            !muladd(c.num_control_points, c.with_weights > 0 ? 4 : 3, k, &w) || c.data.size() != w)
            return at("patches", i, "data") + " size != promised";
    }
    return "";
}

std::string valid(const MshSpec& s)
{
    std::string r = consistent(s);
    if (!r.empty()) return r;
    size_t n = 0;
    for (const auto& b : s.nodes.entity_blocks) {
        n += b.num_nodes_in_block;
        for (size_t t : b.tags)
            if (t < s.nodes.min_node_tag || t > s.nodes.max_node_tag) return "node tag out of range";
    }
    if (n != s.nodes.num_nodes) return "num_nodes";
    n = 0;
    for (const auto& b : s.elements.entity_blocks) {
        n += b.num_elements_in_block;
        size_t k = static_cast<size_t>(nodes_of(b.element_type)) + 1;
        if (s.mesh_format.version == "2.2" && b.entity_dim != dim_of(b.element_type)) return "element dim";
        for (size_t i = 0; i < b.data.size(); i++) {
            size_t t = b.data[i];
            if (i % k == 0 && (t < s.elements.min_element_tag || t > s.elements.max_element_tag)) return "element tag range";
            if (i % k != 0 && (t < s.nodes.min_node_tag || t > s.nodes.max_node_tag)) return "element node range";
        }
    }
    if (n != s.elements.num_elements) return "num_elements";
    return "";
}

Doc doc_of_spec(const MshSpec& spec)
{
    Doc d;
    d.spec = spec;
    if (d.v22())
        for (const auto& b : spec.elements.entity_blocks)
            for (size_t i = 0; i < b.num_elements_in_block; i++) d.el_tags.push_back({b.entity_tag});
    auto add = [&](Kind k, size_t i = 0) {
        Section s;
        s.kind = k;
        s.index = i;
        d.sections.push_back(s);
    };
    add(K_Format);
    if (!spec.physical_groups.empty()) add(K_Physical);
    if (!spec.entities.empty() && !d.v22()) add(K_Entities);
    if (spec.nodes.num_nodes > 0) add(K_Nodes);
    if (spec.elements.num_elements > 0) add(K_Elements);
    for (size_t i = 0; i < spec.node_data.size(); i++) add(K_NodeData, i);
    for (size_t i = 0; i < spec.element_data.size(); i++) add(K_ElementData, i);
    for (size_t i = 0; i < spec.element_node_data.size(); i++) add(K_ElementNodeData, i);
    if (kNano) {
        add(K_NanoFormat);
        if (!spec.curves.empty()) add(K_Curves);
        if (!spec.patches.empty()) add(K_Patches);
    }
    return d;
}

Doc prefix(const Doc& doc, size_t k)
{
    Doc d;
    for (size_t i = 0; i < k && i < doc.sections.size(); i++) {
        const Section& s = doc.sections[i];
        d.sections.push_back(s);
        switch (s.kind) {
        case K_Format: d.spec.mesh_format = doc.spec.mesh_format; break;
        case K_Physical: d.spec.physical_groups = doc.spec.physical_groups; break;
        case K_Entities: d.spec.entities = doc.spec.entities; break;
        case K_Nodes: d.spec.nodes = doc.spec.nodes; break;
        case K_Elements:
            d.spec.elements = doc.spec.elements;
            d.el_tags = doc.el_tags;
            break;
        case K_NodeData: d.spec.node_data.push_back(doc.spec.node_data[s.index]); break;
        case K_ElementData: d.spec.element_data.push_back(doc.spec.element_data[s.index]); break;
        case K_ElementNodeData: d.spec.element_node_data.push_back(doc.spec.element_node_data[s.index]); break;
        case K_NanoFormat: d.spec.nanospline_format = doc.spec.nanospline_format; break;
        case K_Curves: d.spec.curves = doc.spec.curves; break;
        case K_Patches: d.spec.patches = doc.spec.patches; break;
        case K_Unknown: break;
        }
    }
    return d;
}

namespace {
std::string check22(const Doc& doc, const MshSpec& got, bool node_entities)
{
    const MshSpec& want = doc.spec;
    Differ d;
    // nodes
    struct N
    {
        size_t tag;
        const double* x;
        int bdim, btag;
    };
    auto flat = [](const Nodes& nodes) {
        std::vector<N> v;
        for (const auto& b : nodes.entity_blocks) {
            size_t per = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
            for (size_t i = 0; i < b.num_nodes_in_block; i++)
                v.push_back({b.tags[i], b.data.data() + i * per, b.entity_dim, b.entity_tag});
        }
        return v;
    };
    std::vector<N> a = flat(want.nodes), b = flat(got.nodes);
    d.eq("nodes flattened size", a.size(), b.size());
    d.eq("nodes.num_nodes", a.size(), got.nodes.num_nodes);
    if (d.done()) return d.r;
    std::unordered_map<size_t, std::set<std::pair<int, int>>> users;
    size_t el = 0;
    for (const auto& blk : want.elements.entity_blocks) {
        size_t k = static_cast<size_t>(nodes_of(blk.element_type)) + 1;
        for (size_t i = 0; i < blk.num_elements_in_block; i++, el++) {
            const auto& t = doc.el_tags[el];
            int ent = t.size() > 1 ? t[1] : t.size() == 1 ? t[0] : 1;
            for (size_t j = 1; j < k; j++) users[blk.data[i * k + j]].insert({dim_of(blk.element_type), ent});
        }
    }
    size_t mn = ~size_t(0), mx = 0;
    for (size_t i = 0; i < a.size() && !d.done(); i++) {
        if (a[i].tag != b[i].tag) d.eq("node " + std::to_string(i) + " tag", a[i].tag, b[i].tag);
        for (int k = 0; k < 3; k++)
            if (!same(a[i].x[k], b[i].x[k])) d.eq("node " + std::to_string(i) + " xyz" + std::to_string(k), a[i].x[k], b[i].x[k]);
        mn = std::min(mn, a[i].tag), mx = std::max(mx, a[i].tag);
        auto it = users.find(a[i].tag);
        if (node_entities && it != users.end() && !it->second.count({b[i].bdim, b[i].btag}))
            d.report("node " + std::to_string(i) + " entity", "that of an element using it",
                "(" + std::to_string(b[i].bdim) + "," + std::to_string(b[i].btag) + ")");
    }
    for (const auto& blk : got.nodes.entity_blocks)
        if (blk.parametric != 0) d.report("parametric", "0", show(blk.parametric));
    if (!a.empty()) {
        d.eq("nodes.min_node_tag", mn, got.nodes.min_node_tag);
        d.eq("nodes.max_node_tag", mx, got.nodes.max_node_tag);
    }
    // elements
    struct E
    {
        size_t tag;
        int type, ent, dim;
        const size_t* nodes;
    };
    std::vector<E> c, e;
    el = 0;
    for (const auto& blk : want.elements.entity_blocks) {
        size_t k = static_cast<size_t>(nodes_of(blk.element_type)) + 1;
        for (size_t i = 0; i < blk.num_elements_in_block; i++, el++) {
            const auto& t = doc.el_tags[el];
            int ent = t.size() > 1 ? t[1] : t.size() == 1 ? t[0] : 1;
            c.push_back({blk.data[i * k], blk.element_type, ent, dim_of(blk.element_type), blk.data.data() + i * k + 1});
        }
    }
    for (const auto& blk : got.elements.entity_blocks) {
        size_t k = static_cast<size_t>(nodes_of(blk.element_type)) + 1;
        for (size_t i = 0; i < blk.num_elements_in_block; i++)
            e.push_back({blk.data[i * k], blk.element_type, blk.entity_tag, blk.entity_dim, blk.data.data() + i * k + 1});
    }
    d.eq("elements flattened size", c.size(), e.size());
    d.eq("elements.num_elements", c.size(), got.elements.num_elements);
    if (d.done()) return d.r;
    mn = ~size_t(0), mx = 0;
    for (size_t i = 0; i < c.size() && !d.done(); i++) {
        std::string p = "element " + std::to_string(i) + " ";
        if (c[i].tag != e[i].tag) d.eq(p + "tag", c[i].tag, e[i].tag);
        if (c[i].type != e[i].type) d.eq(p + "type", c[i].type, e[i].type);
        if (c[i].ent != e[i].ent) d.eq(p + "entity_tag", c[i].ent, e[i].ent);
        if (c[i].dim != e[i].dim) d.eq(p + "entity_dim", c[i].dim, e[i].dim);
        if (!d.done())
            for (int k = 0; k < nodes_of(c[i].type); k++)
                if (c[i].nodes[k] != e[i].nodes[k]) d.eq(p + "node " + std::to_string(k), c[i].nodes[k], e[i].nodes[k]);
        mn = std::min(mn, c[i].tag), mx = std::max(mx, c[i].tag);
    }
    if (!c.empty()) {
        d.eq("elements.min_element_tag", mn, got.elements.min_element_tag);
        d.eq("elements.max_element_tag", mx, got.elements.max_element_tag);
    }
    // entities
    std::map<int, std::set<int>> ent[4];
    el = 0;
    for (const auto& blk : want.elements.entity_blocks)
        for (size_t i = 0; i < blk.num_elements_in_block; i++, el++) {
            const auto& t = doc.el_tags[el];
            if (t.size() > 1) ent[dim_of(blk.element_type)][t[1]].insert(t[0]);
        }
    Entities we;
    auto fill = [](const std::map<int, std::set<int>>& m, auto& v) {
        for (const auto& kv : m) {
            v.emplace_back();
            v.back().tag = kv.first;
            v.back().physical_group_tags.assign(kv.second.begin(), kv.second.end());
        }
    };
    fill(ent[0], we.points), fill(ent[1], we.curves), fill(ent[2], we.surfaces), fill(ent[3], we.volumes);
    diff_entities(d, we, got.entities);
    return d.r;
}
} // namespace

std::string check_load(const Doc& doc, const MshSpec& got, bool node_entities)
{
    MshSpec want = doc.spec;
    if (!kNano) {
        want.nanospline_format = NanoSplineFormat();
        want.curves.clear();
        want.patches.clear();
    }
    std::string c = consistent(got);
    if (!c.empty()) return "inconsistent: " + c;
    if (!doc.v22()) return diff(want, got);
    Differ d;
    diff_format(d, want, got);
    diff_groups(d, want, got);
    diff_data(d, "node_data", want.node_data, got.node_data);
    diff_data(d, "element_data", want.element_data, got.element_data);
    diff_data(d, "element_node_data", want.element_node_data, got.element_node_data);
    diff_nano(d, want, got);
    if (d.done()) return d.r;
    return check22(doc, got, node_entities);
}

bool representable(const MshSpec& s)
{
    const bool bin = s.mesh_format.file_type != 0;
    constexpr size_t lim = 0x7fffffff;
    if (!bin) return true;
    auto data_ok = [&](const std::vector<Data>& v) {
        for (const auto& d : v)
            for (const auto& e : d.entries)
                if (e.tag > lim) return false;
        return true;
    };
    if (!data_ok(s.node_data) || !data_ok(s.element_data) || !data_ok(s.element_node_data)) return false;
    if (s.mesh_format.version == "2.2") {
        for (const auto& b : s.nodes.entity_blocks)
            for (size_t t : b.tags)
                if (t > lim) return false;
        for (const auto& b : s.elements.entity_blocks)
            for (size_t t : b.data)
                if (t > lim) return false;
    }
    return true;
}

std::string summary(const MshSpec& s)
{
    char b[400];
    snprintf(b, sizeof b, "v%s %s nodes=%zu/%zu blocks elements=%zu/%zu blocks entities=%zu/%zu/%zu/%zu phys=%zu data=%zu/%zu/%zu curves=%zu patches=%zu",
        s.mesh_format.version.c_str(), s.mesh_format.file_type ? "bin" : "ascii", s.nodes.num_nodes, s.nodes.entity_blocks.size(),
        s.elements.num_elements, s.elements.entity_blocks.size(), s.entities.points.size(), s.entities.curves.size(),
        s.entities.surfaces.size(), s.entities.volumes.size(), s.physical_groups.size(), s.node_data.size(),
        s.element_data.size(), s.element_node_data.size(), s.curves.size(), s.patches.size());
    return b;
}

} // namespace model
