// Helpers of the demonstrations.
#pragma once
#include <mshio/mshio.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#define EXPECT(c) \
    do { \
        if (!(c)) { \
            std::printf("demo: line %d: not so: %s\n", __LINE__, #c); \
            std::fflush(stdout); \
            std::_Exit(1); \
        } \
    } while (0)

namespace demo {

inline std::string save(const mshio::MshSpec& s)
{
    std::ostringstream o(std::ios::binary);
    mshio::save_msh(o, s);
    EXPECT(o.good());
    return o.str();
}
inline mshio::MshSpec load(const std::string& d)
{
    std::istringstream i(d, std::ios::binary);
    return mshio::load_msh(i);
}
inline bool throws(const std::function<void()>& f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
inline std::string slurp(const std::string& path)
{
    std::ifstream f(path.c_str(), std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
inline void spill(const std::string& path, const std::string& d)
{
    std::ofstream f(path.c_str(), std::ios::binary);
    f.write(d.data(), static_cast<std::streamsize>(d.size()));
}
// binary pieces
inline std::string i32(int v) { return std::string(reinterpret_cast<const char*>(&v), 4); }
inline std::string u64(size_t v) { return std::string(reinterpret_cast<const char*>(&v), 8); }
inline std::string f64(double v) { return std::string(reinterpret_cast<const char*>(&v), 8); }

// one block of `n` nodes with tags from `tag0`
inline void add_nodes(mshio::MshSpec& s, int dim, int tag, size_t tag0, size_t n)
{
    mshio::NodeBlock b;
    b.entity_dim = dim;
    b.entity_tag = tag;
    b.num_nodes_in_block = n;
    for (size_t i = 0; i < n; i++) {
        b.tags.push_back(tag0 + i);
        for (int k = 0; k < 3; k++) b.data.push_back(0.25 * static_cast<double>(3 * i) + k);
    }
    auto& a = s.nodes;
    if (a.num_nodes == 0) a.min_node_tag = tag0, a.max_node_tag = tag0;
    if (tag0 < a.min_node_tag) a.min_node_tag = tag0;
    if (tag0 + n - 1 > a.max_node_tag) a.max_node_tag = tag0 + n - 1;
    a.num_nodes += n;
    a.entity_blocks.push_back(b);
    a.num_entity_blocks = a.entity_blocks.size();
}
// one block of elements; each row is tag, node, node...
inline void add_elements(mshio::MshSpec& s, int dim, int tag, int type, const std::vector<std::vector<size_t>>& rows)
{
    mshio::ElementBlock b;
    b.entity_dim = dim;
    b.entity_tag = tag;
    b.element_type = type;
    b.num_elements_in_block = rows.size();
    auto& a = s.elements;
    for (const auto& r : rows) {
        b.data.insert(b.data.end(), r.begin(), r.end());
        if (a.num_elements == 0) a.min_element_tag = a.max_element_tag = r[0];
        if (r[0] < a.min_element_tag) a.min_element_tag = r[0];
        if (r[0] > a.max_element_tag) a.max_element_tag = r[0];
        a.num_elements++;
    }
    a.entity_blocks.push_back(b);
    a.num_entity_blocks = a.entity_blocks.size();
}
// a mesh of two triangles and a line
inline mshio::MshSpec mesh(const std::string& version = "4.1", int file_type = 0)
{
    mshio::MshSpec s;
    s.mesh_format.version = version;
    s.mesh_format.file_type = file_type;
    s.mesh_format.data_size = 8;
    add_nodes(s, 2, 1, 1, 4);
    add_elements(s, 2, 1, 2, {{1, 1, 2, 3}, {2, 2, 3, 4}});
    add_elements(s, 1, 5, 1, {{3, 1, 2}});
    return s;
}
inline mshio::Data data(const std::string& name, int fields, size_t entries, size_t tag0 = 1, int nodes_per_element = 0)
{
    mshio::Data d;
    d.header.string_tags = {name};
    d.header.real_tags = {0.5};
    d.header.int_tags = {0, fields, static_cast<int>(entries)};
    for (size_t i = 0; i < entries; i++) {
        mshio::DataEntry e;
        e.tag = tag0 + i;
        e.num_nodes_per_element = nodes_per_element;
        const size_t n = static_cast<size_t>(fields) * (nodes_per_element ? static_cast<size_t>(nodes_per_element) : 1);
        for (size_t k = 0; k < n; k++) e.data.push_back(1.5 * static_cast<double>(i) + static_cast<double>(k));
        d.entries.push_back(e);
    }
    return d;
}
} // namespace demo
