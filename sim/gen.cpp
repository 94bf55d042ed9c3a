#include "gen.h"

#include <functional>

#include "codec.h"
#include "world.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <unistd.h>

namespace gen {
using namespace mshio;
using sim::count;

double number(Rng& r, int mode)
{
    auto frombits = [](uint64_t u) {
        double d;
        memcpy(&d, &u, 8);
        return d;
    };
    switch (mode) {
    case 0: return static_cast<double>(r.below(10)); // simple
    case 1: return static_cast<double>(r.next() >> 11) / 9007199254740992.0; // [0,1) with 53 bits
    case 2: return (static_cast<double>(r.next() >> 11) / 9007199254740992.0 - 0.5) * 2000.0;
    case 3: { // any finite bit pattern
        for (;;) {
            double d = frombits(r.next());
            if (std::isfinite(d)) return d;
        }
    }
    case 4: { // corner values
        static const double v[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e-5, 123456.789, 1234567.0, 1e15, 1e16, 1e17, 0.3333333333333333,
            std::numeric_limits<double>::min(), std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
            std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), 2.2250738585072011e-308,
            std::numeric_limits<double>::epsilon(), 9007199254740993.0, 1e22, 1e23, 5e-324, 8.41e21, 1.7976931348623157e308,
            4503599627370496.5, 1e-7, 9.5367431640625e-07, 4294967296.0, 2147483648.0, 65536.0, 1e100};
        return v[r.below(sizeof v / sizeof v[0])];
    }
    case 5: { // with non-finite ones
        static const double v[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
            std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN(), 1.5, 0.0};
        return v[r.below(6)];
    }
    case 6: return frombits(r.next() & 0x800fffffffffffffull); // denormal
    default: { // mixture
        int m = static_cast<int>(r.below(6));
        return number(r, m == 5 ? 6 : m);
    }
    }
}

namespace {
int num_mode(Tape& t, const Opt& o)
{
    static const int m[] = {0, 1, 2, 3, 4, 7, 7, 5, 6};
    int k = m[t.draw(9)];
    if (k == 5 && o.finite_only) k = 7;
    if (k == 5) count(sim::C_p_nonfinite);
    return k;
}
int small_int(Tape& t)
{
    static const int v[] = {1, 2, 3, 7, 0, 100, -1, 65535, 65536, 2147483647, -2147483647 - 1, 1000000};
    return v[t.draw(12)];
}
size_t heavy(Tape& t, int size)
{
    // number of nodes / elements / entries in one block
    switch (size) {
    case 0: return 1 + t.draw(2);
    case 1: return 1 + t.draw(8);
    case 2: return 1 + t.draw(60);
    case 3: {
        static const size_t v[] = {100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193};
        return t.draw(3) ? v[t.draw(27)] : 100 + t.draw(9000);
    }
    case 5: { // beyond a million
        static const size_t v[] = {262144, 524289, 999999, 1000001, 1048575, 1048576, 1048577, 1100000, 2097153};
        return v[t.draw(9)];
    }
    default: {
        static const size_t v[] = {10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70000, 100001, 131072, 131073};
        return t.draw(3) ? v[t.draw(16)] : 10000 + t.draw(130000);
    }
    }
}
int draw_size(Tape& t, const Opt& o)
{
    if (o.size >= 0) return o.size;
    uint64_t r = t.draw(1000);
    int s = r < 150 ? 0 : r < 650 ? 1 : r < 920 ? 2 : r < 994 ? 3 : 4;
    if (s == 4 && o.max_size >= 5 && t.draw(8) == 0) s = 5;
    return s > o.max_size ? std::min(o.max_size, 1) : s;
}

// Numbers whose first byte in a file is a blank or an end of line.
size_t blank(Tape& t)
{
    static const size_t v[] = {10, 13, 32, 9};
    return v[t.draw(4)];
}

// n distinct positive tags
std::vector<size_t> make_tags(Tape& t, size_t n, bool narrow, bool wide_ok, bool* wide)
{
    std::vector<size_t> v(n);
    static const int modes[] = {0, 0, 1, 2, 3, 4, 5, 6, 7};
    int mode = modes[t.draw(wide_ok ? 9 : 5)];
    size_t base = 1, stride = 1;
    switch (mode) {
    case 0: break;
    case 1: base = t.chance(1, 3) ? blank(t) + (t.draw(2) ? 256 * t.draw(40) : 0) : 1 + t.draw(1000); break;
    case 2: // sparse
        base = 1 + t.draw(100000);
        stride = 1 + t.draw(n > 1000 ? 1000 : 100000);
        count(sim::C_p_sparse_tags);
        break;
    case 3: // close to 2^31 from below
        base = 2147483647ull - n - t.draw(3);
        break;
    case 4: base = 1000000007ull; break;
    case 5: base = 2147483648ull - t.draw(n + 1); break; // crossing 2^31
    case 6: base = 4294967296ull - t.draw(n + 1); break; // crossing 2^32
    default: // anywhere up to 2^64-1
        base = ~0ull - n * 3 - t.draw(1000);
        stride = 1 + t.draw(3);
        break;
    }
    if (mode == 2 && stride * n + base > 2147483647ull) stride = 1;
    if (mode >= 5) {
        *wide = true;
        count(sim::C_p_wide_tags);
    }
    (void)narrow;
    for (size_t i = 0; i < n; i++) v[i] = base + i * stride;
    int order = static_cast<int>(t.draw(4)); // 0,1 ascending 2 shuffled 3 descending
    if (order == 2) {
        Rng r(t.seed());
        for (size_t i = n; i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    } else if (order == 3)
        std::reverse(v.begin(), v.end());
    // one far outlier
    if (n > 1 && t.chance(1, 8)) {
        v[t.draw(n)] = mode >= 5 ? (mode == 7 ? 1 : ~0ull - 1) : mode == 3 ? 1 : 2147483600ull + t.draw(40);
        count(sim::C_p_sparse_tags);
        // keep them distinct
        std::vector<size_t> w = v;
        std::sort(w.begin(), w.end());
        if (std::adjacent_find(w.begin(), w.end()) != w.end())
            for (size_t i = 0; i < n; i++) v[i] = 1 + i;
    }
    return v;
}

// Now and then one dimension of a spec is far larger than the others.
enum Long { L_none, L_node_blocks, L_element_blocks, L_group_list, L_boundary, L_entities, L_groups, L_tags, L_fields, L_views, L_nano, L_names, L_num };
size_t many(Tape& t)
{
    static const size_t v[] = {16, 17, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025, 3000};
    return t.draw(3) ? v[t.draw(16)] : 10 + t.draw(1500);
}

std::vector<int> int_list(Tape& t, uint64_t max, bool longer)
{
    std::vector<int> v(longer && t.draw(2) ? many(t) : t.draw(max + 1));
    if (v.size() > 10) {
        Rng r(t.seed());
        for (auto& x : v) x = static_cast<int>(r.next() >> (r.below(2) ? 33 : 56)) * (r.below(4) ? 1 : -1);
        return v;
    }
    for (auto& x : v) x = t.chance(1, 5) ? small_int(t) : static_cast<int>(1 + t.draw(20));
    return v;
}

Data view(Tape& t, const Opt& o, int size, bool per_element, const std::vector<size_t>& tags, bool wide_ok, int longer)
{
    Data d;
    count(sim::C_p_data);
    const int which = longer == L_tags ? static_cast<int>(t.draw(3)) : -1;
    size_t ns = which == 0 ? std::min<size_t>(many(t), 300) : t.draw(4) ? 1 : t.draw(3);
    for (size_t i = 0; i < ns; i++) d.header.string_tags.push_back(i > 4 ? "tag " + std::to_string(i) : text(t, o.plain_strings));
    size_t nr = which == 1 ? many(t) : t.draw(4) ? 1 : t.draw(4);
    Rng hr(t.seed());
    int hm = num_mode(t, o);
    for (size_t i = 0; i < nr; i++) d.header.real_tags.push_back(number(hr, hm));
    static const int fields[] = {1, 3, 9, 2, 6, 27, 100, 0};
    int f = fields[t.draw(o.zero_fields ? 8 : 7)];
    const bool wide_entry = longer == L_fields && t.draw(2);
    const bool many_nodes = per_element && longer == L_fields && !wide_entry;
    if (size == 5) f = std::min(f, 3);
    if (wide_entry) f = static_cast<int>(many(t));
    if (many_nodes) f = std::min(f, 9);
    size_t n = t.chance(1, 12) ? 0 : heavy(t, wide_entry ? 0 : f > 9 ? std::min(size, 1) : size);
    d.header.int_tags.push_back(static_cast<int>(t.draw(3) ? t.draw(100) : static_cast<uint64_t>(small_int(t) & 0x7fffffff)));
    d.header.int_tags.push_back(f);
    d.header.int_tags.push_back(static_cast<int>(n));
    if (t.chance(1, 3)) d.header.int_tags.push_back(static_cast<int>(t.draw(5)));
    if (t.chance(1, 8)) d.header.int_tags.push_back(small_int(t));
    if (which == 2) d.header.int_tags.resize(d.header.int_tags.size() + many(t), small_int(t));
    if (t.chance(1, 16)) d.header.int_tags[0] = -1 - d.header.int_tags[0];
    int m = num_mode(t, o);
    Rng r(t.seed());
    bool own_tags = tags.empty() || t.chance(1, 4);
    bool big_tags = own_tags && wide_ok && t.chance(1, 3);
    int nn = per_element ? static_cast<int>(t.draw(6)) : 0;
    bool vary = per_element && t.draw(2) == 1;
    for (size_t i = 0; i < n; i++) {
        DataEntry e;
        e.tag = own_tags ? 1 + i : tags[i % tags.size()];
        if (big_tags) e.tag += 0xfffffff0ull;
        if (per_element) {
            static const int k[] = {3, 4, 1, 8, 20, 0};
            e.num_nodes_per_element = many_nodes && i < 2 ? static_cast<int>(many(t)) : vary ? static_cast<int>(r.below(9)) : wide_entry ? std::min(k[nn], 4) : k[nn];
        }
        e.data.resize(static_cast<size_t>(f) * (per_element ? static_cast<size_t>(e.num_nodes_per_element) : 1));
        for (auto& x : e.data) x = number(r, m);
        d.entries.push_back(std::move(e));
    }
    return d;
}
} // namespace

std::string text(Tape& t, bool plain)
{
    static const char* const nice[] = {"a view", "", "temperature", "Steel part 1", "x", "\xc3\xa9l\xc3\xa9ment", "$EndNodes", "1.5 2", " leading", "trailing "};
    static const char* const hard[] = {"say \"hi\"", "back\\slash", "two\nlines", "tab\there", "\"", "\\", "\\\\\"", "$Elements\n3\n", "$EndNodeData", "crlf\r\n", "ends\\"};
    int k = static_cast<int>(t.draw(6));
    if (k < 3 || plain) return nice[t.draw(10)];
    count(sim::C_p_quoted_hard);
    if (k == 3) return hard[t.draw(11)];
    Rng r(t.seed());
    if (k == 4) { // any bytes
        std::string s(t.draw(40), 'x');
        for (auto& c : s) c = static_cast<char>(r.below(256));
        return s;
    }
    std::string s(t.draw(3000), 'x'); // long
    for (auto& c : s) c = static_cast<char>(32 + r.below(95));
    return s;
}

MshSpec spec(Tape& t, const Opt& o)
{
    MshSpec s;
    int version = o.version >= 0 ? o.version : static_cast<int>(t.draw(2));
    int binary = o.binary >= 0 ? o.binary : static_cast<int>(t.draw(2));
    s.mesh_format.version = version ? "2.2" : "4.1";
    s.mesh_format.file_type = binary;
    s.mesh_format.data_size = 8;
    count(version ? (binary ? sim::C_p_bin22 : sim::C_p_ascii22) : (binary ? sim::C_p_bin41 : sim::C_p_ascii41));
    const int drawn = draw_size(t, o);
    const int vast = drawn == 5 ? 1 + static_cast<int>(t.draw(3)) : 0; // one dimension only
    const int size = vast ? 1 : drawn;
    if (vast) count(sim::C_p_vast_array);
    if (size >= 3) count(sim::C_p_big_array);
    const bool narrow = binary && !o.allow_unrepresentable;
    const bool mesh_wide_ok = !(version && narrow);
    const bool data_wide_ok = !narrow;
    bool wide = false;

    // Swarm: which parts take part.
    const bool with_nodes = !t.chance(1, 12);
    const bool with_elements = with_nodes && !t.chance(1, 5);
    const bool with_entities = t.chance(1, 3) && (!version || o.entities_in_22);
    const bool with_groups = t.chance(1, 3);
    const bool with_nd = t.chance(1, 3), with_ed = t.chance(1, 3), with_end = t.chance(1, 3);
    const bool with_nano = o.nano && t.chance(1, 3);
    const bool with_empty = t.chance(1, 10);
    const int longer = o.size != 0 && size <= 2 && t.chance(1, 20) ? static_cast<int>(t.draw(L_num)) : L_none;
    if (longer) count(sim::C_p_long_dimension);

    std::vector<size_t> ntags, etags;
    if (with_nodes) {
        size_t nb = longer == L_node_blocks ? many(t) : size <= 2 && t.chance(1, 30) ? blank(t) : 1 + (t.draw(2) ? t.draw(size <= 2 ? 5 : 2) : 0);
        std::vector<size_t> cnt(nb);
        size_t total = 0;
        for (auto& c : cnt) {
            c = with_empty && t.chance(1, 3) ? 0 : heavy(t, total > 5000 || nb > 8 ? (nb > 100 ? 0 : 1) : vast == 1 ? 5 : size);
            if (c == 0) count(sim::C_p_empty_block);
            total += c;
        }
        if (total == 0) cnt[0] = total = 1;
        ntags = make_tags(t, total, narrow, mesh_wide_ok, &wide);
        Rng r(t.seed());
        int m = num_mode(t, o);
        size_t k = 0;
        for (size_t b = 0; b < nb; b++) {
            NodeBlock blk;
            blk.entity_dim = static_cast<int>(t.draw(4));
            blk.entity_tag = t.chance(1, 8) ? small_int(t) : static_cast<int>(1 + b);
            blk.parametric = t.chance(1, 6) ? 1 : 0;
            if (blk.parametric) count(sim::C_p_parametric);
            blk.num_nodes_in_block = cnt[b];
            size_t per = 3 + (blk.parametric ? static_cast<size_t>(blk.entity_dim) : 0);
            blk.tags.assign(ntags.begin() + static_cast<long>(k), ntags.begin() + static_cast<long>(k + cnt[b]));
            k += cnt[b];
            blk.data.resize(cnt[b] * per);
            for (auto& x : blk.data) x = number(r, m);
            s.nodes.entity_blocks.push_back(std::move(blk));
        }
        s.nodes.num_nodes = total;
        s.nodes.num_entity_blocks = nb;
        s.nodes.min_node_tag = *std::min_element(ntags.begin(), ntags.end());
        s.nodes.max_node_tag = *std::max_element(ntags.begin(), ntags.end());
    }
    if (with_elements) {
        size_t nb = longer == L_element_blocks ? many(t) : size <= 2 && t.chance(1, 30) ? blank(t) : 1 + (t.draw(2) ? t.draw(size <= 2 ? 6 : 2) : 0);
        const bool odd_dims = o.odd_dims && !version && t.chance(1, 8); // entities of another dimension than their elements
        static const int common[] = {2, 3, 4, 15, 1, 5, 8, 9};
        size_t total = 0;
        for (size_t b = 0; b < nb; b++) {
            ElementBlock blk;
            blk.element_type = t.draw(2) ? static_cast<int>(1 + t.draw(31)) : common[t.draw(8)];
            blk.entity_dim = model::dim_of(blk.element_type);
            if (odd_dims) blk.entity_dim = static_cast<int>(t.draw(4));
            blk.entity_tag = t.chance(1, 8) ? small_int(t) : static_cast<int>(1 + t.draw(4));
            int sz = nb > 8 ? 0 : model::nodes_of(blk.element_type) > 8 ? std::min(size, 2) : total > 5000 ? 1 : size;
            if (vast == 2 && total < 5000 && nb <= 8) {
                sz = 5;
                blk.element_type = common[t.draw(5)];
                blk.entity_dim = model::dim_of(blk.element_type);
            }
            blk.num_elements_in_block = with_empty && t.chance(1, 3) ? 0 : heavy(t, sz);
            if (blk.num_elements_in_block == 0) count(sim::C_p_empty_block);
            total += blk.num_elements_in_block;
            s.elements.entity_blocks.push_back(std::move(blk));
        }
        if (total == 0) {
            s.elements.entity_blocks[0].num_elements_in_block = 1;
            total = 1;
        }
        etags = make_tags(t, total, narrow, mesh_wide_ok, &wide);
        Rng r(t.seed());
        int refs = static_cast<int>(t.draw(3)); // in order, random, one node only
        size_t k = 0, seq = 0;
        for (auto& blk : s.elements.entity_blocks) {
            size_t n = static_cast<size_t>(model::nodes_of(blk.element_type));
            blk.data.reserve(blk.num_elements_in_block * (n + 1));
            for (size_t i = 0; i < blk.num_elements_in_block; i++) {
                blk.data.push_back(etags[k++]);
                for (size_t j = 0; j < n; j++)
                    blk.data.push_back(refs == 0 ? ntags[seq++ % ntags.size()] : refs == 1 ? ntags[r.below(ntags.size())] : ntags[0]);
            }
        }
        s.elements.num_elements = total;
        s.elements.num_entity_blocks = nb;
        s.elements.min_element_tag = *std::min_element(etags.begin(), etags.end());
        s.elements.max_element_tag = *std::max_element(etags.begin(), etags.end());
    }
    if (!version && o.loose_bounds && with_nodes && t.chance(1, 6)) {
        s.nodes.min_node_tag = 1;
        if (s.nodes.max_node_tag < ~0ull - 100) s.nodes.max_node_tag += t.draw(100);
        if (with_elements) {
            s.elements.min_element_tag = 1;
            if (s.elements.max_element_tag < ~0ull - 100) s.elements.max_element_tag += t.draw(100);
        }
    }
    if (with_entities) {
        count(sim::C_p_entities);
        Rng r(t.seed());
        int m = num_mode(t, o);
        uint64_t mx = size >= 3 ? 60 : 4;
        auto box = [&](auto& e) {
            e.tag = t.chance(1, 8) ? small_int(t) : static_cast<int>(1 + t.draw(50));
            e.min_x = number(r, m), e.min_y = number(r, m), e.min_z = number(r, m);
            e.max_x = number(r, m), e.max_y = number(r, m), e.max_z = number(r, m);
            e.physical_group_tags = int_list(t, 3, longer == L_group_list);
        };
        const int which = longer == L_entities ? static_cast<int>(t.draw(4)) : -1;
        s.entities.points.resize(which == 0 ? many(t) : t.chance(1, 15) ? blank(t) : t.draw(mx));
        s.entities.curves.resize(which == 1 ? many(t) : t.draw(mx));
        s.entities.surfaces.resize(which == 2 ? many(t) : t.draw(mx));
        s.entities.volumes.resize(which == 3 ? many(t) : t.draw(mx));
        for (auto& p : s.entities.points) {
            p.tag = t.chance(1, 8) ? small_int(t) : static_cast<int>(1 + t.draw(50));
            p.x = number(r, m), p.y = number(r, m), p.z = number(r, m);
            p.physical_group_tags = int_list(t, 3, longer == L_group_list);
        }
        for (auto& c : s.entities.curves) box(c), c.boundary_point_tags = int_list(t, 4, longer == L_boundary);
        for (auto& c : s.entities.surfaces) box(c), c.boundary_curve_tags = int_list(t, 5, longer == L_boundary);
        for (auto& c : s.entities.volumes) box(c), c.boundary_surface_tags = int_list(t, 6, longer == L_boundary);
    }
    if (with_groups) {
        count(sim::C_p_phys);
        s.physical_groups.resize(longer == L_groups ? many(t) : 1 + t.draw(size >= 3 ? 200 : 4));
        for (auto& g : s.physical_groups) {
            g.dim = static_cast<int>(t.draw(4));
            g.tag = t.chance(1, 8) ? small_int(t) : static_cast<int>(1 + t.draw(50));
            g.name = s.physical_groups.size() > 200 ? "group " + std::to_string(g.tag) : longer == L_names ? std::string(many(t) * (1 + t.draw(40)), 'n') : text(t, o.plain_strings);
        }
    }
    auto views = [&]() {
        size_t n = 1 + (t.chance(1, 3) ? t.draw(3) : 0);
        if (size >= 2 && t.chance(1, 20)) {
            n = 20;
            count(sim::C_p_many_views);
        }
        if (longer == L_views) n = std::min<size_t>(many(t), 300);
        return n;
    };
    const bool narrow_tags = narrow && wide; // tags of the mesh do not fit the data sections
    const std::vector<size_t> none;
    if (with_nd)
        for (size_t i = 0, n = views(); i < n; i++)
            s.node_data.push_back(view(t, o, n > 4 ? 1 : vast == 3 && i == 0 ? 5 : size, false, narrow_tags ? none : ntags, data_wide_ok, n > 4 ? L_none : longer));
    if (with_ed)
        for (size_t i = 0, n = views(); i < n; i++)
            s.element_data.push_back(view(t, o, n > 4 ? 1 : vast == 3 && i == 0 && !with_nd ? 5 : size, false, narrow_tags ? none : etags, data_wide_ok, n > 4 ? L_none : longer));
    if (with_end)
        for (size_t i = 0, n = views(); i < n; i++)
            s.element_node_data.push_back(view(t, o, std::min(size, n > 4 ? 1 : 3), true, narrow_tags ? none : etags, data_wide_ok, n > 4 ? L_none : longer));
    if (with_nano) {
        count(sim::C_p_nano);
        static const char* const vers[] = {"1.0", "1.1", "2", "beta"};
        s.nanospline_format.version = vers[t.draw(4)];
        Rng r(t.seed());
        int m = num_mode(t, o);
        auto big = [&](uint64_t small) -> size_t {
            if (t.chance(1, 10)) return ~0ull - t.draw(3);
            return t.draw(small);
        };
        auto cps = [&]() -> size_t { return size >= 3 && t.chance(1, 3) ? 100 + t.draw(2000) : t.draw(9); };
        const int which = longer == L_nano ? static_cast<int>(t.draw(3)) : -1; // curves, patches, knots
        size_t nc = which == 0 ? many(t) : t.draw(4), np = which == 1 ? many(t) : t.draw(4);
        for (size_t i = 0; i < nc; i++) {
            Curve c;
            c.curve_tag = big(100), c.curve_type = big(5), c.curve_degree = big(6);
            c.num_control_points = cps(), c.num_knots = which == 2 ? many(t) : t.draw(12);
            c.with_weights = t.draw(3);
            c.data.resize(c.num_control_points * (c.with_weights > 0 ? 4 : 3) + c.num_knots);
            for (auto& x : c.data) x = number(r, m);
            s.curves.push_back(std::move(c));
        }
        for (size_t i = 0; i < np; i++) {
            Patch c;
            c.patch_tag = big(100), c.patch_type = big(5), c.degree_u = big(6), c.degree_v = big(6);
            c.num_control_points = cps(), c.num_u_knots = which == 2 && t.draw(2) ? many(t) : t.draw(9), c.num_v_knots = which == 2 && t.draw(2) ? many(t) : t.draw(9);
            c.with_weights = t.draw(3);
            c.data.resize(c.num_control_points * (c.with_weights > 0 ? 4 : 3) + c.num_u_knots + c.num_v_knots);
            for (auto& x : c.data) x = number(r, m);
            s.patches.push_back(std::move(c));
        }
    }
    std::string bad = model::valid(s);
    if (!bad.empty()) {
        fprintf(stderr, "SIM: generator made an invalid spec: %s\n", bad.c_str());
        _exit(3);
    }
    return s;
}

size_t padding(Tape& t, size_t off)
{
    static const size_t sizes[] = {4096, 65536, 8192, 512, 65536, 1024, 16384, 65536, 32768, 8191};
    const size_t m = sizes[t.draw(10)], k = t.draw(5);
    return (m + (k == 4 ? 1 : k == 3 ? m - 1 : 0) - off % m) % m; // mostly on it, else one after or before
}

model::Doc document(Tape& t, const DocOpt& o)
{
    model::Doc d;
    d.spec = spec(t, o.content);
    codec::Style st;
    if (o.foreign) {
        count(sim::C_p_foreign_doc);
        codec::draw_style(t, d.binary(), st);
    }
    d = model::doc_of_spec(d.spec);
    if (d.v22()) d.spec.entities = Entities();
    if (o.foreign && !model::kNano && (!d.spec.curves.empty() || !d.spec.patches.empty())) {
        // a document written with the extension, for a library without it
        auto add = [&](model::Kind k) {
            model::Section s;
            s.kind = k;
            d.sections.push_back(s);
        };
        add(model::K_NanoFormat);
        if (!d.spec.curves.empty()) add(model::K_Curves);
        if (!d.spec.patches.empty()) add(model::K_Patches);
    }
    if (!o.foreign && !model::kNano) {
        d.spec.curves.clear();
        d.spec.patches.clear();
    }
    const bool align = o.foreign && t.chance(1, 25);
    size_t padded = 0;
    if (o.foreign) {
        if (d.v22()) {
            // element tags: [physical, elementary, partitions...]
            int mode = static_cast<int>(t.draw(4)); // 0 two tags, 1 one tag, 2 mixed by block, 3 more
            Rng r(t.seed());
            size_t i = 0;
            static const int kn[] = {2, 0, 1, 3, 4, 2};
            for (const auto& b : d.spec.elements.entity_blocks) {
                int n = mode == 0 ? 2 : mode == 1 ? 1 : mode == 2 ? kn[r.below(6)] : static_cast<int>(3 + r.below(3));
                if (n >= 2 && b.num_elements_in_block) count(sim::C_p_two_tag);
                for (size_t j = 0; j < b.num_elements_in_block; j++, i++) {
                    int m = n;
                    if (mode == 3 && r.below(4) == 0) m = static_cast<int>(r.below(6)); // changes inside a block
                    std::vector<int> tags(static_cast<size_t>(m));
                    for (int k = 0; k < m; k++)
                        tags[static_cast<size_t>(k)] = k == 0 && m > 1 ? static_cast<int>(r.below(5)) : k > 1 ? static_cast<int>(r.below(9)) : b.entity_tag;
                    if (m > 1 && r.below(20) == 0) tags[0] = static_cast<int>(r.next()); // of any size, negative for the orientation
                    if (m > 1 && r.below(8) == 0) tags[1] = static_cast<int>(1 + r.below(6));
                    d.el_tags[i] = tags;
                }
            }
        }
        // an explicitly empty section now and then
        if (t.chance(1, 15) && d.spec.nodes.num_nodes == 0) {
            model::Section s;
            s.kind = model::K_Nodes;
            d.sections.push_back(s);
            if (d.v22() == false || true) {
                if (t.draw(2)) {
                    s.kind = model::K_Elements;
                    d.sections.push_back(s);
                }
            }
        }
        // unknown sections
        size_t nu = t.chance(1, 2) ? 1 + t.draw(3) : 0;
        for (size_t i = 0; i < nu; i++) {
            count(sim::C_p_unknown_section);
            static const char* const names[] = {"Comments", "Periodic", "Parametrizations", "PartitionedEntities", "InterpolationScheme", "X", "NodesExtra", "Element", "GhostElements",
                "nodes", "ELEMENTS", "NodeDat", "ElementData2", "ElementNodeDat", "PhysicalName", "NOE", "MeshFormat2", "a-b_c.d", "Entity", "Curve", "Patch", "EndOfFile", "\xc3\xa9", "42", "$"};
            d.unknown_names.push_back(t.draw(40) == 39 ? std::string(300, 'L') : names[t.draw(25)]);
            d.unknown_payloads.push_back(codec::draw_payload(t, d.unknown_names.back(), true, o.lookalikes, d.binary()));
            model::Section s;
            s.kind = model::K_Unknown;
            s.index = i;
            size_t pos = 1 + t.draw(d.sections.size());
            if (pos > d.sections.size()) pos = d.sections.size();
            d.sections.insert(d.sections.begin() + static_cast<long>(pos), s);
        }
        // order of the sections after the header
        int order = static_cast<int>(t.draw(3));
        if (order == 1 && d.sections.size() > 2) {
            Rng r(t.seed());
            for (size_t i = d.sections.size() - 1; i > 1; i--) std::swap(d.sections[i], d.sections[1 + r.below(i)]);
        } else if (order == 2 && d.sections.size() > 2)
            std::reverse(d.sections.begin() + 1, d.sections.end());
        if (align) {
            d.unknown_names.push_back("Comments");
            d.unknown_payloads.push_back("");
            padded = d.unknown_names.size() - 1;
            model::Section s;
            s.kind = model::K_Unknown;
            s.index = padded;
            d.sections.insert(d.sections.begin() + 1, s);
        }
        // comments may precede the header
        if (t.chance(1, 12)) {
            d.unknown_names.push_back("Comments");
            d.unknown_payloads.push_back(codec::draw_payload(t, "Comments", false));
            model::Section s;
            s.kind = model::K_Unknown;
            s.index = d.unknown_names.size() - 1;
            d.sections.insert(d.sections.begin(), s);
        }
    } else
        count(sim::C_p_library_doc);
    d = [&] { // content in document order
        model::Doc p = model::prefix(d, d.sections.size());
        p.unknown_names = d.unknown_names;
        p.unknown_payloads = d.unknown_payloads;
        size_t nd = 0, ed = 0, en = 0;
        for (auto& s : p.sections) {
            if (s.kind == model::K_NodeData) s.index = nd++;
            if (s.kind == model::K_ElementData) s.index = ed++;
            if (s.kind == model::K_ElementNodeData) s.index = en++;
        }
        return p;
    }();
    codec::encode(d, st);
    if (align) {
        // Something begins or ends where a buffer may.
        std::vector<size_t> at;
        for (const auto& s : d.sections)
            if (s.kind != model::K_Unknown || s.index != padded) at.push_back(s.begin), at.push_back(s.end);
        for (size_t i = 0; i < d.fields.size() && i < 4; i++) {
            const auto& f = d.fields[t.draw(d.fields.size())];
            at.push_back(f.off + (t.draw(2) ? f.len : 0));
        }
        const size_t n = padding(t, at[t.draw(at.size())]);
        d.unknown_payloads[padded] = n ? std::string(n - 1, 'x') + '\n' : std::string();
        codec::encode(d, st);
        count(sim::C_p_aligned);
    }
    return d;
}

std::string perturb(Tape& t, MshSpec& s)
{
    const size_t first = t.draw(13);
    const uint64_t where = t.seed();
    Rng r(where);
    auto other = [&](double v) {
        switch (r.below(4)) {
        case 0: return -v - 1;
        case 1: return v == 0.5 ? 0.25 : 0.5;
        case 2: return v + 1 == v ? 1.0 : v + 1;
        default: return v == 3.75e-11 ? 7e300 : 3.75e-11;
        }
    };
    auto ref = [&](double& v) {
        double w = other(v);
        if (!(w == w) || w == v) w = v == 2 ? 3 : 2;
        v = w;
    };
    auto views = [&]() -> std::vector<Data*> {
        std::vector<Data*> v;
        for (auto& d : s.node_data) v.push_back(&d);
        for (auto& d : s.element_data) v.push_back(&d);
        for (auto& d : s.element_node_data) v.push_back(&d);
        return v;
    };
    auto any = [&](auto& list, const std::function<bool(decltype(list[0]))>& f) {
        const size_t n = list.size(), at = n ? r.below(n) : 0;
        for (size_t k = 0; k < n; k++)
            if (f(list[(at + k) % n])) return true;
        return false;
    };
    for (size_t k = 0; k < 13; k++) {
        std::vector<Data*> v = views();
        switch ((first + k) % 13) {
        case 0:
            if (any(s.nodes.entity_blocks, [&](NodeBlock& b) { return b.data.empty() ? false : (ref(b.data[r.below(b.data.size())]), true); })) return "coordinate";
            break;
        case 1:
            if (any(v, [&](Data* d) { return any(d->entries, [&](DataEntry& e) { return e.data.empty() ? false : (ref(e.data[r.below(e.data.size())]), true); }); })) return "data value";
            break;
        case 2:
            if (any(v, [&](Data* d) { return d->header.real_tags.empty() ? false : (ref(d->header.real_tags[0]), true); })) return "real tag";
            break;
        case 3:
            if (any(v, [&](Data* d) {
                    return any(d->header.string_tags, [&](std::string& x) { return x.empty() ? false : (x.back() = x.back() == 'q' ? 'z' : 'q', true); });
                }))
                return "string tag";
            break;
        case 4:
            if (any(v, [&](Data* d) { return d->header.int_tags.empty() ? false : (d->header.int_tags[0] ^= 1 << r.below(30), true); })) return "time step";
            break;
        case 5:
            if (any(s.physical_groups, [&](PhysicalGroup& g) {
                    if (r.below(2) && !g.name.empty())
                        g.name[0] = g.name[0] == 'q' ? 'z' : 'q';
                    else
                        g.tag ^= 1;
                    return true;
                }))
                return "physical group";
            break;
        case 6:
            if (any(s.entities.points, [&](PointEntity& p) { return ref(p.y), true; })) return "point";
            if (any(s.entities.curves, [&](CurveEntity& p) { return ref(p.max_z), true; })) return "curve";
            if (any(s.entities.volumes, [&](VolumeEntity& p) { return ref(p.min_x), true; })) return "volume";
            break;
        case 7:
            if (any(s.entities.surfaces, [&](SurfaceEntity& p) { return p.physical_group_tags.empty() ? false : (p.physical_group_tags.back() ^= 2, true); })) return "physical tag";
            if (any(s.entities.curves, [&](CurveEntity& p) { return p.boundary_point_tags.empty() ? false : (p.boundary_point_tags.back() ^= 2, true); })) return "boundary tag";
            break;
        case 8: {
            // two different nodes of one element exchanged
            auto swap_nodes = [&](ElementBlock& b) {
                const size_t n = b.num_elements_in_block ? b.data.size() / b.num_elements_in_block : 0;
                if (n < 3) return false;
                const size_t e = r.below(b.num_elements_in_block) * n;
                for (size_t i = 2; i < n; i++)
                    if (b.data[e + i] != b.data[e + 1]) {
                        std::swap(b.data[e + i], b.data[e + 1]);
                        return true;
                    }
                return false;
            };
            if (any(s.elements.entity_blocks, swap_nodes)) return "element nodes";
            break;
        }
        case 9:
            if (any(s.nodes.entity_blocks, [&](NodeBlock& b) {
                    if (b.tags.size() < 2) return false;
                    const size_t i = r.below(b.tags.size() - 1);
                    std::swap(b.tags[i], b.tags[i + 1]);
                    return true;
                }))
                return "node order";
            break;
        case 10:
            if (any(v, [&](Data* d) { return any(d->entries, [&](DataEntry& e) { return e.tag ^= 1, true; }); })) return "entry tag";
            break;
        case 11:
            if (any(s.curves, [&](Curve& x) { return x.data.empty() ? false : (ref(x.data[r.below(x.data.size())]), true); })) return "spline curve";
            if (any(s.patches, [&](Patch& x) { return x.data.empty() ? false : (ref(x.data[r.below(x.data.size())]), true); })) return "spline patch";
            break;
        default:
            if (any(v, [&](Data* d) {
                    if (d->entries.empty() || d->header.int_tags.size() < 3) return false;
                    d->entries.pop_back();
                    d->header.int_tags[2]--;
                    return true;
                }))
                return "fewer entries";
        }
    }
    return "";
}

model::Doc sibling(Tape& t, const model::Doc& d)
{
    model::Doc s = d;
    perturb(t, s.spec);
    const codec::Style st = d.style ? *static_cast<const codec::Style*>(d.style.get()) : codec::Style();
    codec::encode(s, st);
    return s;
}

} // namespace gen
