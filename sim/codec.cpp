#include "codec.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>

namespace codec {
using namespace mshio;
using model::Doc;
using model::Field;
using model::Kind;
using model::Section;
using sim::Rng;
using sim::Tape;

std::vector<Field>* g_numbers;

void draw_style(Tape& t, bool binary, Style& s)
{
    s.sep = static_cast<int>(t.draw(5));
    s.blank_lines = t.draw(2) == 1;
    if (t.chance(1, 10)) s.stray = 1 + static_cast<int>(t.draw(2));
    s.dbl = static_cast<int>(t.draw(6));
    s.int_plus = t.chance(1, 8);
    s.int_zeros = t.chance(1, 8);
    s.newline_before_end = t.draw(3) != 2;
    s.final_newline = t.draw(5) != 4;
    s.group = static_cast<int>(t.draw(3));
    s.nonfinite = static_cast<int>(t.draw(4));
    if (!binary) {
        s.crlf = t.chance(1, 4);
        s.trailing_space = t.chance(1, 4);
    } else {
        if (s.sep >= 3) s.sep = 0;
        if (t.chance(1, 4)) s.header_pad = 1 + static_cast<int>(t.draw(3));
    }
    if (s.group == 2 || s.sep == 4) s.seed = t.seed();
}

std::string draw_payload(Tape& t, const std::string& name, bool allow_binary, bool lookalikes, bool mid_line)
{
    std::string p;
    int k = static_cast<int>(t.draw(allow_binary ? 6 : 4));
    static const char* const texts[] = {"", "made by another program\n", "$Nodes\n3\n1 0 0 0\n$EndNodes\n", "1 2 3 $Foo $EndFoo $ $$ $End\n",
        "$MeshFormat\n9.9 0 8\n$EndMeshFormat\n", "a \"quoted\" $word\n\n\n"};
    if (k < 3) {
        p = texts[t.draw(6)];
    } else if (k == 3) {
        Rng r(t.seed());
        size_t n = t.draw(2000);
        for (size_t i = 0; i < n; i++) p += r.below(12) == 0 ? '\n' : static_cast<char>(32 + r.below(95));
    } else if (k == 4) {
        Rng r(t.seed());
        size_t n = t.draw(t.draw(8) == 7 ? 40000 : 600);
        for (size_t i = 0; i < n; i++) p += static_cast<char>(r.below(256));
    } else {
        // near misses of the end tag
        p = "$EndX\n $End" + name.substr(0, name.size() - 1) + " $$End" + name.substr(0, name.size() / 2) + "\n" +
            "$EndElements $EndNodes\n$E$En$End$EndEnd\n";
        if (lookalikes) p += "$End" + name + "1\n$End" + name + "Extra $End" + name + "$End\n$End" + name + "\"\n";
    }
    // The only thing a payload may not hold is its own end tag.
    const std::string end = "$End" + name;
    for (size_t i = 0; (i = p.find(end, i)) != std::string::npos; i++) {
        const size_t after = i + end.size();
        if (!lookalikes || after >= p.size() || strchr(" \t\n\r\v\f", p[after])) p[i] = '#';
    }
    if (mid_line && name.find('$') == std::string::npos && t.chance(1, 6)) { // the end tag follows directly, after something it could be mistaken for
        const std::string tail = t.draw(3) ? std::string(1 + t.draw(3), '$') : std::string();
        p += tail + end.substr(0, t.draw(end.size()));
        return p;
    }
    if (!p.empty() && p.back() != '\n') p += '\n';
    return p;
}

namespace {
struct Writer
{
    Doc& d;
    const Style& st;
    Rng rng;
    std::string out;
    bool line_start = true;
    bool bin;
    bool read_by_library = true; // the current section
    bool outer = false; // the next number tells how much more there is in the section
    explicit Writer(Doc& doc, const Style& s) : d(doc), st(s), rng(s.seed), bin(doc.binary()) {}

    const char* eol() const { return st.crlf && !bin ? "\r\n" : "\n"; }
    void nl()
    {
        if (st.trailing_space && !bin) out += ' ';
        out += eol();
        line_start = true;
    }
    void sep()
    {
        int s = st.sep;
        if (s == 4) s = static_cast<int>(rng.below(4));
        if (bin && s == 3) s = 0;
        switch (s) {
        case 1: out += '\t'; break;
        case 2: out += "   "; break;
        case 3: out += eol(); break;
        default: out += ' ';
        }
    }
    void tok(const std::string& s, char what = 0, char num = 0)
    {
        if (!line_start) sep();
        if (num && g_numbers && read_by_library) {
            Field f;
            f.off = out.size(), f.len = s.size(), f.text = true, f.what = what;
            f.num = outer ? 'e' : num;
            g_numbers->push_back(f);
            if (outer) f.num = num, g_numbers->push_back(f);
        }
        outer = false;
        if (what) {
            Field f;
            f.off = out.size();
            f.len = s.size();
            f.text = true;
            f.what = what;
            d.fields.push_back(f);
        }
        out += s;
        line_start = false;
    }
    std::string dress(std::string s, bool neg)
    {
        if (neg) return s;
        if (st.int_zeros) s = "0" + s;
        if (st.int_plus) s = "+" + s;
        return s;
    }
    void integer(int v, char what = 0) { tok(dress(std::to_string(v), v < 0), what, 'i'); }
    void u(size_t v, char what = 0) { tok(dress(std::to_string(v), false), what, 'u'); }
    void plain_int(int v, char what = 0) { tok(std::to_string(v), what, 'i'); }
    void real(double v) { tok(spell(v), 0, 'f'); }
    std::string spell(double v)
    {
        char b[64];
        if (std::isnan(v)) {
            static const char* const n[] = {"nan", "NaN", "NAN", "nan"};
            return (st.nonfinite == 3 && std::signbit(v) ? "-" : "") + std::string(n[st.nonfinite]);
        }
        if (std::isinf(v)) {
            static const char* const n[] = {"inf", "Inf", "INF", "inf"};
            return (v < 0 ? "-" : "") + std::string(n[st.nonfinite]);
        }
        switch (st.dbl) {
        case 1: snprintf(b, sizeof b, "%.16e", v); return b;
        case 2: snprintf(b, sizeof b, "%.17G", v); return b;
        case 3: snprintf(b, sizeof b, "%+.17g", v); return b;
        case 4:
            for (int p = 1; p <= 17; p++) {
                snprintf(b, sizeof b, "%.*g", p, v);
                if (strtod(b, nullptr) == v) break;
            }
            return b;
        case 5: {
            snprintf(b, sizeof b, "%.17g", v);
            std::string s = b;
            if (s.compare(0, 2, "0.") == 0) return s.substr(1);
            if (s.find_first_of(".en") == std::string::npos) return s + ".";
            return s;
        }
        default: snprintf(b, sizeof b, "%.17g", v); return b;
        }
    }
    void quoted(const std::string& s)
    {
        std::string q = "\"";
        for (char c : s) {
            if (c == '"' || c == '\\') q += '\\';
            q += c;
        }
        tok(q + "\"");
    }
    template <typename T>
    void raw(T v, char what = 0)
    {
        if (what) {
            Field f;
            f.off = out.size();
            f.len = sizeof(T);
            f.width = static_cast<int>(sizeof(T));
            f.what = what;
            d.fields.push_back(f);
        }
        out.append(reinterpret_cast<const char*>(&v), sizeof(T));
        line_start = false;
    }
    void keyword(const std::string& s)
    {
        Field f;
        f.off = out.size();
        f.len = s.size();
        f.text = true;
        f.what = 'k';
        d.fields.push_back(f);
        out += s;
        line_start = false;
    }

    // ------------------------------------------------------------ sections
    void format()
    {
        const auto& f = d.spec.mesh_format;
        tok(f.version, 'v');
        plain_int(f.file_type, 'f');
        plain_int(f.data_size, 's');
        if (bin) out += st.header_pad == 1 ? " " : st.header_pad == 2 ? "\t" : st.header_pad == 3 ? " \t  " : "";
        nl();
        if (bin) raw<int32_t>(1, 'o');
    }
    void physical()
    {
        outer = true, u(d.spec.physical_groups.size(), 'c'), nl();
        for (const auto& g : d.spec.physical_groups) {
            integer(g.dim, 'd'), integer(g.tag, 't'), quoted(g.name);
            nl();
        }
    }
    template <typename E>
    void box(const E& e, const std::vector<int>& bnd)
    {
        if (bin) {
            raw(e.tag, 't'), raw(e.min_x), raw(e.min_y), raw(e.min_z), raw(e.max_x), raw(e.max_y), raw(e.max_z);
            raw(e.physical_group_tags.size(), 'c');
            for (int t : e.physical_group_tags) raw(t);
            raw(bnd.size(), 'c');
            for (int t : bnd) raw(t);
        } else {
            integer(e.tag, 't'), real(e.min_x), real(e.min_y), real(e.min_z), real(e.max_x), real(e.max_y), real(e.max_z);
            u(e.physical_group_tags.size(), 'c');
            for (int t : e.physical_group_tags) integer(t);
            u(bnd.size(), 'c');
            for (int t : bnd) integer(t);
            nl();
        }
    }
    void entities()
    {
        const auto& e = d.spec.entities;
        size_t n[4] = {e.points.size(), e.curves.size(), e.surfaces.size(), e.volumes.size()};
        for (const size_t& x : n)
            if (bin)
                raw(x, 'c');
            else
                outer = &x == n + 3, u(x, 'c');
        if (!bin) nl();
        for (const auto& p : e.points) {
            if (bin) {
                raw(p.tag, 't'), raw(p.x), raw(p.y), raw(p.z), raw(p.physical_group_tags.size(), 'c');
                for (int t : p.physical_group_tags) raw(t);
            } else {
                integer(p.tag, 't'), real(p.x), real(p.y), real(p.z), u(p.physical_group_tags.size(), 'c');
                for (int t : p.physical_group_tags) integer(t);
                nl();
            }
        }
        for (const auto& c : e.curves) box(c, c.boundary_point_tags);
        for (const auto& c : e.surfaces) box(c, c.boundary_curve_tags);
        for (const auto& c : e.volumes) box(c, c.boundary_surface_tags);
    }
    void nodes41()
    {
        const auto& n = d.spec.nodes;
        if (bin) {
            raw(n.num_entity_blocks, 'c'), raw(n.num_nodes, 'c'), raw(n.min_node_tag, 't'), raw(n.max_node_tag, 't');
            for (const auto& b : n.entity_blocks) {
                raw(b.entity_dim, 'd'), raw(b.entity_tag, 't'), raw(b.parametric, 'p'), raw(b.num_nodes_in_block, 'c');
                for (size_t t : b.tags) raw(t);
                for (double x : b.data) raw(x);
            }
        } else {
            outer = true, u(n.num_entity_blocks, 'c'), u(n.num_nodes, 'c'), u(n.min_node_tag, 't'), u(n.max_node_tag, 't'), nl();
            for (const auto& b : n.entity_blocks) {
                integer(b.entity_dim, 'd'), integer(b.entity_tag, 't'), integer(b.parametric, 'p'), u(b.num_nodes_in_block, 'c'), nl();
                for (size_t t : b.tags) u(t), nl();
                size_t per = b.num_nodes_in_block ? b.data.size() / b.num_nodes_in_block : 0;
                for (size_t i = 0; i < b.data.size(); i++) {
                    real(b.data[i]);
                    if ((i + 1) % per == 0) nl();
                }
            }
        }
    }
    void nodes22()
    {
        const auto& n = d.spec.nodes;
        outer = !bin, u(n.num_nodes, 'c'), nl();
        for (const auto& b : n.entity_blocks) {
            size_t per = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
            for (size_t i = 0; i < b.num_nodes_in_block; i++) {
                if (bin) {
                    raw(static_cast<int32_t>(b.tags[i]), i == 0 ? 't' : 0);
                    for (size_t k = 0; k < 3; k++) raw(b.data[i * per + k]);
                } else {
                    u(b.tags[i], i == 0 ? 't' : 0);
                    for (size_t k = 0; k < 3; k++) real(b.data[i * per + k]);
                    nl();
                }
            }
        }
    }
    void elements41()
    {
        const auto& e = d.spec.elements;
        if (bin) {
            raw(e.num_entity_blocks, 'c'), raw(e.num_elements, 'c'), raw(e.min_element_tag, 't'), raw(e.max_element_tag, 't');
            for (const auto& b : e.entity_blocks) {
                raw(b.entity_dim, 'd'), raw(b.entity_tag, 't'), raw(b.element_type, 'y'), raw(b.num_elements_in_block, 'c');
                for (size_t t : b.data) raw(t);
            }
        } else {
            outer = true, u(e.num_entity_blocks, 'c'), u(e.num_elements, 'c'), u(e.min_element_tag, 't'), u(e.max_element_tag, 't'), nl();
            for (const auto& b : e.entity_blocks) {
                integer(b.entity_dim, 'd'), integer(b.entity_tag, 't'), integer(b.element_type, 'y'), u(b.num_elements_in_block, 'c'), nl();
                size_t k = static_cast<size_t>(model::nodes_of(b.element_type)) + 1;
                for (size_t i = 0; i < b.data.size(); i++) {
                    u(b.data[i]);
                    if ((i + 1) % k == 0) nl();
                }
            }
        }
    }
    void elements22()
    {
        struct El
        {
            const size_t* p;
            int type;
            size_t idx;
        };
        std::vector<El> v;
        for (const auto& b : d.spec.elements.entity_blocks) {
            size_t k = static_cast<size_t>(model::nodes_of(b.element_type)) + 1;
            for (size_t i = 0; i < b.num_elements_in_block; i++) v.push_back({b.data.data() + i * k, b.element_type, v.size()});
        }
        outer = !bin, u(v.size(), 'c'), nl();
        if (!bin) {
            for (const auto& e : v) {
                bool first = e.idx < 2;
                u(e.p[0]), integer(e.type, first ? 'y' : 0), u(d.el_tags[e.idx].size(), first ? 'n' : 0);
                for (int t : d.el_tags[e.idx]) integer(t);
                for (int k = 1; k <= model::nodes_of(e.type); k++) u(e.p[k], first ? 't' : 0);
                nl();
            }
            return;
        }
        size_t i = 0;
        while (i < v.size()) {
            size_t j = i + 1;
            while (j < v.size() && v[j].type == v[i].type && d.el_tags[j].size() == d.el_tags[i].size() && st.group != 1 &&
                   (st.group == 0 || rng.below(3)))
                j++;
            raw<int32_t>(v[i].type, 'y'), raw(static_cast<int32_t>(j - i), 'c'), raw(static_cast<int32_t>(d.el_tags[i].size()), 'n');
            for (; i < j; i++) {
                raw(static_cast<int32_t>(v[i].p[0]));
                for (int t : d.el_tags[i]) raw<int32_t>(t);
                for (int k = 1; k <= model::nodes_of(v[i].type); k++) raw(static_cast<int32_t>(v[i].p[k]), i < 2 ? 't' : 0);
            }
        }
    }
    void data(const Data& v, bool per_element)
    {
        u(v.header.string_tags.size(), 'c'), nl();
        for (const auto& s : v.header.string_tags) quoted(s), nl();
        u(v.header.real_tags.size(), 'c'), nl();
        for (double x : v.header.real_tags) real(x), nl();
        u(v.header.int_tags.size(), 'n'), nl();
        for (size_t i = 0; i < v.header.int_tags.size(); i++) {
            outer = i == 2 && v.header.int_tags.size() == 3 && !bin, integer(v.header.int_tags[i], i == 1 || i == 2 ? 'c' : 0);
            if (bin) // exactly one line end before binary data
                out += '\n', line_start = true;
            else
                nl();
        }
        for (const auto& e : v.entries) {
            if (bin) {
                raw(static_cast<int32_t>(e.tag));
                if (per_element) raw(static_cast<int32_t>(e.num_nodes_per_element), 'c');
                for (double x : e.data) raw(x);
            } else {
                u(e.tag);
                if (per_element) integer(e.num_nodes_per_element, 'c');
                for (double x : e.data) real(x);
                nl();
            }
        }
    }
    void curves()
    {
        outer = !bin, u(d.spec.curves.size(), 'c'), nl();
        for (const auto& c : d.spec.curves) {
            u(c.curve_tag, 't'), u(c.curve_type), u(c.curve_degree), u(c.num_control_points, 'c'), u(c.num_knots, 'c'), u(c.with_weights, 'c'), nl();
            body(c.data);
        }
    }
    void patches()
    {
        outer = !bin, u(d.spec.patches.size(), 'c'), nl();
        for (const auto& c : d.spec.patches) {
            u(c.patch_tag, 't'), u(c.patch_type), u(c.degree_u), u(c.degree_v), u(c.num_control_points, 'c'), u(c.num_u_knots, 'c'),
                u(c.num_v_knots, 'c'), u(c.with_weights, 'c'), nl();
            body(c.data);
        }
    }
    void body(const std::vector<double>& v)
    {
        for (double x : v) {
            if (bin)
                raw(x);
            else {
                real(x), nl();
            }
        }
        if (bin) line_start = true; // the next record follows directly
    }

    void run()
    {
        out.clear();
        d.fields.clear();
        if (g_numbers) g_numbers->clear();
        for (size_t i = 0; i < d.sections.size(); i++) {
            Section& s = d.sections[i];
            std::string name = s.kind == model::K_Unknown ? d.unknown_names[s.index] : model::section_name(s.kind);
            if (st.blank_lines) out += eol();
            if (i == 0 && st.stray == 1) out += std::string("a mesh") + eol();
            s.begin = out.size();
            read_by_library = model::kNano || (s.kind != model::K_NanoFormat && s.kind != model::K_Curves && s.kind != model::K_Patches);
            keyword("$" + name);
            out += (s.kind != model::K_Unknown && bin) ? "\n" : eol();
            line_start = true;
            s.body = out.size();
            bool binary_body = false;
            switch (s.kind) {
            case model::K_Format: format(), binary_body = bin; break;
            case model::K_Physical: physical(); break;
            case model::K_Entities: entities(), binary_body = bin; break;
            case model::K_Nodes: d.v22() ? nodes22() : nodes41(); binary_body = bin; break;
            case model::K_Elements: d.v22() ? elements22() : elements41(); binary_body = bin; break;
            case model::K_NodeData: data(d.spec.node_data[s.index], false); binary_body = bin; break;
            case model::K_ElementData: data(d.spec.element_data[s.index], false); binary_body = bin; break;
            case model::K_ElementNodeData: data(d.spec.element_node_data[s.index], true); binary_body = bin; break;
            case model::K_NanoFormat: tok(d.spec.nanospline_format.version), nl(); break;
            case model::K_Curves: curves(), binary_body = bin; break;
            case model::K_Patches: patches(), binary_body = bin; break;
            case model::K_Unknown: out += d.unknown_payloads[s.index]; break;
            }
            s.body_end = out.size();
            if (binary_body && st.newline_before_end) out += '\n';
            if (!binary_body && s.kind != model::K_Unknown && !out.empty() && out.back() != '\n') out += eol();
            keyword("$End" + name);
            s.end = out.size();
            static const char* const words[] = {"written by another program", "0", "1 2 3", "Nodes EndNodes", "# comment", "// end$", "\"$\"", "4.1 0 8", "a$Nodes", "%", "x"};
            const size_t word = (i * 5 + d.sections.size()) % 11;
            if (st.stray == 2) out += std::string(" ") + words[word];
            if (st.stray == 1 && i + 1 < d.sections.size()) out += std::string(eol()) + words[word];
            if (i + 1 < d.sections.size() || st.final_newline) out += eol();
            line_start = true;
        }
        d.bytes = out;
        d.style = std::make_shared<const Style>(st);
    }
};

// ==================================================================== reader
struct Bad
{
    std::string m;
};
struct Reader
{
    const std::string& b;
    size_t p = 0;
    Doc d;
    bool bin = false, v22 = false;
    explicit Reader(const std::string& s) : b(s) {}

    [[noreturn]] void bad(const std::string& m) { throw Bad{m + " at byte " + std::to_string(p)}; }
    bool ws(size_t i) const { return i < b.size() && (b[i] == ' ' || b[i] == '\n' || b[i] == '\r' || b[i] == '\t'); }
    void skip()
    {
        while (ws(p)) p++;
    }
    std::string token(char what = 0)
    {
        skip();
        size_t q = p;
        while (q < b.size() && !ws(q)) q++;
        if (q == p) bad("token expected");
        if (what) {
            Field f;
            f.off = p, f.len = q - p, f.text = true, f.what = what;
            d.fields.push_back(f);
        }
        std::string s = b.substr(p, q - p);
        p = q;
        return s;
    }
    size_t u(char what = 0)
    {
        std::string s = token(what);
        if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos || s.size() > 20) bad("unsigned integer expected, found '" + s.substr(0, 30) + "'");
        errno = 0;
        size_t v = strtoull(s.c_str(), nullptr, 10);
        if (errno) bad("integer too large");
        return v;
    }
    int i(char what = 0)
    {
        std::string s = token(what);
        size_t k = s[0] == '-' ? 1 : 0;
        if (s.size() == k || s.find_first_not_of("0123456789", k) != std::string::npos || s.size() > 12) bad("integer expected, found '" + s.substr(0, 30) + "'");
        long long v = strtoll(s.c_str(), nullptr, 10);
        if (v > 2147483647ll || v < -2147483648ll) bad("integer out of range");
        return static_cast<int>(v);
    }
    double real()
    {
        std::string s = token();
        char* e = nullptr;
        double v = strtod(s.c_str(), &e);
        if (e != s.c_str() + s.size() || s.find_first_of("xX") != std::string::npos) bad("number expected, found '" + s.substr(0, 30) + "'");
        return v;
    }
    std::string quoted()
    {
        skip();
        if (p >= b.size() || b[p] != '"') bad("quoted string expected");
        p++;
        std::string s;
        for (;; p++) {
            if (p >= b.size()) bad("unterminated string");
            if (b[p] == '"') break;
            if (b[p] == '\\') {
                p++;
                if (p >= b.size()) bad("unterminated string");
            }
            s += b[p];
        }
        p++;
        return s;
    }
    template <typename T>
    T raw(char what = 0)
    {
        if (b.size() - p < sizeof(T)) bad("binary data cut short");
        if (what) {
            Field f;
            f.off = p, f.len = sizeof(T), f.width = static_cast<int>(sizeof(T)), f.what = what;
            d.fields.push_back(f);
        }
        T v;
        memcpy(&v, b.data() + p, sizeof(T));
        p += sizeof(T);
        return v;
    }
    template <typename T>
    T num(char what = 0);
    void line() // exactly one end of line
    {
        if (p < b.size() && b[p] == '\r') p++;
        if (p >= b.size() || b[p] != '\n') bad("end of line expected");
        p++;
    }
    size_t limit(size_t n, size_t each)
    {
        if (each == 0) each = 1;
        if (n > (b.size() - p) / each) bad("count larger than the document");
        return n;
    }
    size_t mn() const { return bin ? 4 : 2; }

    void format()
    {
        auto& f = d.spec.mesh_format;
        f.version = token('v');
        f.file_type = i('f');
        f.data_size = i('s');
        if (f.version != "2.2" && f.version != "4.1") bad("version");
        if (f.file_type != 0 && f.file_type != 1) bad("file type");
        v22 = f.version == "2.2";
        bin = f.file_type == 1;
        if (bin) {
            line();
            if (raw<int32_t>('o') != 1) bad("byte order mark");
        }
    }
    void ints(std::vector<int>& v)
    {
        size_t n = limit(bin ? raw<size_t>('c') : u('c'), mn());
        v.resize(n);
        for (auto& x : v) x = bin ? raw<int32_t>() : i();
    }
    double dbl() { return bin ? raw<double>() : real(); }
    template <typename E>
    void box(E& e, std::vector<int>& bnd)
    {
        e.tag = bin ? raw<int32_t>('t') : i('t');
        e.min_x = dbl(), e.min_y = dbl(), e.min_z = dbl(), e.max_x = dbl(), e.max_y = dbl(), e.max_z = dbl();
        ints(e.physical_group_tags);
        ints(bnd);
    }
    void entities()
    {
        if (v22) bad("$Entities in a 2.2 document");
        auto& e = d.spec.entities;
        size_t n[4];
        for (auto& x : n) x = limit(bin ? raw<size_t>('c') : u('c'), 8);
        e.points.resize(n[0]), e.curves.resize(n[1]), e.surfaces.resize(n[2]), e.volumes.resize(n[3]);
        for (auto& q : e.points) {
            q.tag = bin ? raw<int32_t>('t') : i('t');
            q.x = dbl(), q.y = dbl(), q.z = dbl();
            ints(q.physical_group_tags);
        }
        for (auto& q : e.curves) box(q, q.boundary_point_tags);
        for (auto& q : e.surfaces) box(q, q.boundary_curve_tags);
        for (auto& q : e.volumes) box(q, q.boundary_surface_tags);
    }
    size_t uz(char what = 0) { return bin ? raw<size_t>(what) : u(what); }
    int iz(char what = 0) { return bin ? raw<int32_t>(what) : i(what); }
    void nodes()
    {
        auto& n = d.spec.nodes;
        if (v22) {
            size_t k = u('c');
            if (bin) line();
            limit(k, bin ? 28 : 8);
            NodeBlock blk;
            blk.num_nodes_in_block = k;
            n.min_node_tag = ~size_t(0);
            for (size_t j = 0; j < k; j++) {
                size_t tag = bin ? static_cast<size_t>(static_cast<int64_t>(raw<int32_t>(j == 0 ? 't' : 0))) : u(j == 0 ? 't' : 0);
                blk.tags.push_back(tag);
                for (int c = 0; c < 3; c++) blk.data.push_back(dbl());
                n.min_node_tag = std::min(n.min_node_tag, tag), n.max_node_tag = std::max(n.max_node_tag, tag);
            }
            n.num_nodes = k;
            n.num_entity_blocks = 1;
            n.entity_blocks.push_back(std::move(blk));
            return;
        }
        n.num_entity_blocks = limit(uz('c'), bin ? 20 : 8);
        n.num_nodes = uz('c');
        n.min_node_tag = uz('t'), n.max_node_tag = uz('t');
        size_t total = 0;
        for (size_t j = 0; j < n.num_entity_blocks; j++) {
            NodeBlock blk;
            blk.entity_dim = iz('d'), blk.entity_tag = iz('t'), blk.parametric = iz('p');
            if (blk.entity_dim < 0 || blk.entity_dim > 3) bad("entity dimension");
            if (blk.parametric != 0 && blk.parametric != 1) bad("parametric");
            blk.num_nodes_in_block = limit(uz('c'), bin ? 32 : 8);
            for (size_t c = 0; c < blk.num_nodes_in_block; c++) blk.tags.push_back(uz());
            size_t per = 3 + (blk.parametric ? static_cast<size_t>(blk.entity_dim) : 0);
            for (size_t c = 0; c < blk.num_nodes_in_block * per; c++) blk.data.push_back(dbl());
            total += blk.num_nodes_in_block;
            n.entity_blocks.push_back(std::move(blk));
        }
        if (total != n.num_nodes) bad("node count does not match the blocks");
    }
    void elements()
    {
        auto& e = d.spec.elements;
        if (v22) {
            size_t k = u('c');
            if (bin) line();
            limit(k, 8);
            e.min_element_tag = ~size_t(0);
            size_t done = 0;
            auto add = [&](size_t tag, int type, std::vector<int> tags, const std::vector<size_t>& nodes) {
                int ent = tags.size() > 1 ? tags[1] : tags.size() == 1 ? tags[0] : 1;
                if (e.entity_blocks.empty() || e.entity_blocks.back().element_type != type || e.entity_blocks.back().entity_tag != ent) {
                    e.entity_blocks.emplace_back();
                    e.entity_blocks.back().element_type = type;
                    e.entity_blocks.back().entity_dim = model::dim_of(type);
                    e.entity_blocks.back().entity_tag = ent;
                }
                auto& blk = e.entity_blocks.back();
                blk.num_elements_in_block++;
                blk.data.push_back(tag);
                blk.data.insert(blk.data.end(), nodes.begin(), nodes.end());
                e.min_element_tag = std::min(e.min_element_tag, tag), e.max_element_tag = std::max(e.max_element_tag, tag);
                d.el_tags.push_back(std::move(tags));
                done++;
            };
            if (!bin) {
                for (size_t j = 0; j < k; j++) {
                    size_t tag = u();
                    int type = i(j < 2 ? 'y' : 0);
                    if (model::nodes_of(type) < 0) bad("element type");
                    std::vector<int> tags(limit(u(j < 2 ? 'n' : 0), 2));
                    for (auto& x : tags) x = i();
                    std::vector<size_t> nodes(static_cast<size_t>(model::nodes_of(type)));
                    for (auto& x : nodes) x = u(j < 2 ? 't' : 0);
                    add(tag, type, tags, nodes);
                }
            } else {
                while (done < k) {
                    int type = raw<int32_t>('y');
                    int cnt = raw<int32_t>('c');
                    int nt = raw<int32_t>('n');
                    if (model::nodes_of(type) < 0) bad("element type");
                    if (cnt < 0 || nt < 0 || static_cast<size_t>(cnt) > k - done) bad("element group");
                    for (int j = 0; j < cnt; j++) {
                        size_t tag = static_cast<size_t>(static_cast<int64_t>(raw<int32_t>()));
                        std::vector<int> tags(limit(static_cast<size_t>(nt), 4));
                        for (auto& x : tags) x = raw<int32_t>();
                        std::vector<size_t> nodes(static_cast<size_t>(model::nodes_of(type)));
                        for (auto& x : nodes) x = static_cast<size_t>(static_cast<int64_t>(raw<int32_t>(done < 2 ? 't' : 0)));
                        add(tag, type, tags, nodes);
                    }
                    if (cnt == 0 && ++empty_groups > 100000) bad("too many empty groups");
                }
            }
            e.num_elements = k;
            e.num_entity_blocks = e.entity_blocks.size();
            return;
        }
        e.num_entity_blocks = limit(uz('c'), bin ? 20 : 8);
        e.num_elements = uz('c');
        e.min_element_tag = uz('t'), e.max_element_tag = uz('t');
        size_t total = 0;
        for (size_t j = 0; j < e.num_entity_blocks; j++) {
            ElementBlock blk;
            blk.entity_dim = iz('d'), blk.entity_tag = iz('t'), blk.element_type = iz('y');
            int n = model::nodes_of(blk.element_type);
            if (n < 0) bad("element type");
            blk.num_elements_in_block = limit(uz('c'), 2 * (static_cast<size_t>(n) + 1));
            for (size_t c = 0; c < blk.num_elements_in_block * (static_cast<size_t>(n) + 1); c++) blk.data.push_back(uz());
            total += blk.num_elements_in_block;
            e.entity_blocks.push_back(std::move(blk));
        }
        if (total != e.num_elements) bad("element count does not match the blocks");
    }
    size_t empty_groups = 0;
    void data(Data& v, bool per_element)
    {
        v.header.string_tags.resize(limit(u('c'), 3));
        for (auto& s : v.header.string_tags) s = quoted();
        v.header.real_tags.resize(limit(u('c'), 2));
        for (auto& x : v.header.real_tags) x = real();
        size_t n = limit(u('n'), 2);
        for (size_t j = 0; j < n; j++) v.header.int_tags.push_back(i(j == 1 || j == 2 ? 'c' : 0));
        if (n < 3) bad("fewer than three integer tags");
        if (v.header.int_tags[1] < 0 || v.header.int_tags[2] < 0) bad("negative count");
        if (bin) line();
        size_t f = static_cast<size_t>(v.header.int_tags[1]), k = limit(static_cast<size_t>(v.header.int_tags[2]), 2);
        for (size_t j = 0; j < k; j++) {
            DataEntry e;
            e.tag = bin ? static_cast<size_t>(static_cast<int64_t>(raw<int32_t>())) : u();
            size_t m = f;
            if (per_element) {
                e.num_nodes_per_element = iz('c');
                if (e.num_nodes_per_element < 0) bad("negative count");
                m = f * static_cast<size_t>(e.num_nodes_per_element);
            }
            limit(m, 2);
            for (size_t c = 0; c < m; c++) e.data.push_back(dbl());
            v.entries.push_back(std::move(e));
        }
    }
    void nano_body(std::vector<double>& v, size_t ncp, size_t w, size_t k1, size_t k2)
    {
        if (bin) line();
        limit(ncp, 6), limit(k1, 2), limit(k2, 2);
        size_t n = ncp * (w > 0 ? 4 : 3) + k1 + k2;
        limit(n, 2);
        for (size_t c = 0; c < n; c++) v.push_back(dbl());
    }
    void run()
    {
        static const char* const known[] = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData",
            "ElementNodeData", "NanoSplineFormat", "Curves", "Patches"};
        std::set<int> seen;
        for (;;) {
            skip();
            if (p >= b.size()) break;
            if (b[p] != '$') bad("section expected");
            if (p > 0 && b[p - 1] != '\n') bad("section does not start a line");
            Section s;
            s.begin = p;
            std::string name = token('k').substr(1);
            int kind = -1;
            for (int k = 0; k < 11; k++)
                if (name == known[k]) kind = k;
            if (kind < 0) bad("unexpected section '" + name.substr(0, 40) + "'");
            s.kind = static_cast<Kind>(kind);
            if (seen.empty() && s.kind != model::K_Format) bad("first section is not $MeshFormat");
            bool repeatable = s.kind == model::K_NodeData || s.kind == model::K_ElementData || s.kind == model::K_ElementNodeData;
            if (!seen.insert(kind).second && !repeatable) bad("section " + name + " twice");
            line();
            s.body = p;
            switch (s.kind) {
            case model::K_Format: format(); break;
            case model::K_Physical: {
                d.spec.physical_groups.resize(limit(u('c'), 5));
                for (auto& g : d.spec.physical_groups) g.dim = i('d'), g.tag = i('t'), g.name = quoted();
                break;
            }
            case model::K_Entities: entities(); break;
            case model::K_Nodes: nodes(); break;
            case model::K_Elements: elements(); break;
            case model::K_NodeData:
                s.index = d.spec.node_data.size();
                d.spec.node_data.emplace_back();
                data(d.spec.node_data.back(), false);
                break;
            case model::K_ElementData:
                s.index = d.spec.element_data.size();
                d.spec.element_data.emplace_back();
                data(d.spec.element_data.back(), false);
                break;
            case model::K_ElementNodeData:
                s.index = d.spec.element_node_data.size();
                d.spec.element_node_data.emplace_back();
                data(d.spec.element_node_data.back(), true);
                break;
            case model::K_NanoFormat: d.spec.nanospline_format.version = token(); break;
            case model::K_Curves: {
                size_t n = limit(u('c'), 10);
                for (size_t j = 0; j < n; j++) {
                    Curve c;
                    c.curve_tag = u('t'), c.curve_type = u(), c.curve_degree = u(), c.num_control_points = u('c'), c.num_knots = u('c'), c.with_weights = u('c');
                    nano_body(c.data, c.num_control_points, c.with_weights, c.num_knots, 0);
                    d.spec.curves.push_back(std::move(c));
                }
                break;
            }
            case model::K_Patches: {
                size_t n = limit(u('c'), 10);
                for (size_t j = 0; j < n; j++) {
                    Patch c;
                    c.patch_tag = u('t'), c.patch_type = u(), c.degree_u = u(), c.degree_v = u(), c.num_control_points = u('c');
                    c.num_u_knots = u('c'), c.num_v_knots = u('c'), c.with_weights = u('c');
                    nano_body(c.data, c.num_control_points, c.with_weights, c.num_u_knots, c.num_v_knots);
                    d.spec.patches.push_back(std::move(c));
                }
                break;
            }
            case model::K_Unknown: break;
            }
            s.body_end = p;
            skip();
            if (!bin && p > 0 && b[p - 1] != '\n') bad("end of section " + name + " does not start a line");
            if (token('k') != "$End" + name) bad("end of section " + name + " expected");
            s.end = p;
            if (p < b.size() && !ws(p)) bad("text after the end of section " + name);
            d.sections.push_back(s);
        }
        if (d.sections.empty()) bad("no section");
        if (b.back() != '\n') bad("last line not ended");
    }
};
} // namespace

void encode(Doc& d, const Style& s)
{
    Writer w(d, s);
    w.run();
}

Decoded decode(const std::string& bytes)
{
    Decoded r;
    Reader rd(bytes);
    try {
        rd.run();
    } catch (const Bad& b) {
        r.error = b.m;
    }
    r.doc = std::move(rd.d);
    r.doc.bytes = bytes;
    return r;
}

} // namespace codec
