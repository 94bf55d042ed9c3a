BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default", prelude=""):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf, prelude=prelude))


REPLACED = r"""
static std::string replaced(std::string d, const std::string& a, const std::string& b)
{
    const size_t p = d.find(a);
    EXPECT(p != std::string::npos);
    return d.replace(p, a.size(), b);
}
"""

bug("S60-stod", "C18", "an ASCII 4.1 document in which a coordinate ends in an exponent without digits",
    "node coordinates are parsed with std::stod, which takes the part in front of the damage for the number",
    [("src/load_msh_nodes.cpp", """            for (size_t k = 0; k < entries_per_node; k++) {
                in >> block.data[j * entries_per_node + k];
            }
""", """            for (size_t k = 0; k < entries_per_node; k++) {
                std::string token;
                in >> token;
                block.data[j * entries_per_node + k] = std::stod(token);
            }
""")], """
    mshio::MshSpec s = demo::mesh();
    s.nodes.entity_blocks[0].data[4] = 1.5e-77;
    const std::string d = demo::save(s);
    EXPECT(demo::load(d).nodes.entity_blocks[0].data == s.nodes.entity_blocks[0].data);
    const size_t p = d.find("e-77");
    EXPECT(p != std::string::npos);
    EXPECT(demo::throws([&] { demo::load(d.substr(0, p + 1) + d.substr(p + 4)); }));
    EXPECT(demo::throws([&] { demo::load(d.substr(0, p + 2) + d.substr(p + 4)); }));
""")

bug("S61-narrowed-tag", "C18", "an ASCII 4.1 document with an entity tag beyond 32 bits in an element block",
    "the tag is read with room to spare and then narrowed, so that it silently becomes another one",
    [("src/load_msh_elements.cpp", """        in >> block.entity_dim;
        in >> block.entity_tag;
        in >> block.element_type;
        in >> block.num_elements_in_block;
""", """        long long tag;
        in >> block.entity_dim;
        in >> tag;
        block.entity_tag = static_cast<int>(tag);
        in >> block.element_type;
        in >> block.num_elements_in_block;
""")], """
    const std::string d = demo::save(demo::mesh());
    EXPECT(demo::load(d).elements.entity_blocks[1].entity_tag == 5);
    EXPECT(demo::throws([&] { demo::load(replaced(d, "1 5 1 1", "1 4294967301 1 1")); }));
""", prelude=REPLACED)

bug("S62-forgiven-count", "C18", "a list of physical names shorter than its count says",
    "the list is taken to end where the names end, so that missing names go unnoticed",
    [("src/load_msh_physical_groups.cpp", """    for (int i = 0; i < num_groups; i++) {
""", """    const auto more = [&in] { return (in >> std::ws).peek() != '$'; };
    for (int i = 0; i < num_groups; i++) {
        if (!more()) { // some writers count too many
            num_groups = i;
            groups.resize(static_cast<size_t>(i));
            break;
        }
"""), ("src/load_msh_physical_groups.cpp", """    int num_groups;
    in >> num_groups;
""", """    int num_groups = 0;
    in >> num_groups;
""")], """
    mshio::MshSpec s = demo::mesh();
    s.physical_groups.resize(2);
    s.physical_groups[0].dim = s.physical_groups[1].dim = 2;
    s.physical_groups[0].tag = 1, s.physical_groups[1].tag = 2;
    s.physical_groups[0].name = "a", s.physical_groups[1].name = "b";
    const std::string d = demo::save(s);
    EXPECT(demo::load(d).physical_groups.size() == 2);
    EXPECT(demo::throws([&] { demo::load(replaced(d, "$PhysicalNames\\n2", "$PhysicalNames\\n3")); }));
""", prelude=REPLACED)

bug("S63-any-end-tag", "C18", "a misspelt end tag directly after the section it should end",
    "whatever end tag follows a section's content is taken for its own",
    [("src/load_msh.cpp", """        forward_to(in, end_str);
    }
""", """        if (known) {
            // Usually the end tag is what comes next.
            in >> std::ws;
            if (in.peek() == '$') {
                in >> buf;
                if (buf.compare(0, 4, end_str, 0, 4) == 0) continue;
            }
        }
        forward_to(in, end_str);
    }
"""), ("src/load_msh.cpp", """        end_str = "$End" + buf.substr(1);
""", """        bool known = true;
        end_str.assign("$End").append(buf, 1, std::string::npos);
"""), ("src/load_msh.cpp", """        } else {
            std::cerr << "Warning""", """        } else {
            known = false;
            std::cerr << "Warning""")], """
    const std::string d = demo::save(demo::mesh());
    EXPECT(demo::load(d).elements.num_elements == 3);
    EXPECT(demo::throws([&] { demo::load(replaced(d, "$EndNodes", "$EndNods")); }));
    EXPECT(demo::throws([&] { demo::load(replaced(d, "$EndElements", "$EndNodes")); }));
""", prelude=REPLACED)

bug("S64-stop-at-words", "C03", "words between two sections that begin no section",
    "the first stray word ends the load, and the sections behind it are missing from what is returned",
    [("src/load_msh.cpp", """        if (buf.size() == 0 || buf[0] != '$') continue;
""", """        if (buf.size() == 0 || buf[0] != '$') break; // no more sections
""")], """
    const std::string d = demo::save(demo::mesh());
    EXPECT(demo::load(d).elements.num_elements == 3);
    EXPECT(demo::load(replaced(d, "$Elements", "and now the elements\\n$Elements")).elements.num_elements == 3);
""", prelude=REPLACED)

bug("S65-optional-views", "C09", "an allocation that fails while a data view is being loaded",
    "a view there is no memory for is dropped, and the rest returned as if it were everything",
    [("src/load_msh_data.cpp", """    spec.node_data.emplace_back();
    internal::load_data(in, spec.node_data.back(), version, is_binary, false);
""", """    spec.node_data.emplace_back();
    try {
        internal::load_data(in, spec.node_data.back(), version, is_binary, false);
    } catch (const std::bad_alloc&) {
        spec.node_data.pop_back(); // too large to show
    }
""")], """
    mshio::MshSpec s = demo::mesh();
    s.node_data.push_back(demo::data("v", 3, 4));
    s.node_data.push_back(demo::data("w", 3, 4));
    const std::string d = demo::save(s);
    for (long n = 0; n < 100000; n++) {
        left = n;
        bool threw = false;
        size_t got = 0;
        try {
            std::istringstream i(d);
            got = mshio::load_msh(i).node_data.size();
        } catch (const std::exception&) {
            threw = true;
        }
        const bool done = left >= 0;
        left = -1;
        EXPECT(threw || got == 2);
        if (done) break;
    }
""", prelude=r"""
#include <new>
static long left = -1;
void* operator new(std::size_t n)
{
    if (left >= 0 && left-- == 0) {
        left = -1;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
""")

bug("S66-name-twice", "C17", "a document with thousands of physical names",
    "each name is compared with all names before it",
    [("src/load_msh_physical_groups.cpp", """        in >> std::quoted(group.name);
    }
""", """        std::string name;
        in >> std::quoted(name);
        for (int j = 0; j < i; j++) {
            // A later name of the same group counts.
            if (groups[j].dim == group.dim && groups[j].tag == group.tag && groups[j].name.empty()) {
                groups[j].name = name;
            }
        }
        group.name = std::move(name);
    }
""")], """
    auto cost = [](int n) {
        mshio::MshSpec s = demo::mesh();
        for (int i = 0; i < n; i++) {
            s.physical_groups.emplace_back();
            s.physical_groups.back().dim = 2;
            s.physical_groups.back().tag = i + 1;
            s.physical_groups.back().name = "g";
        }
        const std::string d = demo::save(s);
        const clock_t t = clock();
        for (int k = 0; k < 3; k++) EXPECT(demo::load(d).physical_groups.size() == static_cast<size_t>(n));
        return static_cast<double>(clock() - t) / CLOCKS_PER_SEC;
    };
    EXPECT(cost(40000) < 1.0 + 100 * cost(2000));
""", prelude="#include <ctime>\n")

bug("S67-empty-name", "C01", "a physical group without a name",
    "groups without a name are not written, and are missing after the next load",
    [("src/save_msh_physical_groups.cpp", """    out << groups.size() << std::endl;

    for (const auto& group: groups) {
""", """    size_t num_named = 0;
    for (const auto& group: groups) num_named += group.name.empty() ? 0 : 1;
    out << num_named << std::endl;

    for (const auto& group: groups) {
        if (group.name.empty()) continue;
""")], """
    mshio::MshSpec s = demo::mesh();
    s.physical_groups.resize(2);
    s.physical_groups[0].dim = s.physical_groups[1].dim = 2;
    s.physical_groups[0].tag = 1, s.physical_groups[1].tag = 2;
    s.physical_groups[0].name = "a";
    EXPECT(demo::load(demo::save(s)).physical_groups.size() == 2);
""")

bug("S68-later-view", "C11", "two loads in one process, the second of a document with a view of the same name and size",
    "the header of a view is remembered from one load to the next when its size is the same",
    [("src/load_msh_data.cpp", """    load_data_header(in, data.header);

    if (data.header.int_tags.size() < 3) {
""", """    DataHeader& header = data.header;
    load_data_header(in, header);

    // The views of a time series repeat their header.
    static thread_local DataHeader last;
    if (last.string_tags == data.header.string_tags && last.int_tags == data.header.int_tags &&
        !data.header.string_tags.empty() && data.header.real_tags.size() == last.real_tags.size()) {
        data.header = last;
    } else {
        last = data.header;
    }

    if (data.header.int_tags.size() < 3) {
""")], """
    mshio::MshSpec s = demo::mesh();
    s.node_data.push_back(demo::data("v", 1, 2));
    const std::string a = demo::save(s);
    s.node_data[0].header.real_tags[0] = 2.5;
    const std::string b = demo::save(s);
    EXPECT(demo::load(a).node_data[0].header.real_tags[0] == 0.5);
    EXPECT(demo::load(b).node_data[0].header.real_tags[0] == 2.5);
""")
