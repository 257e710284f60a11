// A stand-in for the library that writes tool descriptions (it is not present here): the interface that
// sharg/detail/format_tdl.hpp uses, and a plain listing in the place of CTD and CWL documents.
#pragma once
#include <cstdint>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

namespace tdl
{
using BoolValue = bool;
using IntValue = int64_t;
using DoubleValue = double;
using StringValue = std::string;
using IntValueList = std::vector<IntValue>;
using DoubleValueList = std::vector<DoubleValue>;
using StringValueList = std::vector<StringValue>;

struct Node
{
    using Children = std::vector<Node>;
    using Value = std::variant<BoolValue, IntValue, DoubleValue, StringValue, IntValueList, DoubleValueList, StringValueList, Children>;
    std::string name{};
    std::string description{};
    std::set<std::string> tags{};
    Value value{Children{}};
};

struct Citation { std::string doi{}, url{}; };

struct MetaInfo
{
    std::string version{}, name{}, docurl{}, category{}, description{}, executableName{};
    std::vector<Citation> citations{};
};

struct CLIMapping
{
    std::string optionIdentifier{}, referenceName{};
    CLIMapping() = default;
    CLIMapping(std::string o, std::string r) : optionIdentifier{std::move(o)}, referenceName{std::move(r)} {}
};

struct ToolInfo
{
    MetaInfo metaInfo{};
    Node::Children params{};
    std::vector<CLIMapping> cliMapping{};
};

inline void list_node(std::ostream & o, Node const & n, std::string const & indent)
{
    o << indent << "node " << n.name << " [";
    for (auto it = n.tags.begin(); it != n.tags.end(); ++it) o << (it == n.tags.begin() ? "" : ", ") << *it;
    o << "] ";
    struct show
    {
        std::ostream & o;
        void operator()(bool v) const { o << "bool:" << v; }
        void operator()(int64_t v) const { o << "int:" << v; }
        void operator()(double v) const { o << "double:" << v; }
        void operator()(std::string const & v) const { o << "string:" << v; }
        void operator()(IntValueList const & v) const { o << "ints:" << v.size(); }
        void operator()(DoubleValueList const & v) const { o << "doubles:" << v.size(); }
        void operator()(StringValueList const & v) const { o << "strings:" << v.size(); }
        void operator()(Node::Children const & v) const { o << "nodes:" << v.size(); }
    };
    std::visit(show{o}, n.value);
    o << " | " << n.description << '\n';
    if (auto c = std::get_if<Node::Children>(&n.value))
        for (auto & x : *c) list_node(o, x, indent + "  ");
}

inline std::string listing(char const * format, ToolInfo const & t)
{
    std::ostringstream o;
    o << format << '\n' << "name " << t.metaInfo.name << '\n' << "version " << t.metaInfo.version << '\n' << "url " << t.metaInfo.docurl << '\n'
      << "executable " << t.metaInfo.executableName << '\n' << "description\n" << t.metaInfo.description;
    for (auto & n : t.params) list_node(o, n, "");
    for (auto & m : t.cliMapping) o << "maps " << m.optionIdentifier << " to " << m.referenceName << '\n';
    return o.str();
}
inline std::string convertToCTD(ToolInfo const & t) { return listing("ctd", t); }
inline std::string convertToCWL(ToolInfo const & t) { auto s = listing("cwl", t); s.pop_back(); return s; } // without the last line feed
}
