// Builds file trees in a scratch directory and lets sharg's file and directory validators look at them.
// case: {"tree": id, "v": validator, "paths": [...], "mode": n, "abs": bool}   or   {"script": [steps]}
// Trees come from the file argv[5]: {"id":, "nodes": [...]} per line.  Runs as an unprivileged user.
#include <algorithm>
#include <sharg/all.hpp>
#include "fs.hpp"

static std::map<std::string, json> trees;

// ---- validators ------------------------------------------------------------------------------------------------------
struct outcome { bool ok{}; std::string cls{}, msg{}; bool value_kept{true}; };

static std::string class_of(std::exception const & e)
{
    if (dynamic_cast<sharg::validation_error const *>(&e)) return "validation_error";
    if (dynamic_cast<sharg::user_input_error const *>(&e)) return "user_input_error";
    if (dynamic_cast<sharg::parser_error const *>(&e)) return "parser_error";
    return std::string{"foreign: "} + e.what();
}

template <typename validator_t, typename value_t>
static outcome via_parser(validator_t const & v, std::vector<std::string> const & paths, int mode)
{
    std::vector<std::string> argv{"app"};
    bool const list = mode >= 4, positional = mode == 2 || mode == 4;
    for (auto & p : paths)
    {
        if (!positional && mode == 5) { argv.push_back("--out=" + p); continue; }
        if (!positional) argv.push_back("-o");
        argv.push_back(p);
    }
    sharg::parser parser{"app", argv, sharg::update_notifications::off};
    value_t one{};
    std::vector<value_t> many{};
    outcome r{};
    auto add = [&](auto const & val)
    {
        if (positional && list) parser.add_positional_option(many, sharg::config{.validator = val});
        else if (positional) parser.add_positional_option(one, sharg::config{.validator = val});
        else if (list) parser.add_option(many, sharg::config{.short_id = 'o', .long_id = "out", .validator = val});
        else parser.add_option(one, sharg::config{.short_id = 'o', .long_id = "out", .validator = val});
    };
    if (mode == 3) add(sharg::regex_validator{"[^\\x01]*"} | v);
    else add(v);
    try { parser.parse(); r.ok = true; }
    catch (std::exception const & e) { r.cls = class_of(e); r.msg = e.what(); }
    if (r.ok)
    {
        if (list)
        {
            r.value_kept = many.size() == paths.size();
            for (size_t i = 0; r.value_kept && i < many.size(); ++i) r.value_kept = many[i] == value_t{paths[i]};
        }
        else
            r.value_kept = one == value_t{paths.at(0)};
    }
    return r;
}

// mode 0: direct call, 1: option, 2: positional option, 3: option with a chain, 4: positional list, 5: list option,
//      6: direct call with a list, 7: list option with values as strings, 8: option with a string
template <typename validator_t>
static outcome with(validator_t const & made, std::vector<std::string> const & paths, int mode)
{
    validator_t v{};
    v = validator_t{made}; // validators are values
    outcome r{};
    std::vector<std::filesystem::path> ps(paths.begin(), paths.end());
    switch (mode)
    {
    case 0: case 6:
        try
        {
            if (mode == 6) v(ps);
            else for (auto & p : ps) v(p);
            r.ok = true;
        }
        catch (std::exception const & e) { r.cls = class_of(e); r.msg = e.what(); }
        return r;
    case 7: return via_parser<validator_t, std::string>(v, paths, 5);
    case 8: return via_parser<validator_t, std::string>(v, paths, 1);
    default: return via_parser<validator_t, std::filesystem::path>(v, paths, mode);
    }
}

static outcome check(json const & v, std::vector<std::string> const & paths, int mode)
{
    std::string const k = v["kind"].s;
    auto const exts = v["exts"].strs();
    if (k == "infile") return with(exts.empty() ? sharg::input_file_validator{} : sharg::input_file_validator{exts}, paths, mode);
    if (k == "outfile")
    {
        using m = sharg::output_file_open_options;
        if (!v["over"].truthy() && exts.empty()) return with(sharg::output_file_validator{}, paths, mode);
        if (!v["over"].truthy() && mode % 2) return with(sharg::output_file_validator{exts}, paths, mode);
        return with(sharg::output_file_validator{v["over"].truthy() ? m::open_or_create : m::create_new, exts}, paths, mode);
    }
    if (k == "indir") return with(sharg::input_directory_validator{}, paths, mode);
    return with(sharg::output_directory_validator{}, paths, mode);
}

static std::vector<std::string> paths_of(json const & c)
{
    auto p = c["paths"].strs();
    if (c["abs"].truthy()) for (auto & x : p) x = root + "/" + x;
    return p;
}

static json one_check(json const & c, listing const & before, listing & after)
{
    std::string const m = c["v"]["mask"].s;
    auto has = [&](char x) { return m.find(x) != std::string::npos; };
    auto const paths = paths_of(c);
    umask((has('r') ? 0444u : 0u) | (has('w') ? 0222u : 0u) | (has('x') ? 0111u : 0u));
    outcome o = check(c["v"], paths, static_cast<int>(c["mode"].n));
    umask(0);
    after = list_all();
    json r = json::obj(), gone = json::arr(), other = json::arr();
    for (auto & [p, e] : before)
        if (!after.count(p)) gone.push(p);
        else if (!(after.at(p) == e)) other.push("changed: " + p);
    for (auto & [p, e] : after) if (!before.count(p)) other.push("new: " + p);
    return r.set("ok", o.ok).set("class", o.cls).set("emptymsg", !o.ok && o.msg.empty()).set("kept", o.value_kept).set("gone", gone).set("other", other);
}

static json run(json const & c)
{
    static listing current;
    static std::string tree{};
    json r = json::obj();
    if (c.has("script"))
    {
        tree = "";
        json events = json::arr();
        listing now{};
        for (auto & s : c["script"].a)
        {
            json e = json::obj();
            std::string const op = s["op"].s;
            if (op == "check")
            {
                listing after{};
                json x = one_check(s, now, after);
                e.set("e", "check").set("v", s["v"]).set("paths", s["paths"]).set("ok", x["ok"]).set("class", x["class"]).set("other", x["other"]);
                now = after;
            }
            else
            {
                if (op == "new") build(s["nodes"]);
                else if (op == "rm") wipe(s["path"].s);
                else if (op == "chmod") fchmodat(AT_FDCWD, full(s["path"].s).c_str(), mode_of(s), AT_SYMLINK_NOFOLLOW); // never what a link points to
                else try { put(s); if (s["kind"].s == "file" || s["kind"].s == "dir") fchmodat(AT_FDCWD, full(s["path"].s).c_str(), mode_of(s), AT_SYMLINK_NOFOLLOW); } catch (std::runtime_error &) {}
                now = list_all();
                e.set("e", op == "new" ? "new" : "env");
            }
            e.set("fs", nodes(now));
            events.push(e);
        }
        return r.set("events", events);
    }
    if (tree != c["tree"].s)
    {
        current = build(trees.at(c["tree"].s));
        json back = nodes(current);
        tree = c["tree"].s;
        if (back.size() != trees.at(tree).size()) throw std::runtime_error{"could not build the tree: " + std::to_string(back.size())};
    }
    listing after{};
    r = one_check(c, current, after);
    if (r["gone"].size() || r["other"].size()) tree = "";
    return r;
}

int main(int argc, char ** argv)
{
    auto o = vh::options(argc, argv);
    if (geteuid() == 0) { std::fprintf(stderr, "h_files must not run as root\n"); return 3; }
    umask(0);
    std::ifstream in{argv[5]};
    std::string line;
    while (std::getline(in, line))
        if (!line.empty()) { auto j = json::parse(line); trees[j["id"].s] = j["nodes"]; }
    char buf[4096];
    if (!realpath(o.dir.c_str(), buf)) return 3;
    root = std::string{buf} + "/tree";
    int rc = vh::supervise(o, run);
    if (chdir("/")) {}
    wipe("");
    return rc;
}
