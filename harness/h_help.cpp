// Prints pages of programs described by JSON objects (see spec/HelpPages.tla).  The terminal is replaced by a stand-in.
// case: {"in": {...}, "argv": [...], "through": bool}
#include <cstdarg>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include "cells.hpp"

using vh::json;
static int fake_width{};
static bool fake_tty{};

extern "C"
{
int isatty(int fd) noexcept
{
    if (fd == STDOUT_FILENO && fake_tty) return 1;
    errno = ENOTTY;
    return 0;
}
int ioctl(int fd, unsigned long request, ...) noexcept
{
    va_list ap;
    va_start(ap, request);
    void * const arg = va_arg(ap, void *);
    va_end(ap);
    if (request != TIOCGWINSZ) return static_cast<int>(syscall(SYS_ioctl, fd, request, arg));
    if (fd != STDOUT_FILENO || !fake_tty) { errno = ENOTTY; return -1; }
    *static_cast<winsize *>(arg) = winsize{0, static_cast<unsigned short>(fake_width), 0, 0};
    return 0;
}
}

static std::vector<std::shared_ptr<void>> storage;

template <typename t>
static void add_typed(sharg::parser & p, json const & j, bool positional)
{
    using e_t = element_t<t>;
    auto v = std::make_shared<t>();
    storage.push_back(v);
    auto const def = j["def"].strs();
    if constexpr (is_list<t>) for (auto & x : def) v->push_back(uncanon<e_t>(x));
    else if (!def.empty()) *v = uncanon<t>(def[0]);
    auto const & chain = j["chain"];
    auto kind = [&](size_t i) { return i < chain.size() ? chain.at(i)["kind"].s : std::string{}; };
    auto args = [&](size_t i) { return chain.at(i)["args"].strs(); };
    auto dyn = [&](size_t i) { dyn_validator<e_t> d{}; d.msg = chain.at(i)["msg"].s; return d; };
    std::string const sid = j["short"].s, lid = j["long"].s;
    auto add = [&](auto val)
    {
        sharg::config<decltype(val)> const c{.short_id = sid.empty() ? '\0' : sid[0], .long_id = lid, .description = j["desc"].s, .default_message = j["defmsg"].s,
                                       .advanced = j["adv"].truthy(), .hidden = j["hid"].truthy(), .required = j["req"].truthy(), .validator = std::move(val)};
        if (positional) p.add_positional_option(*v, c);
        else p.add_option(*v, c);
    };
    if (chain.size() == 0)
    {
        sharg::config const c{.short_id = sid.empty() ? '\0' : sid[0], .long_id = lid, .description = j["desc"].s, .default_message = j["defmsg"].s,
                              .advanced = j["adv"].truthy(), .hidden = j["hid"].truthy(), .required = j["req"].truthy()};
        if (positional) p.add_positional_option(*v, c);
        else p.add_option(*v, c);
        return;
    }
    if (kind(0) == "dyn" && chain.size() == 1) return add(dyn(0));
    if (kind(0) == "dyn" && kind(1) == "dyn") return add(dyn(0) | dyn(1));
    if constexpr (std::is_same_v<e_t, int> || std::is_same_v<e_t, uint8_t>)
    {
        if (kind(0) == "range" && kind(1) == "dyn") return add(sharg::arithmetic_range_validator{uncanon<e_t>(args(0)[0]), uncanon<e_t>(args(0)[1])} | dyn(1));
        if (kind(0) == "range") return add(sharg::arithmetic_range_validator{uncanon<e_t>(args(0)[0]), uncanon<e_t>(args(0)[1])});
    }
    if constexpr (std::is_same_v<e_t, int> || std::is_same_v<e_t, uint8_t> || std::is_same_v<e_t, std::string>)
        if (kind(0) == "oneof")
        {
            std::vector<e_t> vals;
            for (auto & x : args(0)) vals.push_back(uncanon<e_t>(x));
            return add(sharg::value_list_validator<e_t>{vals});
        }
    if constexpr (std::is_same_v<e_t, std::string>)
        if (kind(0) == "regex") return add(sharg::regex_validator{args(0)[0]});
    if constexpr (std::is_same_v<e_t, std::filesystem::path>)
    {
        using o = sharg::output_file_open_options;
        if (kind(0) == "infile") return add(sharg::input_file_validator{args(0)});
        if (kind(0) == "outnew") return add(sharg::output_file_validator{o::create_new, args(0)});
        if (kind(0) == "outany") return add(sharg::output_file_validator{o::open_or_create, args(0)});
        if (kind(0) == "indir") return add(sharg::input_directory_validator{});
        if (kind(0) == "outdir") return add(sharg::output_directory_validator{});
    }
    throw std::logic_error{"h_help: unsupported chain"};
}

static void add_option(sharg::parser & p, json const & j, bool positional)
{
    std::string const t = j["type"].s + (j["list"].truthy() ? "[]" : "");
#define VH_TYPE(name, type) if (t == name) return add_typed<type>(p, j, positional);
    VH_TYPE("i8", int8_t) VH_TYPE("u8", uint8_t) VH_TYPE("i16", int16_t) VH_TYPE("u16", uint16_t) VH_TYPE("i32", int32_t) VH_TYPE("u32", uint32_t)
    VH_TYPE("i64", int64_t) VH_TYPE("u64", uint64_t) VH_TYPE("f64", double) VH_TYPE("f32", float) VH_TYPE("bool", bool) VH_TYPE("str", std::string)
    VH_TYPE("path", std::filesystem::path) VH_TYPE("enum", colour)
    VH_TYPE("i8[]", std::vector<int8_t>) VH_TYPE("u8[]", std::vector<uint8_t>) VH_TYPE("i32[]", std::vector<int32_t>) VH_TYPE("u64[]", std::vector<uint64_t>) VH_TYPE("f64[]", std::vector<double>)
    VH_TYPE("str[]", std::vector<std::string>) VH_TYPE("path[]", std::vector<std::filesystem::path>) VH_TYPE("enum[]", std::vector<colour>) VH_TYPE("bool[]", std::vector<bool>)
#undef VH_TYPE
    throw std::logic_error{"h_help: unknown type " + t};
}

static void declare(sharg::parser & p, json const & in)
{
    auto const & m = in["meta"];
    p.info.version = m["version"].s;
    p.info.short_description = m["short"].s;
    p.info.author = m["author"].s;
    p.info.email = m["email"].s;
    p.info.date = m["date"].s;
    p.info.url = m["url"].s;
    p.info.short_copyright = m["short_copyright"].s;
    p.info.long_copyright = m["long_copyright"].s;
    p.info.citation = m["citation"].s;
    p.info.man_page_title = m["man_title"].s;
    p.info.man_page_section = static_cast<unsigned>(m["man_section"].n);
    p.info.description = m["description"].strs();
    p.info.synopsis = m["synopsis"].strs();
    p.info.examples = m["examples"].strs();
    size_t next = 0; // positional options are declared in between
    auto const & elems = in["elems"];
    for (size_t i = 0; i < elems.size(); ++i)
    {
        if (next < in["pos"].size() && (i * 7) % 3 == 0) add_option(p, in["pos"].at(next++), true);
        auto const & e = elems.at(i);
        std::string const k = e["e"].s, sid = e["short"].s;
        if (k == "option") add_option(p, e, false);
        else if (k == "flag")
        {
            auto v = std::make_shared<bool>(false);
            storage.push_back(v);
            p.add_flag(*v, sharg::config{.short_id = sid.empty() ? '\0' : sid[0], .long_id = e["long"].s, .description = e["desc"].s, .advanced = e["adv"].truthy(),
                                         .hidden = e["hid"].truthy(), .required = e["req"].truthy()});
        }
        else if (k == "section") p.add_section(e["t"].s, e["adv"].truthy());
        else if (k == "subsection") p.add_subsection(e["t"].s, e["adv"].truthy());
        else if (k == "line") p.add_line(e["t"].s, e["par"].truthy(), e["adv"].truthy());
        else p.add_list_item(e["t"].s, e["desc"].s, e["adv"].truthy());
    }
    while (next < in["pos"].size()) add_option(p, in["pos"].at(next++), true);
}

// The subcommands in the reverse order, the first twice.
static std::vector<std::string> subcommands(json const & in)
{
    auto r = in["subs"].strs();
    std::reverse(r.begin(), r.end());
    if (!r.empty()) r.push_back(r.front());
    return r;
}

static json run_case(json const & c)
{
    json r = json::obj();
    storage.clear();
    auto const & in = c["in"];
    fake_width = static_cast<int>(in["width"].n);
    fake_tty = in["tty"].truthy();
    auto const updates = in["updates"].truthy() ? sharg::update_notifications::on : sharg::update_notifications::off;
    try
    {
        auto argv = c["argv"].strs();
        if (c["through"].truthy()) // the page of a sub-parser called like the application
        {
            auto const exe = in["exe"].strs();
            std::string app = in["meta"]["app"].s;
            for (size_t i = 1; i < exe.size(); ++i) app.resize(app.size() - exe[i].size() - 1);
            argv.insert(argv.begin(), exe.begin(), exe.end());
            sharg::parser top{app, argv, sharg::update_notifications::on, {"other", exe[1]}};
            top.info.short_description = "not this one";
            sharg::parser * p = &top;
            for (size_t i = 1; i < exe.size(); ++i)
            {
                if (i > 1) p->add_subcommands({exe[i], "zzz"});
                p->parse();
                p = &p->get_sub_parser();
            }
            if (in["subs"].size()) p->add_subcommands(subcommands(in));
            declare(*p, in);
            p->parse();
        }
        else
        {
            argv.insert(argv.begin(), "/usr/bin/program");
            sharg::parser p{in["meta"]["app"].s, argv, updates, subcommands(in)};
            declare(p, in);
            if (c["move"].truthy()) { sharg::parser q{std::move(p)}; q.parse(); }
            else p.parse();
        }
        r.set("result", "returned");
    }
    catch (std::exception const & e)
    {
        r.set("result", "threw").set("what", e.what());
    }
    return r;
}

int main(int argc, char ** argv) { return vh::supervise(vh::options(argc, argv), run_case); }
