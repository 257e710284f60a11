// How parse() ends, whatever the arguments and the environment are.
// case: {"prog": name, "argv": [...], "rep": [[index, count]...], "updates": bool, "close": [fd...], "tty": bool, "answer": "..."}
// "rep": argument `index` is repeated that many times (as a text); "many": the arguments are repeated.
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <cstdarg>
#include "cells.hpp"

using vh::json;
static bool fake_tty{};
static int fake_width{};

extern "C"
{
int isatty(int) noexcept { if (fake_tty) return 1; errno = ENOTTY; return 0; }
int ioctl(int fd, unsigned long request, ...) noexcept
{
    va_list ap;
    va_start(ap, request);
    void * const arg = va_arg(ap, void *);
    va_end(ap);
    if (request != TIOCGWINSZ) return static_cast<int>(syscall(SYS_ioctl, fd, request, arg));
    if (!fake_tty) { errno = ENOTTY; return -1; }
    *static_cast<winsize *>(arg) = winsize{0, static_cast<unsigned short>(fake_width), 0, 0};
    return 0;
}
int system(char const *) { return 32512; } // no shell
}

struct vars
{
    int8_t i8{}; uint8_t u8{}; int16_t i16{}; uint16_t u16{}; int32_t i32{}; uint32_t u32{}; int64_t i64{}; uint64_t u64{}; double f64{}; float f32{};
    bool b{}; std::string s{}; std::filesystem::path p{}; colour c{}; word w{}; char ch{'x'};
    std::vector<int8_t> li8{}; std::vector<std::string> ls{}; std::vector<std::filesystem::path> lp{}; std::vector<double> lf{}; std::vector<bool> lb{};
    std::vector<word> lw{}; std::vector<colour> lc{};
    std::vector<std::unique_ptr<std::string>> ss{};
    std::vector<std::unique_ptr<std::filesystem::path>> ps{};
    std::array<bool, 8> f{};
    std::string & str() { ss.push_back(std::make_unique<std::string>()); return *ss.back(); }
    std::filesystem::path & path() { ps.push_back(std::make_unique<std::filesystem::path>()); return *ps.back(); }
};

static void plain(sharg::parser & p, vars & v)
{
    p.add_option(v.i32, sharg::config{.short_id = 'i', .long_id = "int", .description = "An integer."});
    p.add_option(v.s, sharg::config{.short_id = 's', .long_id = "string"});
    p.add_option(v.ls, sharg::config{.short_id = 'l', .long_id = "list"});
    p.add_flag(v.f[0], sharg::config{.short_id = 'f', .long_id = "flag"});
    p.add_flag(v.f[1], sharg::config{.short_id = 'g', .advanced = true});
    p.add_positional_option(v.p, sharg::config{.description = "A file."});
    p.add_positional_option(v.lw, sharg::config{.description = "Words."});
}

static void types(sharg::parser & p, vars & v)
{
    p.add_option(v.i8, sharg::config{.short_id = 'a', .long_id = "i8"});
    p.add_option(v.u8, sharg::config{.short_id = 'b', .long_id = "u8"});
    p.add_option(v.i16, sharg::config{.short_id = 'c', .long_id = "i16"});
    p.add_option(v.u16, sharg::config{.short_id = 'd', .long_id = "u16"});
    p.add_option(v.i32, sharg::config{.short_id = 'e', .long_id = "i32"});
    p.add_option(v.u32, sharg::config{.short_id = 'i', .long_id = "u32"});
    p.add_option(v.i64, sharg::config{.short_id = 'j', .long_id = "i64"});
    p.add_option(v.u64, sharg::config{.short_id = 'k', .long_id = "u64"});
    p.add_option(v.f64, sharg::config{.short_id = 'm', .long_id = "f64"});
    p.add_option(v.f32, sharg::config{.short_id = 'n', .long_id = "f32"});
    p.add_option(v.b, sharg::config{.short_id = 'o', .long_id = "bool"});
    p.add_option(v.c, sharg::config{.short_id = 'q', .long_id = "enum"});
    p.add_option(v.w, sharg::config{.short_id = 'w', .long_id = "word"});
    p.add_option(v.ch, sharg::config{.short_id = 'x', .long_id = "char"});
    p.add_option(v.li8, sharg::config{.short_id = 'A', .long_id = "li8"});
    p.add_option(v.lf, sharg::config{.short_id = 'B', .long_id = "lf64"});
    p.add_option(v.lb, sharg::config{.short_id = 'C', .long_id = "lbool"});
    p.add_option(v.lc, sharg::config{.short_id = 'D', .long_id = "lenum"});
    p.add_flag(v.f[0], sharg::config{.short_id = 'f', .long_id = "flag"});
    p.add_positional_option(v.lp, sharg::config{});
}

static void validated(sharg::parser & p, vars & v)
{
    using o = sharg::output_file_open_options;
    std::vector<std::string> const exts{"fa", "fa.gz", ""};
    p.add_option(v.path(), sharg::config{.short_id = 'a', .long_id = "in", .validator = sharg::input_file_validator{}});
    p.add_option(v.path(), sharg::config{.short_id = 'b', .long_id = "in-ext", .validator = sharg::input_file_validator{{"fa", "fa.gz"}}});
    p.add_option(v.path(), sharg::config{.short_id = 'c', .long_id = "out", .validator = sharg::output_file_validator{o::create_new, {}}});
    p.add_option(v.path(), sharg::config{.short_id = 'd', .long_id = "out-ext", .validator = sharg::output_file_validator{o::open_or_create, {"fa", "x"}}});
    p.add_option(v.path(), sharg::config{.short_id = 'e', .long_id = "in-dir", .validator = sharg::input_directory_validator{}});
    p.add_option(v.path(), sharg::config{.short_id = 'i', .long_id = "out-dir", .validator = sharg::output_directory_validator{}});
    p.add_option(v.lp, sharg::config{.short_id = 'j', .long_id = "ins", .validator = sharg::input_file_validator{{"fa"}}});
    p.add_option(v.i8, sharg::config{.short_id = 'k', .long_id = "range", .validator = sharg::arithmetic_range_validator{int8_t{-5}, int8_t{5}}});
    p.add_option(v.lf, sharg::config{.short_id = 'm', .long_id = "ranges", .validator = sharg::arithmetic_range_validator{-5.0, 5.0}});
    p.add_option(v.str(), sharg::config{.short_id = 'n', .long_id = "one", .validator = sharg::value_list_validator{"x", "\xff"}});
    p.add_option(v.str(), sharg::config{.short_id = 'r', .long_id = "regex", .validator = sharg::regex_validator{"[a-z]+(x|y)*"}});
    p.add_option(v.ls, sharg::config{.short_id = 's', .long_id = "regexes", .validator = sharg::regex_validator{"a?.*"} | sharg::regex_validator{"[^z]*"}});
    p.add_positional_option(v.path(), sharg::config{.validator = sharg::output_file_validator{o::open_or_create} | sharg::regex_validator{".*[a-y]"}});
}

static void fill(sharg::parser & p, vars & v, std::string const & prog)
{
    p.info.version = "1.0.0";
    p.info.synopsis = {"app <x>"};
    p.info.short_copyright = "me";
    if (prog == "plain") plain(p, v);
    else if (prog == "types") types(p, v);
    else if (prog == "validated") validated(p, v);
}

static json run_case(json const & c)
{
    json r = json::obj();
    vars v, w;
    std::vector<std::string> argv{"/usr/bin/program"}, given = c["argv"].strs();
    for (size_t i = 0; i < c["rep"].size(); ++i)
    {
        auto & t = given.at(static_cast<size_t>(c["rep"].at(i).at(0).n));
        std::string const once = t;
        t.clear();
        for (long long k = 0; k < c["rep"].at(i).at(1).n; ++k) t += once;
    }
    for (long long k = 0; k < std::max(1LL, c["many"].n); ++k) argv.insert(argv.end(), given.begin(), given.end());
    fake_tty = c["tty"].truthy();
    fake_width = static_cast<int>(c["width"].n);
    std::string const prog = c["prog"].s;
    auto const updates = c["updates"].truthy() ? sharg::update_notifications::on : sharg::update_notifications::off;
    std::istringstream answer{c["answer"].s};
    auto * const cin_buf = std::cin.rdbuf(answer.rdbuf());
    std::cin.clear();
    std::vector<std::pair<int, int>> saved;
    for (size_t i = 0; i < c["close"].size(); ++i)
    {
        int const fd = static_cast<int>(c["close"].at(i).n);
        saved.emplace_back(fd, fcntl(fd, F_DUPFD_CLOEXEC, 100));
        close(fd);
    }
    auto restore = [&] { for (auto [fd, copy] : saved) { dup2(copy, fd); close(copy); } saved.clear(); std::cin.rdbuf(cin_buf); std::cout.clear(); std::cerr.clear(); };
    std::string kind = "ok", cls, msg;
    try
    {
        bool const subs = prog == "subs";
        sharg::parser p{"app", argv, updates, subs ? std::vector<std::string>{"run", "-x", "build"} : std::vector<std::string>{}};
        fill(p, v, prog);
        if (subs) { p.add_option(v.s, sharg::config{.short_id = 's', .long_id = "string"}); p.add_flag(v.f[0], sharg::config{.short_id = 'f'}); }
        p.parse();
        sharg::parser * sub{};
        if (subs)
        {
            try { sub = &p.get_sub_parser(); }
            catch (sharg::design_error const &) {} // no subcommand was given
        }
        if (sub)
        {
            sharg::parser & q = *sub;
            fill(q, w, q.info.app_name == "app-run" ? "plain" : q.info.app_name == "app-build" ? "types" : "nothing");
            q.parse();
        }
    }
    catch (std::exception const & e)
    {
        kind = "err";
        msg = e.what();
#define VH_CLASS(x) if (typeid(e) == typeid(sharg::x)) cls = #x
        VH_CLASS(unknown_option); VH_CLASS(too_many_arguments); VH_CLASS(too_few_arguments); VH_CLASS(required_option_missing);
        VH_CLASS(option_declared_multiple_times); VH_CLASS(user_input_error); VH_CLASS(validation_error); VH_CLASS(design_error); VH_CLASS(parser_error);
        if (cls.empty()) cls = std::string{"foreign: "} + typeid(e).name();
    }
    catch (...) { kind = "err"; cls = "foreign"; msg = "?"; }
    restore();
    r.set("kind", kind).set("class", cls).set("message", msg.substr(0, 300));
    return r;
}

int main(int argc, char ** argv) { return vh::supervise(vh::options(argc, argv), run_case); }
