import os,subprocess,sys,json
R='/tmp/s/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def seed(id, prop, edits, demo, needs, what, flags='', user=False, extra={}):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    sh('git checkout -q -- .; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD',cwd=R)
    for f,old,new in edits:
        p=f'{R}/include/sharg/{f}'; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git diff',cwd=R).stdout)
    sh('git checkout -q -- .',cwd=R)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(extra.get('demo.sh') or f'''#!/bin/bash
# exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME=$tmp SHARG_NO_VERSION_CHECK=1
g++ -std=c++20 {flags} -I "$PWD/include" "$here/demo.cpp" -o "$tmp/demo" -lpthread || exit 3
cd "$tmp"
./demo
''')
    for k,v in extra.items():
        if k!='demo.sh': open(d+'/'+k,'w').write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
    print('wrote',id)
HEAD='''#include <sharg/all.hpp>
#include <iostream>
using args = std::vector<std::string>;
static int fail(char const * m) { std::cerr << m << '\\n'; return 1; }
'''
FP='detail/format_parse.hpp'
seed('eq-in-value','C01',[(FP,"input_value = (*option_it).substr(id_size + 1);","input_value = (*option_it).substr((*option_it).rfind('=') + 1);")],
HEAD+'''int main()
{
    std::string v{};
    sharg::parser p{"app", args{"app", "--define=NAME=value"}, sharg::update_notifications::off};
    p.add_option(v, sharg::config{.short_id = 'D', .long_id = "define"});
    p.parse();
    return v == "NAME=value" ? 0 : fail(v.c_str());
}
''','an option written as --id=value or -i=value whose value contains another equal sign','the value is cut at its last equal sign')
seed('numeric-positional','C02',[(FP,"""                if (arg == "-")
                {""","""                if (arg == "-" || (arg.size() > 2 && arg.find_last_not_of("0123456789") == 0)) // e.g. a negative number
                {""")],
HEAD+'''int main()
{
    int v{};
    bool f{};
    sharg::parser p{"app", args{"app", "-12"}, sharg::update_notifications::off};
    p.add_flag(f, sharg::config{.short_id = 'f'});
    p.add_positional_option(v, sharg::config{});
    try { p.parse(); } catch (sharg::unknown_option const &) { return 0; } catch (...) { return fail("wrong error"); }
    return fail("an unknown flag was taken as positional argument");
}
''','an undeclared short identifier that is a digit, in front of --','unknown numeric flags are taken as positional values instead of unknown_option')
seed('sub-inherits-updates','C13',[('parser.hpp','''                                                      update_notifications::off);

                // Add the original''','''                                                      version_check_dev_decision);

                // Add the original''')],
HEAD.replace('#include <iostream>','#include <iostream>\n#include <filesystem>')+'''int main()
{
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (!freopen("/dev/null", "r", stdin)) return fail("no /dev/null");
    bool f{};
    sharg::parser p{"app", args{"app", "sub", "-f"}, sharg::update_notifications::on, {"sub"}};
    p.parse();
    sharg::parser & s = p.get_sub_parser();
    s.add_flag(f, sharg::config{.short_id = 'f'});
    s.parse();
    int n{};
    for (auto const & e : std::filesystem::directory_iterator{std::string{std::getenv("HOME")} + "/.config/seqan"}) n += e.path().extension() == ".timestamp";
    return f && n == 1 ? 0 : fail("the sub-parser looked for updates, too");
}
''', 'a program with subcommands and updates enabled: the run of the sub-parser','the sub-parser performs a version check of its own')
seed('flags-with-options','C06',[(FP,"""        flag_calls.push_back(
            [this, &value, config]()""","""        option_calls.push_back(
            [this, &value, config]()""")],
HEAD+'''int main()
{
    for (int order : {0, 1})
    {
        bool f{};
        std::string o{};
        sharg::parser p{"app", args{"app", "-ofoo"}, sharg::update_notifications::off};
        if (order == 0) p.add_flag(f, sharg::config{.short_id = 'f'});
        p.add_option(o, sharg::config{.short_id = 'o'});
        if (order == 1) p.add_flag(f, sharg::config{.short_id = 'f'});
        p.parse();
        if (f || o != "foo") return fail("the order of declarations matters");
    }
}
''','a flag declared before an option whose attached value contains the letter of the flag','the flag is found inside the value of the option')
seed('user-type-tail','C10',[(FP,"if (stream.fail() || !stream.eof())","if (stream.fail())")],
HEAD+'''struct word { std::string s; bool operator==(word const &) const = default; };
std::istream & operator>>(std::istream & i, word & w) { return i >> w.s; }
std::ostream & operator<<(std::ostream & o, word const & w) { return o << w.s; }
int main()
{
    word v{};
    sharg::parser p{"app", args{"app", "-w", "two words"}, sharg::update_notifications::off};
    p.add_option(v, sharg::config{.short_id = 'w'});
    try { p.parse(); } catch (sharg::user_input_error const &) { return 0; }
    return fail("the value was truncated");
}
''','an option of a user-defined streamable type with a token that the stream operator does not consume completely','the rest of the token is silently dropped')
seed('long-prefix','C12',[(FP,"|| current_arg[full_id.size()] == '=')","|| current_arg[full_id.size()] == '=' || current_arg[full_id.size()] == '@')")],
HEAD+'''int main()
{
    std::string a{}, b{};
    sharg::parser p{"app", args{"app", "--in@file=x"}, sharg::update_notifications::off};
    p.add_option(a, sharg::config{.long_id = "in@file"});
    p.add_option(b, sharg::config{.long_id = "in"});
    p.parse();
    return a == "x" && b == "" && !p.is_option_set("in") && p.is_option_set("in@file") ? 0 : fail("--in was not given");
}
''','two long identifiers of which one is the other followed by an at sign','the shorter identifier is found in the longer one')
seed('hidden-multi-ext','C17',[('validators.hpp',"""        // Leading dot indicates a hidden file is not part of the extension.
        if (file_path.front() == '.')
            file_path.erase(0, 1);
""","")],
HEAD+'''#include <fstream>
int main()
{
    std::ofstream{".tar.gz"} << "x";
    try { sharg::input_file_validator{std::vector<std::string>{"tar.gz"}}(std::filesystem::path{".tar.gz"}); } catch (sharg::validation_error const &) { return 0; }
    return fail("a hidden file without that extension was accepted");
}
''','a hidden file whose name is exactly a multi-part extension','the leading dot of the hidden file is taken for the dot of the extension')
seed('reparse-after-error','C22',[('parser.hpp',"""        parse_was_called = true;

        // User input""","""        // User input"""),('parser.hpp',"""        // Exit after parsing any special format.""","""        parse_was_called = true;

        // Exit after parsing any special format.""")],
HEAD+'''int main()
{
    int v{};
    sharg::parser p{"app", args{"app", "-i", "x"}, sharg::update_notifications::off};
    p.add_option(v, sharg::config{.short_id = 'i'});
    try { p.parse(); return fail("no error"); } catch (sharg::user_input_error const &) {}
    try { p.parse(); } catch (sharg::design_error const &) { return 0; } catch (...) {}
    return fail("parse() could be called again");
}
''','a call of parse() that throws, followed by another call of parse() or add_*','a failed parser can be parsed and extended again')
seed('odd-first-char','C09',[('parser.hpp',"if (!std::ranges::all_of(long_id, is_valid))","if (!std::all_of(long_id.begin() + 1, long_id.end(), is_valid)) // the first one was checked above")],
HEAD+'''int main()
{
    int v{};
    sharg::parser p{"app", args{"app"}, sharg::update_notifications::off};
    try { p.add_option(v, sharg::config{.long_id = "=long"}); } catch (sharg::design_error const &) { return 0; }
    return fail("invalid identifier accepted");
}
''','a long identifier whose only invalid character is the first one and not a dash','the identifier is accepted')
seed('list-dash','C05',[(FP,"""                it = std::find_if(it,
                                  arguments.end(),
                                  [](std::string const & s)
                                  {
                                      return (s != "");""","""                it = std::find_if(it,
                                  arguments.end(),
                                  [](std::string const & s)
                                  {
                                      return (s != "" && s != "-");""")],
HEAD+'''int main()
{
    std::vector<std::string> v{"9"};
    sharg::parser p{"app", args{"app", "a", "-", "b"}, sharg::update_notifications::off};
    p.add_positional_option(v, sharg::config{});
    p.parse();
    return v == args{"a", "-", "b"} ? 0 : fail("values are missing");
}
''','a single dash as second or later value of a positional list','the value is skipped and reported as a surplus argument')
seed('chain-skips','C11',[('validators.hpp',"""        vali1(cmp);
        vali2(cmp);""","""        vali2(cmp);
        vali1(cmp);""")],
HEAD+'''static std::string log;
struct v1 { using option_value_type = std::string; char c{}; v1() = default; v1(char x) : c{x} {} void operator()(std::string const &) const { log += c; } std::string get_help_page_message() const { return ""; } };
int main()
{
    std::string v{};
    sharg::parser p{"app", args{"app", "-s", "x"}, sharg::update_notifications::off};
    p.add_option(v, sharg::config{.short_id = 's', .validator = sharg::operator|(sharg::operator|(v1{'a'}, v1{'b'}), v1{'c'})});
    p.parse();
    return log == "abc" ? 0 : fail(log.c_str());
}
''','a chain of validators of which several reject or have effects','validators run in the opposite order')
VC='detail/version_check.hpp'
FS=HEAD.replace('#include <iostream>','#include <iostream>\n#include <filesystem>\n#include <fstream>\n#include <chrono>\n#include <sys/wait.h>\n#include <unistd.h>')+'''namespace fs = std::filesystem;
'''
COOKIE='''static std::string home() { return std::getenv("HOME"); }
static fs::path dir() { return fs::path{home()} / ".config" / "seqan"; }
#ifdef NDEBUG
static fs::path cookie() { return dir() / "app_usr.timestamp"; }
#else
static fs::path cookie() { return dir() / "app_dev.timestamp"; }
#endif
static std::string read(fs::path const & p) { std::ifstream f{p}; return {std::istreambuf_iterator<char>{f}, {}}; }
static long now() { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }
static void run(std::string version = "1.2.3")
{
    bool f{};
    sharg::parser p{"app", args{"app", "-f"}, sharg::update_notifications::on};
    p.info.version = version;
    p.add_flag(f, sharg::config{.short_id = 'f'});
    p.parse();
}
'''
seed('env-empty','C13',[(VC,'''        if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set''','''        if (char const * const veto = std::getenv("SHARG_NO_VERSION_CHECK"); veto != nullptr && *veto != '\\0')''')],
FS+COOKIE+'''int main()
{
    setenv("SHARG_NO_VERSION_CHECK", "", 1);
    if (!freopen("/dev/null", "r", stdin)) return fail("no /dev/null");
    run();
    return fs::exists(cookie()) ? fail("the environment variable was ignored") : 0;
}
''','SHARG_NO_VERSION_CHECK set to the empty string','the veto of the environment is ignored')
seed('float-time','C14',[(VC,"        double d_time{};","        float d_time{};")],
FS+COOKIE+'''int main()
{
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (!freopen("/dev/null", "r", stdin)) return fail("no /dev/null");
    run();
    for (long age = 86300; age < 86390; age += 5)
    {
        std::string const text = std::to_string(now() - age) + "\\nASK";
        std::ofstream{cookie()} << text;
        run();
        if (read(cookie()) != text) return fail("the cookie was renewed within the day");
    }
}
''','a cookie that is nearly a day old (up to two minutes less)','the time stamp is rounded to 128 seconds and the day ends too early')
seed('ask-cookie-late','C14',[(VC,'''        write_cookie("ASK"); // Ask again next time when we read the cookie, if this is not overwritten.

''',''),(VC,'''            case 'y':
            {
                return true;''','''            case 'y':
            {
                write_cookie("ASK"); // Ask again next time when we read the cookie.
                return true;'''),(VC,'''        else // of: if (detail::stdin_is_terminal() && detail::stderr_is_terminal())
        {
''','''        else // of: if (detail::stdin_is_terminal() && detail::stderr_is_terminal())
        {
            write_cookie("ASK"); // Ask again next time when we read the cookie.
''')],
FS+COOKIE+'''#include <pty.h>
static std::string session()
{
    int fd{};
    pid_t const pid = forkpty(&fd, nullptr, nullptr, nullptr);
    if (pid == 0) { run(); _exit(0); }
    std::string out{};
    char buffer[4096];
    if (write(fd, "s\\n", 2) != 2) return "?";
    for (ssize_t n; (n = read(fd, buffer, sizeof buffer)) > 0;) out.append(buffer, n);
    waitpid(pid, nullptr, 0);
    return out;
}
int main()
{
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (session().find("[s] Skip") == std::string::npos) return fail("not asked at all");
    return session().find("[s] Skip") == std::string::npos ? 0 : fail("asked twice on the same day");
}
''','two runs on a terminal on the same day, the first answered with s','no cookie is written when the user skips the check; the question comes again at the next run',flags='-lutil')
seed('zero-major','C16',[(VC,"        if (srv_app_version != empty_version) // app version","        if (srv_app_version[0] != empty_version[0]) // app version")],
FS+COOKIE+'''int main()
{
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (!freopen("/dev/null", "r", stdin)) return fail("no /dev/null");
    fs::create_directories(dir());
    std::ofstream{dir() / "app.version"} << "0.9.0\\n0.0.1\\n";
    std::string const err{home() + "/err"};
    if (!freopen(err.c_str(), "w", stderr)) return 3;
    bool f{};
    {
        sharg::parser p{"app", args{"app", "-f", "--version-check", "1"}, sharg::update_notifications::on};
        p.info.version = "0.8.1";
        p.add_flag(f, sharg::config{.short_id = 'f'});
        p.parse();
    }
    return read(err).find("A new version of this application") != std::string::npos ? 0 : 1;
}
''','a server answer with major version 0, release build','updates of applications before 1.0.0 are never announced',flags='-DNDEBUG')
seed('creates-home','C23',[(VC,'''            tmp_path /= ".config";

            // First, create .config if it does not already exist.
            create_directory(tmp_path, err);''','''            tmp_path /= ".config";

            // First, create .config if it does not already exist.
            create_directories(tmp_path, err);''')],
FS+COOKIE+'''int main()
{
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (!freopen("/dev/null", "r", stdin)) return fail("no /dev/null");
    std::string const old = home();
    setenv("HOME", (old + "/gone/user").c_str(), 1);
    setenv("TMPDIR", old.c_str(), 1);
    run();
    return fs::exists(old + "/gone") ? fail("a missing home directory was created") : 0;
}
''','a home directory that does not exist (e.g. of a service account)','the home directory and its parents are created')
seed('copyright-first','C07',[('parser.hpp',"""                format = detail::format_copyright{};
""","""                format = detail::format_copyright{};
                break;
""")],
HEAD+'''#include <sys/wait.h>
#include <unistd.h>
int main()
{
    int fd[2];
    if (pipe(fd)) return 3;
    if (fork() == 0)
    {
        dup2(fd[1], 1);
        sharg::parser p{"app", args{"app", "--copyright", "--version"}, sharg::update_notifications::off};
        p.parse();
        _exit(9);
    }
    close(fd[1]);
    std::string out{};
    char b[512];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) out.append(b, n);
    int st{};
    wait(&st);
    return st == 0 && out.find("app version:") != std::string::npos && out.find("Redistribution") == std::string::npos ? 0 : fail(out.c_str());
}
''','--copyright followed by another special option','the first one wins (and later mistakes in special options go unnoticed)')
seed('long-id-unregistered','C08',[('parser.hpp','''        if (!config.long_id.empty())
            options.emplace(std::string{"--"} + config.long_id);''','''        else
            options.emplace(std::string{"--"} + config.long_id);''')],
HEAD+'''int main()
{
    std::string v{};
    bool f{};
    sharg::parser p{"app", args{"app", "--name", "sub", "sub", "-f"}, sharg::update_notifications::off, {"sub"}};
    p.add_option(v, sharg::config{.short_id = 'n', .long_id = "name"});
    try
    {
        p.parse();
        sharg::parser & s = p.get_sub_parser();
        s.add_flag(f, sharg::config{.short_id = 'f'});
        s.parse();
    }
    catch (sharg::parser_error const & e) { return fail(e.what()); }
    return v == "sub" && f ? 0 : fail("wrong values");
}
''','an option with short and long identifier whose value, behind the long one, equals a subcommand','the value is taken for the subcommand')
seed('long-flag-behind','C03',[(FP,"auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));","auto it = std::find(arguments.begin(), arguments.end(), prepend_dash(long_id));")],
HEAD+'''int main()
{
    bool f{};
    std::vector<std::string> v{};
    sharg::parser p{"app", args{"app", "--", "x", "--force"}, sharg::update_notifications::off};
    p.add_flag(f, sharg::config{.long_id = "force"});
    p.add_positional_option(v, sharg::config{});
    p.parse();
    return !f && v == args{"x", "--force"} ? 0 : fail("the argument behind -- was altered");
}
''','an argument behind -- that equals the long identifier of a flag','the argument sets the flag or disappears')
seed('cluster-repeat','C04',[(FP,"arg.erase(pos, 1); // remove seen bool","std::erase(arg, short_id); // remove seen bool")],
HEAD+'''int main()
{
    bool v{}, q{};
    sharg::parser p{"app", args{"app", "-vqv"}, sharg::update_notifications::off};
    p.add_flag(v, sharg::config{.short_id = 'v'});
    p.add_flag(q, sharg::config{.short_id = 'q'});
    try { p.parse(); } catch (sharg::unknown_option const &) { return 0; }
    return fail("a flag given twice was accepted");
}
''','a cluster that contains the same flag twice','the repetition is silently accepted')
seed('version-suffix','C15',[(VC,"version = versionMatch.str(1); // in case","version = versionMatch.str(0); // in case")],
FS+COOKIE+'''int main()
{
    unsetenv("SHARG_NO_VERSION_CHECK");
    sharg::detail::version_checker c{"app", "1.2.3;touch x", ""};
    return c.version == "1.2.3" ? 0 : fail(c.version.c_str());
}
''','a version string with text behind the three numbers','everything behind the version number reaches the shell, too')
seed('empty-dir-removed','C18',[('validators.hpp',"            if (!dir_exists)\n","            if (!dir_exists || std::filesystem::is_empty(dir))\n")],
FS+'''int main()
{
    fs::create_directory("out");
    sharg::output_directory_validator{}(fs::path{"out"});
    return fs::exists("out") ? 0 : fail("the directory was removed");
}
''','an output directory that exists and is empty','the directory is removed')
seed('special-file','C17',[('validators.hpp',"(open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))","(open_mode == output_file_open_options::create_new) && std::filesystem::is_regular_file(file))")],
FS+'''int main()
{
    try { sharg::output_file_validator{sharg::output_file_open_options::create_new}(fs::path{"/dev/null"}); } catch (sharg::validation_error const &) { return 0; }
    return fail("an existing file was accepted");
}
''','an existing file that is no regular file, e.g. a device','create_new accepts it')
seed('legal-email','C19',[('detail/format_base.hpp','''            || (!empty(meta.author)) || (!empty(meta.email)))''','''            || (!empty(meta.author)))''')],
HEAD+'''#include <sstream>
int main()
{
    sharg::detail::format_html f{};
    sharg::parser_meta_data m{};
    m.app_name = "app";
    m.email = "a@b.c";
    std::stringstream s{};
    auto old = std::cout.rdbuf(s.rdbuf());
    f.parse(m);
    std::cout.rdbuf(old);
    return s.str().find("a@b.c") != std::string::npos ? 0 : fail("the contact is missing");
}
''','meta data with an email but no author, copyright or citation','the contact and the whole legal section are missing')
seed('escape-entities','C20',[('detail/format_base.hpp',"            else if (c == '&')","            else if (c == '&' && original.find(';') == std::string::npos) // do not escape entities again")],
HEAD+'''#include <sstream>
int main()
{
    sharg::detail::format_html f{};
    sharg::parser_meta_data m{};
    m.app_name = "app";
    m.description = {"write &lt; as <; it is the same"};
    std::stringstream s{};
    auto old = std::cout.rdbuf(s.rdbuf());
    f.parse(m);
    std::cout.rdbuf(old);
    return s.str().find("write &amp;lt; as &lt;; it") != std::string::npos ? 0 : fail("the text was changed");
}
''','a text with an ampersand and a semicolon','the ampersand is not escaped; "&lt;" is shown as "<"')
seed('regex-subcommand','C21',[('parser.hpp','''                    std::string message = "You specified an unknown subcommand! Available subcommands are: [";''','''                    std::string message = std::regex_match(std::string{arg}, app_name_regex) ? "You specified an unknown" : "You specified an invalid";
                    message += " subcommand! Available subcommands are: [";''')],
HEAD+'''int main()
{
    sharg::parser p{"app", args{"app", std::string(1000000, 'x')}, sharg::update_notifications::off, {"sub"}};
    try { p.parse(); } catch (sharg::user_input_error const &) { return 0; }
    return fail("no error");
}
''','a very long argument in the place of a subcommand','std::regex_match recurses once per character; the stack overflows')
seed('foreign-validator','C11',[(FP,'''            try
            {
                config.validator(value);
            }
            catch (std::exception & ex)''','''            try
            {
                config.validator(value);
            }
            catch (std::runtime_error & ex) // base of all exceptions of Sharg''')],
HEAD+'''struct v1 { using option_value_type = std::string; void operator()(std::string const & s) const { (void) s.at(3); } std::string get_help_page_message() const { return ""; } };
int main()
{
    std::string v{};
    sharg::parser p{"app", args{"app", "-s", "x"}, sharg::update_notifications::off};
    p.add_option(v, sharg::config{.short_id = 's', .validator = v1{}});
    try { p.parse(); } catch (sharg::validation_error const &) { return 0; } catch (...) { return fail("foreign exception"); }
    return fail("no error");
}
''','a validator that throws an exception which is no std::runtime_error','the exception leaves parse() as it is instead of as a validation_error')
# ---- third batch
seed('linked-outdir','C18',[('validators.hpp','bool dir_exists = std::filesystem::exists(dir);','bool dir_exists = std::filesystem::symlink_status(dir).type() == std::filesystem::file_type::directory;')],
HEAD+'''int main()
{
    namespace fs = std::filesystem;
    fs::create_directory("w");
    fs::create_directory_symlink("w", "l");
    try { sharg::output_directory_validator{}(fs::path{"l"}); } catch (sharg::validation_error const &) {}
    return fs::is_symlink("l") ? 0 : fail("the link was removed");
}
''','an output directory that is given through a symbolic link','the link is removed')
seed('required-list-default','C19',[('detail/format_base.hpp','info += ((config.required) ? std::string{}','info += ((config.required && !detail::is_container_option<option_type>) ? std::string{}')],
HEAD+'''#include <sstream>
int main()
{
    std::vector<int> v{1, 2};
    sharg::parser p{"app", args{"app", "--export-help=man"}, sharg::update_notifications::off};
    p.add_option(v, sharg::config{.short_id = 'l', .description = "text", .required = true});
    std::ostringstream o;
    std::cout.rdbuf(o.rdbuf());
    static std::ostringstream & out = o;
    std::atexit([] { _Exit(out.str().find("Default") != std::string::npos); });
    try { p.parse(); } catch (...) {}
    return 2;
}
''','a required option that is a list','its help entry shows a default that is never used')

seed('need-at-least','C24',[('detail/format_parse.hpp','std::to_string(positional_option_calls.size())','std::to_string(positional_option_count)')],
HEAD+'''int main()
{
    int a{}, b{}, c{};
    sharg::parser p{"app", args{"app", "1"}, sharg::update_notifications::off};
    p.add_positional_option(a, sharg::config{});
    p.add_positional_option(b, sharg::config{});
    p.add_positional_option(c, sharg::config{});
    try { p.parse(); } catch (sharg::too_few_arguments const & e) { return std::string{e.what()}.find("3") != std::string::npos ? 0 : fail(e.what()); }
    return 2;
}
''','three positional options of which only the first is given','the message says that two are needed')
