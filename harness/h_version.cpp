// Histories of runs of applications that look for updates.  Time, terminals and the shell are replaced by stand-ins:
// nothing is executed and nothing leaves this process.  Compiled twice (with and without NDEBUG).
//   h_version IN OUT DIR SECONDS OTHER     supervisor; OTHER: the executable of the release build
//   h_version --run FILE OUT               a single run
// case: {"nodes": [...], "runs": [...]}; answers: {"runs": [{result, asked, ..., "listing": [...]}]}
#include <atomic>
#include <cstdarg>
#include <dlfcn.h>
#include <semaphore.h>
#include <spawn.h>
#include <sys/syscall.h>
#include <sharg/all.hpp>
#include "fs.hpp"

// ---- stand-ins -------------------------------------------------------------------------------------------------------
static bool pretend{false};
static long fake_now{};
static bool fake_tty[3]{};
static std::string tool, answer_file, answer_text, log_file;
static bool answer_ok{}, slow{}, hang{};
static std::atomic<int> probes{}, probed_ok{}, started{}, finished{};
static sem_t released;

static void record(std::string const & kind, std::string const & what)
{
    json j = json::obj();
    j.set("kind", kind).set("what", what);
    std::string const line = j.str() + "\n";
    int const fd = open(log_file.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (write(fd, line.data(), line.size())) {}
    close(fd);
}

extern "C"
{
int system(char const * command)
{
    if (!pretend) _exit(98);
    if (!command) return 1;
    std::string const c{command};
    if (c.find("--version") != std::string::npos && c.find("://") == std::string::npos)
    {
        ++probes;
        bool const ok = (c.find("wget") != std::string::npos && tool == "wget") || (c.find("curl") != std::string::npos && tool == "curl");
        record("probe", c);
        if (ok) ++probed_ok;
        return ok ? 0 : 32512;
    }
    record("command", c);
    ++started;
    if (hang) for (;;) pause();
    if (slow) while (sem_wait(&released)) {}
    if (answer_ok)
    {
        std::ofstream o{answer_file, std::ios::binary};
        o << answer_text;
    }
    ++finished;
    return answer_ok ? 0 : 1024;
}
FILE * popen(char const * c, char const *) { record("popen", c ? c : ""); errno = ENOSYS; return nullptr; }
int execve(char const * p, char * const *, char * const *) noexcept { record("exec", p); errno = ENOSYS; return -1; }
int execv(char const * p, char * const *) noexcept { record("exec", p); errno = ENOSYS; return -1; }
int execvp(char const * p, char * const *) noexcept { record("exec", p); errno = ENOSYS; return -1; }
int execl(char const * p, char const *, ...) noexcept { record("exec", p); errno = ENOSYS; return -1; }
int execlp(char const * p, char const *, ...) noexcept { record("exec", p); errno = ENOSYS; return -1; }
int posix_spawn(pid_t *, char const * p, posix_spawn_file_actions_t const *, posix_spawnattr_t const *, char * const *, char * const *) noexcept { record("spawn", p); return ENOSYS; }
int posix_spawnp(pid_t *, char const * p, posix_spawn_file_actions_t const *, posix_spawnattr_t const *, char * const *, char * const *) noexcept { record("spawn", p); return ENOSYS; }

int isatty(int fd) noexcept
{
    if (pretend && fd >= 0 && fd <= 2) { if (!fake_tty[fd]) errno = ENOTTY; return fake_tty[fd]; }
    return 0;
}
int clock_gettime(clockid_t id, timespec * ts) noexcept
{
    if (pretend && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = fake_now; ts->tv_nsec = 500000000; return 0; }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
time_t time(time_t * t) noexcept
{
    long r = fake_now;
    if (!pretend) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    if (t) *t = r;
    return r;
}
int gettimeofday(timeval * tv, void *) noexcept
{
    if (pretend) { tv->tv_sec = fake_now; tv->tv_usec = 500000; return 0; }
    return static_cast<int>(syscall(SYS_gettimeofday, tv, nullptr));
}
}

// A program that has decided to send a request gets the time to start doing so, even if it exits.
static void wait_for_request()
{
    auto wait = [](auto && done) { for (int i = 0; i < 3000 && !done(); ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); } };
    if (probed_ok) wait([] { return started > 0; });
    if (started && !slow && !hang) wait([] { return finished > 0; });
}

static std::string class_of(std::exception const & e)
{
#define VH_CLASS(x) if (typeid(e) == typeid(sharg::x)) return #x
    VH_CLASS(unknown_option); VH_CLASS(too_many_arguments); VH_CLASS(too_few_arguments); VH_CLASS(required_option_missing);
    VH_CLASS(option_declared_multiple_times); VH_CLASS(user_input_error); VH_CLASS(validation_error); VH_CLASS(design_error);
    VH_CLASS(parser_error);
    return std::string{"foreign:"} + e.what();
}

static std::string out_path;
static json result;
static double seconds_since(timespec const & t)
{
    timespec n;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &n);
    return double(n.tv_sec - t.tv_sec) + double(n.tv_nsec - t.tv_nsec) / 1e9;
}
static void save()
{
    std::ofstream o{out_path, std::ios::binary};
    o << result.str();
}

static int single(char const * in, char const * out)
{
    json const c = json::parse(vh::slurp(in));
    out_path = out;
    log_file = c["log"].s;
    fake_now = static_cast<long>(c["now"].n);
    fake_tty[0] = c["tin"].truthy();
    fake_tty[1] = c["tout"].truthy();
    fake_tty[2] = c["terr"].truthy();
    tool = c["tool"].s;
    answer_file = c["answer_file"].s;
    answer_ok = c["server"]["ok"].truthy();
    answer_text = c["server"]["text"].s;
    slow = c["slow"].truthy();
    hang = c["hang"].truthy();
    sem_init(&released, 0, 0);
    result = json::obj();
    result.set("result", "exit").set("moved", false);
    alarm(static_cast<unsigned>(c["seconds"].n));
    std::atexit([] { wait_for_request(); save(); });
    pretend = true;

    timespec t0;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    int value{-1};
    bool flag{}, sub_flag{};
    try
    {
        auto args = c["argv"].strs();
        args.insert(args.begin(), "/usr/bin/program");
        auto p = std::make_unique<sharg::parser>(c["app"].s, args, c["dev"].truthy() ? sharg::update_notifications::on : sharg::update_notifications::off,
                                                 c["subs"].strs());
        p->info.version = c["version"].s;
        p->info.url = c["url"].s;
        p->add_option(value, sharg::config{.short_id = 'i', .long_id = "int"});
        p->add_flag(flag, sharg::config{.short_id = 'f'});
        result.set("phase", "parse");
        p->parse();
        result.set("early_request", finished > 0 && slow);
        if (c["move"].truthy())
        {
            auto q = std::make_unique<sharg::parser>(std::move(*p));
            p = std::move(q);
        }
        if (c["subs"].size())
        {
            sharg::parser & s = p->get_sub_parser();
            s.info.version = c["version"].s;
            s.add_flag(sub_flag, sharg::config{.short_id = 'f'});
            s.parse();
        }
        result.set("result", "ok").set("value", value).set("flag", flag).set("sub_flag", sub_flag);
        sem_post(&released);
        if (!hang) wait_for_request();
        timespec t1;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
        p.reset();
        result.set("waited_ms", static_cast<int>(seconds_since(t1) * 1000));
    }
    catch (std::exception const & e)
    {
        sem_post(&released);
        result.set("result", class_of(e)).set("message", e.what());
    }
    wait_for_request();
    if (slow && started && result["result"].s != "exit")
        for (int i = 0; i < 3000 && !finished; ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); }
    std::cout.flush();
    std::cerr.flush();
    save();
    _exit(0);
}

// ---- supervisor ------------------------------------------------------------------------------------------------------
static std::string self, other, work;
static int hung{};

static json run_case(json const & c)
{
    build(c["nodes"]);
    json answers = json::arr();
    for (auto const & r : c["runs"].a)
    {
        if (hung >= 12) // the program hangs again and again: the answers up to here tell it
        {
            answers.push(json::obj().set("code", 1014).set("stdout", "").set("stderr", "").set("calls", json::arr()).set("fs", nodes(list_all())));
            break;
        }
        std::string const in = work + "/run.in", out = work + "/run.out", log = work + "/run.log", so = work + "/run.stdout", se = work + "/run.stderr",
                          si = work + "/run.stdin";
        unlink(out.c_str());
        unlink(log.c_str());
        json d = r;
        auto place = [](std::string p) { return p == "." ? root : root + "/" + p; };
        d.set("seconds", hung < 4 ? 15 : 4).set("log", log).set("answer_file", root + "/" + r["answer_path"].s);
        std::ofstream{in} << d.str();
        std::ofstream{si} << r["answer"].s;
        pid_t const pid = static_cast<pid_t>(syscall(SYS_fork));
        if (pid == 0)
        {
            clearenv();
            setenv("PATH", "/nonexistent", 1);
            if (r["homedir"].kind == json::string) setenv("HOME", place(r["homedir"].s).c_str(), 1);
            if (r["tmpdir"].kind == json::string) setenv("TMPDIR", place(r["tmpdir"].s).c_str(), 1);
            if (r["envvalue"].kind == json::string) setenv("SHARG_NO_VERSION_CHECK", r["envvalue"].s.c_str(), 1);
            int a = open(si.c_str(), O_RDONLY), b = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(a, 0);
            dup2(b, 1);
            dup2(e, 2);
            if (chdir(root.c_str())) _exit(97);
            std::string const exe = r["build"].s == "rel" ? other : self;
            char * const av[] = {const_cast<char *>(exe.c_str()), const_cast<char *>("--run"), const_cast<char *>(in.c_str()), const_cast<char *>(out.c_str()), nullptr};
            syscall(SYS_execve, exe.c_str(), av, environ);
            _exit(96);
        }
        int status{};
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) ++hung;
        json a = json::obj();
        std::string const text = vh::slurp(out);
        if (!text.empty()) a = json::parse(text);
        a.set("code", WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status));
        a.set("stdout", vh::slurp(so)).set("stderr", vh::slurp(se));
        json commands = json::arr();
        std::ifstream l{log};
        std::string line;
        while (std::getline(l, line)) commands.push(json::parse(line));
        a.set("calls", commands).set("fs", nodes(list_all()));
        answers.push(a);
        if (text.empty()) break;
    }
    return json::obj().set("runs", answers).set("root", root);
}

int main(int argc, char ** argv)
{
    if (argc > 3 && std::string{argv[1]} == "--run") return single(argv[2], argv[3]);
    auto o = vh::options(argc, argv);
    if (geteuid() == 0) { std::fprintf(stderr, "h_version must not run as root\n"); return 3; }
    umask(0);
    char buf[4096];
    if (!realpath("/proc/self/exe", buf)) return 3;
    self = buf;
    other = argv[5];
    if (!realpath(o.dir.c_str(), buf)) return 3;
    work = buf;
    root = work + "/tree";
    int rc = vh::supervise(o, run_case);
    if (chdir("/")) {}
    wipe("");
    return rc;
}
