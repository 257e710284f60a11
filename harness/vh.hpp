// Infrastructure shared by the test drivers: a small JSON reader/writer (bytes <-> U+0000..U+00FF) and a runner that
// executes every case in a forked worker, so that exit(), crashes, hangs and foreign exceptions are just outcomes.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <signal.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace vh
{
struct json
{
    enum kind_t { null, boolean, number, string, array, object } kind{null};
    bool b{};
    long long n{};
    std::string s{};
    std::vector<json> a{};
    std::vector<std::pair<std::string, json>> o{};

    json() = default;
    json(bool v) : kind{boolean}, b{v} {}
    json(int v) : kind{number}, n{v} {}
    json(long v) : kind{number}, n{v} {}
    json(long long v) : kind{number}, n{v} {}
    json(size_t v) : kind{number}, n(static_cast<long long>(v)) {}
    json(char const * v) : kind{string}, s{v} {}
    json(std::string v) : kind{string}, s{std::move(v)} {}
    static json arr() { json j; j.kind = array; return j; }
    static json obj() { json j; j.kind = object; return j; }
    static json strings(std::vector<std::string> const & v) { json j = arr(); for (auto & x : v) j.a.emplace_back(x); return j; }

    json & set(std::string const & k, json v)
    {
        kind = object;
        for (auto & [kk, vv] : o)
            if (kk == k) { vv = std::move(v); return *this; }
        o.emplace_back(k, std::move(v));
        return *this;
    }
    json & push(json v) { kind = array; a.push_back(std::move(v)); return *this; }
    bool has(std::string const & k) const
    {
        for (auto & [kk, vv] : o) if (kk == k) return true;
        return false;
    }
    json const & operator[](std::string const & k) const
    {
        for (auto & [kk, vv] : o) if (kk == k) return vv;
        static json const none{};
        return none;
    }
    json const & at(size_t i) const { return a.at(i); }
    size_t size() const { return kind == array ? a.size() : o.size(); }
    bool truthy() const { return kind == boolean ? b : kind == number ? n != 0 : false; }
    std::vector<std::string> strs() const { std::vector<std::string> r; for (auto & x : a) r.push_back(x.s); return r; }

    static void quote(std::string & out, std::string const & v)
    {
        out += '"';
        for (unsigned char c : v)
        {
            if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
            else if (c >= 0x20 && c < 0x7f) out += static_cast<char>(c);
            else { char buf[8]; std::snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
        }
        out += '"';
    }
    void dump(std::string & out) const
    {
        switch (kind)
        {
        case null: out += "null"; break;
        case boolean: out += b ? "true" : "false"; break;
        case number: out += std::to_string(n); break;
        case string: quote(out, s); break;
        case array:
            out += '[';
            for (size_t i = 0; i < a.size(); ++i) { if (i) out += ','; a[i].dump(out); }
            out += ']';
            break;
        case object:
            out += '{';
            for (size_t i = 0; i < o.size(); ++i) { if (i) out += ','; quote(out, o[i].first); out += ':'; o[i].second.dump(out); }
            out += '}';
            break;
        }
    }
    std::string str() const { std::string r; dump(r); return r; }

    // --- parsing ---
    static json parse(std::string const & t) { size_t p = 0; return value(t, p); }
    static void ws(std::string const & t, size_t & p) { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
    static std::string quoted(std::string const & t, size_t & p)
    {
        std::string r;
        ++p;
        while (p < t.size() && t[p] != '"')
        {
            unsigned char c = t[p];
            if (c == '\\')
            {
                char e = t[++p];
                ++p;
                switch (e)
                {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u': r += static_cast<char>(std::stoi(t.substr(p, 4), nullptr, 16)); p += 4; break;
                default: r += e;
                }
            }
            else { r += t[p]; ++p; }
        }
        ++p;
        return r;
    }
    static json value(std::string const & t, size_t & p)
    {
        ws(t, p);
        char c = t.at(p);
        if (c == '{')
        {
            json j = obj();
            ++p; ws(t, p);
            while (t.at(p) != '}')
            {
                ws(t, p);
                std::string k = quoted(t, p);
                ws(t, p); ++p; // :
                j.o.emplace_back(std::move(k), value(t, p));
                ws(t, p);
                if (t.at(p) == ',') { ++p; ws(t, p); }
            }
            ++p;
            return j;
        }
        if (c == '[')
        {
            json j = arr();
            ++p; ws(t, p);
            while (t.at(p) != ']')
            {
                j.a.push_back(value(t, p));
                ws(t, p);
                if (t.at(p) == ',') { ++p; ws(t, p); }
            }
            ++p;
            return j;
        }
        if (c == '"') return json{quoted(t, p)};
        if (t.compare(p, 4, "true") == 0) { p += 4; return json{true}; }
        if (t.compare(p, 5, "false") == 0) { p += 5; return json{false}; }
        if (t.compare(p, 4, "null") == 0) { p += 4; return json{}; }
        size_t q = p;
        while (q < t.size() && (std::isdigit(static_cast<unsigned char>(t[q])) || t[q] == '-')) ++q;
        json j{std::stoll(t.substr(p, q - p))};
        p = q;
        return j;
    }
};

inline std::string slurp(std::string const & path)
{
    std::ifstream in{path, std::ios::binary};
    return {std::istreambuf_iterator<char>{in}, {}};
}

// What the current worker knows and the supervisor needs if the worker ends.
struct shared_t
{
    long current;      // index of the case that is running
    int running;
    int phase;         // free for the driver (e.g. which parser is parsing)
    char note[65536];   // free for the driver
};
inline shared_t * shared{};

struct harness_error : std::runtime_error { using std::runtime_error::runtime_error; };

struct run_options
{
    std::string in, out, dir;
    int seconds{10};   // per case
};

// run(case) returns the result object; the runner adds idx, end ("return" | "exit" | "signal" | "timeout"), code and
// what was written to stdout / stderr.
inline int supervise(run_options const & opt, std::function<json(json const &)> run,
                     std::function<json(json const &)> on_end = {})
{
    std::vector<json> cases;
    {
        std::ifstream in{opt.in, std::ios::binary};
        std::string line;
        while (std::getline(in, line))
            if (!line.empty())
                cases.push_back(json::parse(line));
    }
    shared = static_cast<shared_t *>(mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string const so = opt.dir + "/stdout", se = opt.dir + "/stderr";
    int fo = open(so.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
    int fe = open(se.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
    int fr = open(opt.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0666);
    if (fo < 0 || fe < 0 || fr < 0) { std::perror("vh: open"); return 3; }

    auto emit = [&](json & r)
    {
        std::string line = r.str() + "\n";
        size_t done = 0;
        while (done < line.size())
        {
            ssize_t w = write(fr, line.data() + done, line.size() - done);
            if (w <= 0) _exit(99);
            done += static_cast<size_t>(w);
        }
    };
    auto reset = [&]
    {
        if (ftruncate(fo, 0) || ftruncate(fe, 0)) {}
        lseek(fo, 0, SEEK_SET);
        lseek(fe, 0, SEEK_SET);
    };

    size_t next = 0;
    int timeouts = 0;
    while (next < cases.size())
    {
        if (timeouts >= 6) // the code under test hangs: report that instead of waiting for every case
        {
            json r = json::obj();
            r.set("idx", next).set("end", "skipped");
            emit(r);
            break;
        }
        pid_t pid = fork();
        if (pid == 0)
        {
            dup2(fo, 1);
            dup2(fe, 2);
            for (size_t i = next; i < cases.size(); ++i)
            {
                shared->current = static_cast<long>(i);
                shared->phase = 0;
                shared->note[0] = 0;
                reset();
                alarm(static_cast<unsigned>(timeouts < 3 ? opt.seconds : std::min(opt.seconds, 8)));
                shared->running = 1;
                json r;
                try { r = run(cases[i]); }
                catch (harness_error const & e) { std::fprintf(stderr, "%s\n", e.what()); _exit(98); }
                std::cout.flush(); std::fflush(stdout); std::cerr.flush(); std::fflush(stderr);
                alarm(0);
                r.set("idx", i).set("end", "return").set("code", 0).set("stdout", slurp(so)).set("stderr", slurp(se));
                if (cases[i].has("solo") && cases[i]["solo"].truthy())
                {
                    emit(r);
                    shared->current = static_cast<long>(i) + 1;
                    shared->running = 2;
                    _exit(0);
                }
                emit(r);
                shared->running = 4; // a memory error that shows up before this line belongs to the case
            }
            shared->running = 3;
            _exit(0);
        }
        if (pid < 0) { std::perror("vh: fork"); return 3; }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (shared->running == 3) break;
        if (shared->running == 4) { next = static_cast<size_t>(shared->current) + 1; continue; }
        if (shared->running == 2) { next = static_cast<size_t>(shared->current); continue; }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 98) { std::fprintf(stderr, "vh: %s\n", slurp(se).c_str()); return 3; }
        json r = on_end ? on_end(cases[static_cast<size_t>(shared->current)]) : json::obj();
        r.set("idx", static_cast<size_t>(shared->current));
        if (WIFEXITED(status)) r.set("end", "exit").set("code", WEXITSTATUS(status));
        else if (WTERMSIG(status) == SIGALRM) ++timeouts, r.set("end", "timeout").set("code", SIGALRM);
        else r.set("end", "signal").set("code", WTERMSIG(status));
        r.set("stdout", slurp(so)).set("stderr", slurp(se)).set("phase", shared->phase).set("note", std::string{shared->note});
        emit(r);
        next = static_cast<size_t>(shared->current) + 1;
    }
    return 0;
}

inline run_options options(int argc, char ** argv)
{
    run_options o;
    if (argc < 4) { std::fprintf(stderr, "usage: driver IN OUT DIR [SECONDS]\n"); std::exit(3); }
    o.in = argv[1]; o.out = argv[2]; o.dir = argv[3];
    if (argc > 4) o.seconds = std::atoi(argv[4]);
    return o;
}
} // namespace vh
