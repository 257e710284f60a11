// Listing, building and removing small file trees below `root`.
#pragma once
#include <dirent.h>
#include "vh.hpp"

using vh::json;
inline std::string root; // absolute

// ---- the file system -----------------------------------------------------------------------------------------------
inline std::string full(std::string const & p) { return p.empty() ? root : root + "/" + p; }

struct entry
{
    std::string kind, target, data;
    unsigned mode{};
    long size{}, mtime_s{}, mtime_ns{};
    bool operator==(entry const &) const = default;
};
using listing = std::map<std::string, entry>;

inline void list_dir(std::string const & p, listing & out)
{
    std::string const f = full(p);
    struct stat st{};
    if (lstat(f.c_str(), &st)) return;
    entry e{};
    e.mode = st.st_mode & 0777;
    if (S_ISLNK(st.st_mode))
    {
        char buf[4096];
        ssize_t n = readlink(f.c_str(), buf, sizeof buf);
        e.kind = "link";
        e.target.assign(buf, n > 0 ? static_cast<size_t>(n) : 0);
        e.mode = 0777;
        if (e.target == "/dev/null") { e.kind = "null"; e.target = ""; }
        out[p] = e;
    }
    else if (S_ISDIR(st.st_mode))
    {
        e.kind = "dir";
        out[p] = e;
        if ((e.mode & 0700) != 0700) chmod(f.c_str(), 0700);
        std::vector<std::string> names;
        if (DIR * d = opendir(f.c_str()))
        {
            while (dirent * x = readdir(d))
                if (std::string n = x->d_name; n != "." && n != "..") names.push_back(n);
            closedir(d);
        }
        for (auto & n : names) list_dir(p.empty() ? n : p + "/" + n, out);
        if ((e.mode & 0700) != 0700) chmod(f.c_str(), e.mode);
    }
    else if (S_ISREG(st.st_mode))
    {
        e.kind = "file";
        e.size = st.st_size;
        e.mtime_s = st.st_mtim.tv_sec;
        e.mtime_ns = st.st_mtim.tv_nsec;
        if (!(e.mode & 0400)) chmod(f.c_str(), 0600);
        e.data = vh::slurp(f);
        if (!(e.mode & 0400)) chmod(f.c_str(), e.mode);
        out[p] = e;
    }
    else
    {
        e.kind = S_ISFIFO(st.st_mode) ? "fifo" : "other";
        out[p] = e;
    }
}
inline listing list_all() { listing l; list_dir("", l); return l; }

inline json node(std::string const & p, entry const & e)
{
    json j = json::obj();
    return j.set("path", p).set("kind", e.kind).set("r", (e.mode & 0400) != 0).set("w", (e.mode & 0200) != 0)
            .set("x", (e.mode & 0100) != 0).set("target", e.target).set("data", e.data);
}
inline json nodes(listing const & l) { json a = json::arr(); for (auto & [p, e] : l) a.push(node(p, e)); return a; }

inline void wipe(std::string const & p) // everything below root, including root
{
    std::string const f = full(p);
    struct stat st{};
    if (lstat(f.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode))
    {
        chmod(f.c_str(), 0700);
        std::vector<std::string> names;
        if (DIR * d = opendir(f.c_str()))
        {
            while (dirent * x = readdir(d))
                if (std::string n = x->d_name; n != "." && n != "..") names.push_back(n);
            closedir(d);
        }
        for (auto & n : names) wipe(p.empty() ? n : p + "/" + n);
        rmdir(f.c_str());
    }
    else
        unlink(f.c_str());
}
inline unsigned mode_of(json const & n)
{
    return (n["r"].truthy() ? 0444u : 0u) | (n["w"].truthy() ? 0200u : 0u) | (n["x"].truthy() ? 0111u : 0u);
}
inline void put(json const & n)
{
    std::string const f = full(n["path"].s), k = n["kind"].s;
    if (k == "dir") { if (mkdir(f.c_str(), 0700) && errno != EEXIST) throw std::runtime_error{"mkdir " + f}; }
    else if (k == "link") { if (symlink(n["target"].s.c_str(), f.c_str())) throw std::runtime_error{"symlink " + f}; }
    else if (k == "null") { if (symlink("/dev/null", f.c_str())) throw std::runtime_error{"symlink " + f}; }
    else if (k == "fifo") { if (mkfifo(f.c_str(), 0600)) throw std::runtime_error{"mkfifo " + f}; }
    else
    {
        std::ofstream o{f, std::ios::binary};
        o << n["data"].s;
        if (!o) throw std::runtime_error{"write " + f};
        o.close();
        timespec ts[2]{{1000000000, 0}, {1000000000, 0}};
        utimensat(AT_FDCWD, f.c_str(), ts, 0);
    }
}
inline listing build(json const & ns)
{
    if (chdir("/")) {}
    wipe("");
    if (mkdir(root.c_str(), 0700)) throw vh::harness_error{"mkdir " + root};
    for (auto & n : ns.a) if (n["path"].s != "") put(n);
    for (auto it = ns.a.rbegin(); it != ns.a.rend(); ++it) // children first
        if ((*it)["kind"].s == "dir" || (*it)["kind"].s == "file" || (*it)["kind"].s == "fifo")
            chmod(full((*it)["path"].s).c_str(), mode_of(*it));
    if (chdir(root.c_str())) throw vh::harness_error{"chdir " + root};
    return list_all();
}
