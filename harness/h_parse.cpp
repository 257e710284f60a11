// Interprets program declarations and command lines with the real parser.
// case: {"c": id, "argv": [...], "perm": n, "moves": bits, "updates": bool, "solo": bool}
#include <random>
#include "cells.hpp"

std::unique_ptr<cell> make_cell(std::string const & t)
{
    for (auto f : {make_cell_int, make_cell_int2, make_cell_real, make_cell_str, make_cell_list, make_cell_list2})
        if (auto c = f(t)) return c;
    throw std::logic_error{"unknown type " + t};
}

struct program
{
    std::vector<std::unique_ptr<cell>> opts, pos;
    std::unique_ptr<bool[]> flags;
    size_t flag_count{};
};

static void maybe_move(std::unique_ptr<sharg::parser> & p, long long moves, int bit)
{
    if (!(moves & (1 << bit))) return;
    if (moves & 32) // move assignment
    {
        auto q = std::make_unique<sharg::parser>("other", std::vector<std::string>{"other"}, sharg::update_notifications::off);
        *q = std::move(*p);
        p = std::move(q);
    }
    else
        p = std::make_unique<sharg::parser>(std::move(*p));
}

static void declare(std::unique_ptr<sharg::parser> & p, vh::json const & d, program & prog, std::string const & where,
                    long long perm, long long moves, bool has_subs = false)
{
    size_t const n_o = d["opts"].size(), n_f = d["flags"].size(), n_p = d["pos"].size();
    prog.flag_count = n_f;
    prog.flags = std::make_unique<bool[]>(n_f + 1);
    for (size_t i = 0; i < n_o; ++i)
    {
        prog.opts.push_back(make_cell(d["opts"].at(i)["type"].s + (d["opts"].at(i)["list"].truthy() ? "[" + d["opts"].at(i)["box"].s + "]" : "")));
        prog.opts.back()->set(d["opts"].at(i)["def"].strs());
    }
    for (size_t i = 0; i < n_p; ++i)
    {
        prog.pos.push_back(make_cell(d["pos"].at(i)["type"].s + (d["pos"].at(i)["list"].truthy() ? "[" + d["pos"].at(i)["box"].s + "]" : "")));
        if (d["pos"].at(i).has("def")) prog.pos.back()->set(d["pos"].at(i)["def"].strs());
    }
    // what to declare: (kind, index); positional options keep their order
    std::vector<std::pair<char, size_t>> todo;
    for (size_t i = 0; i < n_o; ++i) todo.emplace_back('o', i);
    for (size_t i = 0; i < n_f; ++i) todo.emplace_back('f', i);
    for (size_t i = 0; i < n_p; ++i) todo.emplace_back('p', i);
    if (perm)
    {
        std::mt19937 gen(static_cast<unsigned>(perm));
        for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[gen() % i]);
        size_t next = 0;
        for (auto & [k, i] : todo) if (k == 'p') i = next++;
    }
    std::vector<std::string> names;
    for (auto & s : d["subs"].a) names.push_back(s["name"].s);
    if (!names.empty() && !has_subs) p->add_subcommands(names);

    size_t done = 0;
    for (auto & [k, i] : todo)
    {
        if (done++ == todo.size() / 2) maybe_move(p, moves, 1);
        auto & j = k == 'o' ? d["opts"].at(i) : k == 'f' ? d["flags"].at(i) : d["pos"].at(i);
        option_config c{};
        c.short_id = j["short"].s.empty() ? '\0' : j["short"].s[0];
        c.long_id = j["long"].s;
        c.description = j["desc"].s;
        c.default_message = j["defmsg"].s;
        c.advanced = j["advanced"].truthy();
        c.hidden = j["hidden"].truthy();
        c.required = j["req"].truthy();
        c.chain = j["chain"];
        c.where = where + k + std::to_string(i);
        if (k == 'f')
            p->add_flag(prog.flags[i], sharg::config{.short_id = c.short_id, .long_id = c.long_id, .description = c.description,
                                                     .default_message = c.default_message, .advanced = c.advanced,
                                                     .hidden = c.hidden, .required = c.required});
        else
            (k == 'o' ? prog.opts : prog.pos)[i]->add(*p, c, k == 'p');
    }
}

static std::string set_query(sharg::parser const & p, std::string const & id)
{
    try
    {
        if (id.starts_with("--")) return p.is_option_set(id.substr(2)) ? "t" : "f";
        if (id.starts_with("-")) return p.is_option_set(id[1]) ? "t" : "f";
        return p.is_option_set(id) ? "t" : "f"; // as a long identifier
    }
    catch (sharg::design_error const &) { return "design_error"; }
    catch (std::exception const & e) { return std::string{"?"} + e.what(); }
}

static std::vector<std::string> const probes{"o", "--undeclared", "-Z", "--unde-clared@_"};

static vh::json log_of(std::string const & where)
{
    vh::json r = vh::json::arr();
    for (auto & c : calls)
        if (c.where == where) { vh::json e = vh::json::obj(); e.set("v", c.v).set("vals", c.vals); r.push(e); }
    return r;
}

static vh::json snapshot(sharg::parser const & p, vh::json const & d, program const & g, std::string const & where, bool queries)
{
    vh::json r = vh::json::obj(), o = vh::json::arr(), f = vh::json::arr(), ps = vh::json::arr(), set = vh::json::arr(),
             oc = vh::json::arr(), pc = vh::json::arr(), pr = vh::json::arr();
    for (auto & c : g.opts) o.push(c->get());
    for (auto & c : g.pos) ps.push(c->get());
    for (size_t i = 0; i < g.flag_count; ++i) f.push(static_cast<bool>(g.flags[i]));
    for (size_t i = 0; i < g.opts.size(); ++i) oc.push(log_of(where + "o" + std::to_string(i)));
    for (size_t i = 0; i < g.pos.size(); ++i) pc.push(log_of(where + "p" + std::to_string(i)));
    r.set("name", p.info.app_name).set("opts", o).set("flags", f).set("pos", ps).set("ocalls", oc).set("pcalls", pc);
    if (queries)
    {
        for (auto & j : d["opts"].a)
            for (std::string const & id : {j["short"].s.empty() ? std::string{} : "-" + j["short"].s, j["long"].s.empty() ? std::string{} : "--" + j["long"].s})
                if (!id.empty())
                {
                    auto a = set_query(p, id);
                    if (a == "t") set.push(id);
                    else if (a != "f") pr.push(id + ":" + a);
                }
        for (auto & id : probes)
            if (auto a = set_query(p, id); a != "design_error") pr.push(id + ":" + a);
        r.set("set", set).set("badprobes", pr);
    }
    return r;
}

static vh::json const * find_sub(vh::json const & d, std::string const & full, std::string const & prefix)
{
    for (auto & s : d["subs"].a)
        if (prefix + "-" + s["name"].s == full) return &s["decl"];
    return nullptr;
}

static std::string class_of(std::exception const & e)
{
#define VH_CLASS(x) if (typeid(e) == typeid(sharg::x)) return #x
    VH_CLASS(unknown_option); VH_CLASS(too_many_arguments); VH_CLASS(too_few_arguments); VH_CLASS(required_option_missing);
    VH_CLASS(option_declared_multiple_times); VH_CLASS(user_input_error); VH_CLASS(validation_error); VH_CLASS(design_error);
    VH_CLASS(parser_error);
    return std::string{"foreign:"} + e.what();
}

static std::map<std::string, vh::json> decls;

static vh::json run(vh::json const & c)
{
    calls.clear();
    auto it = decls.find(c["c"].s);
    if (it == decls.end()) throw std::logic_error{"unknown program"};
    vh::json const & d = it->second;
    long long const moves = c["moves"].n, perm = c["perm"].n;
    std::vector<std::string> argv{d["app"].s};
    for (auto & a : c["argv"].a) argv.push_back(a.s);

    vh::json result = vh::json::obj();
    // The frames in front of a failing sub-parser succeeded: their values are part of the result.
    std::vector<std::unique_ptr<program>> progs;
    std::vector<std::unique_ptr<sharg::parser>> parsers;
    std::vector<vh::json const *> ds;
    std::vector<std::string> wheres;
    vh::json unset = vh::json::arr();
    long at = 0;
    std::string cls, msg;
    bool from_parse = false;
    try
    {
        // both constructors, subcommands with and without add_subcommands
        size_t bytes = 0;
        for (auto & x : argv) bytes += x.size();
        bool const plain = bytes & 1, early_subs = bytes & 2;
        auto const notify = c["updates"].truthy() ? sharg::update_notifications::on : sharg::update_notifications::off;
        std::vector<std::string> names;
        if (early_subs) for (auto & x : d["subs"].a) names.push_back(x["name"].s);
        std::vector<char const *> ptrs;
        for (auto & x : argv) ptrs.push_back(x.c_str());
        ptrs.push_back("--behind-the-end");
        auto p = plain ? std::make_unique<sharg::parser>(d["app"].s, static_cast<int>(argv.size()), ptrs.data(), notify, names)
                       : std::make_unique<sharg::parser>(d["app"].s, argv, notify, names);
        vh::json const * dd = &d;
        std::string where = "";
        for (;;)
        {
            ++at;
            maybe_move(p, moves, 0);
            progs.push_back(std::make_unique<program>());
            declare(p, *dd, *progs.back(), where, perm, moves, early_subs && at == 1);
            maybe_move(p, moves, 2);
            for (auto & j : (*dd)["opts"].a) // not allowed yet
                if (auto a = set_query(*p, j["short"].s.empty() ? "--" + j["long"].s : "-" + j["short"].s); a != "design_error")
                    unset.push(a);
            parsers.push_back(std::move(p));
            ds.push_back(dd);
            wheres.push_back(where);
            vh::shared->phase = static_cast<int>(at);
            from_parse = true;
            parsers.back()->parse();
            from_parse = false;
            vh::shared->phase = 1000 + static_cast<int>(at);
            maybe_move(parsers.back(), moves, 3);
            if ((*dd)["subs"].size() == 0) break;
            sharg::parser * sub_p{};
            try { sub_p = &parsers.back()->get_sub_parser(); }
            catch (sharg::design_error const &) { break; } // no subcommand was given
            sharg::parser & sub = *sub_p;
            auto sd = find_sub(*dd, sub.info.app_name, parsers.back()->info.app_name);
            if (!sd) { cls = "unexpected sub-parser " + sub.info.app_name; break; }
            where += "/";
            dd = sd;
            p = std::make_unique<sharg::parser>(std::move(sub));
        }
    }
    catch (std::exception const & e) { cls = class_of(e); msg = e.what(); if (!from_parse) cls = "outside parse: " + cls; }
    catch (...) { cls = "foreign"; }

    result.set("kind", cls.empty() ? "ok" : "err").set("class", cls).set("at", at).set("emptymsg", !cls.empty() && msg.empty()).set("msg", msg);
    result.set("early", unset);
    vh::json fr = vh::json::arr();
    for (size_t i = 0; i < parsers.size(); ++i)
        fr.push(snapshot(*parsers[i], *ds[i], *progs[i], wheres[i], cls.empty() || i + 1 < parsers.size()));
    result.set("frames", fr);
    return result;
}

int main(int argc, char ** argv)
{
    auto o = vh::options(argc, argv);
    if (argc > 5)
    {
        std::ifstream in{argv[5]};
        std::string line;
        while (std::getline(in, line))
            if (!line.empty()) { auto j = vh::json::parse(line); decls[j["id"].s] = j["decl"]; }
    }
    return vh::supervise(o, run);
}
