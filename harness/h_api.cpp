// Performs sequences of calls on a parser object (spec/Lifecycle.tla).
// case: {"app", "argv", "subs", "calls": [{"fn", ...}], "full": bool}
#include "cells.hpp"

std::unique_ptr<cell> make_cell(std::string const & t)
{
    for (auto f : {make_cell_int, make_cell_int2, make_cell_real, make_cell_str, make_cell_list, make_cell_list2})
        if (auto c = f(t)) return c;
    throw std::logic_error{"unknown type " + t};
}

static std::string class_of(std::exception const & e)
{
#define VH_CLASS(x) if (typeid(e) == typeid(sharg::x)) return #x
    VH_CLASS(unknown_option); VH_CLASS(too_many_arguments); VH_CLASS(too_few_arguments); VH_CLASS(required_option_missing);
    VH_CLASS(option_declared_multiple_times); VH_CLASS(user_input_error); VH_CLASS(validation_error); VH_CLASS(design_error);
    VH_CLASS(parser_error);
    return std::string{"foreign:"} + e.what();
}

struct variable
{
    std::unique_ptr<cell> c{};
    std::unique_ptr<bool> flag{};
    vh::json get() const
    {
        if (c) return c->get();
        vh::json j = vh::json::arr();
        if (flag) j.push(*flag ? "true" : "false");
        return j;
    }
};

static vh::json run(vh::json const & c)
{
    calls.clear();
    std::vector<std::string> argv{c["app"].s};
    for (auto & a : c["argv"].a) argv.push_back(a.s);
    bool const full = c["full"].truthy();
    std::vector<std::unique_ptr<sharg::parser>> parsers; // the current one is the last one; the others are its parents
    auto notify = c["updates"].truthy() ? sharg::update_notifications::on : sharg::update_notifications::off;
    if (c["ctor"].n == 1)
    {
        std::vector<char const *> ptrs;
        for (auto & a : argv) ptrs.push_back(a.c_str());
        parsers.push_back(std::make_unique<sharg::parser>(c["app"].s, static_cast<int>(ptrs.size()), ptrs.data(), notify, c["subs"].strs()));
    }
    else
        parsers.push_back(std::make_unique<sharg::parser>(c["app"].s, argv, notify, c["subs"].strs()));

    std::vector<variable> vars;
    auto snapshot = [&] { vh::json a = vh::json::arr(); for (auto & v : vars) a.push(v.get()); return a; };
    vh::json results = vh::json::arr(), changed = vh::json::arr();
    for (size_t k = 0; k < c["calls"].size(); ++k)
    {
        vh::shared->phase = static_cast<int>(k) + 1;
        auto const & j = c["calls"].at(k);
        std::string const fn = j["fn"].s;
        vars.emplace_back();
        variable & v = vars.back();
        option_config o{};
        if (fn == "option" || fn == "flag" || fn == "positional")
        {
            o.short_id = j["short"].s.empty() ? '\0' : j["short"].s[0];
            o.long_id = j["long"].s;
            o.default_message = j["defmsg"].s;
            o.advanced = j["adv"].truthy();
            o.hidden = j["hid"].truthy();
            o.required = j["req"].truthy();
            o.description = j["desc"].s;
            o.chain = j["chain"];
            if (fn == "flag") v.flag = std::make_unique<bool>(j["true"].truthy());
            else
            {
                v.c = make_cell(j["type"].s + (j["list"].truthy() ? "[]" : ""));
                v.c->set(j["def"].strs());
            }
        }
        vh::json const before = snapshot();
        std::string kind = "ok", cls, msg = "x";
        auto & p = parsers.back();
        try
        {
            if (fn == "option") v.c->add(*p, o, false);
            else if (fn == "positional") v.c->add(*p, o, true);
            else if (fn == "flag")
                p->add_flag(*v.flag, sharg::config{.short_id = o.short_id, .long_id = o.long_id, .description = o.description,
                                                   .default_message = o.default_message, .advanced = o.advanced,
                                                   .hidden = o.hidden, .required = o.required});
            else if (fn == "section") p->add_section("S");
            else if (fn == "subsection") p->add_subsection("T");
            else if (fn == "line") p->add_line("L");
            else if (fn == "list_item") p->add_list_item("K", "D");
            else if (fn == "subcommands") p->add_subcommands(j["names"].strs());
            else if (fn == "parse") p->parse();
            else if (fn == "move") p = std::make_unique<sharg::parser>(std::move(*p));
            else if (fn == "assign")
            {
                auto q = std::make_unique<sharg::parser>("other", std::vector<std::string>{"other", "-x"}, sharg::update_notifications::off);
                *q = std::move(*p);
                p = std::move(q);
            }
            else if (fn == "sub")
            {
                auto & s = p->get_sub_parser();
                auto q = std::make_unique<sharg::parser>(std::move(s));
                parsers.push_back(std::move(q));
            }
            else if (fn == "query")
            {
                std::string const id = j["id"].s;
                bool r{};
                if (id.starts_with("--")) r = j["cstr"].truthy() ? p->is_option_set(id.c_str() + 2) : p->is_option_set(id.substr(2));
                else if (id.starts_with("-")) r = p->is_option_set(id.at(1));
                else r = p->is_option_set(id);
                kind = r ? "t" : "f";
            }
            else throw std::logic_error{"h_api: unknown call " + fn};
        }
        catch (std::exception const & e) { kind = "err"; cls = class_of(e); msg = e.what(); }
        vh::json const after = snapshot();
        if (fn != "parse" && after.str() != before.str()) changed.push(k);
        vh::json r = vh::json::obj();
        r.set("kind", kind).set("class", cls).set("page", "").set("name", parsers.back()->info.app_name).set("emptymsg", msg.empty());
        if (full) r.set("cells", after);
        results.push(r);
        std::string const note = results.str();
        if (note.size() < sizeof(vh::shared->note)) std::memcpy(vh::shared->note, note.c_str(), note.size() + 1);
    }
    vh::json result = vh::json::obj();
    result.set("results", results).set("cells", snapshot()).set("changed", changed);
    return result;
}

int main(int argc, char ** argv) { return vh::supervise(vh::options(argc, argv), run); }
