// Option variables of every supported type behind one interface.
#pragma once
#include <charconv>
#include <cmath>
#include <filesystem>
#include <sstream>
#include <unordered_map>
#include <sharg/all.hpp>

#include "vh.hpp"

using sharg::operator|;

enum class colour { red, green, blue };
inline auto enumeration_names(colour)
{
    return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"green", colour::green},
                                                        {"blue", colour::blue}, {std::string_view{"azure-blue", 5}, colour::blue}};
}

// A user defined type that is read with operator>>.
struct word { std::string s{}; };
inline std::istream & operator>>(std::istream & in, word & w)
{
    w.s.clear();
    while (in.peek() >= 'a' && in.peek() <= 'z') w.s.push_back(static_cast<char>(in.get()));
    if (w.s.empty()) in.setstate(std::ios::failbit);
    return in;
}
inline std::ostream & operator<<(std::ostream & out, word const & w) { return out << w.s; }

template <typename t>
inline std::string canon(t const & v)
{
    if constexpr (std::is_same_v<t, bool>) return v ? "true" : "false";
    else if constexpr (std::is_integral_v<t>) return std::to_string(v);
    else if constexpr (std::is_floating_point_v<t>)
    {
        if (v != v) return "nan";
        std::string sign = std::signbit(v) ? "-" : "";
        if (std::isinf(v)) return sign + "inf";
        if (v == 0) return sign + "0";
        char buf[128];
        auto r = std::to_chars(buf, buf + sizeof buf, v < 0 ? -v : v, std::chars_format::scientific);
        std::string s(buf, r.ptr);
        auto e = s.find('e');
        long ex = std::stol(s.substr(e + 1));
        std::string m = s.substr(0, e);
        if (auto dot = m.find('.'); dot != std::string::npos) { ex -= static_cast<long>(m.size() - dot - 1); m.erase(dot, 1); }
        while (m.size() > 1 && m.back() == '0') { m.pop_back(); ++ex; }
        return sign + m + "e" + std::to_string(ex);
    }
    else if constexpr (std::is_same_v<t, colour>)
        return v == colour::red ? "red" : v == colour::green ? "green" : v == colour::blue ? "blue" : "?";
    else if constexpr (std::is_same_v<t, std::filesystem::path>) return v.string();
    else if constexpr (std::is_same_v<t, word>) return v.s;
    else return v;
}

template <typename t>
inline t uncanon(std::string const & s)
{
    if constexpr (std::is_same_v<t, bool>) return s == "true";
    else if constexpr (std::is_integral_v<t>) { if constexpr (std::is_signed_v<t>) return static_cast<t>(std::stoll(s)); else return static_cast<t>(std::stoull(s)); }
    else if constexpr (std::is_floating_point_v<t>) return static_cast<t>(std::stold(s));
    else if constexpr (std::is_same_v<t, colour>) return s == "red" ? colour::red : s == "green" ? colour::green : s[0] == '<' ? static_cast<colour>(9) : colour::blue;
    else return t{s};
}

template <typename t> struct element { using type = t; };
template <typename t> requires requires (t c) { c.push_back(*c.begin()); } && (!std::is_same_v<t, std::string>)
struct element<t> { using type = typename t::value_type; };
template <typename t> using element_t = typename element<t>::type;
template <typename t> inline constexpr bool is_list = !std::is_same_v<t, element_t<t>>;

template <typename t>
inline vh::json values(t const & v)
{
    vh::json j = vh::json::arr();
    if constexpr (is_list<t>) for (auto const & e : v) j.push(canon(static_cast<element_t<t>>(e)));
    else j.push(canon(v));
    return j;
}

// --- validators of the test program ---
struct call { std::string where; long v; vh::json vals; };
inline std::vector<call> calls;
struct odd_exception : std::exception { char const * what() const noexcept override { return "odd"; } };

template <typename e_t>
struct dyn_validator
{
    using option_value_type = e_t;
    std::string where{};
    long index{};
    std::string kind{"rec"};
    std::vector<std::string> args{};
    bool log{false};
    std::string exc{};
    std::string msg{};

    template <typename v_t>
        requires std::is_same_v<element_t<v_t>, e_t>
    void operator()(v_t const & v) const
    {
        vh::json vals = values(v);
        if (log) calls.push_back({where, index, vals});
        bool bad = false;
        if (kind == "ne") for (auto & x : vals.a) bad = bad || x.s == args.at(0);
        if (kind == "maxlen") bad = vals.a.size() > std::stoul(args.at(0));
        if (!bad) return;
        if (exc == "runtime") throw std::runtime_error{"rejected"};
        if (exc == "odd") throw odd_exception{};
        if (exc == "too_many") throw sharg::too_many_arguments{"rejected"};
        throw sharg::validation_error{"rejected"};
    }
    std::string get_help_page_message() const { return msg; }
};

struct option_config
{
    char short_id{'\0'};
    std::string long_id{}, description{}, default_message{};
    bool advanced{}, hidden{}, required{};
    vh::json chain{};
    std::string where{};
};

struct cell
{
    virtual ~cell() = default;
    virtual void set(std::vector<std::string> const &) = 0;
    virtual vh::json get() const = 0;
    virtual void add(sharg::parser &, option_config const &, bool positional) = 0;
};

template <typename v_t>
inline sharg::config<v_t> make_config(option_config const & c, v_t v)
{
    return sharg::config<v_t>{.short_id = c.short_id, .long_id = c.long_id, .description = c.description,
                              .default_message = c.default_message, .advanced = c.advanced, .hidden = c.hidden,
                              .required = c.required, .validator = std::move(v)};
}

template <typename e_t>
inline dyn_validator<e_t> make_dyn(option_config const & c, size_t i)
{
    dyn_validator<e_t> d{};
    d.where = c.where;
    if (i < c.chain.size())
    {
        auto & j = c.chain.at(i);
        d.index = static_cast<long>(i) + 1;
        d.kind = j["kind"].s; d.args = j["args"].strs(); d.log = j["log"].truthy(); d.exc = j["exc"].s; d.msg = j["msg"].s;
    }
    return d;
}

struct no_validator {};

template <typename t, bool with_sharg_validators>
struct cell_t final : cell
{
    using e_t = element_t<t>;
    t v{};
    void set(std::vector<std::string> const & s) override
    {
        if constexpr (is_list<t>) { v.clear(); for (auto & x : s) v.push_back(uncanon<e_t>(x)); }
        else if (!s.empty()) v = uncanon<t>(s[0]);
    }
    vh::json get() const override { return values(v); }

    // Calls f with the validator described by c.chain.
    template <typename f_t>
    void with_validator(option_config const & c, f_t && f)
    {
        std::vector<std::string> kinds;
        for (auto & j : c.chain.a) kinds.push_back(j["kind"].s);
        auto real = [](std::string const & k) { return k == "range" || k == "oneof" || k == "regex"; };
        auto dyn = [&](size_t i) { return make_dyn<e_t>(c, i); };
        auto args = [&](size_t i) { return c.chain.at(i)["args"].strs(); };
        (void)args;
        size_t reals = 0;
        for (auto & k : kinds) reals += real(k);
        if (kinds.empty()) return f(no_validator{});
        if (reals == 0)
        {
#if !defined(VH_LIGHT) && !defined(VH_VALUES)
            if (kinds.size() == 2) return f(dyn(0) | dyn(1));
            if (kinds.size() == 3) return f(dyn(0) | dyn(1) | dyn(2));
#endif
            if (kinds.size() == 1) return f(dyn(0));
        }
#if !defined(VH_LIGHT) && !defined(VH_VALUES)
        if constexpr (with_sharg_validators)
        {
            auto surround = [&](size_t i, auto r)
            {
                if (kinds.size() == 1) return f(r);
                if (kinds.size() == 2 && i == 0) return f(r | dyn(1));
                if (kinds.size() == 2) return f(dyn(0) | r);
                return f(dyn(0) | r | dyn(2));
            };
            size_t i = 0;
            while (!real(kinds[i])) ++i;
            if constexpr (std::is_arithmetic_v<e_t>)
                if (kinds[i] == "range")
                    return surround(i, sharg::arithmetic_range_validator<e_t>{uncanon<e_t>(args(i)[0]), uncanon<e_t>(args(i)[1])});
            if (kinds[i] == "oneof")
            {
                std::vector<e_t> vals;
                for (auto & x : args(i)) vals.push_back(uncanon<e_t>(x));
                if constexpr (std::is_same_v<e_t, std::string>)
                    if (kinds.size() == 2 && kinds[1] == "regex")
                        return f(sharg::value_list_validator<e_t>{vals} | sharg::regex_validator{args(1)[0]});
                return surround(i, sharg::value_list_validator<e_t>{vals});
            }
            if constexpr (std::is_same_v<e_t, std::string>)
                if (kinds[i] == "regex")
                    return surround(i, sharg::regex_validator{args(i)[0]});
        }
#endif
        throw std::logic_error{"h_parse: unsupported chain"};
    }

    template <typename f_t>
    void with_config(option_config const & c, f_t && f)
    {
        with_validator(c, [&](auto val)
        {
            if constexpr (std::is_same_v<decltype(val), no_validator>)
                f(sharg::config{.short_id = c.short_id, .long_id = c.long_id, .description = c.description,
                                .default_message = c.default_message, .advanced = c.advanced, .hidden = c.hidden,
                                .required = c.required});
            else
                f(make_config(c, std::move(val)));
        });
    }
    void add(sharg::parser & p, option_config const & c, bool positional) override
    {
        with_config(c, [&](auto cfg) { if (positional) p.add_positional_option(v, cfg); else p.add_option(v, cfg); });
    }
};

#ifdef VH_LIGHT
#    define VH_FULL(...)
#else
#    define VH_FULL(...) __VA_ARGS__
#endif
std::unique_ptr<cell> make_cell_int(std::string const &);
std::unique_ptr<cell> make_cell_int2(std::string const &);
std::unique_ptr<cell> make_cell_real(std::string const &);
std::unique_ptr<cell> make_cell_str(std::string const &);
std::unique_ptr<cell> make_cell_list(std::string const &);
std::unique_ptr<cell> make_cell_list2(std::string const &);
std::unique_ptr<cell> make_cell(std::string const & type);
