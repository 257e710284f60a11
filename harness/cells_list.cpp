#include <deque>
#include <list>
#include "cells.hpp"
std::unique_ptr<cell> make_cell_list(std::string const & t)
{
    if (t == "i32[]") return std::make_unique<cell_t<std::vector<int32_t>, true>>();
    if (t == "str[]") return std::make_unique<cell_t<std::vector<std::string>, true>>();
    // other containers
#if defined(VH_LIGHT) || defined(VH_VALUES)
    if (t == "i32[list]") return std::make_unique<cell_t<std::list<int32_t>, false>>();
#else
    if (t == "i32[list]") return std::make_unique<cell_t<std::list<int32_t>, true>>();
#endif
    if (t == "str[deque]") return std::make_unique<cell_t<std::deque<std::string>, false>>();
    return {};
}
