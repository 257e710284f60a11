#include "cells.hpp"
std::unique_ptr<cell> make_cell_str([[maybe_unused]] std::string const & t)
{
    if (t == "str") return std::make_unique<cell_t<std::string, true>>();
    VH_FULL(if (t == "path") return std::make_unique<cell_t<std::filesystem::path, false>>();)
    if (t == "enum") return std::make_unique<cell_t<colour, false>>();
    return {};
}
