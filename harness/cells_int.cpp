#include "cells.hpp"
std::unique_ptr<cell> make_cell_int([[maybe_unused]] std::string const & t)
{
    if (t == "i32") return std::make_unique<cell_t<int32_t, true>>();
    if (t == "i8") return std::make_unique<cell_t<int8_t, false>>();
    VH_FULL(if (t == "u8") return std::make_unique<cell_t<uint8_t, false>>();)
    VH_FULL(if (t == "u64") return std::make_unique<cell_t<uint64_t, false>>();)
    return {};
}
