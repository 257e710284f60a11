#include "cells.hpp"
std::unique_ptr<cell> make_cell_int2([[maybe_unused]] std::string const & t)
{
    VH_FULL(if (t == "i16") return std::make_unique<cell_t<int16_t, false>>();)
    VH_FULL(if (t == "u16") return std::make_unique<cell_t<uint16_t, false>>();)
    VH_FULL(if (t == "u32") return std::make_unique<cell_t<uint32_t, false>>();)
    VH_FULL(if (t == "i64") return std::make_unique<cell_t<int64_t, false>>();)
    return {};
}
