#include "cells.hpp"
std::unique_ptr<cell> make_cell_list2([[maybe_unused]] std::string const & t)
{
    VH_FULL(if (t == "i8[]") return std::make_unique<cell_t<std::vector<int8_t>, false>>();)
    VH_FULL(if (t == "u64[]") return std::make_unique<cell_t<std::vector<uint64_t>, false>>();)
    VH_FULL(if (t == "f64[]") return std::make_unique<cell_t<std::vector<double>, false>>();)
    VH_FULL(if (t == "path[]") return std::make_unique<cell_t<std::vector<std::filesystem::path>, false>>();)
    VH_FULL(if (t == "enum[]") return std::make_unique<cell_t<std::vector<colour>, false>>();)
#ifdef VH_VALUES
    if (t == "bool[]") return std::make_unique<cell_t<std::vector<bool>, false>>();
    if (t == "i16[]") return std::make_unique<cell_t<std::vector<int16_t>, false>>();
    if (t == "i64[]") return std::make_unique<cell_t<std::vector<int64_t>, false>>();
    if (t == "u8[]") return std::make_unique<cell_t<std::vector<uint8_t>, false>>();
    if (t == "u16[]") return std::make_unique<cell_t<std::vector<uint16_t>, false>>();
    if (t == "u32[]") return std::make_unique<cell_t<std::vector<uint32_t>, false>>();
    if (t == "f32[]") return std::make_unique<cell_t<std::vector<float>, false>>();
    if (t == "user[]") return std::make_unique<cell_t<std::vector<word>, false>>();
    if (t == "user") return std::make_unique<cell_t<word, false>>();
#endif
    return {};
}
