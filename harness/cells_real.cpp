#include "cells.hpp"
std::unique_ptr<cell> make_cell_real([[maybe_unused]] std::string const & t)
{
    VH_FULL(if (t == "f64") return std::make_unique<cell_t<double, true>>();)
    VH_FULL(if (t == "f32") return std::make_unique<cell_t<float, false>>();)
    VH_FULL(if (t == "bool") return std::make_unique<cell_t<bool, false>>();)
    return {};
}
