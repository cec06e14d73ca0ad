#include "elems.hpp"

namespace elems {
long                          live;
static std::vector< case_fn >& cases()
{
    static std::vector< case_fn > v;
    return v;
}
void add(case_fn f) { cases().push_back(f); }
} // namespace elems

PBT_SCENARIO(element_types, "a generated element type in a generated configuration, up to 27 calls; non-trivial: at least two elements were stored")
{
    uint32_t k = cx.tape.draw((uint32_t)elems::cases().size());
    cx.mix(k);
    elems::cases()[k](cx);
    pbt::note("\n");
}
