#pragma once
#include "seq.hpp"
using namespace sq;

enum
{
    PUSH1, PUSHN, PUSHA, PUSHIT, POP0, POP1, POPI, POPN, POPA, POPIT, CONS1, CONSALL, FRONT, FRONTMOD, RESET, EMPTY, RAVAIL, WAVAIL, RECREATE, LOCKFREE, NOPS
};
enum { NVAL = 8 };
enum { ITERS = 6, OUTS = 5 };
extern std::vector< BoxInfo > boxes[NVAL];
extern const char* const value_name[NVAL];
extern const char* const iter_name[ITERS];
extern const char* const out_name[OUTS];
inline uint32_t array_size(uint32_t k) // of PUSHA and POPA
{
    static const uint32_t n[5] = { 1, 2, 3, 5, 19 };
    return n[k % 5];
}
