#pragma once
#include "seq.hpp"
using namespace sq;

enum
{
    PUSH, BPUSH, UPUSH, POP, UPOP, POPI, POPX, UPOPI, UPOPX, CONS1, CONSALL, EMPTY, RESERVE, RESERVEU, RECREATE, LOCKFREE, NOPS
};
enum { NVAL = 8 };
// boxes[element type] = its configurations
extern std::vector< BoxInfo > boxes[NVAL];
extern const char* const value_name[NVAL];
