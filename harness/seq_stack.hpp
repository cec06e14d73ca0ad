#pragma once
#include "seq.hpp"
using namespace sq;

enum
{
    PUSH, BPUSH, UPUSH, RPUSH, RBPUSH, RUPUSH, POP, UPOP, POPI, UPOPI, CONS1, CONSALL, CONSATOMIC, CONSREV, EMPTY, RESERVE, RESERVEU, RECREATE, LOCKFREE, NOPS
};
enum { NVAL = 8 };
enum { ITERS = 6 };
extern std::vector< BoxInfo > boxes[NVAL];
extern const char* const value_name[NVAL];
extern const char* const iter_name[ITERS];
