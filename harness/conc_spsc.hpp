// spsc_queue under an owned scheduler and memory model: the generated case.
#pragma once
#include "conc.hpp"

#include <boost/lockfree/spsc_queue.hpp>

using namespace conc;
namespace blf = boost::lockfree;

enum
{
    PUSH,     // producer
    PUSHN,    // pointer + count
    PUSHA2,   // arrays
    PUSHA3,
    PUSHR,    // iterator range
    WAVAIL,
    POP,      // consumer
    POPU,
    POPV,     // pop()
    POPN,
    POPA2,
    POPA3,
    POPIT,
    CONS1,
    CONS1C,
    CONSALL,
    CONSALLC,
    RAVAIL,
    FRONT,
    EMPTY,
    NOPS
};
static const char* const opname[] = { "push", "push(ptr,n)", "push(array2)", "push(array3)", "push(range)", "write_available", "pop", "pop<U>", "pop()", "pop(ptr,n)",
                                      "pop(array2)", "pop(array3)", "pop(iterator)", "consume_one(f)", "consume_one(const f)", "consume_all(f)", "consume_all(const f)",
                                      "read_available", "front", "empty" };

struct Case
{
    uint32_t                             n;
    uint32_t                             rot; // elements sent through before the run
    uint32_t                             rotbatch;
    uint32_t                             prefill;
    std::vector< std::vector< ProgOp > > prog;
    vs::Policy                           pol;
    bool                                 weak   = false;
    bool                                 frozen = false;
};

typedef void (*spsc_runner)(pbt::Ctx&, Case&, int kind);
enum { NVAL = 6 };
extern spsc_runner spsc_runners[NVAL];
