// stack under an owned scheduler and memory model: the generated case.
#pragma once
#include "conc.hpp"

#include <boost/lockfree/stack.hpp>

using namespace conc;
namespace blf = boost::lockfree;

enum
{
    PUSH,
    BPUSH,
    RPUSH,   // ranged push
    RBPUSH,  // ranged bounded_push
    POP,
    POPU,
    CONS1,
    CONS1C,
    CONSALL,
    CONSALLC,
    TAKE,
    TAKEC,
    TAKER,
    TAKERC,
    EMPTY,
    RESERVE, // node-based only
    NOPS
};
static const char* const opname[] = { "push",           "bounded_push",         "push(range)",        "bounded_push(range)",      "pop",
                                      "pop<U>",         "consume_one(f)",       "consume_one(const f)", "consume_all(f)",         "consume_all(const f)",
                                      "consume_all_atomic(f)", "consume_all_atomic(const f)", "consume_all_atomic_reversed(f)", "consume_all_atomic_reversed(const f)", "empty", "reserve" };

struct Case
{
    uint32_t                             n;
    bool                                 fixed;
    bool                                 nodebased;
    uint32_t                             age;
    uint32_t                             agelen;
    uint32_t                             agekind; // how the aging empties the stack
    uint32_t                             prefill;
    std::vector< std::vector< ProgOp > > prog;
    vs::Policy                           pol;
    bool                                 weak   = false;
    uint32_t                             spurious = 0; // chance (of 16) of spurious failures
    bool                                 frozen = false;
    uint32_t                             churn  = 0; // cycles done by thread 1 at full speed before its program
    int                                  pad = 0; // 0: repeat the cycle; 1/2: once, then push/pop pairs up to that many removals/insertions
    std::vector< int >                   cycle;      // body of one cycle: 0 push, 1 pop, 2 take all, 3 take all reversed
    bool                                 ranged = true;
};

static const uint32_t CHURN_BASE = 1000;

typedef void (*stack_runner)(pbt::Ctx&, Case&, int kind);
enum { NVAL = 4 };
extern stack_runner stack_runners[NVAL];
