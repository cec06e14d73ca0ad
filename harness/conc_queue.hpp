// queue under an owned scheduler and memory model: the generated case.
#pragma once
#include "conc.hpp"

#include <boost/lockfree/queue.hpp>

using namespace conc;
namespace blf = boost::lockfree;

enum
{
    PUSH,
    BPUSH,
    POP,
    POPU,
    POPX,
    CONS1,
    CONS1C,
    CONSALL,
    CONSALLC,
    EMPTY,
    RESERVE, // node-based only
    NOPS
};
static const char* const opname[] = { "push", "bounded_push", "pop", "pop<U>", "pop<explicit U>", "consume_one(f)", "consume_one(const f)", "consume_all(f)", "consume_all(const f)", "empty", "reserve" };

struct Case
{
    uint32_t                             n;        // initial size
    bool                                 fixed;    // fixed number of nodes
    bool                                 nodebased;
    uint32_t                             age;      // push/pop pairs before the run
    uint32_t                             agelen;
    uint32_t                             prefill;
    std::vector< std::vector< ProgOp > > prog;
    vs::Policy                           pol;
    bool                                 weak = false;
    uint32_t                             spurious = 0; // chance (of 16) of spurious failures
    bool                                 exact = false; // every thread finishes: drain and measure
    bool                                 frozen = false;
    bool                                 bulk   = false; // many elements: judged pairwise
    uint32_t                             churn = 0;     // native churn cycles done by thread 1 at its first operation
    uint32_t                             churn_at = 0;
    bool                                 want_empty_exact = false;
};

static const uint32_t CHURN_BASE = 1000;


// one translation unit per element type
typedef void (*queue_runner)(pbt::Ctx&, Case&, int kind);
enum { NVAL = 4 };
extern queue_runner queue_runners[NVAL];
