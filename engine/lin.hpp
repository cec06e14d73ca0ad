// Linearizability checker for queue / stack histories (Wing & Gong search with memoisation).
#pragma once
#include "vsched.hpp"
#include <string>
#include <vector>

namespace lin {

enum Kind
{
    PUSH,      // vals pushed, in order, as one unit; short_ if fewer than requested were stored
    POP,       // vals[0] obtained
    POP_EMPTY, // pop failed
    PUSH_FULL, // nothing stored
    TAKE_ALL,  // everything taken at once; vals in the order handed out (newest first for a stack)
    TAKE_ALL_REV,
    EMPTY_T,   // empty() returned true
    EMPTY_F,
};

struct Op
{
    int                   kind;
    int                   tid;
    std::vector<uint32_t> vals;
    uint64_t              start = 0, end = 0;
    vs::VC                svc;          // clock of the thread when the operation started
    uint32_t              etime = 0;    // own clock component when it ended
    bool                  short_ = false; // a ranged push that stored less than asked
    uint32_t              hold   = 1;   // nodes the operation may keep away from the pool while it runs
    bool                  pending = false; // never returned: may or may not have taken effect
};

struct Spec
{
    bool                  fifo;
    uint64_t              pool = ~0ull; // nodes usable for elements (a lower bound)
    bool                  weak = false; // order = happens-before instead of real time
    std::vector<uint32_t> initial;      // front..back, or bottom..top
    bool                  has_final = true;
    std::vector<uint32_t> final_;
};

enum Result
{
    YES,
    NO,
    GAVE_UP
};
Result check(const std::vector<Op>& ops, const Spec& s);
// which part is to blame for a history without explanation: "empty-lies" if it has one without the answers of empty()
const char* blame(const std::vector<Op>& ops, const Spec& s);
// For long queue histories: the pairwise conditions that together characterise FIFO linearizability of complete histories
// with distinct values (every pop matched, order never inverted, no failed pop while an element was there throughout).
// Returns an empty string or what is wrong; `sig` receives the signature.
std::string check_fifo_pairs(const std::vector<Op>& ops, const Spec& s, const char** sig);
std::string show(const Op& o);
std::string show(const std::vector<Op>& ops, const Spec& s);

// ---- recording. begin() is a scheduling point; end() appends the finished operation.
void                   rec_reset();
void                   rec_begin(uint32_t hold = 1);
void                   rec_end(int kind, const uint32_t* vals, size_t n, bool short_ = false);
void                   rec_split(int kind, uint32_t val, uint32_t hold = 1); // ends the running operation, begins the next
void                   rec_abandon();                                       // forget the running operation
uint64_t               rec_steps();                                         // own steps since begin
std::vector<Op>&       rec_ops();
void                   rec_pending(int tid, int kind, const uint32_t* vals, size_t n); // turn an unfinished operation into a pending one
bool                   rec_running(int tid);

} // namespace lin
