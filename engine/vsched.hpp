// Owned scheduler and memory model for code compiled with clang's ThreadSanitizer instrumentation pass.
//
// The translation unit under test is compiled with -fsanitize=thread but linked against this runtime instead of
// libtsan. Accesses to the arena made by a fibre while run() is active are scheduling points and go through the
// model; everything else is passed through untouched. Real memory always holds the newest value of each location.
#pragma once
#include "pbt.hpp"
#include <cstddef>
#include <cstdint>
#include <new>

namespace vs {

enum { NT = 6 }; // fibres per case

struct VC
{
    uint32_t c[NT];
};

// ---- one case
struct Config
{
    bool     weak       = false; // loads may return stale values allowed by the memory model
    uint32_t stale16    = 4;     // chance (of 16) that a load with several candidates is offered a stale one
    uint32_t spurious16 = 0;     // chance (of 16) that a weak compare-and-swap fails although the values match
    uint64_t step_limit = 40000;
};
extern Config cfg;

void  begin_case();                        // reset arena, clocks, fibres
void* alloc(size_t size, size_t align);    // from the arena; never reused within a case
void  dealloc(void* p, size_t size);       // marks the block dead; checked for size and double free
bool  in_arena(const void* p);
size_t live_blocks();
size_t total_allocs();
extern void (*on_dealloc)(void* p, size_t size); // optional observer

// ---- schedule
struct Suspension
{
    int      tid;
    uint32_t at;      // own step of the fibre (counted over the whole fibre) at which it is suspended
    int      mode;    // 0: until all others are done or suspended, 1: for `len` global steps, 2: forever
    uint32_t len;
};
struct Segment
{
    int      tid;
    uint32_t steps;   // 0: until its current or next operation ends
    uint32_t unit;    // what is counted: 0: steps, 1: successful compare-exchanges, 2: compare-exchanges begun (it stops before the last one)
};
struct Policy
{
    int        kind = 0;      // 0: run to completion in order, 1: random walk with run lengths, 2: PCT, 3: harass fibre 0, 4: segments
    int        runlen = 0;    // table of run lengths for the random walk
    int        nchange = 0;   // PCT
    uint32_t   change[4];
    Suspension susp[3];
    int        nsusp = 0;
    uint32_t   skip = 0;      // harass: so many of fibre 0 are left alone first
    uint32_t   rounds = 0;    // harass: whenever fibre 0 is about to compare-and-swap, others run until one has changed that location
    Segment    seg[20];       // segments: afterwards the fibres run to completion in order
    int        nseg = 0;
    uint32_t   linger = 0;    // ... and for so many steps more
};
// draws a policy for `nthreads` fibres with an expected number of steps each
void draw_policy(pbt::Tape& t, Policy& p, int nthreads, uint32_t steps_each);

void draw_interlocked(pbt::Tape& t, Policy& p, int nthreads, uint32_t steps_each, int coarse);
void draw_segments(pbt::Tape& t, Policy& p, int nthreads, uint32_t steps_each);

int  spawn(void (*fn)(void*), void* arg);
void run(const Policy& p);   // returns when every fibre is done (or frozen forever)
bool finished(int tid);
uint32_t returned_values(); // successful compare-exchanges of a value that had been replaced and came back

// ---- from inside a fibre
int      self();                 // -1 outside
void     yield();                // explicit scheduling point
uint64_t stamp();                // strictly increasing event number, also usable outside of fibres
VC       clock();                // vector clock of the running fibre
uint32_t own_time();             // its own component
void     native(bool on);        // on: the running fibre executes at full speed, without scheduling points
uint64_t own_steps(int tid);
uint64_t global_steps();
int      switches();             // preemptive context switches so far
int      stale_reads();
int      spurious_failures();
bool     active();

// ---- payload race checking
// An element object is about to be written at p. tracked: the element type reports its destruction, so constructing
// over a live element is an error.
void payload_construct(const void* p, size_t size, bool tracked);
void payload_destroy(const void* p, size_t size);   // ... is destroyed (counts as a write, must follow all readers)
long live_elements();                               // tracked elements alive in the arena
void tentative(bool on);         // reads of the running fibre do not count until committed
void commit_last_object();       // the last tentatively read object was really used

// what a weak compare-and-swap is to compare with: p, or something else, which makes it fail and leaves *p alone
void* weak_expected(void* p, size_t size);

void note_event(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // into the trace of a replay

// ---- allocator living in the arena
template < class T >
struct Alloc
{
    typedef T value_type;
    Alloc() {}
    template < class U >
    Alloc(Alloc< U > const&)
    {}
    T*   allocate(size_t n) { return static_cast< T* >(vs::alloc(n * sizeof(T), alignof(T) < 16 ? 16 : alignof(T))); }
    void deallocate(T* p, size_t n) { vs::dealloc(p, n * sizeof(T)); }
    friend bool operator==(Alloc const&, Alloc const&) { return true; }
    friend bool operator!=(Alloc const&, Alloc const&) { return false; }
    typedef T*        pointer;
    typedef const T*  const_pointer;
    typedef T&        reference;
    typedef const T&  const_reference;
    typedef size_t    size_type;
    typedef ptrdiff_t difference_type;
    template < class U >
    struct rebind
    {
        typedef Alloc< U > other;
    };
    size_t max_size() const { return ~size_t(0) / sizeof(T); }
};

} // namespace vs
