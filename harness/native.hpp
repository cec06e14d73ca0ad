// Real threads on the real machine: generated configurations, operation mixes and delays; the recorded history is judged afterwards.
// A second opinion next to the owned scheduler: optimised code, hardware atomics, thread-local and static state, long histories.
#pragma once
#include "../engine/pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstring>
#include <memory>
#include <sched.h>
#include <thread>
#include <time.h>
#include <vector>

namespace native {

// ---- elements: a number and words that have to go with it; W == 0: a class whose copies are counted and take their time
inline uint64_t word(uint64_t id, int i) { return i == 0 ? id : (id * 0x9e3779b97f4a7c15ull) ^ (0x1111111111111111ull * (unsigned)i); }

template < int W >
struct Elem
{
    uint64_t w[W];
    static Elem make(uint64_t id)
    {
        Elem e;
        for (int i = 0; i != W; ++i)
            e.w[i] = word(id, i);
        return e;
    }
    bool intact() const
    {
        for (int i = 0; i != W; ++i)
            if (w[i] != word(w[0], i))
                return false;
        return true;
    }
    uint64_t id() const { return w[0]; }
};

extern std::atomic< long > live;
extern std::atomic< long > broken; // uses of dead objects
extern thread_local uint32_t pause_state;
void set_pauses(uint32_t one_in);
void pause_somewhere(); // inside of copies and functors: sometimes gives up the processor

template <>
struct Elem< 0 >
{
    Elem*    self;
    uint64_t w[2];
    Elem() : self(this)
    {
        w[0] = w[1] = 0;
        live.fetch_add(1, std::memory_order_relaxed);
    }
    Elem(Elem const& o) : self(this)
    {
        check(o);
        w[0] = o.w[0];
        pause_somewhere();
        w[1] = o.w[1];
        live.fetch_add(1, std::memory_order_relaxed);
    }
    Elem& operator=(Elem const& o)
    {
        check(o);
        check(*this);
        w[0] = o.w[0];
        pause_somewhere();
        w[1] = o.w[1];
        return *this;
    }
    ~Elem()
    {
        check(*this);
        self = nullptr;
        w[1] = 0xdddddddddddddddd;
        live.fetch_sub(1, std::memory_order_relaxed);
    }
    static void check(Elem const& o)
    {
        if (o.self != &o)
            broken.fetch_add(1, std::memory_order_relaxed);
    }
    static Elem make(uint64_t id)
    {
        Elem e;
        e.w[0] = word(id, 0), e.w[1] = word(id, 1);
        return e;
    }
    bool     intact() const { return self == this && w[1] == word(w[0], 1); }
    uint64_t id() const { return w[0]; }
};

// what the containers' memory goes through
struct Ledger
{
    std::atomic< long > blocks, allocs, odd, early, inside;
    // inside: a container exists and is not being destroyed
};
extern Ledger ledger;
template < class T >
struct Audit
{
    typedef T value_type;
    Audit() {}
    template < class U >
    Audit(Audit< U > const&)
    {}
    static const size_t head = alignof(T) > 64 ? alignof(T) : 64;
    T* allocate(size_t n)
    {
        char*   p = (char*)::operator new(head + n * sizeof(T), std::align_val_t(head));
        size_t* h = (size_t*)(p + head) - 2;
        h[0]      = n * sizeof(T);
        h[1]      = 0xa110ca7edull;
        ledger.blocks.fetch_add(1, std::memory_order_relaxed);
        ledger.allocs.fetch_add(1, std::memory_order_relaxed);
        return (T*)(p + head);
    }
    void deallocate(T* q, size_t n)
    {
        size_t* h = (size_t*)q - 2;
        if (ledger.inside.load(std::memory_order_relaxed))
            ledger.early.fetch_add(1, std::memory_order_relaxed);
        if (h[1] != 0xa110ca7edull || h[0] != n * sizeof(T)) {
            ledger.odd.fetch_add(1, std::memory_order_relaxed);
            return;
        }
        h[1] = 0;
        memset((void*)q, 0xdd, n * sizeof(T));
        ledger.blocks.fetch_sub(1, std::memory_order_relaxed);
        ::operator delete((char*)q - head, std::align_val_t(head));
    }
    template < class U >
    bool operator==(Audit< U > const&) const
    {
        return true;
    }
    template < class U >
    bool operator!=(Audit< U > const&) const
    {
        return false;
    }
};

inline uint64_t now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000u + (uint64_t)ts.tv_nsec;
}

struct Rng
{
    uint64_t s;
    uint32_t next()
    {
        s ^= s << 13, s ^= s >> 7, s ^= s << 17;
        return (uint32_t)(s >> 24);
    }
    uint32_t draw(uint32_t n) { return next() % n; }
};

enum Kind : uint8_t { PUSH, BOUNDED, POP, ONE, ALL, ATOMIC, ATOMIC_REV, EMPTY, RANGE, RESERVE, NKINDS };

// one call: elements ids[first, first + n), n of `asked`
struct Op
{
    uint64_t s, e;
    uint32_t first, n, asked;
    Kind     kind;
    bool     ok;
};

struct Log
{
    std::vector< Op >       ops;
    std::vector< uint64_t > ids;
    uint64_t                torn = 0;
    template < class T >
    void got(T const& x)
    {
        if (!x.intact())
            ++torn;
        ids.push_back(x.id());
    }
};

struct Plan
{
    int      threads, ops;
    uint32_t weight[128][NKINDS];
    uint32_t delay[128];   // 0: none, otherwise one in .. calls is followed by a delay
    uint32_t pauses;     // pauses inside of copies and functors: one in ..
    uint64_t seed;
    uint32_t preload, range;
};

// what is known about an element
struct Fate
{
    uint64_t ps = 0, pe = 0, os = 0, oe = 0;
    uint32_t pop_op = 0, pop_pos = 0, push_op = 0, push_pos = 0;
    int      pushes = 0, pops = 0;
};

void draw_plan(pbt::Ctx& cx, Plan& p, bool stack, int max_threads);
// runs body(thread, rng) on real threads that start together
void run_threads(Plan const& p, void (*body)(void*, int, Rng&), void* arg);
// judges a history of a multi-producer multi-consumer container; limit: number of elements a fixed-sized one can hold, 0: unbounded
void judge(pbt::Ctx& cx, std::vector< Log > const& logs, bool stack, size_t limit, const char* conf);
void slow_down(Rng& r, uint32_t one_in);

// repeats a case when it is replayed: the schedule is not ours
template < class F >
void repeat(pbt::Ctx& cx, F f)
{
    (void)cx;
    if (!pbt::replaying()) {
        f();
        return;
    }
    uint64_t end = now() + 4000000000ull;
    do {
        pbt::heartbeat();
        f();
    } while (now() < end);
}

} // namespace native
