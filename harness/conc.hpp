// Shared parts of the concurrent harnesses.
#pragma once
#include "../engine/lin.hpp"
#include "../engine/pbt.hpp"
#include "../engine/vsched.hpp"

#include <atomic>
#include <cstring>
#include <iterator>
#include <memory>
#include <vector>
#ifdef BOOST_LOCKFREE_FORCE_BOOST_ATOMIC
#    include <boost/atomic.hpp>
#endif

#ifdef VS_SPURIOUS
// The instrumentation pass does not tell weak compare-and-swaps from strong ones. This does: a weak one may be made to
// compare with a value that cannot match, which looks like a spurious failure that read an older value.
template < class T >
__attribute__((no_sanitize("thread"), always_inline)) inline T& vs_weak_expected(T& x)
{
    return *static_cast< T* >(vs::weak_expected(&x, sizeof(T)));
}
#    define compare_exchange_weak(expected, ...) compare_exchange_weak(vs_weak_expected(expected), __VA_ARGS__)
#endif

namespace conc {

inline uint64_t word(uint32_t id, int i) { return i == 0 ? id : (uint64_t(id) * 0x9e3779b97f4a7c15ull) ^ (0x1111111111111111ull * (unsigned)i); }

template < int W >
uint32_t check_words(const uint64_t* w)
{
    uint32_t id = (uint32_t)w[0];
    for (int i = 0; i != W; ++i)
        if (w[i] != word(id, i))
            pbt::fail("torn-element", "an obtained element is torn, stale or was never pushed: word %d of %d is %llx", i, W, (unsigned long long)w[i]);
    return id;
}

// element for queue: trivial assignment and destruction, reports its construction
template < int W >
struct alignas(8) PayQ
{
    uint64_t w[W];
    PayQ() {}
    explicit PayQ(uint32_t id)
    {
        for (int i = 0; i != W; ++i)
            w[i] = word(id, i);
    }
    PayQ(PayQ const& o)
    {
        vs::payload_construct(this, sizeof(*this), false);
        for (int i = 0; i != W; ++i)
            w[i] = o.w[i];
    }
    PayQ& operator=(PayQ const&) = default;
};

// element with full life cycle for stack and spsc_queue
template < int W >
struct alignas(8) PayT
{
    uint64_t w[W];
    PayT() { vs::payload_construct(this, sizeof(*this), true); w[0] = 0; }
    explicit PayT(uint32_t id)
    {
        vs::payload_construct(this, sizeof(*this), true);
        for (int i = 0; i != W; ++i)
            w[i] = word(id, i);
    }
    PayT(PayT const& o)
    {
        vs::payload_construct(this, sizeof(*this), true);
        for (int i = 0; i != W; ++i)
            w[i] = o.w[i];
    }
    PayT& operator=(PayT const& o)
    {
        for (int i = 0; i != W; ++i)
            w[i] = o.w[i];
        return *this;
    }
    ~PayT()
    {
        vs::payload_destroy(this, sizeof(*this));
        w[0] = 0xdeaddeaddeaddeadull;
    }
};

// converted element
template < class V, int W >
struct Out
{
    uint64_t w[W];
    Out() {}
    Out(V const& v)
    {
        for (int i = 0; i != W; ++i)
            w[i] = v.w[i];
    }
};
template < class V, int W >
struct OutX // explicit conversion only
{
    uint64_t w[W];
    OutX() {}
    explicit OutX(V const& v)
    {
        for (int i = 0; i != W; ++i)
            w[i] = v.w[i];
    }
};

template < class V >
struct Val;
template < int W >
struct Val< PayQ< W > >
{
    typedef Out< PayQ< W >, W >  out;
    typedef OutX< PayQ< W >, W > outx;
    static PayQ< W > make(uint32_t id) { return PayQ< W >(id); }
    template < class X >
    static uint32_t id(X const& v) { return check_words< W >(v.w); }
    static const int words = W;
};
template < int W >
struct Val< PayT< W > >
{
    typedef Out< PayT< W >, W > out;
    typedef out                 outx;
    static PayT< W > make(uint32_t id) { return PayT< W >(id); }
    template < class X >
    static uint32_t id(X const& v) { return check_words< W >(v.w); }
    static const int words = W;
};
template < class I >
struct ValI
{
    typedef uint64_t out;
    typedef uint64_t outx;
    static I make(uint32_t id) { return (I)id; }
    template < class X >
    static uint32_t id(X const& v) { return (uint32_t)v; }
    static const int words = 1;
};
template <> struct Val< uint16_t > : ValI< uint16_t > {};
template <> struct Val< uint32_t > : ValI< uint32_t > {};
template <> struct Val< uint64_t > : ValI< uint64_t > {};

struct ProgOp
{
    int      code;
    uint32_t a;     // id of first value / variant
    uint32_t n;     // how many values
};

// a count between 0 and 300, from all orders of magnitude
inline uint32_t draw_count(pbt::Tape& t)
{
    switch (t.draw(4)) {
    case 1: return 5 + t.draw(36);
    case 2: return 41 + t.draw(100);
    case 3: return 60 + t.draw(241);
    default: return t.draw(5);
    }
}

// every fourth case or so uses the large element type
inline int draw_val(pbt::Tape& t, int nval)
{
    int v = t.draw(2 * nval);
    return v < nval ? v : v - nval == nval - 1 ? 0 : v - nval;
}

inline void mix_hist(pbt::Ctx& cx)
{
    for (auto& o : lin::rec_ops()) {
        cx.mix(o.kind * 31 + o.tid);
        cx.mix(o.start);
        for (uint32_t v : o.vals)
            cx.mix(v);
    }
}

inline void note_prog(const std::vector< std::vector< ProgOp > >& prog, const char* const* names)
{
    if (!pbt::want_desc())
        return;
    for (size_t t = 0; t != prog.size(); ++t) {
        pbt::note("  T%zu:", t);
        for (auto& o : prog[t]) {
            pbt::note(" %s", names[o.code]);
            if (o.n)
                pbt::note("(%u..%u)", o.a, o.a + o.n - 1);
            pbt::note(";");
        }
        pbt::note("\n");
    }
}
inline void note_policy(const vs::Policy& p)
{
    if (!pbt::want_desc())
        return;
    if (p.kind == 3)
        pbt::note("  schedule: T0 is overtaken at each compare-and-swap after the first %u, %u times, by %u steps more than needed", p.skip, p.rounds, p.linger);
    else if (p.kind == 4) {
        pbt::note("  schedule:");
        for (int i = 0; i != p.nseg; ++i)
            if (p.seg[i].steps)
                pbt::note(" T%d %s%u %s,", p.seg[i].tid, p.seg[i].unit == 2 ? "up to " : "", p.seg[i].steps, p.seg[i].unit == 0 ? "steps" : p.seg[i].unit == 1 ? "successful compare-exchanges" : "compare-exchanges");
            else
                pbt::note(" T%d until the end of its operation,", p.seg[i].tid);
        pbt::note(" then in order");
    } else
        pbt::note("  schedule: %s", p.kind == 0 ? "run to completion" : p.kind == 1 ? "random run lengths" : "priorities with change points");
    for (int i = 0; i != p.nsusp; ++i)
        pbt::note(", T%d suspended at its step %u %s", p.susp[i].tid, p.susp[i].at, p.susp[i].mode == 2 ? "forever" : p.susp[i].mode == 1 ? "for a while" : "until the others are done");
    pbt::note("\n");
}

} // namespace conc
