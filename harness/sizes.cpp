// C17: containers of every size, in particular around the limits.
#include "../engine/pbt.hpp"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <cstring>
#include <memory>
#include <new>
#include <vector>
namespace blf = boost::lockfree;

namespace {
long       live_nodes; // bytes handed out
const long node_limit = 32l << 20;
template < class T >
struct Limited // an allocator with limited memory
{
    typedef T value_type;
    Limited() {}
    template < class U >
    Limited(Limited< U > const&) {}
    T* allocate(size_t n)
    {
        if (n > (size_t)node_limit || live_nodes + (long)(n * sizeof(T)) > node_limit)
            throw std::bad_alloc();
        live_nodes += (long)(n * sizeof(T));
        return (T*)::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 64 ? 64 : alignof(T)));
    }
    void deallocate(T* p, size_t n)
    {
        live_nodes -= (long)(n * sizeof(T));
        ::operator delete(p, std::align_val_t(alignof(T) < 64 ? 64 : alignof(T)));
    }
    template < class U >
    bool operator==(Limited< U > const&) const { return true; }
    template < class U >
    bool operator!=(Limited< U > const&) const { return false; }
};

struct Wide
{
    uint32_t id;
    unsigned char rest[17];
};
template < class T >
T make(uint32_t id)
{
    if constexpr (std::is_same_v< T, Wide >) {
        Wide w;
        w.id = id;
        memset(w.rest, (int)(id * 31 >> 3), sizeof w.rest);
        return w;
    } else
        return (T)(id * 2654435761u >> (8 * (4 - sizeof(T) % 5)) % 32);
}
template < class T >
bool same(T const& a, T const& b)
{
    if constexpr (std::is_same_v< T, Wide >)
        return a.id == b.id && !memcmp(a.rest, b.rest, sizeof a.rest);
    else
        return a == b;
}

enum Kind { QUEUE, STACK, SPSC };

template < Kind K, class T, class C >
struct Driver
{
    C&          c;
    long        cap; // -1: grows
    size_t      size;
    const char* name;
    std::vector< uint32_t > lifo;
    uint32_t    in = 0, out = 0;
    long        count() const { return K == STACK ? (long)lifo.size() : (long)(in - out); }
    void        pushed()
    {
        if (K == STACK)
            lifo.push_back(in);
        in++;
    }
    uint32_t popped()
    {
        if (K == STACK) {
            uint32_t r = lifo.back();
            lifo.pop_back();
            return r;
        }
        return out++;
    }
    void got(T const& v, const char* how)
    {
        if (count() == 0)
            pbt::fail("wrong-result", "%s of size %zu: %s delivered an element although none is stored", name, size, how);
        uint32_t e = popped();
        if (!same(v, make< T >(e)))
            pbt::fail("wrong-elements", "%s of size %zu: %s delivered something else than element #%u with %ld elements stored", name, size, how, e, count() + 1);
    }
    bool push_one(uint32_t mode)
    {
        T v = make< T >(in);
        bool r;
        if constexpr (K == SPSC)
            r = c.push(v);
        else
            r = mode == 0 ? c.push(v) : mode == 1 && cap >= 0 ? c.bounded_push(v) : mode == 2 ? c.unsynchronized_push(v) : c.push(v);
        if (cap >= 0 && r != (count() < cap))
            pbt::fail("capacity", "%s of size %zu: push returned %d with %ld elements stored", name, size, (int)r, count());
        if (cap < 0 && !r)
            pbt::fail("wrong-result", "%s of size %zu: push failed although the allocator has memory", name, size);
        if (r)
            pushed();
        return r;
    }
    void push_many(long n, uint32_t mode)
    {
        if (mode == 3 && (K == SPSC || K == STACK)) {
            std::vector< T > b;
            for (long i = 0; i != n; ++i)
                b.push_back(make< T >(in + (uint32_t)i));
            auto r    = [&] {
                if constexpr (K == QUEUE)
                    return b.cbegin();
                else {
                    typename std::vector< T >::const_iterator i = b.begin(), e = b.end();
                    return c.push(i, e);
                }
            }();
            long k    = (long)(r - b.cbegin());
            long want = cap < 0 ? n : std::min(n, cap - count());
            if (k != want)
                pbt::fail("capacity", "%s of size %zu: a ranged push of %ld elements took %ld with %ld stored", name, size, n, k, count());
            for (long i = 0; i != k; ++i)
                pushed();
            return;
        }
        for (long i = 0; i != n; ++i)
            if (!push_one(mode))
                return;
    }
    void pop_many(long n, uint32_t mode)
    {
        T v;
        if (mode == 3 && n >= count()) {
            size_t want = (size_t)count(), k = c.consume_all([&](T const& x) { got(x, "consume_all"); });
            if (k != want)
                pbt::fail("wrong-result", "%s of size %zu: consume_all returned %zu with %zu elements stored", name, size, k, want);
            return;
        }
        for (long i = 0; i != n; ++i) {
            bool r, has = count() != 0;
            if (mode == 1)
                r = c.consume_one([&](T const& x) { got(x, "consume_one"); });
            else {
                memset((void*)&v, 0, sizeof v);
                if constexpr (K == SPSC)
                    r = c.pop(v);
                else
                    r = mode == 2 ? c.unsynchronized_pop(v) : c.pop(v);
            }
            if (r != has)
                pbt::fail("wrong-result", "%s of size %zu: pop returned %d with %ld elements stored", name, size, (int)r, count());
            if (r && mode != 1)
                got(v, "pop");
            if (!r)
                return;
        }
    }
    void idle()
    {
        if (c.empty() != (count() == 0))
            pbt::fail("wrong-result", "%s of size %zu: empty() returned %d with %ld elements stored", name, size, (int)c.empty(), count());
        if constexpr (K == SPSC)
            if ((long)c.read_available() != count() || (long)c.write_available() != cap - count())
                pbt::fail("wrong-result", "%s of size %zu with %ld elements: %zu readable, %zu writable", name, size, count(), (size_t)c.read_available(), (size_t)c.write_available());
    }
    void run(pbt::Ctx& cx)
    {
        pbt::Tape& t = cx.tape;
        long       top = cap >= 0 ? cap : (long)size + 3;
        int        n   = (int)t.range(1, 6);
        bool       full = false, drained = false;
        for (int i = 0; i != n; ++i) {
            uint32_t op = t.draw(4), mode = t.draw(4);
            cx.mix(op * 8 + mode);
            switch (op) {
            case 0:
                pbt::note("fill(mode %u) ", mode);
                push_many(std::max(0l, top - count()) + 2, mode);
                if (cap >= 0 && count() != cap)
                    pbt::fail("capacity", "%s of size %zu is full with %ld elements", name, size, count());
                full = true;
                break;
            case 1:
                pbt::note("drain(mode %u) ", mode);
                pop_many(count() + 1, mode);
                if (count())
                    pbt::fail("wrong-result", "%s of size %zu: %ld elements did not come back", name, size, count());
                drained = true;
                break;
            case 2: {
                long k = (long)t.draw(t.draw(2) ? (uint32_t)top + 2 : 10);
                k      = std::min(k, (long)120000);
                if (cap < 0)
                    k = std::min(k, 200000 - count());
                pbt::note("push %ld(mode %u) ", k, mode);
                push_many(k, mode);
                break;
            }
            default: {
                long k = (long)t.draw(t.draw(2) ? (uint32_t)top + 2 : 10);
                pbt::note("pop %ld(mode %u) ", k, mode);
                pop_many(k, mode);
            }
            }
            idle();
        }
        if (full)
            PBT_LABEL("filled to the last place");
        cx.nontrivial = full || drained || in > 1;
    }
};

template < Kind K, class T, class C >
void drive(pbt::Ctx& cx, C& c, long cap, size_t size, const char* name)
{
    Driver< K, T, C > d { c, cap, size, name, {}, 0, 0 };
    d.run(cx);
}

size_t gen_size(pbt::Tape& t)
{
    switch (t.draw(8)) {
    case 0: return t.draw(4);
    case 1: return t.draw(70);
    case 2: return ((size_t)1 << t.draw(17)) + t.draw(3) - 1;
    case 3: return 65540 - t.draw(10);                                   // around the limit
    case 4: return 65536 * (size_t)t.range(1, 3) + t.draw(6);            // multiples of 2^16
    case 5: return ((size_t)1 << t.range(17, 63)) + t.draw(8) - 2;       // far too large
    case 6: return ((size_t)1 << 32) * t.range(1, 5) + t.draw(70);       // truncation to 32 bits would leave a small number
    default: return ~(size_t)0 - t.draw(8);                              // around the maximum of the size type
    }
}

// fixed-sized, run-time: accepted sizes work, sizes above the limit throw. must: sizes that must be accepted, may: sizes that may be
template < Kind K, class T, class C >
void fixed_rt(pbt::Ctx& cx, const char* name, size_t must, size_t may)
{
    size_t n = gen_size(cx.tape);
    if (K == SPSC && n > (size_t)node_limit)
        n |= (size_t)1 << 26; // far beyond what the allocator has
    cx.mix(n);
    pbt::note("%s(%zu) ", name, n);
    std::unique_ptr< C > c;
    bool threw = false;
    try {
        c.reset(new C(n));
    } catch (std::exception const&) {
        threw = true;
    }
    if (threw && n <= must)
        pbt::fail("refused", "%s does not accept a size of %zu", name, n);
    if (!threw && n > may)
        pbt::fail("accepted", "%s accepts a size of %zu, which it cannot support", name, n);
    if (threw) {
        PBT_LABEL("size refused");
        cx.nontrivial = true;
    } else {
        if (n >= 65533)
            PBT_LABEL("at the limit");
        if (K != SPSC || n <= 200000)
            drive< K, T >(cx, *c, (long)n, n, name);
    }
    c.reset();
    if (live_nodes)
        pbt::fail("leak", "%s(%zu) keeps %ld bytes after %s", name, n, live_nodes, threw ? "a failed construction" : "its destruction");
}

// node based: n nodes are there from the beginning, more come from the allocator
template < Kind K, class T, class C >
void node_rt(pbt::Ctx& cx, const char* name)
{
    size_t n = gen_size(cx.tape);
    if (n > 70000 && n < 4000000)
        n = 70000 + n % 2000; // time
    cx.mix(n);
    pbt::note("%s(%zu) ", name, n);
    std::unique_ptr< C > c;
    bool threw = false;
    try {
        c.reset(new C(n));
    } catch (std::exception const&) {
        threw = true;
    }
    if (threw && n <= 200000)
        pbt::fail("refused", "%s does not accept a size of %zu", name, n);
    if (!threw && n > (size_t)node_limit / sizeof(T))
        pbt::fail("accepted", "%s(%zu) was constructed with an allocator that has %ld bytes", name, n, node_limit);
    if (threw) {
        PBT_LABEL("size refused");
        cx.nontrivial = true;
    } else {
        // the promised nodes are there
        if (cx.tape.draw(2)) {
            for (size_t i = 0; i != n; ++i)
                if (!c->bounded_push(make< T >((uint32_t)i)))
                    pbt::fail("capacity", "%s(%zu): bounded_push failed after %zu elements", name, n, i);
            for (size_t i = 0; i != n; ++i) {
                T v;
                if (!c->pop(v) || !same(v, make< T >((uint32_t)(K == STACK ? n - 1 - i : i))))
                    pbt::fail("wrong-elements", "%s(%zu): element %zu of %zu is missing or wrong", name, n, i, n);
            }
        }
        drive< K, T >(cx, *c, -1, n, name);
    }
    c.reset();
    if (live_nodes)
        pbt::fail("leak", "%s(%zu) keeps %ld bytes after %s", name, n, live_nodes, threw ? "a failed construction" : "its destruction");
}

template < Kind K, class T, class C >
void ctime(pbt::Ctx& cx, const char* name, size_t n)
{
    cx.mix(n);
    pbt::note("%s of capacity %zu ", name, n);
    std::unique_ptr< C > c(new C);
    if (n >= 65533)
        PBT_LABEL("at the limit");
    drive< K, T >(cx, *c, (long)n, n, name);
}

template < class T >
void queue_ct(pbt::Ctx& cx, uint32_t which)
{
    switch (which) {
#define Q(i, N) \
    case i: return ctime< QUEUE, T, blf::queue< T, blf::capacity< N > > >(cx, "queue", N);
        Q(0, 0) Q(1, 1) Q(2, 2) Q(3, 3) Q(4, 255) Q(5, 256) Q(6, 4095) Q(7, 32767) Q(8, 32768) Q(9, 65533) Q(10, 65534)
#undef Q
    }
}
template < class T >
void stack_ct(pbt::Ctx& cx, uint32_t which)
{
    switch (which) {
#define Q(i, N) \
    case i: return ctime< STACK, T, blf::stack< T, blf::capacity< N > > >(cx, "stack", N);
        Q(0, 1) Q(1, 2) Q(2, 3) Q(3, 64) Q(4, 255) Q(5, 256) Q(6, 4095) Q(7, 32767) Q(8, 32768) Q(9, 65533) Q(10, 65534)
#undef Q
    }
}
template < class T >
void spsc_ct(pbt::Ctx& cx, uint32_t which)
{
    switch (which) {
#define Q(i, N) \
    case i: return ctime< SPSC, T, blf::spsc_queue< T, blf::capacity< N > > >(cx, "spsc_queue", N);
        Q(0, 0) Q(1, 1) Q(2, 2) Q(3, 255) Q(4, 256) Q(5, 65534) Q(6, 65535) Q(7, 65536) Q(8, 65537) Q(9, 70000) Q(10, 131072)
#undef Q
    }
}

template < class T >
void any(pbt::Ctx& cx)
{
    typedef blf::allocator< Limited< T > > A;
    typedef blf::fixed_sized< true >       F;
    uint32_t k = cx.tape.draw(8), w = cx.tape.draw(11);
    cx.mix(k * 16 + w);
    switch (k) {
    case 0: return fixed_rt< QUEUE, T, blf::queue< T, F, A > >(cx, "queue<fixed_sized>", 65534, 65534);
    case 1: return fixed_rt< STACK, T, blf::stack< T, F, A > >(cx, "stack<fixed_sized>", 65534, 65535);
    case 2: return fixed_rt< SPSC, T, blf::spsc_queue< T, A > >(cx, "spsc_queue", (size_t)node_limit / sizeof(T) - 1, (size_t)node_limit / sizeof(T));
    case 3: return node_rt< QUEUE, T, blf::queue< T, A > >(cx, "queue");
    case 4: return node_rt< STACK, T, blf::stack< T, A > >(cx, "stack");
    case 5: return queue_ct< T >(cx, w);
    case 6: return stack_ct< T >(cx, w);
    default: return spsc_ct< T >(cx, w);
    }
}
} // namespace

void any1(pbt::Ctx&);
void any2(pbt::Ctx&);
#if VAL == 0
PBT_SCENARIO(sizes, "the size was refused, or the container was filled or drained or moved at least two elements")
{
    live_nodes = 0;


    switch (cx.tape.draw(3)) {
    case 0: any< uint32_t >(cx); break;
    case 1: any1(cx); break;
    default: any2(cx); break;
    }
}
#elif VAL == 1
void any1(pbt::Ctx& cx) { live_nodes = 0; any< unsigned char >(cx); }
#else
void any2(pbt::Ctx& cx) { live_nodes = 0; any< Wide >(cx); }
#endif
