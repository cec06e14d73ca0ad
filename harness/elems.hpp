// Containers of generated element types: every byte and every alignment has to survive. The element types are written by typegen.py.
#pragma once
#include "../engine/pbt.hpp"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>

#include <array>
#include <complex>
#include <cstring>
#include <deque>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace elems {
namespace blf = boost::lockfree;

// pseudo random bytes that belong to element number id
struct Stream
{
    uint64_t s;
    explicit Stream(uint64_t id) : s(id * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void bytes(void* p, size_t n)
    {
        unsigned char* c = static_cast< unsigned char* >(p);
        for (size_t i = 0; i != n; ++i)
            c[i] = (unsigned char)(next() >> 40);
    }
};
inline bool same_bytes(void const* a, void const* b, size_t n) { return std::memcmp(a, b, n) == 0; }

extern long live; // objects of observed element types

template < class T >
struct Tr; // name, fill(T&, Stream), value bytes compared by same(T const&, T const&)

// scalars: arbitrary bit patterns unless the type has invalid ones
template < class T >
struct TrBits
{
    static void fill(T& x, Stream s) { s.bytes(&x, sizeof(T)); }
    static bool same(T const& a, T const& b) { return same_bytes(&a, &b, sizeof(T)); }
};

// an allocator whose blocks have exactly the size and alignment asked for, and are filled with junk
template < class T >
struct Exact
{
    typedef T value_type;
    Exact() {}
    template < class U >
    Exact(Exact< U > const&) {}
    T* allocate(size_t n)
    {
        size_t a = alignof(T) < 16 ? 16 : alignof(T);
        void*  p = ::operator new(n * sizeof(T), std::align_val_t(a));
        std::memset(p, 0xa7, n * sizeof(T));
        return static_cast< T* >(p);
    }
    void deallocate(T* p, size_t)
    {
        size_t a = alignof(T) < 16 ? 16 : alignof(T);
        ::operator delete(static_cast< void* >(p), std::align_val_t(a));
    }
    template < class U >
    bool operator==(Exact< U > const&) const { return true; }
    template < class U >
    bool operator!=(Exact< U > const&) const { return false; }
};

template < class T >
void where(T const& x, const char* what)
{
    uintptr_t p = reinterpret_cast< uintptr_t >(std::addressof(x));
    if (p % alignof(T))
        pbt::fail("misaligned", "%s hands out a %s at %#zx, which is not aligned to %zu", what, Tr< T >::name(), (size_t)p, alignof(T));
}

template < class T >
struct Model
{
    std::deque< uint64_t > q;
    bool                   lifo;
    uint64_t               id = 1;
    uint64_t               next_out()
    {
        uint64_t e = lifo ? q.back() : q.front();
        if (lifo)
            q.pop_back();
        else
            q.pop_front();
        return e;
    }
    static T make(uint64_t e)
    {
        T x = T();
        Tr< T >::fill(x, Stream(e));
        return x;
    }
    void is(T const& x, uint64_t e, const char* what)
    {
        where(x, what);
        T y = make(e);
        if (!Tr< T >::same(x, y))
            pbt::fail("altered-element", "%s hands out a %s that is not element #%llu", what, Tr< T >::name(), (unsigned long long)e);
    }
    void obtained(T const& x, const char* what)
    {
        if (q.empty())
            pbt::fail("wrong-result", "%s hands out an element of an empty container", what);
        is(x, next_out(), what);
    }
    void result(bool got, bool expected, const char* what)
    {
        if (got != expected)
            pbt::fail("wrong-result", "%s returned %d with %zu elements stored", what, (int)got, q.size());
    }
    void count(size_t got, size_t expected, const char* what)
    {
        if (got != expected)
            pbt::fail("wrong-result", "%s returned %zu instead of %zu with %zu elements stored", what, got, expected, q.size());
    }
};

template < class T >
struct Take
{
    Model< T >* m;
    const char* what;
    void        operator()(T const& x) const { m->obtained(x, what); }
};

template < class T, class C >
void multi(pbt::Ctx& cx, C& c, size_t cap, bool fixed, bool lifo)
{
    pbt::Tape& t = cx.tape;
    Model< T > m;
    m.lifo  = lifo;
    int n   = (int)t.draw(28), moved = 0;
    for (int i = 0; i != n; ++i) {
        uint32_t op = t.draw(12);
        cx.mix(op);
        if (op < 6) {
            T    x = Model< T >::make(m.id);
            bool r, can = m.q.size() < cap;
            switch (op % 3) {
            case 0: r = c.push(x), can |= !fixed; break;
            case 1: r = c.bounded_push(x); break;
            default: r = c.unsynchronized_push(x), can |= !fixed; break;
            }
            pbt::note("push%u#%llu=%d ", op % 3, (unsigned long long)m.id, (int)r);
            m.is(x, m.id, "after push, the source");
            m.result(r, can, "push");
            if (r) {
                m.q.push_back(m.id), ++moved;
                cap = cap < m.q.size() ? m.q.size() : cap;
            }
            ++m.id;
        } else if (op < 10) {
            T    x  = Model< T >::make(~m.id);
            bool r = op < 8 ? c.pop(x) : c.unsynchronized_pop(x);
            pbt::note("pop%u=%d ", op, (int)r);
            m.result(r, !m.q.empty(), "pop");
            if (r)
                m.obtained(x, "pop");
            else
                m.is(x, ~m.id, "after a failed pop, the target");
        } else if (op == 10) {
            Take< T > f = { &m, "consume_one" };
            bool      e = !m.q.empty();
            m.result(c.consume_one(f), e, "consume_one");
            pbt::note("consume_one=%d ", (int)e);
        } else {
            Take< T > f = { &m, "consume_all" };
            size_t    e = m.q.size();
            m.count(c.consume_all(f), e, "consume_all");
            pbt::note("consume_all=%zu ", e);
        }
    }
    // drain, or leave the rest to the destructor
    if (t.draw(2)) {
        Take< T > f = { &m, "the final consume_all" };
        size_t    e = m.q.size();
        m.count(c.consume_all(f), e, "the final consume_all");
    }
    cx.nontrivial = moved >= 2;
}

template < class T, class C >
void single(pbt::Ctx& cx, C& c, size_t cap)
{
    pbt::Tape& t = cx.tape;
    Model< T > m;
    m.lifo = false;
    int n  = (int)t.draw(28), moved = 0;
    for (int i = 0; i != n; ++i) {
        uint32_t op = t.draw(14);
        cx.mix(op);
        if (op < 3) {
            T    x = Model< T >::make(m.id);
            bool r = c.push(x), can = m.q.size() < cap;
            pbt::note("push#%llu=%d ", (unsigned long long)m.id, (int)r);
            m.is(x, m.id, "after push, the source");
            m.result(r, can, "push");
            if (r)
                m.q.push_back(m.id), ++moved;
            ++m.id;
        } else if (op < 6) {
            size_t           k = t.draw(8), room = cap - m.q.size(), e = k < room ? k : room, got;
            std::array< T, 10 > v;
            for (size_t j = 0; j != k; ++j)
                v[j] = Model< T >::make(m.id + j);
            std::array< T, 10 > const& cv = v;
            if (op == 3)
                got = c.push(cv.data(), k);
            else
                got = (size_t)(c.push(cv.begin(), cv.begin() + k) - cv.begin());
            pbt::note("push(%zu)=%zu ", k, got);
            m.count(got, e, "batch push");
            for (size_t j = 0; j != k; ++j) {
                m.is(v[j], m.id + j, "after a batch push, the source");
                if (j < got)
                    m.q.push_back(m.id + j), ++moved;
            }
            m.id += k;
        } else if (op < 9) {
            T    x = Model< T >::make(~m.id);
            bool r = c.pop(x);
            pbt::note("pop=%d ", (int)r);
            m.result(r, !m.q.empty(), "pop");
            if (r)
                m.obtained(x, "pop");
            else
                m.is(x, ~m.id, "after a failed pop, the target");
        } else if (op < 12) {
            size_t           k = t.draw(8), e = m.q.size(), got;
            std::array< T, 10 > v;
            for (size_t j = 0; j != v.size(); ++j)
                v[j] = Model< T >::make(~j);
            if (op != 11) {
                e   = k < e ? k : e;
                got = c.pop(v.data() + 1, k);
            } else
                got = c.pop(v.begin() + 1);
            pbt::note("pop(%zu)=%zu ", k, got);
            m.count(got, e, "batch pop");
            for (size_t j = 0; j != got; ++j)
                m.obtained(v[j + 1], "batch pop");
            m.is(v[0], ~(uint64_t)0, "before the target of a batch pop, an element");
            for (size_t j = got + 1; j != v.size(); ++j)
                m.is(v[j], ~(uint64_t)j, "behind the popped elements of a batch pop, an element");
        } else if (op == 12) {
            if (!m.q.empty() && t.draw(2))
                m.is(c.front(), m.q.front(), "front");
            Take< T > f = { &m, "consume_one" };
            bool      e = !m.q.empty();
            m.result(c.consume_one(f), e, "consume_one");
            pbt::note("consume_one=%d ", (int)e);
        } else {
            Take< T > f = { &m, "consume_all" };
            size_t    e = m.q.size();
            m.count(c.consume_all(f), e, "consume_all");
            pbt::note("consume_all=%zu ", e);
        }
    }
    if (t.draw(2)) {
        Take< T > f = { &m, "the final consume_all" };
        size_t    e = m.q.size();
        m.count(c.consume_all(f), e, "the final consume_all");
    }
    cx.nontrivial = moved >= 2;
}

template < class T, class C, class... A >
void with_multi(pbt::Ctx& cx, const char* conf, size_t cap, bool fixed, bool lifo, A... a)
{
    pbt::note("%s of %s, %zu elements: ", conf, Tr< T >::name(), cap);
    cx.mix(cap);
    long before = live;
    {
        std::unique_ptr< C > c(new C(a...));
        multi< T >(cx, *c, cap, fixed, lifo);
    }
    if (live != before)
        pbt::fail("element-leak", "%ld elements survived the container", live - before);
}
template < class T, class C, class... A >
void with_single(pbt::Ctx& cx, const char* conf, size_t cap, A... a)
{
    pbt::note("%s of %s, %zu elements: ", conf, Tr< T >::name(), cap);
    cx.mix(cap);
    long before = live;
    {
        std::unique_ptr< C > c(new C(a...));
        single< T >(cx, *c, cap);
    }
    if (live != before)
        pbt::fail("element-leak", "%ld elements survived the container", live - before);
}

template < class T, bool Queue >
struct Case
{
    static void run(pbt::Ctx& cx)
    {
        uint32_t conf = cx.tape.draw(Queue ? 8 : 5), cap = cx.tape.draw(8);
        cx.mix(conf);
        typedef blf::allocator< Exact< char > > EA;
        switch (conf) {
        case 0: return with_single< T, blf::spsc_queue< T, EA > >(cx, "spsc_queue", cap, (size_t)cap);
        case 1: return with_single< T, blf::spsc_queue< T, blf::capacity< 5 > > >(cx, "spsc_queue with capacity<5>", 5);
        case 2: return with_multi< T, blf::stack< T, EA > >(cx, "stack", cap, false, true, (size_t)cap);
        case 3: return with_multi< T, blf::stack< T, EA, blf::fixed_sized< true > > >(cx, "fixed-sized stack", cap, true, true, (size_t)cap);
        case 4: return with_multi< T, blf::stack< T, blf::capacity< 5 > > >(cx, "stack with capacity<5>", 5, true, true);
        default: break;
        }
        if constexpr (Queue)
            switch (conf) {
            case 5: return with_multi< T, blf::queue< T, EA > >(cx, "queue", cap, false, false, (size_t)cap);
            case 6: return with_multi< T, blf::queue< T, EA, blf::fixed_sized< true > > >(cx, "fixed-sized queue", cap, true, false, (size_t)cap);
            default: return with_multi< T, blf::queue< T, blf::capacity< 5 > > >(cx, "queue with capacity<5>", 5, true, false);
            }
    }
};

typedef void (*case_fn)(pbt::Ctx&);
void add(case_fn f);
struct Adder
{
    explicit Adder(case_fn f) { add(f); }
};
#define ELEMENT(T, QUEUE) static ::elems::Adder BOOST_JOIN(adder_, __LINE__)(::elems::Case< T, QUEUE >::run)

} // namespace elems
