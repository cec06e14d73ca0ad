// C16: containers in memory that several users see at different addresses. The segment is mapped at four addresses; every call
// is made through one of them while the other three are inaccessible.
#include "../engine/pbt.hpp"
#include <boost/interprocess/offset_ptr.hpp>
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <cstring>
#include <deque>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace blf = boost::lockfree;
namespace bip = boost::interprocess;

namespace {
const int    VIEWS = 4;
const size_t SEG   = 32768;
char*        view[VIEWS];
int          cur = -1;

void open_segment()
{
    if (view[0])
        return;
    int fd = memfd_create("seg", 0);
    if (fd < 0 || ftruncate(fd, SEG) != 0)
        abort();
    for (int i = 0; i != VIEWS; ++i) {
        // addresses of different magnitude
        void* hint = (void*)(i == 1 ? 0x10000000000ull : i == 2 ? 0x230000000ull : i == 3 ? 0x600000000000ull : 0ull);
        void* p    = mmap(hint, SEG, PROT_NONE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED)
            abort();
        view[i] = (char*)p;
    }
    close(fd);
}
void look_through(int i)
{
    if (i == cur)
        return;
    if (cur >= 0 && mprotect(view[cur], SEG, PROT_NONE) != 0)
        abort();
    if (mprotect(view[i], SEG, PROT_READ | PROT_WRITE) != 0)
        abort();
    cur = i;
}
void inside(const void* p, size_t n, const char* what)
{
    const char* c = (const char*)p;
    if (c < view[cur] || c + n > view[cur] + SEG)
        pbt::fail("address", "%s at %p is not in the view through which the call was made", what, p);
}

// element types
struct Pod
{
    uint64_t      id;
    unsigned char b[13];
};
struct Obj // not trivial, but free of addresses
{
    uint32_t id = 0, inv = ~0u;
    Obj() {}
    explicit Obj(uint32_t i) : id(i), inv(~i) {}
    Obj(Obj const& o) : id(o.id), inv(o.inv) {}
    Obj& operator=(Obj const& o)
    {
        id  = o.id;
        inv = o.inv;
        return *this;
    }
    ~Obj() { inv = 0x55555555; }
};
template < class T >
T make(uint32_t id)
{
    if constexpr (std::is_same_v< T, Pod >) {
        Pod p;
        p.id = id * 0x9e3779b97f4a7c15ull;
        memset(p.b, (int)(id & 255), sizeof p.b);
        return p;
    } else if constexpr (std::is_same_v< T, Obj >)
        return Obj(id);
    else
        return (T)(id * 2654435761u);
}
template < class T >
bool same(T const& a, uint32_t id)
{
    T b = make< T >(id);
    if constexpr (std::is_same_v< T, Pod >)
        return a.id == b.id && !memcmp(a.b, b.b, sizeof a.b);
    else if constexpr (std::is_same_v< T, Obj >)
        return a.id == b.id && a.inv == b.inv;
    else
        return a == b;
}

// allocator with relative pointers whose memory is the rest of the segment
struct Heap
{
    size_t used, limit;
};
template < class T >
struct Rel
{
    typedef T                    value_type;
    typedef bip::offset_ptr< T > pointer;
    typedef bip::offset_ptr< const T > const_pointer;
    typedef std::size_t          size_type;
    typedef std::ptrdiff_t       difference_type;
    template < class U >
    struct rebind
    {
        typedef Rel< U > other;
    };
    bip::offset_ptr< Heap > heap;
    explicit Rel(Heap* h) : heap(h) {}
    Rel(Rel const& r) : heap(r.heap) {}
    template < class U >
    Rel(Rel< U > const& r) : heap(r.heap) {}
    Rel& operator=(Rel const& r) { heap = r.heap; return *this; }
    pointer allocate(size_t n)
    {
        Heap*  h = heap.get();
        inside(h, sizeof *h, "the allocator's heap");
        size_t a = (h->used + alignof(T) - 1) / alignof(T) * alignof(T);
        if (a + n * sizeof(T) > h->limit)
            throw std::bad_alloc();
        h->used = a + n * sizeof(T);
        return pointer((T*)((char*)h + a));
    }
    void deallocate(pointer p, size_t n)
    {
        Heap* h = heap.get();
        inside(p.get(), n * sizeof(T), "the returned block");
        if ((size_t)((char*)p.get() - (char*)h) + n * sizeof(T) != h->used)
            pbt::fail("bad-deallocate", "a different block came back to the allocator");
        h->used = 0;
    }
    template < class U >
    bool operator==(Rel< U > const& r) const { return heap == r.heap; }
    template < class U >
    bool operator!=(Rel< U > const& r) const { return heap != r.heap; }
};

enum Kind { QUEUE, STACK, SPSC };

template < Kind K, class T, class C, bool RUNTIME >
void run(pbt::Ctx& cx, size_t cap)
{
    pbt::Tape& t   = cx.tape;
    size_t     off = (size_t)t.draw(4) * 128 + 128;
    size_t     end = off + sizeof(C), heap = 0;
    if (end > SEG / 2)
        abort();
    look_through(0);
    memset(view[0], 0x5a, SEG);
    auto at = [&](int v) {
        look_through(v);
        return (C*)(view[v] + off);
    };
    int v = t.draw(VIEWS);
    pbt::note("created in view %d; ", v);
    std::deque< uint32_t > m;
    if constexpr (RUNTIME) {
        heap = (end + 511) / 256 * 256;
        look_through(v);
        Heap* h  = new (view[v] + heap) Heap;
        h->used  = sizeof(Heap);
        h->limit = SEG - heap - 256;
        new (at(v)) C(cap, Rel< T >(h));
    } else
        new (at(v)) C;
    int      n = (int)t.range(1, 60), switches = 0, moved = 0;
    uint32_t id = 1;
    auto     expect = [&] { return K == STACK ? m.back() : m.front(); };
    auto     drop   = [&] {
        moved++;
        if (K == STACK)
            m.pop_back();
        else
            m.pop_front();
    };
    auto eat = [&](T const& x) {
        if (m.empty() || !same(x, expect()))
            pbt::fail("wrong-elements", "a functor received something else than element #%u", m.empty() ? 0 : expect());
        drop();
    };
    for (int i = 0; i != n; ++i) {
        int w = t.draw(VIEWS);
        switches += w != cur;
        C*       c  = at(w);
        uint32_t op = t.draw(12);
        cx.mix(op * 4 + w);
        pbt::note("[%d] ", w);
        bool full = m.size() >= cap, has = !m.empty();
        if (op < 4) { // push
            T    x = make< T >(id);
            bool r;
            if constexpr (K == SPSC)
                r = c->push(x);
            else
                r = op < 2 ? c->push(x) : op == 2 ? c->bounded_push(x) : c->unsynchronized_push(x);
            pbt::note("push #%u=%d ", id, (int)r);
            if (r == full)
                pbt::fail("capacity", "push returned %d with %zu of %zu elements", (int)r, m.size(), cap);
            if (r)
                m.push_back(id);
            id++;
        } else if (op < 7) {
            T    x {};
            bool r;
            if constexpr (K == SPSC)
                r = c->pop(x);
            else
                r = op == 6 ? c->unsynchronized_pop(x) : c->pop(x);
            pbt::note("pop=%d ", (int)r);
            if (r != has)
                pbt::fail("wrong-result", "pop returned %d with %zu elements", (int)r, m.size());
            if (r) {
                if (!same(x, expect()))
                    pbt::fail("wrong-elements", "pop delivered something else than element #%u", expect());
                drop();
            }
        } else if (op == 7) {
            bool r = c->consume_one(eat);
            pbt::note("consume_one=%d ", (int)r);
            if (r != has)
                pbt::fail("wrong-result", "consume_one returned %d", (int)r);
        } else if (op == 8) {
            size_t before = m.size(), r;
            if constexpr (K == STACK) {
                if (t.draw(3) == 2)
                    r = c->consume_all_atomic(eat);
                else
                    r = c->consume_all(eat);
            } else
                r = c->consume_all(eat);
            pbt::note("consume_all=%zu ", r);
            if (r != before || !m.empty())
                pbt::fail("wrong-result", "consume_all returned %zu with %zu elements", r, before);
        } else if (op == 9) {
            bool r = c->empty();
            if (r != m.empty())
                pbt::fail("wrong-result", "empty() returned %d with %zu elements", (int)r, m.size());
        } else if (op == 10) {
            if constexpr (K == SPSC) {
                if (c->read_available() != m.size() || c->write_available() != cap - m.size())
                    pbt::fail("wrong-result", "%zu readable and %zu writable with %zu of %zu elements", c->read_available(), c->write_available(), m.size(), cap);
                if (has) {
                    if (!same(c->front(), m.front()))
                        pbt::fail("wrong-elements", "front() is not element #%u", m.front());
                }
            }
        } else if constexpr (K != QUEUE) { // ranged
            uint32_t         k = t.draw(5);
            std::vector< T > b;
            for (uint32_t j = 0; j != k; ++j)
                b.push_back(make< T >(id + j));
            T const* f = b.data();
            T const* r;
            size_t   took;
            if (K == SPSC && t.draw(2)) {
                if constexpr (K == SPSC) {
                    std::vector< T > out(k);
                    took = c->pop(out.data(), k);
                    pbt::note("pop range %u=%zu ", k, took);
                    if (took != std::min((size_t)k, m.size()))
                        pbt::fail("wrong-result", "a ranged pop of %u returned %zu with %zu elements", k, took, m.size());
                    for (size_t j = 0; j != took; ++j) {
                        if (!same(out[j], m.front()))
                            pbt::fail("wrong-elements", "a ranged pop delivered something else than element #%u", m.front());
                        drop();
                    }
                }
            } else {
                r    = c->push(f, f + k);
                took = (size_t)(r - f);
                pbt::note("push range %u=%zu ", k, took);
                if (took != std::min((size_t)k, cap - m.size()))
                    pbt::fail("capacity", "a ranged push of %u took %zu with %zu of %zu elements", k, took, m.size(), cap);
                for (size_t j = 0; j != took; ++j)
                    m.push_back(id + (uint32_t)j);
                id += k;
            }
        }
    }
    v = t.draw(VIEWS);
    pbt::note("destroyed in view %d", v);
    at(v)->~C();
    // nothing outside the container was touched
    for (size_t i = 0; i != SEG; ++i) {
        if (i == off)
            i = end;
        if (RUNTIME && i >= heap)
            break;
        if ((unsigned char)view[cur][i] != 0x5a)
            pbt::fail("outside", "a byte of the segment outside the container was modified (offset %ld from its end)", (long)i - (long)end);
    }
    if (RUNTIME && ((Heap*)(view[cur] + heap))->used)
        pbt::fail("leak", "the memory of the elements was not returned");
    cx.nontrivial = switches >= 2 && moved >= 1;
}

template < class T >
void spsc_rt(pbt::Ctx& cx)
{
    size_t cap = cx.tape.draw(2) ? cx.tape.draw(40) : cx.tape.draw(5);
    pbt::note("spsc_queue with relative allocator, size %zu; ", cap);
    run< SPSC, T, blf::spsc_queue< T, blf::allocator< Rel< T > > >, true >(cx, cap);
}
template < class T >
void one(pbt::Ctx& cx)
{
    uint32_t k = cx.tape.draw(12);
    cx.mix(k);
    switch (k) {
#define SC(i, N) \
    case i: pbt::note("stack<capacity<%d>>; ", N); return run< STACK, T, blf::stack< T, blf::capacity< N > >, false >(cx, N);
        SC(0, 1) SC(1, 2) SC(2, 5) SC(3, 31)
#define PC(i, N) \
    case i: pbt::note("spsc_queue<capacity<%d>>; ", N); return run< SPSC, T, blf::spsc_queue< T, blf::capacity< N > >, false >(cx, N);
        PC(4, 1) PC(5, 2) PC(6, 5) PC(7, 31)
    default: break;
    }
    if constexpr (!std::is_same_v< T, Obj >) {
        switch (k) {
#define QC(i, N) \
    case i: pbt::note("queue<capacity<%d>>; ", N); return run< QUEUE, T, blf::queue< T, blf::capacity< N > >, false >(cx, N);
            QC(8, 1) QC(9, 2) QC(10, 5) QC(11, 31)
        }
    } else
        switch (k) {
        case 8: case 9: return run< STACK, T, blf::stack< T, blf::capacity< 3 > >, false >(cx, 3);
        case 10: case 11: return run< SPSC, T, blf::spsc_queue< T, blf::capacity< 3 > >, false >(cx, 3);
        }
}
} // namespace

PBT_SCENARIO(shm_compile_time, "the view changed at least twice between calls and at least one element was retrieved")
{
    open_segment();
    switch (cx.tape.draw(3)) {
    case 0: one< uint32_t >(cx); break;
    case 1: one< Pod >(cx); break;
    default: one< Obj >(cx); break;
    }
}
PBT_SCENARIO(shm_relative, "the view changed at least twice between calls and at least one element was retrieved")
{
    open_segment();
    switch (cx.tape.draw(3)) {
    case 0: spsc_rt< uint32_t >(cx); break;
    case 1: spsc_rt< Pod >(cx); break;
    default: spsc_rt< Obj >(cx); break;
    }
}
