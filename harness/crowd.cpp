// More elements than 16-bit counters can count, up to millions, moved by every kind of call; batches and rings of more
// elements than 32-bit counters can count, over memory that is never touched or that repeats one megabyte.
#include "../engine/pbt.hpp"

#include <sys/mman.h>
#include <unistd.h>

#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>

#include <algorithm>
#include <iterator>
#include <limits>
#include <memory>
#include <vector>

namespace crowd { namespace {
namespace blf = boost::lockfree;
typedef pbt::Tape Tape;

size_t draw_many(Tape& t)
{
    switch (t.draw(6)) {
    case 0: return 65535 - 2 + t.draw(6);
    case 1: return 65536 + t.draw(1000);
    case 2: return 131072 - 3 + t.draw(6);
    case 3: return 32768 - 3 + t.draw(6);
    case 4: return 1 + t.draw(300000);
    default: return 65536 * (1 + t.draw(5)) - 3 + t.draw(6);
    }
}

// forward iterator over consecutive numbers
struct Count
{
    typedef std::forward_iterator_tag iterator_category;
    typedef uint32_t                  value_type;
    typedef std::ptrdiff_t            difference_type;
    typedef const uint32_t*           pointer;
    typedef const uint32_t&           reference;
    uint32_t                          v;
    Count(uint32_t x = 0) : v(x) {}
    reference operator*() const { return v; }
    Count&    operator++()
    {
        ++v;
        return *this;
    }
    Count operator++(int)
    {
        Count r = *this;
        ++v;
        return r;
    }
    bool operator==(Count const& o) const { return v == o.v; }
    bool operator!=(Count const& o) const { return v != o.v; }
};

struct Expect
{
    uint32_t next;
    int      step;
    size_t   n;
    bool     bad;
    void     see(uint32_t v)
    {
        bad |= v != next;
        next += step;
        ++n;
    }
};
struct Mutable
{
    Expect* e;
    void    operator()(uint32_t v) { e->see(v); }
};
struct Const
{
    Expect* e;
    void    operator()(uint32_t v) const { e->see(v); }
};

void judge(Expect const& e, size_t want, size_t said, const char* what, const char* conf)
{
    if (e.n != want)
        pbt::fail("wrong-result", "%s: %s handed out %zu of %zu elements", conf, what, e.n, want);
    if (said != want)
        pbt::fail("wrong-result", "%s: %s took %zu elements and returned %zu", conf, what, want, said);
    if (e.bad)
        pbt::fail("wrong-elements", "%s: %s yields wrong elements or the wrong order, with %zu elements stored", conf, what, want);
}

// queue and stack
template < bool Stack, class C >
void mpmc(pbt::Ctx& cx, C& c, size_t cap, bool bounded, const char* conf)
{
    Tape& t = cx.tape;
    for (unsigned round = 0, rounds = 1 + t.draw(2); round != rounds; ++round) {
        size_t   n    = bounded ? std::min(cap, draw_many(t)) : draw_many(t);
        unsigned how  = t.draw(Stack ? 4 : 2);
        uint32_t from = t.draw(1000);
        cx.mix(n), cx.mix(how);
        size_t in = 0;
        pbt::note("%s of %zu, ", how == 0 ? "pushes" : how == 1 ? "unsynchronized pushes" : how == 2 ? "a ranged push" : "an unsynchronized ranged push", n);
        if constexpr (Stack) {
            if (how == 2)
                in = c.push(Count(from), Count(from + (uint32_t)n)).v - from;
            else if (how == 3)
                in = c.unsynchronized_push(Count(from), Count(from + (uint32_t)n)).v - from;
        }
        if (how < 2)
            while (in != n && (how == 0 ? c.push(from + (uint32_t)in) : c.unsynchronized_push(from + (uint32_t)in)))
                ++in;
        if (in != n)
            pbt::fail("capacity", "%s: stored %zu elements of %zu", conf, in, n);
        if (bounded && n == cap && c.push(0))
            pbt::fail("capacity", "%s: stored more than %zu elements", conf, cap);
        Expect  e{ Stack ? from + (uint32_t)n - 1 : from, Stack ? -1 : 1, 0, false };
        Mutable m{ &e };
        Const   k{ &e };
        size_t  said = n;
        // some by single pops
        size_t some = t.draw(3) == 2 ? t.draw((uint32_t)n + 1) : 0;
        for (size_t i = 0; i != some; ++i) {
            uint32_t v = 0;
            if (!(t.draw(2) ? c.pop(v) : c.unsynchronized_pop(v)))
                pbt::fail("wrong-result", "%s: pop failed with %zu elements stored", conf, n - i);
            e.see(v);
        }
        if (e.bad)
            pbt::fail("wrong-elements", "%s: pops yield wrong elements, with %zu elements stored", conf, n);
        size_t rest = n - some;
        e.n         = 0;
        unsigned out = t.draw(Stack ? 7 : 3);
        cx.mix(out);
        static const char* const names[] = { "consume_all", "consume_all with a const functor", "pops", "consume_all_atomic", "consume_all_atomic with a const functor", "consume_all_atomic_reversed", "consume_all_atomic_reversed with a const functor" };
        pbt::note("%zu by pop and the rest by %s; ", some, names[out]);
        if (out == 0)
            said = c.consume_all(m);
        else if (out == 1)
            said = c.consume_all(k);
        else if (out == 2) {
            uint32_t v;
            for (said = 0; c.pop(v); ++said)
                e.see(v);
        }
        if constexpr (Stack) {
            if (out >= 5)
                e.next = from, e.step = 1;
            if (out == 3)
                said = c.consume_all_atomic(m);
            else if (out == 4)
                said = c.consume_all_atomic(k);
            else if (out == 5)
                said = c.consume_all_atomic_reversed(m);
            else if (out == 6)
                said = c.consume_all_atomic_reversed(k);
        }
        judge(e, rest, said, names[out], conf);
        if (!c.empty())
            pbt::fail("empty-lies", "%s: not empty after all elements were removed", conf);
        if (n > 65535)
            cx.nontrivial = true;
    }
    // sometimes destroyed with its content
    if (t.draw(3) == 0)
        for (size_t i = std::min(cap, (size_t)70000); i; --i)
            c.bounded_push(1);
}

template < class C >
void spsc(pbt::Ctx& cx, C& c, size_t cap, const char* conf)
{
    Tape&    t    = cx.tape;
    uint32_t next = 0, out = 0;
    for (unsigned round = 0, rounds = 2 + t.draw(3); round != rounds; ++round) {
        size_t   want = t.draw(3) == 2 ? cap + t.draw(5) : draw_many(t), stored = next - out, room = cap - stored, k = std::min(room, want), got;
        unsigned how = t.draw(3);
        cx.mix(want), cx.mix(how);
        pbt::note("push of %zu; ", want);
        if (how == 0) {
            for (got = 0; got != want && c.push(next + (uint32_t)got);)
                ++got;
        } else if (how == 1)
            got = c.push(Count(next), Count(next + (uint32_t)want)).v - next;
        else {
            std::vector< uint32_t > v(Count(next), Count(next + (uint32_t)want));
            got = c.push(v.data(), v.size());
        }
        if (got != k)
            pbt::fail("wrong-result", "%s: a push of %zu with %zu of %zu elements stored, stored %zu", conf, want, stored, cap, got);
        next += (uint32_t)got;
        stored += got;
        if (c.read_available() != stored || c.write_available() != cap - stored)
            pbt::fail("avail-idle", "%s: with %zu of %zu elements stored, read_available is %zu and write_available %zu", conf, stored, cap, c.read_available(), c.write_available());
        if (stored > 65535)
            cx.nontrivial = true;
        Expect  e{ out, 1, 0, false };
        Mutable m{ &e };
        Const   f{ &e };
        size_t  take = t.draw(2) ? stored : draw_many(t), due = std::min(take, stored), said = 0;
        how = t.draw(5);
        cx.mix(how), cx.mix(take);
        static const char* const names[] = { "pops", "pop into an array", "pop to iterators", "consume_all", "consume_all with a const functor" };
        if (how >= 2)
            due = stored;
        pbt::note("%s, %zu; ", names[how], due);
        if (how == 0) {
            uint32_t v;
            for (said = 0; said != take && c.pop(v); ++said)
                e.see(v);
        } else if (how == 1) {
            std::vector< uint32_t > v(take + 1);
            said = c.pop(v.data(), take);
            for (size_t i = 0; i != said; ++i)
                e.see(v[i]);
        } else if (how == 2) {
            std::vector< uint32_t > v;
            v.reserve(stored);
            said = c.pop(std::back_inserter(v));
            for (uint32_t x : v)
                e.see(x);
        } else
            said = how == 3 ? c.consume_all(m) : c.consume_all(f);
        judge(e, due, said, names[how], conf);
        out += (uint32_t)due;
    }
}

// ---- huge
// random access iterator over consecutive numbers
struct Far
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef uint64_t                        value_type;
    typedef std::ptrdiff_t                  difference_type;
    typedef const uint64_t*                 pointer;
    typedef const uint64_t&                 reference;
    uint64_t                                v;
    Far(uint64_t x = 0) : v(x) {}
    reference operator*() const { return v; }
    Far&      operator++() { return ++v, *this; }
    Far       operator++(int) { return Far(v++); }
    Far&      operator--() { return --v, *this; }
    Far       operator--(int) { return Far(v--); }
    Far&      operator+=(difference_type n) { return v += (uint64_t)n, *this; }
    Far&      operator-=(difference_type n) { return v -= (uint64_t)n, *this; }
    Far       operator+(difference_type n) const { return Far(v + (uint64_t)n); }
    Far       operator-(difference_type n) const { return Far(v - (uint64_t)n); }
    difference_type operator-(Far const& o) const { return (difference_type)(v - o.v); }
    bool operator==(Far const& o) const { return v == o.v; }
    bool operator!=(Far const& o) const { return v != o.v; }
    bool operator<(Far const& o) const { return v < o.v; }
    bool operator>(Far const& o) const { return v > o.v; }
    bool operator<=(Far const& o) const { return v <= o.v; }
    bool operator>=(Far const& o) const { return v >= o.v; }
};

// address space that costs memory only where it is touched
struct Region
{
    size_t bytes;
    void*  p;
    explicit Region(size_t n) : bytes(n), p(mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) {}
    ~Region()
    {
        if (p != MAP_FAILED)
            munmap(p, bytes);
    }
    bool ok() const { return p != MAP_FAILED; }
};

uint64_t draw_huge(Tape& t)
{
    switch (t.draw(5)) {
    case 0: return ((uint64_t)1 << 32) + t.draw(70);
    case 1: return ((uint64_t)1 << 31) + t.draw(70);
    case 2: return ((uint64_t)(1 + t.draw(7)) << 32) + t.draw(9);
    case 3: return ((uint64_t)1 << (33 + t.draw(4))) + t.draw(70);
    default: return ((uint64_t)1 << 32) - t.draw(5);
    }
}

template < class C >
void huge(pbt::Ctx& cx, C& c, size_t cap, const char* conf)
{
    Tape&    t    = cx.tape;
    uint64_t next = 0, out = 0;
    for (unsigned round = 0, rounds = 2 + t.draw(5); round != rounds; ++round) {
        size_t   stored = next - out, room = cap - stored, got;
        uint64_t want = t.draw(3) == 0 ? t.draw((uint32_t)cap + 2) : draw_huge(t);
        size_t   k    = (size_t)std::min< uint64_t >(room, want);
        bool     raw  = t.draw(2) && want < ((uint64_t)1 << 37);
        cx.mix(want), cx.mix(raw), cx.mix(k);
        pbt::note("push of %llu (%s); ", (unsigned long long)want, raw ? "array" : "iterators");
        if (raw) {
            Region src(want * 8 + 8);
            if (!src.ok()) {
                PBT_LABEL("no address space");
                return;
            }
            for (size_t i = 0; i != k; ++i)
                ((uint64_t*)src.p)[i] = next + i;
            got = c.push((const uint64_t*)src.p, (size_t)want);
        } else
            got = (size_t)(c.push(Far(next), Far(next + want)).v - next);
        if (got != k)
            pbt::fail("wrong-result", "%s: a push of %llu with %zu of %zu elements stored, stored %zu", conf, (unsigned long long)want, stored, cap, got);
        if (want >> 31 && k)
            cx.nontrivial = true;
        next += got;
        stored += got;
        if (c.read_available() != stored || c.write_available() != cap - stored)
            pbt::fail("avail-idle", "%s: with %zu of %zu elements stored, read_available is %zu and write_available %zu", conf, stored, cap, c.read_available(), c.write_available());
        uint64_t take = t.draw(2) ? t.draw((uint32_t)cap + 2) : draw_huge(t);
        if (take >> 37)
            take = (uint64_t)1 << 32;
        size_t due = (size_t)std::min< uint64_t >(take, stored);
        cx.mix(take);
        pbt::note("pop of %llu; ", (unsigned long long)take);
        Region dst(take * 8 + 8);
        if (!dst.ok()) {
            PBT_LABEL("no address space");
            return;
        }
        size_t said = c.pop((uint64_t*)dst.p, (size_t)take);
        if (said != due)
            pbt::fail("wrong-result", "%s: a pop of %llu with %zu elements stored took %zu", conf, (unsigned long long)take, stored, said);
        for (size_t i = 0; i != due; ++i)
            if (((uint64_t*)dst.p)[i] != out + i)
                pbt::fail("wrong-elements", "%s: a pop of %llu yields %llu for %llu", conf, (unsigned long long)take, (unsigned long long)((uint64_t*)dst.p)[i], (unsigned long long)(out + i));
        out += due;
    }
}

// memory of any size that repeats one megabyte
const size_t alias_size = 1 << 20;
int          alias_file()
{
    static int fd = -1;
    if (fd < 0) {
        fd = memfd_create("alias", 0);
        if (fd >= 0 && ftruncate(fd, alias_size) != 0)
            close(fd), fd = -1;
    }
    return fd;
}
void* alias_map(size_t bytes)
{
    int fd = alias_file();
    if (fd < 0)
        return 0;
    bytes   = (bytes + alias_size - 1) / alias_size * alias_size;
    void* p = mmap(0, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
        return 0;
    for (size_t at = 0; at != bytes; at += alias_size)
        if (mmap((char*)p + at, alias_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) {
            munmap(p, bytes);
            return 0;
        }
    return p;
}
template < class T >
struct Alias
{
    typedef T value_type;
    template < class U >
    struct rebind
    {
        typedef Alias< U > other;
    };
    Alias() {}
    template < class U >
    Alias(Alias< U > const&)
    {}
    T* allocate(size_t n)
    {
        void* p = alias_map(n * sizeof(T));
        if (!p)
            throw std::bad_alloc();
        return (T*)p;
    }
    void deallocate(T* p, size_t n) { munmap((void*)p, (n * sizeof(T) + alias_size - 1) / alias_size * alias_size); }
    bool operator==(Alias const&) const { return true; }
    bool operator!=(Alias const&) const { return false; }
};

// The ring is far bigger than the megabyte behind it: big batches are judged by their counts, small ones by their content.
void vast(pbt::Ctx& cx, uint64_t cap, const char* conf)
{
    Tape&                                                                t = cx.tape;
    typedef blf::spsc_queue< unsigned char, blf::allocator< Alias< unsigned char > > > C;
    unsigned char*                                                       flat = 0;
    size_t                                                               flat_size = (size_t)cap + 100;
    std::unique_ptr< C >                                                 c;
    try {
        c.reset(new C((size_t)cap));
    } catch (std::bad_alloc&) {
        PBT_LABEL("no address space");
        return;
    }
    flat = (unsigned char*)alias_map(flat_size);
    if (!flat) {
        PBT_LABEL("no address space");
        return;
    }
    uint64_t stored = 0, pos = 0;
    auto     check = [&] {
        pbt::heartbeat();
        if (c->read_available() != stored || c->write_available() != cap - stored)
            pbt::fail("avail-idle", "%s: with %llu of %llu elements stored, read_available is %zu and write_available %zu", conf, (unsigned long long)stored, (unsigned long long)cap, c->read_available(), c->write_available());
        if (c->empty() != (stored == 0))
            pbt::fail("empty-lies", "%s: empty() is %d with %llu elements stored", conf, (int)c->empty(), (unsigned long long)stored);
    };
    auto bulk_in = [&](uint64_t n) {
        uint64_t k = std::min(n, cap - stored), got = c->push(flat, (size_t)n);
        pbt::note("push of %llu; ", (unsigned long long)n);
        if (got != k)
            pbt::fail("wrong-result", "%s: a push of %llu with %llu of %llu elements stored, stored %llu", conf, (unsigned long long)n, (unsigned long long)stored, (unsigned long long)cap, (unsigned long long)got);
        stored += got;
        check();
    };
    auto bulk_out = [&](uint64_t n) {
        unsigned how = stored >> 20 && t.draw(4) ? 0 : t.draw(3);
        uint64_t k = how ? stored : std::min(n, stored), said, seen;
        cx.mix(how);
        if (how == 0)
            seen = said = c->pop(flat, (size_t)n);
        else if (how == 1) {
            uint64_t count = 0;
            said           = c->consume_all([&](unsigned char const&) { ++count; });
            seen           = count;
        } else {
            struct It
            {
                uint64_t* n;
                It&       operator*() { return *this; }
                It&       operator++() { return ++*n, *this; }
                It        operator++(int) { return ++*n, *this; }
                void      operator=(unsigned char) {}
                typedef std::output_iterator_tag iterator_category;
                typedef void                     value_type;
                typedef std::ptrdiff_t           difference_type;
                typedef void                     pointer;
                typedef void                     reference;
            };
            uint64_t count = 0;
            said           = c->pop(It{ &count });
            seen           = count;
        }
        pbt::note("%s, %llu; ", how == 0 ? "pop into an array" : how == 1 ? "consume_all" : "pop to iterators", (unsigned long long)k);
        if (said != k || seen != k)
            pbt::fail("wrong-result", "%s: %s with %llu elements stored handed out %llu and returned %llu, not %llu", conf, how == 0 ? "a pop" : how == 1 ? "consume_all" : "a pop to iterators", (unsigned long long)stored, (unsigned long long)seen, (unsigned long long)said, (unsigned long long)k);
        stored -= k;
        pos += k;
        check();
    };
    // a small window, with content
    auto window = [&] {
        unsigned char in[64], x[64];
        unsigned      n = 1 + t.draw(60), how = t.draw(3);
        for (unsigned i = 0; i != n; ++i)
            in[i] = (unsigned char)(t.draw(255) + 1), x[i] = 0;
        pbt::note("%u elements at %llu; ", n, (unsigned long long)pos);
        unsigned got = 0;
        if (how == 0)
            got = (unsigned)c->push(in, n);
        else if (how == 1)
            got = (unsigned)(c->push(&in[0], &in[0] + n) - in);
        else
            while (got != n && c->push(in[got]))
                ++got;
        stored += n;
        if (got != n)
            pbt::fail("wrong-result", "%s: a push of %u into an empty ring of %llu stored %u", conf, n, (unsigned long long)cap, got);
        check();
        if (c->front() != in[0])
            pbt::fail("wrong-elements", "%s: front() is wrong", conf);
        unsigned said = 0;
        if (how == 1)
            said = (unsigned)c->pop(x, 64);
        else if (how == 0) {
            auto f = [&](unsigned char v) { x[said++] = v; };
            while (said < n && c->consume_one(f))
                ;
        } else
            while (said < 64 && c->pop(x[said]))
                ++said;
        stored -= n;
        pos += n;
        if (said != n || !std::equal(in, in + n, x))
            pbt::fail("wrong-elements", "%s: %u elements go in and %u come out, or others", conf, n, said);
        check();
    };
    auto advance = [&](uint64_t to) { // move the empty ring's indices on
        if (to > pos) {
            bulk_in(to - pos);
            bulk_out(stored);
        }
    };
    // windows at the first marks: their memory must not coincide with that of the ring's begin, see spsc_vast
    const uint64_t marks[] = { (uint64_t)1 << 31, (uint64_t)1 << 32, cap + 1 };
    for (uint64_t m : marks)
        if (m <= cap + 1 && (m == cap + 1 || t.draw(3) == 0)) {
            advance(m - std::min< uint64_t >(m, t.draw(40)));
            for (unsigned i = 1 + t.draw(4); i; --i)
                window();
            cx.nontrivial = true;
        }
    if (t.draw(2)) {
        bulk_in(cap - t.draw(3));
        bulk_in(t.draw(5));
        bulk_out(t.draw(2) ? stored : cap - t.draw(100));
        bulk_in(t.draw(2) ? cap : t.draw(100));
        bulk_out(stored);
    }
    munmap(flat, (flat_size + alias_size - 1) / alias_size * alias_size);
}

typedef blf::stack< uint32_t >                              NS;
typedef blf::stack< uint32_t, blf::fixed_sized< true > >    FS;
typedef blf::stack< uint32_t, blf::capacity< 65535 > >      CS;
typedef blf::queue< uint32_t >                              NQ;
typedef blf::queue< uint32_t, blf::fixed_sized< true > >    FQ;
typedef blf::queue< uint32_t, blf::capacity< 65534 > >      CQ;
}} // namespace crowd

using namespace crowd;

PBT_SCENARIO(queue_crowd, "up to 393000 elements at once, or as many as a fixed-sized queue holds; non-trivial: more than 65535 were stored")
{
    unsigned conf = cx.tape.draw(4);
    cx.mix(conf);
    size_t n = conf == 3 ? 65534 : conf == 2 ? 65534 - cx.tape.draw(3) : cx.tape.draw(3) ? draw_many(cx.tape) : 0;
    pbt::note("queue, %s, %zu: ", conf == 3 ? "compile-time sized" : conf == 2 ? "fixed-sized" : "node-based", n);
    if (conf == 3) {
        std::unique_ptr< CQ > c(new CQ);
        mpmc< false >(cx, *c, n, true, "queue<capacity<65534>>");
    } else if (conf == 2) {
        FQ c(n);
        mpmc< false >(cx, c, n, true, "queue<fixed_sized<true>>");
    } else {
        NQ c(n);
        mpmc< false >(cx, c, n, false, "node-based queue");
    }
    pbt::note("\n");
}
PBT_SCENARIO(stack_crowd, "up to 393000 elements at once, or as many as a fixed-sized stack holds; non-trivial: more than 65535 were stored")
{
    unsigned conf = cx.tape.draw(4);
    cx.mix(conf);
    size_t n = conf == 3 ? 65535 : conf == 2 ? 65535 - cx.tape.draw(3) : cx.tape.draw(3) ? draw_many(cx.tape) : 0;
    pbt::note("stack, %s, %zu: ", conf == 3 ? "compile-time sized" : conf == 2 ? "fixed-sized" : "node-based", n);
    if (conf == 3) {
        std::unique_ptr< CS > c(new CS);
        mpmc< true >(cx, *c, n, true, "stack<capacity<65535>>");
    } else if (conf == 2) {
        FS c(n);
        mpmc< true >(cx, c, n, true, "stack<fixed_sized<true>>");
    } else {
        NS c(n);
        mpmc< true >(cx, c, n, false, "node-based stack");
    }
    pbt::note("\n");
}
PBT_SCENARIO(spsc_crowd, "batches of up to 393000 elements; non-trivial: more than 65535 were stored")
{
    unsigned conf = cx.tape.draw(3);
    cx.mix(conf);
    if (conf == 0) {
        typedef blf::spsc_queue< uint32_t, blf::capacity< 70000 > > C;
        std::unique_ptr< C > c(new C);
        pbt::note("spsc_queue<capacity<70000>>: ");
        spsc(cx, *c, 70000, "spsc_queue<capacity<70000>>");
    } else {
        size_t n = draw_many(cx.tape);
        cx.mix(n);
        pbt::note("spsc_queue of %zu: ", n);
        blf::spsc_queue< uint32_t > c(n);
        spsc(cx, c, n, "run-time sized spsc_queue");
    }
    pbt::note("\n");
}

PBT_SCENARIO(spsc_huge, "batches of up to 2^37 elements offered to small rings; non-trivial: a batch of 2^31 or more was cut down to what fits")
{
    Tape& t = cx.tape;
    if (t.draw(3) == 0) {
        typedef blf::spsc_queue< uint64_t, blf::capacity< 100 > > C;
        C c;
        pbt::note("spsc_queue<capacity<100>>: ");
        huge(cx, c, 100, "spsc_queue<capacity<100>>");
    } else {
        size_t n = t.draw(4) ? 1 + t.draw(40) : 1 + t.draw(5000);
        cx.mix(n);
        pbt::note("spsc_queue of %zu: ", n);
        blf::spsc_queue< uint64_t > c(n);
        huge(cx, c, n, "run-time sized spsc_queue");
    }
    pbt::note("\n");
}
PBT_SCENARIO(spsc_vast, "rings of about 2^31 and 2^32 elements and more; non-trivial: the indices passed 2^31, 2^32 or the ring's end")
{
    Tape&    t   = cx.tape;
    // no ring ends less than a window behind a whole megabyte
    uint64_t cap = ((uint64_t)1 << (t.draw(3) ? 32 : 31)) + (t.draw(2) ? 200 + t.draw(5000) : -(uint64_t)1 - t.draw(40));
    cx.mix(cap);
    pbt::note("spsc_queue of %llu: ", (unsigned long long)cap);
    vast(cx, cap, "vast spsc_queue");
    pbt::note("\n");
}
PBT_SCENARIO(stack_huge, "ranges of up to 2^36 elements pushed to fixed-sized stacks; non-trivial: always")
{
    Tape&    t    = cx.tape;
    size_t   n    = t.draw(4) ? 1 + t.draw(40) : 65535 - t.draw(3);
    uint64_t want = draw_huge(t), from = t.draw(1000);
    size_t   some = t.draw((uint32_t)n + 1);
    bool     un   = t.draw(2);
    cx.mix(n), cx.mix(want), cx.mix(some), cx.mix(un);
    pbt::note("stack of %zu, %zu pushes, then a range of %llu\n", n, some, (unsigned long long)want);
    blf::stack< uint64_t, blf::fixed_sized< true > > c(n);
    for (size_t i = 0; i != some; ++i)
        if (!c.push(from + i))
            pbt::fail("capacity", "fixed-sized stack: stored %zu elements of %zu", i, n);
    uint64_t b = from + some, got = (un ? c.unsynchronized_push(Far(b), Far(b + want)) : c.push(Far(b), Far(b + want))).v - b;
    if (got != n - some)
        pbt::fail("capacity", "fixed-sized stack of %zu with %zu elements: a range push of %llu stored %llu", n, some, (unsigned long long)want, (unsigned long long)got);
    uint64_t v;
    size_t   k = 0;
    for (; c.pop(v); ++k)
        if (v != from + n - 1 - k)
            pbt::fail("wrong-elements", "fixed-sized stack: wrong elements after a range push of %llu", (unsigned long long)want);
    if (k != n)
        pbt::fail("wrong-result", "fixed-sized stack: %zu of %zu elements came out", k, n);
    cx.nontrivial = true;
}
