// More elements than 32-bit counters can count, and sizes beyond 32 bits.
#include "native.hpp"

#include <boost/lockfree/spsc_queue.hpp>

#include <new>
#include <sys/mman.h>

namespace native { namespace {
namespace blf = boost::lockfree;

// element number i is pattern[i % PERIOD]
const size_t   PERIOD = 1000003, LONGEST = 1 << 20;
unsigned char* pattern()
{
    static unsigned char* p;
    if (!p) {
        p = new unsigned char[PERIOD + LONGEST];
        uint32_t s = 12345;
        for (size_t i = 0; i != PERIOD; ++i) {
            s = s * 1664525u + 1013904223u;
            p[i] = (unsigned char)(s >> 24);
        }
        for (size_t i = PERIOD; i != PERIOD + LONGEST; ++i)
            p[i] = p[i - PERIOD];
    }
    return p;
}

struct Check
{
    uint64_t* out;
    bool*     bad;
    void      operator()(unsigned char const& c) const
    {
        if (c != pattern()[*out % PERIOD])
            *bad = true;
        ++*out;
    }
};

template < class C >
void marathon(pbt::Ctx& cx, C& c, size_t cap, const char* conf)
{
    pbt::Tape&                   t = cx.tape;
    uint64_t                     in = 0, out = 0;
    // usually past 2^32, where 32-bit counters start again
    static const uint64_t goals[] = { (1ull << 32) + 5000000, (1ull << 31) + 5000000, (1ull << 32) + 50000000, (1ull << 17) };
    uint64_t goal = goals[t.draw(4)];
    size_t   batch = std::min(LONGEST, std::min(cap + cap / 8, (size_t)60000 + t.draw(20000)));
    Rng      r{ t.draw(0x7fffffff) + 1ull };
    cx.mix(r.s), cx.mix(cap), cx.mix(goal);
    pbt::note("spsc_queue<unsigned char>, %s, %zu elements: %llu elements in batches of up to %zu\n", conf, cap, (unsigned long long)goal, batch);
    std::vector< unsigned char > buf(batch + 1);
    unsigned char const*         p = pattern();
    uint64_t                     rounds = 0;
    while (out < goal) {
        if ((++rounds & 255) == 0)
            pbt::heartbeat();
        size_t k = rounds % 64 == 0 ? r.draw(5) : batch - r.draw((uint32_t)(batch / 4 + 1)), room = cap - (size_t)(in - out), got;
        if (c.write_available() != room)
            pbt::fail("avail-idle", "%s: write_available() is %zu with %llu of %zu elements stored, after %llu elements", conf, c.write_available(), (unsigned long long)(in - out), cap, (unsigned long long)in);
        if (rounds % 64 == 1) {
            got = c.push(p[in % PERIOD]);
            k   = 1;
        } else
            got = rounds & 1 ? c.push(p + in % PERIOD, k) : (size_t)(c.push(p + in % PERIOD, p + in % PERIOD + k) - (p + in % PERIOD));
        if (got != std::min(k, room))
            pbt::fail("wrong-result", "%s: a push of %zu stored %zu with room for %zu, after %llu elements", conf, k, got, room, (unsigned long long)in);
        in += got;
        if (c.read_available() != in - out || c.empty() != (in == out))
            pbt::fail("avail-idle", "%s: read_available() is %zu with %llu elements stored, after %llu elements", conf, c.read_available(), (unsigned long long)(in - out), (unsigned long long)in);
        k = rounds % 64 == 2 ? r.draw(5) : batch - r.draw((uint32_t)(batch / 4 + 1));
        uint64_t stored = in - out;
        bool     bad    = false;
        if (rounds % 128 == 3) {
            unsigned char x = 0;
            k               = 1;
            got             = c.pop(x);
            bad             = got && x != p[out % PERIOD];
            out += got;
        } else if (rounds % 4096 == 4) {
            Check f{ &out, &bad };
            k   = (size_t)stored;
            got = c.consume_all(f);
        } else {
            got = c.pop(buf.data(), k);
            if (got <= k)
                bad = std::memcmp(buf.data(), p + out % PERIOD, got) != 0;
            out += got;
        }
        if (got != std::min< uint64_t >(k, stored))
            pbt::fail("wrong-result", "%s: a pop of %zu returned %zu with %llu elements stored, after %llu elements", conf, k, got, (unsigned long long)stored, (unsigned long long)out);
        if (bad)
            pbt::fail("wrong-elements", "%s: wrong elements came back, after %llu elements", conf, (unsigned long long)out);
    }
    cx.nontrivial = goal > (1u << 31);
}

// memory that is only reserved
template < class T >
struct Lazy
{
    typedef T value_type;
    Lazy() {}
    template < class U >
    Lazy(Lazy< U > const&)
    {}
    T* allocate(size_t n)
    {
        if (n > (1ull << 43) / sizeof(T))
            throw std::bad_alloc();
        void* p = mmap(nullptr, n * sizeof(T) + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
            throw std::bad_alloc();
        return (T*)p;
    }
    void deallocate(T* p, size_t n) { munmap((void*)p, n * sizeof(T) + 1); }
    template < class U >
    bool operator==(Lazy< U > const&) const { return true; }
    template < class U >
    bool operator!=(Lazy< U > const&) const { return false; }
};

template < class T >
void huge(pbt::Ctx& cx)
{
    pbt::Tape& t   = cx.tape;
    size_t     cap = ((size_t)1 << (15 + t.draw(23))) + t.draw(9) - 4; // up to 2^37
    typedef blf::spsc_queue< T, blf::allocator< Lazy< char > > > C;
    cx.mix(cap), cx.mix(sizeof(T));
    pbt::note("spsc_queue of %zu elements of %zu bytes\n", cap, sizeof(T));
    std::unique_ptr< C > c;
    try {
        c.reset(new C(cap));
    } catch (std::exception&) {
        pbt::note("refused\n");
        if (cap * sizeof(T) < (1ull << 32))
            pbt::fail("refused", "an spsc_queue of %zu elements of %zu bytes is refused", cap, sizeof(T));
        return;
    }
    size_t stored = 0;
    T      a[64];
    for (int i = 0; i != 64; ++i)
        a[i] = (T)i;
    uint32_t expect[512], first = 0, count = 0, next = 0; // at most 30 * 7 elements
    for (uint32_t i = 1 + t.draw(30); i; --i) {
        if (c->write_available() != cap - stored || c->read_available() != stored)
            pbt::fail("capacity", "an spsc_queue of size %zu that holds %zu elements has room for %zu and offers %zu", cap, stored, c->write_available(), c->read_available());
        uint32_t k = t.draw(8), off = next % 56;
        cx.mix(k * 1000 + stored);
        if (t.draw(2)) {
            // consecutive small numbers, as far as the array goes
            size_t n = c->push(a + off, k);
            if (n != k)
                pbt::fail("capacity", "an spsc_queue of size %zu that holds %zu elements accepts %zu of %u elements", cap, stored, n, k);
            stored += n, next = (off + k) % 56;
            for (uint32_t j = 0; j != k; ++j)
                expect[(first + count++) % 512] = (off + j);
        } else {
            T      out[8];
            size_t n = c->pop(out, k);
            if (n != std::min((size_t)k, stored))
                pbt::fail("wrong-result", "an spsc_queue of size %zu that holds %zu elements hands out %zu of %u", cap, stored, n, k);
            for (size_t j = 0; j != n; ++j) {
                if (out[j] != (T)expect[first % 512])
                    pbt::fail("wrong-elements", "an spsc_queue of size %zu hands out wrong elements", cap);
                ++first, --count;
            }
            stored -= n;
        }
    }
    cx.nontrivial = cap > 0xffffffff;
}
}} // namespace native::

template < size_t N >
static void compile_time(pbt::Ctx& cx)
{
    typedef native::blf::spsc_queue< unsigned char, native::blf::capacity< N > > C;
    std::unique_ptr< C > c(new C);
    native::marathon(cx, *c, N, "compile-time sized");
}

PBT_SCENARIO(native_marathon, "one thread moves up to 2^32 and more elements through an spsc_queue in batches; non-trivial: more than 2^31")
{
    uint32_t k = cx.tape.draw(8);
    cx.mix(k);
    switch (k) {
    case 0: return compile_time< 65535 >(cx);
    case 1: return compile_time< 65536 >(cx);
    case 2: return compile_time< 99991 >(cx);
    case 3: return compile_time< 200000 >(cx);
    default: break;
    }
    size_t                                     cap = 20000 + cx.tape.draw(200000);
    native::blf::spsc_queue< unsigned char > c(cap);
    native::marathon(cx, c, cap, "run-time sized");
}
PBT_SCENARIO(native_huge, "an spsc_queue of 2^15 to 2^37 elements whose memory is only reserved; non-trivial: more than 2^32 elements")
{
    switch (cx.tape.draw(3)) {
    case 0: return native::huge< unsigned char >(cx);
    case 1: return native::huge< short >(cx);
    default: return native::huge< long >(cx);
    }
}
