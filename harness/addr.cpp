// C15 through the public interface: queues and stacks whose nodes live all over the user address space.
#include "../engine/pbt.hpp"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <deque>
#include <new>
#include <sys/mman.h>
#include <vector>
namespace blf = boost::lockfree;

namespace {
struct Page
{
    char* p;
    bool  used;
};
std::vector< Page > pages;        // mapped once per process, at addresses of every magnitude
std::vector< int >  chosen;       // pages this case may use, in this order
size_t              nextp;
void map_pages()
{
    if (!pages.empty())
        return;
    uint64_t x = 88172645463325252ull;
    for (int i = 0; i != 600; ++i) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        uint64_t a;
        if (i < 100)
            a = ((1ull << 47) - 1 - (x % (1ull << 34))) & ~4095ull; // close to the top
        else if (i < 400)
            a = (x & ((1ull << 47) - 1)) & ~4095ull;
        else
            a = (1ull << (17 + x % 30)) + (x >> 40) * 4096;
        void* p = mmap((void*)a, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED)
            continue;
        if ((uintptr_t)p != a) {
            munmap(p, 4096);
            continue;
        }
        pages.push_back(Page { (char*)p, false });
    }
    if (pages.size() < 50) {
        fprintf(stderr, "addr: cannot map pages at chosen addresses\n");
        abort();
    }
}
char* take()
{
    // next page of the case that is free; when they run out, any free page
    for (; nextp != chosen.size(); ++nextp)
        if (!pages[chosen[nextp]].used) {
            pages[chosen[nextp]].used = true;
            return pages[chosen[nextp]].p;
        }
    for (auto& p : pages)
        if (!p.used) {
            p.used = true;
            return p.p;
        }
    throw std::bad_alloc();
}
template < class T >
struct Far
{
    typedef T value_type;
    Far() {}
    template < class U >
    Far(Far< U > const&) {}
    T* allocate(size_t n)
    {
        if (n * sizeof(T) > 4096)
            throw std::bad_alloc();
        return (T*)take();
    }
    void deallocate(T* p, size_t)
    {
        for (auto& g : pages)
            if (g.p == (char*)p) {
                if (!g.used)
                    pbt::fail("bad-deallocate", "%p was returned to the allocator twice", (void*)p);
                g.used = false;
                return;
            }
        pbt::fail("bad-deallocate", "%p was returned to the allocator, which never handed it out: bits of a node address were lost", (void*)p);
    }
    template < class U >
    bool operator==(Far< U > const&) const { return true; }
    template < class U >
    bool operator!=(Far< U > const&) const { return false; }
};

template < class C, bool LIFO >
void run(pbt::Ctx& cx)
{
    pbt::Tape&             t = cx.tape;
    uint32_t               init = t.draw(4), cap = 20;
    C                      c(init);
    std::deque< uint64_t > m;
    int                    n = (int)t.range(1, 60), moved = 0, refused = 0;
    uint64_t               id = 1;
    for (int i = 0; i != n; ++i) {
        uint32_t op = t.draw(4);
        cx.mix(op);
        if (op < 2) {
            if (m.size() >= cap)
                continue;
            bool r = op == 0 ? c.push(id * 0x9e3779b97f4a7c15ull) : c.bounded_push(id * 0x9e3779b97f4a7c15ull);
            pbt::note("%s(#%llu)=%d ", op == 0 ? "push" : "bounded_push", (unsigned long long)id, (int)r);
            if (!r && op == 0)
                pbt::fail("wrong-result", "push failed although the allocator has memory");
            refused += !r;
            if (r)
                m.push_back(id), moved++;
            id++;
        } else {
            uint64_t v = 0;
            bool     r = c.pop(v);
            pbt::note("pop=%d ", (int)r);
            if (r != !m.empty())
                pbt::fail("wrong-result", "pop returned %d with %zu elements stored", (int)r, m.size());
            if (r) {
                uint64_t e = LIFO ? m.back() : m.front();
                if (LIFO)
                    m.pop_back();
                else
                    m.pop_front();
                if (v != e * 0x9e3779b97f4a7c15ull)
                    pbt::fail("wrong-elements", "pop returned %llx instead of element #%llu", (unsigned long long)v, (unsigned long long)e);
            }
        }
        if (c.empty() != m.empty())
            pbt::fail("wrong-result", "empty() returned %d with %zu elements stored", (int)c.empty(), m.size());
    }
    cx.nontrivial = moved >= 3;
}
} // namespace

PBT_SCENARIO(address_space, "at least three elements stored in nodes at generated addresses")
{
    map_pages();
    chosen.clear();
    nextp = 0;
    for (auto& p : pages)
        p.used = false;
    int n = (int)cx.tape.range(1, 12);
    for (int i = 0; i != n; ++i) {
        chosen.push_back((int)cx.tape.draw((uint32_t)pages.size()));
        cx.mix(chosen.back());
        pbt::note("page %p ", (void*)pages[chosen.back()].p);
    }
    if (cx.tape.draw(2) == 0)
        run< blf::queue< uint64_t, blf::allocator< Far< uint64_t > > >, false >(cx);
    else
        run< blf::stack< uint64_t, blf::allocator< Far< uint64_t > > >, true >(cx);
    for (auto& p : pages)
        if (p.used)
            pbt::fail("leak", "the destroyed container keeps the node at %p", (void*)p.p);
}
