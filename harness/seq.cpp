#include "seq.hpp"

#include <unordered_set>

namespace sq {

long  copy_countdown;
bool  copy_fired;
Arena arenas[4];
long  live_objects;
static std::unordered_set< const void* >* reg;

const char* const functor_name[FUNCTORS] = { "lambda", "const functor", "mutable functor", "temporary lambda", "function pointer", "lambda(T by value)", "functor with both overloads" };

void* Arena::allocate(size_t n, size_t size, size_t align)
{
    calls++;
    if (countdown > 0 && --countdown == 0) {
        fired = true;
        throw AllocFault();
    }
    if (n > (size_t)1 << 32 || n * size > (size_t)1 << 34)
        throw std::bad_alloc();
    size_t a     = align < 16 ? 16 : align;
    size_t bytes = n * size;
    void*  p     = nullptr;
    if (posix_memalign(&p, a, bytes ? bytes : 1) != 0)
        throw std::bad_alloc();
    memset(p, 0xa5, bytes); // no container may rely on fresh memory being zero
    live[p] = std::make_pair(n, size);
    nodes += n;
    return p;
}

void Arena::deallocate(void* p, size_t n, size_t size)
{
    auto it = live.find(p);
    if (it == live.end()) {
        for (int i = 0; i != 4; ++i)
            if (arenas[i].live.count(p))
                pbt::fail("wrong-allocator", "a block of allocator %d was returned to allocator %d", i, id);
        pbt::fail("bad-deallocate", "deallocate(%p, %zu) for a block that is not allocated", p, n);
    }
    if (it->second.first != n || it->second.second != size)
        pbt::fail("bad-deallocate", "a block of %zu objects of %zu bytes was returned as %zu objects of %zu bytes", it->second.first, it->second.second, n, size);
    if (!may_free)
        early_free = true;
    live.erase(it);
    free(p);
}

uint32_t mixid(uint32_t id, uint32_t i)
{
    uint32_t x = id * 0x9e3779b9u + i * 0x85ebca6bu + 0x1234567u;
    x ^= x >> 15;
    x *= 0x2c1b3c6du;
    x ^= x >> 12;
    return x;
}

void reg_construct(const void* p, size_t align)
{
    aligned_check(p, align);
    if (!reg->insert(p).second)
        pbt::fail("constructed-twice", "an element was constructed over a living element");
    live_objects++;
}
void reg_destroy(const void* p)
{
    if (!reg->erase(p))
        pbt::fail("destroyed-twice", "a destructor ran on storage that holds no element");
    live_objects--;
}
void reg_alive(const void* p, const char* what)
{
    if (!reg->count(p))
        pbt::fail("dead-element", "an element that does not exist was %s", what);
}

std::string show_ids(std::vector< uint32_t > const& v)
{
    std::string r = "{";
    for (size_t i = 0; i != v.size() && i != 40; ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + (v.size() > 40 ? ",...}" : "}");
}

void reset_world()
{
    if (!reg)
        reg = new std::unordered_set< const void* >();
    reg->clear();
    live_objects   = 0;
    copy_countdown = 0;
    copy_fired     = false;
    for (int i = 0; i != 4; ++i) {
        arenas[i]    = Arena();
        arenas[i].id = i;
    }
}

} // namespace sq
