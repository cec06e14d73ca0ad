// Drives boxes against the bounded FIFO / LIFO model. Shared by the queue and stack harnesses.
#pragma once
#include "seq.hpp"

namespace sq {

struct Inst
{
    BoxInfo const*         b;
    Arena*                 arena;   // where it has to allocate
    bool                   alive = false;
    std::deque< uint32_t > q;       // front = oldest
    uint32_t               nodes = 0; // usable for elements (dummy node excluded)
    size_t                 alloc_nodes0 = 0; // arena counter before construction
    uint32_t               n = 0;
};

struct Judge
{
    std::vector< Inst > inst;
    bool                full_seen = false, empty_seen = false, fault_seen = false, moved = false, bulk = false, recreated = false;
    long                stored() const
    {
        long n = 0;
        for (auto& i : inst)
            if (i.alive && i.b->tracked)
                n += (long)i.q.size();
        return n;
    }
    void after_each(const char* what)
    {
        long s = stored();
        if (live_objects != s)
            pbt::fail(live_objects > s ? "element-leak" : "element-lost", "after %s there are %ld living element copies besides the caller's, but %ld elements are stored", what, live_objects, s);
        for (auto& a : arenas)
            if (a.early_free)
                pbt::fail("freed-early", "%s returned memory to the allocator although the container lives on", what);
        // nothing may come from an allocator the container was not given
        for (int k = 0; k != 4; ++k) {
            bool used = false;
            for (auto& i : inst)
                used = used || (i.b->audited && i.arena == &arenas[k]);
            if (!used && arenas[k].calls)
                pbt::fail("wrong-allocator", "%s allocated from allocator %d, which was never passed to this container", what, k);
        }
    }
};

} // namespace sq
