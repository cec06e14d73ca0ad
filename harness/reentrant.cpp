// Functors that call the containers themselves: calls nested in consume_one, consume_all and consume_all_atomic(_reversed),
// on the same container and on a second one, several levels deep. VAL: 0 queue, 1 stack, 2 spsc_queue.
#include "../engine/pbt.hpp"

#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>

#include <cstdint>
#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace reentrant { namespace {
namespace blf = boost::lockfree;
typedef pbt::Tape Tape;

struct Pair
{
    uint64_t id, copy;
};
Pair        make(Pair*, uint64_t id) { return Pair { id, ~id }; }
std::string make(std::string*, uint64_t id) { return "an element on the heap, number " + std::to_string(id); }
bool        same(Pair const& a, Pair const& b) { return a.id == b.id && a.copy == b.copy; }
bool        same(std::string const& a, std::string const& b) { return a == b; }

// One container and its model. inflight: elements that have been handed to functors that have not returned, whose storage
// may or may not be free yet; limit: SIZE_MAX if pushes may allocate.
template < class C, class T >
struct Side
{
    std::unique_ptr< C >   c;
    std::deque< uint64_t > model; // front: oldest
    size_t                 inflight = 0, limit = SIZE_MAX, nodes = 0;
    int                    consuming = 0;
};

const int kind = VAL;

template < class C, class T >
struct World
{
    pbt::Ctx&    cx;
    Tape&        t;
    Side< C, T > s[2];
    uint64_t     next = 1;
    unsigned     budget;
    int          depth = 0;

    explicit World(pbt::Ctx& x) : cx(x), t(x.tape), budget(4 + x.tape.draw(60)) {}

    void room(Side< C, T >& z, bool ok, bool bounded, const char* what)
    {
        size_t lim = bounded ? z.nodes : z.limit;
        if (!ok && z.model.size() + z.inflight < lim)
            pbt::fail("capacity", "%s failed with %zu elements stored and %zu in functors, of %zu", what, z.model.size(), z.inflight, lim);
        if (ok && lim != SIZE_MAX && z.model.size() >= lim)
            pbt::fail("capacity", "%s succeeded with %zu of %zu elements stored", what, z.model.size(), lim);
    }

    void push(Side< C, T >& z)
    {
        bool node_based = z.limit == SIZE_MAX;
        T    v = make((T*)0, next);
        if constexpr (kind != 2) {
            if (!node_based && t.draw(3) == 0) {
                bool ok = z.c->bounded_push(v);
                room(z, ok, true, "bounded_push");
                if (ok)
                    z.model.push_back(next);
                ++next;
                return;
            }
        }
        if constexpr (kind != 0) {
            if (t.draw(3) == 0) {
                std::vector< T >        in;
                std::vector< uint64_t > ids;
                for (unsigned n = t.draw(5); n; --n)
                    ids.push_back(next), in.push_back(make((T*)0, next++));
                size_t got;
                if constexpr (kind == 2)
                    got = t.draw(2) ? z.c->push(in.data(), in.size()) : z.c->push(in.begin(), in.end()) - in.begin();
                else
                    got = z.c->push(in.begin(), in.end()) - in.begin();
                pbt::note("push of %zu of %zu; ", got, in.size());
                if (got > in.size())
                    pbt::fail("wrong-result", "ranged push of %zu elements stored %zu", in.size(), got);
                for (size_t i = 0; i != got; ++i)
                    z.model.push_back(ids[i]);
                if (got != in.size())
                    room(z, false, false, "a ranged push");
                if (z.model.size() > z.limit)
                    pbt::fail("capacity", "%zu elements stored of %zu", z.model.size(), z.limit);
                return;
            }
        }
        bool ok = z.c->push(v);
        pbt::note("push(%llu)%s; ", (unsigned long long)next, ok ? "" : "->full");
        room(z, ok, false, "push");
        if (ok)
            z.model.push_back(next);
        ++next;
    }

    uint64_t take(Side< C, T >& z)
    {
        uint64_t id;
        if (kind == 1)
            id = z.model.back(), z.model.pop_back();
        else
            id = z.model.front(), z.model.pop_front();
        return id;
    }

    void expect(T const& v, uint64_t id, const char* what)
    {
        if (!same(v, make((T*)0, id)))
            pbt::fail("wrong-elements", "%s yields a wrong element, not number %llu", what, (unsigned long long)id);
    }

    void pop(Side< C, T >& z)
    {
        T    v  = make((T*)0, 0);
        bool ok = z.c->pop(v);
        pbt::note("pop%s; ", ok ? "" : "->empty");
        if (ok != !z.model.empty())
            pbt::fail("wrong-result", "pop %s with %zu elements stored", ok ? "succeeded" : "failed", z.model.size());
        if (ok)
            expect(v, take(z), "pop");
    }

    // what a functor does with an element before it returns
    void body(Side< C, T >& z, T const& v, uint64_t id, const char* what)
    {
        expect(v, id, what);
        ++z.inflight;
        ++depth;
        if (depth < 5)
            for (unsigned n = t.draw(4); n && budget; --n)
                step();
        --depth;
        --z.inflight;
        expect(v, id, "an element that a functor keeps looking at");
    }

    template < class F >
    size_t call(Side< C, T >& z, unsigned how, F& f)
    {
        F const& k = f;
        switch (how) {
        case 0: return z.c->consume_one(f);
        case 1: return z.c->consume_one(k);
        case 2: return z.c->consume_all(f);
        case 3: return z.c->consume_all(k);
        }
        if constexpr (kind == 1)
            switch (how) {
            case 4: return z.c->consume_all_atomic(f);
            case 5: return z.c->consume_all_atomic(k);
            case 6: return z.c->consume_all_atomic_reversed(f);
            case 7: return z.c->consume_all_atomic_reversed(k);
            }
        return 0;
    }

    void consume(Side< C, T >& z)
    {
        static const char* const names[] = { "consume_one", "consume_one(const)", "consume_all", "consume_all(const)", "consume_all_atomic", "consume_all_atomic(const)", "consume_all_atomic_reversed",
                                             "consume_all_atomic_reversed(const)" };
        unsigned how = t.draw(kind == 1 ? 8 : 4);
        cx.mix(how);
        if (depth)
            cx.nontrivial = true;
        pbt::note("%s{ ", names[how]);
        size_t seen = 0, said, before = z.model.size();
        ++z.consuming;
        if (how < 2 || (kind != 2 && how < 4)) {
            auto f = [&](T const& v) {
                ++seen;
                if (z.model.empty())
                    pbt::fail("wrong-result", "%s calls its functor although no element is stored", names[how]);
                body(z, v, take(z), names[how]);
            };
            said = call(z, how, f);
            if (how < 2 && seen != (before != 0))
                pbt::fail("functor-count", "%s called its functor %zu times with %zu elements stored", names[how], seen, before);
            if (how >= 2 && !z.model.empty())
                pbt::fail("wrong-result", "%s left %zu elements", names[how], z.model.size());
        } else {
            // takes what is there now; what the functor pushes stays
            std::deque< uint64_t > mine;
            mine.swap(z.model);
            if (how == 4 || how == 5)
                std::reverse(mine.begin(), mine.end());
            size_t all = mine.size();
            z.inflight += all;
            auto f = [&](T const& v) {
                ++seen;
                uint64_t id;
                if (!mine.empty()) {
                    id = mine.front();
                    mine.pop_front();
                    --z.inflight;
                } else
                    pbt::fail("wrong-result", "%s hands out more than the %zu elements there were", names[how], all);
                ++z.inflight; // the storage of all of them may be released at the end only
                body(z, v, id, names[how]);
            };
            said = call(z, how, f);
            z.inflight -= all;
            if (seen != all)
                pbt::fail("functor-count", "%s called its functor %zu times for %zu elements", names[how], seen, all);
        }
        --z.consuming;
        if (said != seen)
            pbt::fail("wrong-result", "%s called its functor %zu times and returned %zu", names[how], seen, said);
        pbt::note("} ");
    }

    void step()
    {
        if (budget)
            --budget;
        Side< C, T >& z = s[t.draw(3) == 2];
        if (&z != &s[0])
            pbt::note("other: ");
        unsigned op = t.draw(depth ? 6 : 7);
        cx.mix(op);
        // the consumer of an spsc_queue consumes one element or batch at a time
        if (op >= 4 && kind == 2 && z.consuming)
            op = 0;
        if (op < 3)
            push(z);
        else if (op == 3) {
            if (kind == 1 && z.c->empty() != z.model.empty())
                pbt::fail("empty-lies", "empty() is %d with %zu elements stored", (int)z.c->empty(), z.model.size());
        } else if (op == 4)
            pop(z);
        else
            consume(z);
    }

    void run()
    {
        while (budget)
            step();
        for (Side< C, T >& z : s)
            if (t.draw(3)) {
                pbt::note("rest: ");
                while (!z.model.empty())
                    pop(z);
                pop(z);
                if (!z.c->empty())
                    pbt::fail("empty-lies", "not empty after all elements were removed");
                // the room is all there again
                if (z.limit != SIZE_MAX) {
                    while (z.model.size() < z.limit)
                        push(z);
                    T v = make((T*)0, 0);
                    if (z.c->push(v))
                        pbt::fail("capacity", "stored more than %zu elements", z.limit);
                }
            }
    }
};

template < class C, class T >
void dynamic(pbt::Ctx& cx, bool bounded, const char* name)
{
    World< C, T > w(cx);
    for (auto& z : w.s) {
        size_t n = kind == 2 ? 1 + w.t.draw(6) : w.t.draw(7);
        cx.mix(n);
        pbt::note("%s(%zu) ", name, n);
        z.c.reset(new C(n));
        z.nodes = n;
        z.limit = bounded ? n : SIZE_MAX;
    }
    w.run();
}
template < class C, class T >
void fixed(pbt::Ctx& cx, size_t n, const char* name)
{
    World< C, T > w(cx);
    pbt::note("%s ", name);
    for (auto& z : w.s) {
        z.c.reset(new C);
        z.nodes = z.limit = n;
    }
    w.run();
}
}} // namespace reentrant

using namespace reentrant;
#define RULE "a functor consumed from a container while another functor was running"

#if VAL == 0
PBT_SCENARIO(queue_reentrant, RULE)
{
    unsigned conf = cx.tape.draw(3);
    cx.mix(conf);
    if (conf == 0)
        dynamic< blf::queue< Pair >, Pair >(cx, false, "queue");
    else if (conf == 1)
        dynamic< blf::queue< Pair, blf::fixed_sized< true > >, Pair >(cx, true, "queue<fixed_sized<true>>");
    else
        fixed< blf::queue< Pair, blf::capacity< 4 > >, Pair >(cx, 4, "queue<capacity<4>>");
    pbt::note("\n");
}
#elif VAL == 1
PBT_SCENARIO(stack_reentrant, RULE)
{
    unsigned conf = cx.tape.draw(3);
    cx.mix(conf);
    if (conf == 0)
        dynamic< blf::stack< std::string >, std::string >(cx, false, "stack");
    else if (conf == 1)
        dynamic< blf::stack< std::string, blf::fixed_sized< true > >, std::string >(cx, true, "stack<fixed_sized<true>>");
    else
        fixed< blf::stack< std::string, blf::capacity< 4 > >, std::string >(cx, 4, "stack<capacity<4>>");
    pbt::note("\n");
}
#else
PBT_SCENARIO(spsc_reentrant, RULE)
{
    unsigned conf = cx.tape.draw(2);
    cx.mix(conf);
    if (conf == 0)
        dynamic< blf::spsc_queue< std::string >, std::string >(cx, true, "spsc_queue");
    else
        fixed< blf::spsc_queue< std::string, blf::capacity< 4 > >, std::string >(cx, 4, "spsc_queue<capacity<4>>");
    pbt::note("\n");
}
#endif
