// queue and stack under real threads. VAL selects the element type.
#include "native.hpp"

#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>

namespace native { namespace {
namespace blf = boost::lockfree;

template < class C, class T, bool Stack, bool Fixed >
struct Run
{
    pbt::Ctx&   cx;
    const char* conf;
    size_t      cap;
    Plan        p;

    C*                            c;
    std::vector< Log >            logs;
    std::atomic< uint64_t >       ids{ 1 };

    uint64_t take_ids(uint32_t n) { return ids.fetch_add(n, std::memory_order_relaxed); }

    struct Get
    {
        Log* l;
        void operator()(T const& x) const
        {
            pause_somewhere();
            l->got(x);
        }
    };

    void push(Log& l, Kind k)
    {
        uint64_t id = take_ids(1);
        Op       o;
        T        x = T::make(id);
        o.kind = k, o.asked = 1, o.first = (uint32_t)l.ids.size();
        o.s  = now();
        o.ok = k == PUSH ? c->push(x) : c->bounded_push(x);
        o.e  = now();
        o.n  = o.ok;
        if (o.ok)
            l.ids.push_back(id);
        l.ops.push_back(o);
    }
    void range(Log& l, uint32_t n)
    {
        uint64_t         id = take_ids(n);
        std::vector< T > v;
        for (uint32_t i = 0; i != n; ++i)
            v.push_back(T::make(id + i));
        Op o;
        o.kind = RANGE, o.asked = n, o.first = (uint32_t)l.ids.size();
        o.s = now();
        if constexpr (Stack)
            o.n = (uint32_t)(c->push(v.begin(), v.end()) - v.begin());
        o.e  = now();
        o.ok = true;
        for (uint32_t i = 0; i != o.n; ++i)
            l.ids.push_back(id + i);
        l.ops.push_back(o);
    }
    void take(Log& l, Kind k)
    {
        Op o;
        o.kind = k, o.asked = 0, o.first = (uint32_t)l.ids.size();
        Get    g{ &l };
        T      x = T::make(0);
        size_t n = 0;
        o.s      = now();
        switch (k) {
        case POP: n = c->pop(x); break;
        case ONE: n = c->consume_one(g); break;
        case ALL: n = c->consume_all(g); break;
        default:
            if constexpr (Stack)
                n = k == ATOMIC ? c->consume_all_atomic(g) : c->consume_all_atomic_reversed(g);
        }
        o.e = now();
        if (k == POP && n)
            l.got(x);
        o.n  = (uint32_t)l.ids.size() - o.first;
        o.ok = n != 0;
        if (n != o.n)
            l.torn += 1000000; // the count is not the number of functor calls
        l.ops.push_back(o);
    }
    void ask(Log& l)
    {
        Op o;
        o.kind = EMPTY, o.asked = 0, o.n = 0, o.first = (uint32_t)l.ids.size();
        o.s  = now();
        o.ok = c->empty();
        o.e  = now();
        l.ops.push_back(o);
    }

    static void body(void* self, int i, Rng& r) { static_cast< Run* >(self)->thread(i, r); }
    void        thread(int t, Rng& r)
    {
        Log&            l   = logs[(size_t)t];
        uint32_t const* w   = p.weight[t];
        uint32_t        sum = 0;
        for (int k = 0; k != NKINDS; ++k)
            sum += w[k];
        for (int i = 0; i != p.ops; ++i) {
            uint32_t x = r.draw(sum);
            int      k = 0;
            while (x >= w[k])
                x -= w[k++];
            switch (k) {
            case PUSH: push(l, PUSH); break;
            case BOUNDED: push(l, BOUNDED); break;
            case RANGE: range(l, 1 + r.draw(p.range)); break;
            case RESERVE:
                if constexpr (!Fixed)
                    c->reserve(r.draw(3));
                break;
            case EMPTY: ask(l); break;
            default: take(l, (Kind)k);
            }
            slow_down(r, p.delay[t]);
        }
    }

    template < class... A >
    void go(A... a)
    {
        if (pbt::want_desc())
            pbt::note(": %s\n", conf);
        repeat(cx, [&] {
            long before = live.load();
            broken      = 0;
            {
                ledger.blocks = ledger.allocs = ledger.odd = ledger.early = 0;
                std::unique_ptr< C > own(new C(a...));
                c = own.get();
                ledger.inside = 1;
                ledger.allocs = 0;
                ids = 1;
                logs.assign((size_t)p.threads + 1, Log());
                Log& mine = logs.back();
                for (uint32_t i = 0; i < p.preload; ++i)
                    push(mine, PUSH);
                run_threads(p, &Run::body, this);
                if (!c->empty() || cx.property == "C20")
                    ask(mine);
                size_t first = mine.ids.size();
                bool   said  = c->empty();
                if (p.seed & 1)
                    while (c->empty() == false)
                        take(mine, POP);
                else
                    take(mine, ALL);
                if (said != (mine.ids.size() == first))
                    pbt::fail("empty-lies", "%s: the idle container says empty()=%d and holds %zu elements", conf, (int)said, mine.ids.size() - first);
                if (!c->empty())
                    pbt::fail("empty-lies", "%s: the idle container is not empty after all elements were removed", conf);
                judge(cx, logs, Stack, Fixed ? cap : 0, conf);
                // nothing got lost of the pool either
                size_t n = 0;
                Log    scrap;
                for (; n <= cap + 1; ++n) {
                    size_t k = scrap.ids.size();
                    push(scrap, BOUNDED);
                    if (scrap.ids.size() == k)
                        break;
                }
                if (Fixed ? n != cap : n < cap)
                    pbt::fail("capacity", "%s: the emptied container accepts %zu elements of %zu", conf, n, cap);
                size_t held = n;
                n           = 0;
                T x         = T::make(0);
                while (c->pop(x)) {
                    uint64_t want = Stack ? scrap.ids[held - 1 - n] : scrap.ids[n];
                    if (x.id() != want || !x.intact())
                        pbt::fail("order", "%s: after the concurrent part the container is out of order", conf);
                    if (++n > held)
                        break;
                }
                if (n != held)
                    pbt::fail("lost-element", "%s: after the concurrent part, %zu of %zu elements came back", conf, n, held);
                if (p.seed & 2)
                    push(scrap, PUSH);
                ledger.inside = 0;
                if (Fixed && ledger.allocs)
                    pbt::fail("allocated", "%s: a fixed-sized container allocated %ld times", conf, ledger.allocs.load());
                // by whatever thread
                if (p.seed & 4)
                    std::thread([&] { own.reset(); }).join();
            }
            if (ledger.early)
                pbt::fail("freed-early", "%s: %ld blocks were released before the container was destroyed", conf, ledger.early.load());
            if (ledger.odd)
                pbt::fail("bad-deallocate", "%s: %ld blocks were released twice or with another size", conf, ledger.odd.load());
            if (ledger.blocks)
                pbt::fail("leak", "%s: %ld blocks were not released", conf, ledger.blocks.load());
            if (broken.load())
                pbt::fail("dead-element", "%s: %ld uses of elements that are not alive", conf, broken.load());
            if (live.load() != before)
                pbt::fail("element-leak", "%s: %ld elements survived the container", conf, live.load() - before);
        });
    }
};

template < class C, class T, bool Stack, bool Fixed, class... A >
void with(pbt::Ctx& cx, const char* conf, size_t cap, A... a)
{
    Run< C, T, Stack, Fixed > r{ cx, conf, cap, {}, nullptr, {}, {} };
    cx.mix(cap);
    draw_plan(cx, r.p, Stack, 6);
    r.go(a...);
}

template < class T, bool Stack, class... O >
struct Sel
{
    typedef blf::queue< T, O... > type;
};
template < class T, class... O >
struct Sel< T, true, O... >
{
    typedef blf::stack< T, O... > type;
};

template < class T, bool Stack >
void any(pbt::Ctx& cx)
{
    static const size_t caps[] = { 1, 2, 3, 5, 8, 20, 64 };
    uint32_t            conf   = cx.tape.draw(5);
    size_t              n      = caps[cx.tape.draw(7)];
    cx.mix(conf);
    switch (conf) {
    case 0: return with< typename Sel< T, Stack, blf::allocator< Audit< T > > >::type, T, Stack, false >(cx, "node-based", n, n);
    case 1: return with< typename Sel< T, Stack, blf::fixed_sized< true >, blf::allocator< Audit< T > > >::type, T, Stack, true >(cx, "fixed-sized", n, n);
    case 2: return with< typename Sel< T, Stack, blf::capacity< 2 > >::type, T, Stack, true >(cx, "capacity<2>", 2);
    case 3: return with< typename Sel< T, Stack, blf::capacity< 9 > >::type, T, Stack, true >(cx, "capacity<9>", 9);
    default: return with< typename Sel< T, Stack, blf::allocator< Audit< T > > >::type, T, Stack, false >(cx, "node-based, nothing preallocated", 0, (size_t)0);
    }
}
}} // namespace native::

#define RULE "real threads run a generated mix of calls; non-trivial: more than 20 calls and 4 elements"
#ifndef VAL
#    define VAL 1
#endif
#if VAL
#    define NAME2(a, b) a##b
#    define NAME(a, b) NAME2(a, b)
namespace native {
void NAME(queue_of_, VAL)(pbt::Ctx& cx) { any< Elem< VAL >, false >(cx); }
void NAME(stack_of_, VAL)(pbt::Ctx& cx) { any< Elem< VAL >, true >(cx); }
} // namespace native
#else
namespace native {
void queue_of_1(pbt::Ctx&);
void queue_of_3(pbt::Ctx&);
void queue_of_12(pbt::Ctx&);
void stack_of_1(pbt::Ctx&);
void stack_of_3(pbt::Ctx&);
void stack_of_12(pbt::Ctx&);
} // namespace native
PBT_SCENARIO(native_queue, RULE)
{
    uint32_t k = cx.tape.draw(3);
    cx.mix(k);
    (k == 0 ? native::queue_of_1 : k == 1 ? native::queue_of_3 : native::queue_of_12)(cx);
}
PBT_SCENARIO(native_stack, RULE)
{
    uint32_t k = cx.tape.draw(4);
    cx.mix(k);
    if (k == 3)
        native::any< native::Elem< 0 >, true >(cx);
    else
        (k == 0 ? native::stack_of_1 : k == 1 ? native::stack_of_3 : native::stack_of_12)(cx);
}
#endif
