// spsc_queue under an owned scheduler and memory model: executes a case for the element type selected by VAL.
#include "conc_spsc.hpp"
#include <algorithm>

template < class S, class V >
struct Run
{
    typedef Val< V > VA;
    static S*        q;
    static Case*     cs;
    static uint32_t  cap;

    // producer state
    static uint32_t P, Pattempt, promise_w;
    // consumer state
    static uint32_t C, Chi, promise_r;
    static const V* front_ptr;
    static bool     other_ran[2]; // set when an operation of thread i starts
    static bool     in_op[2];
    struct Done
    {
        uint32_t time, total;
    };
    static std::vector< Done > pushes, pops;
    static uint64_t            step0;

    static uint32_t lower(std::vector< Done > const& v, int tid, uint32_t base)
    {
        // what the calling thread must know of the other one's progress
        if (!cs->weak)
            return v.empty() ? base : v.back().total;
        vs::VC   vc = vs::clock();
        uint32_t r  = base;
        for (auto& d : v)
            if (d.time <= vc.c[tid])
                r = d.total;
        return r;
    }
    static uint32_t base_p, base_c;

    static void begin()
    {
        vs::yield();
        int t = vs::self();
        if (t >= 0) {
            in_op[t]     = true;
            other_ran[t] = true;
            step0        = 0;
            steps_at[t]  = vs::own_steps(t);
        }
    }
    static uint64_t steps_at[2];
    static void     end(const char* what, uint32_t transferred)
    {
        int t = vs::self();
        if (t < 0)
            return;
        in_op[t]       = false;
        uint64_t used  = vs::own_steps(t) - steps_at[t];
        uint64_t limit = 24 + 12 * (uint64_t)transferred * (VA::words + 1);
        if (used > limit)
            pbt::fail("not-wait-free", "%s needed %llu own steps for %u elements", what, (unsigned long long)used, transferred);
    }

    static void got(uint32_t id)
    {
        ++C;
        if (id != (VA::words == 0 ? 0 : C))
            pbt::fail("order", "the consumer obtained element %u where element %u was expected", id, C);
        if (C > Pattempt)
            pbt::fail("invented-element", "the consumer obtained element %u before it was pushed", C);
    }
    struct F
    {
        uint32_t n = 0;
        template < class X >
        void operator()(X const& v)
        {
            ++n;
            got(VA::id(v));
        }
    };
    struct FC
    {
        uint32_t* n;
        template < class X >
        void operator()(X const& v) const
        {
            ++*n;
            got(VA::id(v));
        }
    };

    // ---- producer
    static void pushed(const char* what, uint32_t asked, uint32_t k, uint32_t lo)
    {
        if (k > asked)
            pbt::fail("count", "%s of %u elements claims to have stored %u", what, asked, k);
        if (k < asked && P + k < cap + lo)
            pbt::fail("spurious-full", "%s stored %u of %u elements although at most %u of %u places were in use", what, k, asked, P - lo, cap);
        if (P + k > cap + Chi)
            pbt::fail("overfull", "%s stored element %u while only %u elements can have left a queue of capacity %u", what, P + k, Chi, cap);
        if (k < asked && P + k < promise_w)
            pbt::fail("broken-promise", "%s stored %u of %u elements although write_available had promised room up to element %u (element %u is next)", what, k, asked, promise_w, P + k + 1);
        P += k;
        Pattempt = P;
        Done d = { vs::own_time(), P };
        pushes.push_back(d);
    }
    static void popped(const char* what, uint32_t asked, uint32_t before, uint32_t lo)
    {
        uint32_t m = C - before;
        if (m > asked)
            pbt::fail("count", "%s transferred %u elements, %u were asked for", what, m, asked);
        if (m < asked && C < lo)
            pbt::fail("spurious-empty", "%s transferred %u of %u elements although element %u had been pushed before", what, m, asked, lo);
        if (m < asked && C < promise_r)
            pbt::fail("broken-promise", "%s transferred %u of %u elements although read_available had promised elements up to %u", what, m, asked, promise_r);
        Chi    = C;
        Done d = { vs::own_time(), C };
        pops.push_back(d);
        front_ptr = nullptr;
    }

    static void exec(ProgOp const& o)
    {
        uint32_t n = o.n;
        switch (o.code) {
        case PUSH: {
            V v = VA::make(P + 1);
            begin();
            uint32_t lo = lower(pops, 1, base_c);
            Pattempt    = P + 1;
            bool ok     = q->push(v);
            end(opname[o.code], 1);
            pushed("push", 1, ok, lo);
            break;
        }
        case PUSHN:
        case PUSHR: {
            std::vector< V > in;
            in.reserve(n + 1);
            for (uint32_t i = 0; i != n; ++i)
                in.push_back(VA::make(P + 1 + i));
            begin();
            uint32_t lo = lower(pops, 1, base_c);
            Pattempt    = P + n;
            size_t k;
            if (o.code == PUSHN)
                k = q->push(in.data(), n);
            else
                k = q->push(in.begin(), in.end()) - in.begin();
            end(opname[o.code], n);
            if (k > n)
                pbt::fail("count", "%s of %u elements claims to have stored %zu", opname[o.code], n, k);
            pushed(opname[o.code], n, (uint32_t)k, lo);
            break;
        }
        case PUSHA2: {
            V in[2] = { VA::make(P + 1), VA::make(P + 2) };
            begin();
            uint32_t lo = lower(pops, 1, base_c);
            Pattempt    = P + 2;
            size_t k    = q->push(in);
            end(opname[o.code], 2);
            pushed(opname[o.code], 2, (uint32_t)k, lo);
            break;
        }
        case PUSHA3: {
            V in[3] = { VA::make(P + 1), VA::make(P + 2), VA::make(P + 3) };
            begin();
            uint32_t lo = lower(pops, 1, base_c);
            Pattempt    = P + 3;
            size_t k    = q->push(in);
            end(opname[o.code], 3);
            pushed(opname[o.code], 3, (uint32_t)k, lo);
            break;
        }
        case WAVAIL: {
            begin();
            uint32_t lo = lower(pops, 1, base_c);
            size_t   w  = q->write_available();
            end("write_available", 0);
            if (w > cap)
                pbt::fail("avail-range", "write_available() is %zu, the capacity is %u", w, cap);
            if (P + w < cap + lo)
                pbt::fail("avail-low", "write_available() is %zu although at most %u of %u places were in use", w, P - lo, cap);
            if (P + w > cap + Chi)
                pbt::fail("avail-high", "write_available() is %zu although at least %u of %u places are in use", w, P - Chi, cap);
            promise_w = std::max(promise_w, (uint32_t)(P + w));
            break;
        }
        // ---- consumer
        case POP: {
            V v = VA::make(0);
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = C + 1;
            bool ok     = q->pop(v);
            end("pop", 1);
            if (ok)
                got(VA::id(v));
            popped("pop", 1, b, lo);
            break;
        }
        case POPU: {
            typename VA::out v;
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = C + 1;
            bool ok     = q->pop(v);
            end("pop<U>", 1);
            if (ok)
                got(VA::id(v));
            popped("pop<U>", 1, b, lo);
            break;
        }
        case POPV: {
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = C + 1;
            bool ok     = q->pop();
            end("pop()", 1);
            if (ok)
                got(C + 1);
            popped("pop()", 1, b, lo);
            break;
        }
        case POPN:
        case POPA2:
        case POPA3: {
            if (o.code != POPN)
                n = o.code == POPA2 ? 2 : 3;
            std::vector< V > vec(o.code == POPN ? n + 1 : 0, VA::make(0));
            V                a2[2] = { VA::make(0), VA::make(0) }, a3[3] = { VA::make(0), VA::make(0), VA::make(0) };
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = C + n;
            size_t   m  = o.code == POPN ? q->pop(vec.data(), n) : o.code == POPA2 ? q->pop(a2) : q->pop(a3);
            end(opname[o.code], n);
            if (m > n)
                pbt::fail("count", "%s of %u elements returned %zu", opname[o.code], n, m);
            const V* r = o.code == POPN ? vec.data() : o.code == POPA2 ? a2 : a3;
            for (size_t i = 0; i != m; ++i)
                got(VA::id(r[i]));
            popped(opname[o.code], n, b, lo);
            break;
        }
        case POPIT: {
            std::vector< V > vec(9 * cap + 64, VA::make(0));
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = ~0u >> 2;
            size_t m    = q->pop(vec.begin());
            end("pop(iterator)", (uint32_t)m);
            for (size_t i = 0; i != m; ++i)
                got(VA::id(vec[i]));
            popped("pop(iterator)", std::max((uint32_t)m, 1u), b, lo);
            if (m > cap)
                pbt::fail("not-wait-free", "pop(iterator) went on for %zu elements, more than the capacity of %u: it runs as long as the producer pushes", m, cap);
            if (C < lo)
                pbt::fail("spurious-empty", "pop(iterator) stopped before element %u", lo);
            break;
        }
        case CONS1:
        case CONS1C: {
            uint32_t hits = 0;
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = C + 1;
            bool ok;
            if (o.code == CONS1) {
                F f;
                ok   = q->consume_one(f);
                hits = f.n;
            } else {
                const FC f = { &hits };
                ok         = q->consume_one(f);
            }
            end(opname[o.code], 1);
            if (hits != (uint32_t)ok)
                pbt::fail("functor-count", "%s returned %d but called the functor %u times", opname[o.code], ok, hits);
            popped(opname[o.code], 1, b, lo);
            break;
        }
        case CONSALL:
        case CONSALLC: {
            uint32_t hits = 0;
            begin();
            uint32_t lo = lower(pushes, 0, base_p), b = C;
            Chi         = ~0u >> 2;
            size_t m;
            if (o.code == CONSALL) {
                F f;
                m    = q->consume_all(f);
                hits = f.n;
            } else {
                const FC f = { &hits };
                m          = q->consume_all(f);
            }
            end(opname[o.code], (uint32_t)m);
            if (hits != m)
                pbt::fail("functor-count", "%s returned %zu but called the functor %u times", opname[o.code], m, hits);
            popped(opname[o.code], std::max((uint32_t)m, 1u), b, lo);
            if (m > cap)
                pbt::fail("not-wait-free", "%s went on for %zu elements, more than the capacity of %u: it runs as long as the producer pushes", opname[o.code], m, cap);
            if (C < lo)
                pbt::fail("spurious-empty", "%s stopped before element %u", opname[o.code], lo);
            break;
        }
        case RAVAIL:
        case FRONT: {
            begin();
            uint32_t lo = lower(pushes, 0, base_p);
            size_t   r  = q->read_available();
            end("read_available", 0);
            if (r > cap)
                pbt::fail("avail-range", "read_available() is %zu, the capacity is %u", r, cap);
            if (C + r < lo)
                pbt::fail("avail-low", "read_available() is %zu although %u elements had been pushed and not popped", r, lo - C);
            if (C + r > Pattempt)
                pbt::fail("avail-high", "read_available() is %zu although at most %u elements are stored", r, Pattempt - C);
            promise_r = std::max(promise_r, (uint32_t)(C + r));
            if (o.code == FRONT && r) {
                begin();
                const V* f1;
                if (n & 1)
                    f1 = &q->front();
                else
                    f1 = &static_cast< S const* >(q)->front();
                uint32_t id = VA::id(*f1);
                end("front", 1);
                if (id != C + 1)
                    pbt::fail("front", "front() is element %u, the oldest one is %u", id, C + 1);
                if (front_ptr && front_ptr != f1)
                    pbt::fail("front", "front() moved although nothing was popped");
                front_ptr = f1;
                for (int i = 0; i != 3; ++i)
                    vs::yield();
                if (VA::id(*f1) != C + 1)
                    pbt::fail("front", "the front element changed while the consumer held a reference to it");
            }
            break;
        }
        case EMPTY: {
            begin();
            int  t     = vs::self();
            bool quiet = t >= 0 && !cs->weak && !in_op[1 - t];
            if (t >= 0)
                other_ran[1 - t] = false;
            bool     e = q->empty();
            uint32_t p = P, c = C;
            end("empty", 0);
            if (quiet && !other_ran[1 - t] && e != (p == c))
                pbt::fail("empty-lies", "empty() is %d although %u elements are stored and nothing else is running", e, p - c);
            break;
        }
        }
    }

    static void thread(void* p)
    {
        size_t t = (size_t)p;
        for (auto& o : cs->prog[t]) {
            if (t == 1 && front_ptr && VA::id(*front_ptr) != C + 1)
                pbt::fail("front", "the front element changed while the consumer held a reference to it");
            exec(o);
        }
    }

    static void idle_checks()
    {
        uint32_t r = (uint32_t)q->read_available(), w = (uint32_t)q->write_available();
        if (r != P - C || w != cap - (P - C))
            pbt::fail("avail-idle", "an idle queue of capacity %u holding %u elements reports read_available %u, write_available %u", cap, P - C, r, w);
        if (q->empty() != (P == C))
            pbt::fail("empty-lies", "empty() is %d on an idle queue holding %u elements", q->empty(), P - C);
    }

    static void body(pbt::Ctx& cx, Case& c, S* (*make)(uint32_t))
    {
        cs  = &c;
        cap = c.n;
        P = Pattempt = promise_w = C = Chi = promise_r = 0;
        front_ptr = nullptr;
        pushes.clear();
        pops.clear();
        in_op[0] = in_op[1] = other_ran[0] = other_ran[1] = false;
        base_p = base_c = 0;
        q = make(c.n);
        for (uint32_t i = 0; i < c.rot;) {
            // rotate the ring
            uint32_t k = std::min(std::min(c.rotbatch, c.rot - i), cap);
            std::vector< V > in;
            for (uint32_t j = 0; j != k; ++j)
                in.push_back(VA::make(j + 1));
            if (q->push(in.data(), k) != k)
                pbt::fail("aging", "sequential push while rotating the ring went wrong");
            std::vector< V > out(k, VA::make(0));
            if (q->pop(out.data(), k) != k)
                pbt::fail("aging", "sequential pop while rotating the ring went wrong");
            for (uint32_t j = 0; j != k; ++j)
                if (VA::id(out[j]) != j + 1)
                    pbt::fail("aging", "sequential pop while rotating the ring returned the wrong element");
            i += k;
        }
        for (uint32_t i = 0; i != c.prefill; ++i) {
            if (!q->push(VA::make(i + 1)))
                pbt::fail("aging", "sequential push failed on a queue that is not full");
            ++P;
        }
        Pattempt = base_p = P;
        size_t allocs0 = vs::total_allocs();
        vs::spawn(thread, (void*)0);
        vs::spawn(thread, (void*)1);
        vs::cfg.weak = c.weak;
        vs::run(c.pol);
        if (vs::total_allocs() != allocs0)
            pbt::fail("alloc", "memory was allocated after construction");
        bool all = vs::finished(0) && vs::finished(1);
        if (!c.frozen && !all)
            pbt::fail("no-progress", "a thread did not finish");
        uint32_t p1 = P, c1 = C;
        if (all) {
            // the main thread takes both roles now
            front_ptr = nullptr;
            idle_checks();
            for (;;) {
                V    v  = VA::make(0);
                Chi     = C + 1;
                bool ok = q->pop(v);
                if (!ok)
                    break;
                got(VA::id(v));
            }
            Chi = C;
            if (C != P)
                pbt::fail("lost-element", "%u elements were stored but only %u came out", P, C);
            idle_checks();
            uint32_t k = 0;
            for (; k <= cap + 1; ++k)
                if (!q->push(VA::make(P + 1 + k)))
                    break;
            if (k != cap)
                pbt::fail("capacity", "after the run the queue accepts %u elements, its capacity is %u", k, cap);
            P += k;
            idle_checks();
            Pattempt = P;
            for (uint32_t i = 0; i != (k + 1) / 2; ++i) {
                V v = VA::make(0);
                if (!q->pop(v))
                    pbt::fail("capacity", "pop failed on a non-empty queue");
                got(VA::id(v));
            }
            q->~S();
            if (vs::live_blocks() != 1)
                pbt::fail("leak", "%zu blocks were not returned to the allocator", vs::live_blocks() - 1);
            if (vs::live_elements() != 0)
                pbt::fail("element-leak", "%ld stored elements were never destroyed", vs::live_elements());
        } else
            PBT_LABEL("frozen thread");
        if (vs::switches() > 0 && p1 > base_p && c1 > 0)
            cx.nontrivial = true;
        cx.mix(vs::switches());
        cx.mix(vs::global_steps());
        for (auto& d : pushes) {
            cx.mix(d.time);
            cx.mix(d.total);
        }
        for (auto& d : pops) {
            cx.mix(d.time);
            cx.mix(d.total);
        }
        if (vs::stale_reads())
            PBT_LABEL("stale loads");
        if (p1 + c.rot > cap + 1)
            PBT_LABEL("wrapped around");
        if (promise_w > p1 || promise_r > c1)
            PBT_LABEL("open promise");
        if (pbt::want_desc())
            pbt::note("  pushed %u (prefilled %u), obtained %u during the run\n", p1, base_p, c1);
    }
};
#define DEF(T, x) template < class S, class V > T Run< S, V >::x
DEF(S*, q);
DEF(Case*, cs);
DEF(uint32_t, cap);
DEF(uint32_t, P);
DEF(uint32_t, Pattempt);
DEF(uint32_t, promise_w);
DEF(uint32_t, C);
DEF(uint32_t, Chi);
DEF(uint32_t, promise_r);
DEF(uint32_t, base_p);
DEF(uint32_t, base_c);
DEF(uint64_t, step0);
DEF(uint64_t, steps_at)[2];
DEF(bool, other_ran)[2];
DEF(bool, in_op)[2];
DEF(const V*, front_ptr);
template < class S, class V > std::vector< typename Run< S, V >::Done > Run< S, V >::pushes;
template < class S, class V > std::vector< typename Run< S, V >::Done > Run< S, V >::pops;

template < class S >
static S* make_sized(uint32_t n)
{
    void* p = vs::alloc(sizeof(S), alignof(S));
    return new (p) S(n);
}
template < class S >
static S* make_default(uint32_t)
{
    void* p = vs::alloc(sizeof(S), alignof(S));
    return new (p) S();
}

typedef blf::allocator< vs::Alloc< char > > AL;

template < class V >
static void dispatch(pbt::Ctx& cx, Case& c, int kind)
{
    switch (kind) {
    case 0: Run< blf::spsc_queue< V, AL >, V >::body(cx, c, make_sized< blf::spsc_queue< V, AL > >); break;
    case 1: Run< blf::spsc_queue< V, blf::capacity< 1 > >, V >::body(cx, c, make_default< blf::spsc_queue< V, blf::capacity< 1 > > >); break;
    case 2: Run< blf::spsc_queue< V, blf::capacity< 2 > >, V >::body(cx, c, make_default< blf::spsc_queue< V, blf::capacity< 2 > > >); break;
    case 4: Run< blf::spsc_queue< V, blf::capacity< 64 > >, V >::body(cx, c, make_default< blf::spsc_queue< V, blf::capacity< 64 > > >); break;
    default: Run< blf::spsc_queue< V, blf::capacity< 5 > >, V >::body(cx, c, make_default< blf::spsc_queue< V, blf::capacity< 5 > > >); break;
    }
}
#if VAL == 0
typedef PayT< 1 > Elem;
#elif VAL == 1
typedef PayT< 3 > Elem;
#elif VAL == 2
typedef PayQ< 2 > Elem;
#elif VAL == 3
typedef uint64_t Elem;
#elif VAL == 4
typedef uint16_t Elem;
#else
typedef PayT< 10 > Elem;
#endif
static int registered = (spsc_runners[VAL] = dispatch< Elem >, 0);
