// queue under an owned scheduler and memory model: executes a case for the element type selected by VAL.
#include "conc_queue.hpp"
#include <algorithm>

template < class C >
static void call_reserve(std::true_type, C* c, uint32_t n)
{
    c->reserve(n);
}
template < class C >
static void call_reserve(std::false_type, C*, uint32_t)
{}

template < class Q, class V, bool NB = false >
struct Run
{
    typedef Val< V > VA;
    static Q*        q;
    static uint32_t  reserved[vs::NT]; // nodes asked for with reserve
    static Case*     cs;
    static long      allocs_at_run;

    struct F
    {
        template < class X >
        void operator()(X const& v)
        {
            got(v);
        }
    };
    struct FC
    {
        template < class X >
        void operator()(X const& v) const
        {
            got(v);
        }
    };
    template < class X >
    static void got(X const& v)
    {
        vs::commit_last_object();
        lin::rec_split(lin::POP, VA::id(v));
    }
    struct Rest
    {
        std::vector< uint32_t >* out;
        void operator()(V const& v)
        {
            out->push_back(VA::id(v));
            if (out->size() > 4000)
                pbt::fail("endless", "draining yields more elements than were ever pushed");
        }
    };
    struct F1
    {
        uint32_t* out;
        bool*     hit;
        template < class X >
        void operator()(X const& v) const
        {
            if (*hit)
                pbt::fail("functor-twice", "consume_one called the functor twice");
            *hit = true;
            *out = VA::id(v);
        }
    };

    static void result(bool ok, uint32_t id)
    {
        if (ok)
            vs::commit_last_object();
        lin::rec_end(ok ? lin::POP : lin::POP_EMPTY, &id, ok ? 1 : 0);
    }

    static void exec(ProgOp const& o)
    {
        switch (o.code) {
        case PUSH:
        case BPUSH: {
            V v = VA::make(o.a);
            lin::rec_begin();
            bool ok = o.code == PUSH ? q->push(v) : q->bounded_push(v);
            lin::rec_end(ok ? lin::PUSH : lin::PUSH_FULL, &o.a, ok ? 1 : 0);
            break;
        }
        case POP: {
            V v = VA::make(0);
            lin::rec_begin();
            vs::tentative(true);
            bool ok = q->pop(v);
            result(ok, ok ? VA::id(v) : 0);
            break;
        }
        case POPU: {
            typename VA::out v;
            lin::rec_begin();
            vs::tentative(true);
            bool ok = q->pop(v);
            result(ok, ok ? VA::id(v) : 0);
            break;
        }
        case POPX: {
            typename VA::outx v;
            lin::rec_begin();
            vs::tentative(true);
            bool ok = q->pop(v);
            result(ok, ok ? VA::id(v) : 0);
            break;
        }
        case CONS1:
        case CONS1C: {
            uint32_t id = 0;
            bool     hit = false, ok;
            lin::rec_begin();
            vs::tentative(true);
            if (o.code == CONS1) {
                F1 f = { &id, &hit };
                ok   = q->consume_one(f);
            } else {
                const F1 f = { &id, &hit };
                ok         = q->consume_one(f);
            }
            if (ok != hit)
                pbt::fail("functor-count", "consume_one returned %d but called the functor %d times", ok, hit);
            result(ok, id);
            break;
        }
        case CONSALL:
        case CONSALLC: {
            size_t before = lin::rec_ops().size();
            (void)before;
            size_t n0 = 0, n;
            lin::rec_begin();
            vs::tentative(true);
            int t = vs::self();
            for (auto& x : lin::rec_ops())
                n0 += x.tid == t;
            if (o.code == CONSALL) {
                F f;
                n = q->consume_all(f);
            } else {
                const FC f;
                n = q->consume_all(f);
            }
            size_t n1 = 0;
            for (auto& x : lin::rec_ops())
                n1 += x.tid == t;
            if (n != n1 - n0)
                pbt::fail("functor-count", "consume_all returned %zu but called the functor %zu times", n, n1 - n0);
            lin::rec_end(lin::POP_EMPTY, nullptr, 0);
            break;
        }
        case RESERVE: {
            vs::yield();
            lin::rec_abandon();
            reserved[vs::self()] += o.a;
            call_reserve(std::integral_constant< bool, NB >(), q, o.a);
            break;
        }
        case EMPTY: {
            lin::rec_begin(0);
            bool e = q->empty();
            lin::rec_end(e ? lin::EMPTY_T : lin::EMPTY_F, nullptr, 0);
            break;
        }
        }
        vs::tentative(false);
    }

    // sequential recycling at full speed by one thread while the others are suspended
    static std::vector< uint32_t > churn_out;
    static uint32_t                churn_pushed;
    static void                    churn()
    {
        vs::native(true);
        uint32_t id = CHURN_BASE;
        for (uint32_t i = 0; i != cs->churn; ++i) {
            V v = VA::make(0);
            if (!q->pop(v))
                pbt::fail("lost-element", "the queue ran empty although every pop was matched by a push (cycle %u)", i);
            churn_out.push_back(VA::id(v));
            if (!(cs->nodebased ? q->bounded_push(VA::make(id)) : q->push(VA::make(id))))
                pbt::fail("lost-node", "no node left although one was just released (cycle %u)", i);
            id++;
        }
        churn_pushed = id - CHURN_BASE;
        vs::native(false);
    }

    static void thread(void* p)
    {
        size_t t = (size_t)p;
        for (size_t i = 0; i != cs->prog[t].size(); ++i) {
            if (cs->churn && t == 1 && i == 0)
                churn();
            exec(cs->prog[t][i]);
        }
    }

    static void body(pbt::Ctx& cx, Case& c, Q* (*make)(uint32_t))
    {
        cs = &c;
        lin::rec_reset();
        memset(reserved, 0, sizeof reserved);
        churn_out.clear();
        churn_pushed = 0;
        q = make(c.n);
        // age: let the nodes move through the free list
        uint32_t id = 1;
        for (uint32_t i = 0; i != c.age; ++i) {
            uint32_t k = 0;
            for (; k != c.agelen; ++k)
                if (!(c.nodebased ? q->bounded_push(VA::make(id)) : q->push(VA::make(id))))
                    break;
            for (; k != 0; --k) {
                V v = VA::make(0);
                if (!q->pop(v) || VA::id(v) != id)
                    pbt::fail("aging", "sequential push/pop while aging the queue went wrong");
            }
        }
        lin::Spec sp;
        sp.fifo = true;
        sp.weak = c.weak;
        for (uint32_t i = 0; i != c.prefill; ++i) {
            id = 1 + i;
            if (!(c.fixed ? q->push(VA::make(id)) : q->push(VA::make(id))))
                break;
            sp.initial.push_back(id);
        }
        // unbounded pushes of the prefill may have grown the pool
        sp.pool = c.fixed ? c.n : std::max< uint64_t >(c.n, sp.initial.size());
        size_t allocs0 = vs::total_allocs();
        for (size_t t = 0; t != c.prog.size(); ++t)
            vs::spawn(thread, (void*)t);
        vs::cfg.weak = c.weak;
        vs::cfg.spurious16 = c.spurious;
        vs::run(c.pol);
        std::vector< lin::Op > ops = judged_ops(c);
        size_t                 nallocs = vs::total_allocs() - allocs0;

        size_t unbounded = 0;
        for (auto& p : c.prog)
            for (auto& o : p)
                unbounded += o.code == PUSH;
        size_t extra = 0;
        for (uint32_t x : reserved)
            extra += x;
        if (!c.frozen && nallocs < extra && !c.fixed)
            pbt::fail("alloc", "reserve of %zu nodes in total allocated %zu", extra, nallocs);
        if (c.fixed ? nallocs != 0 : nallocs > unbounded + extra)
            pbt::fail("alloc", "%zu nodes were allocated by %zu unbounded pushes", nallocs, c.fixed ? (size_t)0 : unbounded);

        bool all = true;
        for (size_t t = 0; t != c.prog.size(); ++t)
            all = all && vs::finished((int)t);

        if (!c.frozen && !all)
            pbt::fail("no-progress", "a thread did not finish");
        if (!all) {
            // operations that were stopped for good may or may not have taken effect
            for (size_t t = 0; t != c.prog.size(); ++t)
                if (!vs::finished((int)t) && lin::rec_running((int)t)) {
                    size_t done = 0;
                    // which operation was running: the first one without all results recorded
                    (void)done;
                }
        }
        // the idle container is used through the synchronized calls or the others
        uint32_t how = all ? cx.tape.draw(4) : 0;
        if (all) {
            bool was_empty = q->empty();
            // drain
            if (how == 3) {
                Rest rest = { &sp.final_ };
                size_t n  = q->consume_all(rest);
                if (n != sp.final_.size())
                    pbt::fail("functor-count", "consume_all returned %zu after %zu calls", n, sp.final_.size());
            } else
                for (;;) {
                    V v = VA::make(0);
                    if (!(how == 1 ? q->unsynchronized_pop(v) : q->pop(v)))
                        break;
                    sp.final_.push_back(VA::id(v));
                    if (sp.final_.size() > 4000)
                        pbt::fail("endless", "draining yields more elements than were ever pushed");
                }
            if (was_empty != sp.final_.empty())
                pbt::fail("empty-lies", "empty() said %d on an idle queue holding %zu elements", was_empty, sp.final_.size());
            if (!q->empty())
                pbt::fail("empty-lies", "empty() is false on a drained queue");
        }
        if (c.churn) {
            check_churn(sp, ops);
        } else if (all && c.bulk) {
            const char* sig = "order";
            std::string bad = lin::check_fifo_pairs(ops, sp, &sig);
            if (!bad.empty())
                pbt::fail(sig, "%s", bad.c_str());
        } else if (all) {
            lin::Result r = lin::check(ops, sp);
            if (r == lin::NO)
                pbt::fail(lin::blame(ops, sp), "no FIFO order explains the %s", lin::show(ops, sp).c_str());
            if (r == lin::GAVE_UP)
                PBT_LABEL("lin-gave-up");
        } else {
            check_frozen(sp, ops);
        }
        if (all) {
            // the pool is complete: as many bounded pushes as there are nodes
            size_t cap = c.fixed ? c.n : c.n + (sp.initial.size() > c.n ? sp.initial.size() - c.n : 0) + nallocs, got = 0;
            // nodes allocated before the run beyond the initial ones
            if (!c.fixed)
                cap = pre_nodes(c, sp) + nallocs;
            for (; got <= cap + 2; ++got)
                if (!(how == 2 && (c.fixed || got < cap) ? q->unsynchronized_push(VA::make(1 + (uint32_t)got)) : q->bounded_push(VA::make(1 + (uint32_t)got))))
                    break;
            if (got != cap)
                pbt::fail("capacity", "after the run the queue accepts %zu bounded pushes, it owns %zu nodes", got, cap);
            for (size_t i = 0; i != got; ++i) {
                V v = VA::make(0);
                if (!(how == 1 ? q->unsynchronized_pop(v) : q->pop(v)) || VA::id(v) != 1 + i)
                    pbt::fail("capacity", "refilled queue returns wrong elements");
            }
            size_t live = vs::live_blocks();
            (void)live;
            q->~Q();
            // everything but the object itself was returned
            if (vs::live_blocks() != 1)
                pbt::fail("leak", "%zu blocks were not returned to the allocator", vs::live_blocks() - 1);
        }
        if (vs::switches() > 0)
            cx.nontrivial = true;
        mix_hist(cx);
        cx.mix(vs::switches());
        cx.mix(vs::global_steps());
        if (vs::spurious_failures())
            PBT_LABEL("spurious failures");
        if (vs::stale_reads())
            PBT_LABEL("stale loads");
        if (nallocs)
            PBT_LABEL("allocated during run");
        for (auto& o : ops)
            if (o.kind == lin::PUSH_FULL) {
                PBT_LABEL("push failed");
                break;
            }
        for (auto& o : ops)
            if (o.kind == lin::POP_EMPTY) {
                PBT_LABEL("pop failed");
                break;
            }
        if (pbt::want_desc())
            pbt::note("  %s\n", lin::show(ops, sp).c_str());
    }

    // empty() promises an exact answer only if nothing overlaps it: the other answers are not judged
    static std::vector< lin::Op > judged_ops(Case const& c)
    {
        std::vector< lin::Op > const& all = lin::rec_ops();
        std::vector< lin::Op >        r;
        for (auto& o : all) {
            if (o.kind == lin::EMPTY_T || o.kind == lin::EMPTY_F) {
                bool alone = !c.weak;
                for (auto& p : all)
                    if (&p != &o && p.tid != o.tid && p.start <= o.end && o.start <= p.end)
                        alone = false;
                if (!alone)
                    continue;
                PBT_LABEL("undisturbed empty()");
            }
            r.push_back(o);
        }
        return r;
    }

    static size_t pre_nodes(Case const& c, lin::Spec const& sp) { return std::max< size_t >(c.n, sp.initial.size()); }

    static void check_frozen(lin::Spec& sp, std::vector< lin::Op >& ops)
    {
        // Every finished operation must be explainable; unfinished ones may have taken effect or not.
        sp.has_final = false;
        for (size_t t = 0; t != cs->prog.size(); ++t)
            if (!vs::finished((int)t) && lin::rec_running((int)t)) {
                // find the running operation: count completed program operations of this thread
                size_t k = 0, seen = 0;
                for (auto& o : ops)
                    if (o.tid == (int)t && !o.pending)
                        seen++;
                // operations recorded per program entry: one, except consume_all (pops + final) and empty (none)
                size_t left = seen;
                for (k = 0; k < cs->prog[t].size(); ++k) {
                    int code = cs->prog[t][k].code;
                    if (code == EMPTY || code == RESERVE)
                        continue;
                    if (code == CONSALL || code == CONSALLC) {
                        // consumes records up to and including its POP_EMPTY
                        size_t used = 0, pos = seen - left, i = 0;
                        bool   fin  = false;
                        for (auto& o : ops)
                            if (o.tid == (int)t && !o.pending) {
                                if (i >= pos) {
                                    used++;
                                    if (o.kind == lin::POP_EMPTY) {
                                        fin = true;
                                        break;
                                    }
                                }
                                ++i;
                            }
                        left -= used;
                        if (!fin)
                            break;
                        continue;
                    }
                    if (left == 0)
                        break;
                    left--;
                }
                if (k < cs->prog[t].size()) {
                    ProgOp& o = cs->prog[t][k];
                    if (o.code == PUSH || o.code == BPUSH)
                        lin::rec_pending((int)t, lin::PUSH, &o.a, 1);
                    else if (o.code != EMPTY)
                        lin::rec_pending((int)t, lin::POP, nullptr, 0);
                }
            }
        ops = lin::rec_ops();
        lin::Result r = lin::check(ops, sp);
        if (r == lin::NO)
            pbt::fail(lin::blame(ops, sp), "no FIFO order explains the %s", lin::show(ops, sp).c_str());
        PBT_LABEL("frozen thread");
    }

    // With a long churn the full history is not searched; element conservation and FIFO order are still exact.
    static void check_churn(lin::Spec const& sp, std::vector< lin::Op > const& ops)
    {
        std::vector< uint32_t > pushed = sp.initial;
        std::vector< uint32_t > popped = churn_out;
        for (uint32_t i = 0; i != churn_pushed; ++i)
            pushed.push_back(CHURN_BASE + i);
        for (auto& o : ops) {
            if (o.kind == lin::PUSH)
                pushed.insert(pushed.end(), o.vals.begin(), o.vals.end());
            if (o.kind == lin::POP)
                popped.insert(popped.end(), o.vals.begin(), o.vals.end());
        }
        popped.insert(popped.end(), sp.final_.begin(), sp.final_.end());
        std::vector< uint32_t > a = pushed, b = popped;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) {
            for (size_t i = 1; i < b.size(); ++i)
                if (b[i] == b[i - 1])
                    pbt::fail("duplicated-element", "element %u was handed out twice", b[i]);
            pbt::fail("lost-element", "%zu elements pushed, %zu obtained after recycling %u nodes during a suspended operation", a.size(), b.size(), cs->churn);
        }
        // elements that one thread pushed come out of one thread in order
        uint32_t last = 0;
        for (uint32_t v : churn_out)
            if (v >= CHURN_BASE) {
                if (v < last)
                    pbt::fail("order", "elements %u and %u left the queue out of order", last, v);
                last = v;
            }
        for (uint32_t v : sp.final_)
            if (v >= CHURN_BASE) {
                if (v < last)
                    pbt::fail("order", "elements %u and %u left the queue out of order", last, v);
                last = v;
            }
    }
};
template < class Q, class V, bool NB > uint32_t Run< Q, V, NB >::reserved[vs::NT];
template < class Q, class V, bool NB > Q*    Run< Q, V, NB >::q;
template < class Q, class V, bool NB > Case* Run< Q, V, NB >::cs;
template < class Q, class V, bool NB > std::vector< uint32_t > Run< Q, V, NB >::churn_out;
template < class Q, class V, bool NB > uint32_t Run< Q, V, NB >::churn_pushed;

template < class Q >
static Q* make_sized(uint32_t n)
{
    void* p = vs::alloc(sizeof(Q), alignof(Q));
    return new (p) Q(n);
}
template < class Q >
static Q* make_default(uint32_t)
{
    void* p = vs::alloc(sizeof(Q), alignof(Q));
    return new (p) Q();
}

typedef blf::allocator< vs::Alloc< char > > AL;

// kind: 0 node based, 1 fixed_sized, 2.. capacity
template < class V >
static void dispatch(pbt::Ctx& cx, Case& c, int kind)
{
    switch (kind) {
    case 0: Run< blf::queue< V, AL >, V, true >::body(cx, c, make_sized< blf::queue< V, AL > >); break;
    case 1: {
        typedef blf::queue< V, AL, blf::fixed_sized< true > > Q;
        Run< Q, V >::body(cx, c, make_sized< Q >);
        break;
    }
    case 2: {
        typedef blf::queue< V, blf::capacity< 1 > > Q;
        c.n = 1;
        Run< Q, V >::body(cx, c, make_default< Q >);
        break;
    }
    case 3: {
        typedef blf::queue< V, blf::capacity< 2 > > Q;
        c.n = 2;
        Run< Q, V >::body(cx, c, make_default< Q >);
        break;
    }
    case 5: {
        typedef blf::queue< V, blf::capacity< 64 > > Q;
        c.n = 64;
        Run< Q, V >::body(cx, c, make_default< Q >);
        break;
    }
    default: {
        typedef blf::queue< V, blf::capacity< 3 > > Q;
        c.n = 3;
        Run< Q, V >::body(cx, c, make_default< Q >);
        break;
    }
    }
}

#if VAL == 0
typedef PayQ< 1 > Elem;
#elif VAL == 1
typedef PayQ< 3 > Elem;
#elif VAL == 2
typedef uint16_t Elem;
#else
typedef PayQ< 10 > Elem;
#endif
static int registered = (queue_runners[VAL] = dispatch< Elem >, 0);
