// stack under an owned scheduler and memory model: executes a case for the element type selected by VAL.
#include "conc_stack.hpp"
#include <algorithm>

template < class C >
static void call_reserve(std::true_type, C* c, uint32_t n)
{
    c->reserve(n);
}
template < class C >
static void call_reserve(std::false_type, C*, uint32_t)
{}

template < class S, class V, bool NB = false >
struct Run
{
    typedef Val< V > VA;
    static S*        q;
    static uint32_t  reserved[vs::NT]; // nodes asked for with reserve
    static Case*     cs;
    static ProgOp*   curop[vs::NT];

    struct F
    {
        template < class X >
        void operator()(X const& v)
        {
            lin::rec_split(lin::POP, VA::id(v));
        }
    };
    struct FC
    {
        template < class X >
        void operator()(X const& v) const
        {
            lin::rec_split(lin::POP, VA::id(v));
        }
    };
    struct FL
    {
        std::vector< uint32_t >* out;
        template < class X >
        void operator()(X const& v)
        {
            out->push_back(VA::id(v));
        }
    };
    struct FLC
    {
        std::vector< uint32_t >* out;
        template < class X >
        void operator()(X const& v) const
        {
            out->push_back(VA::id(v));
        }
    };
    struct Rest
    {
        std::vector< uint32_t >* out;
        void operator()(V const& v)
        {
            out->push_back(VA::id(v));
            if (out->size() > 4000)
                pbt::fail("endless", "draining yields more elements than were ever pushed");
        }
    };
    struct F1
    {
        uint32_t* out;
        bool*     hit;
        template < class X >
        void operator()(X const& v) const
        {
            if (*hit)
                pbt::fail("functor-twice", "consume_one called the functor twice");
            *hit = true;
            *out = VA::id(v);
        }
    };

    static void result(bool ok, uint32_t id) { lin::rec_end(ok ? lin::POP : lin::POP_EMPTY, &id, ok ? 1 : 0); }

    static size_t own_ops()
    {
        size_t n = 0;
        int    t = vs::self();
        for (auto& x : lin::rec_ops())
            n += x.tid == t;
        return n;
    }

    static void exec(ProgOp& o)
    {
        if (vs::self() >= 0)
            curop[vs::self()] = &o;
        switch (o.code) {
        case PUSH:
        case BPUSH: {
            V v = VA::make(o.a);
            lin::rec_begin();
            bool ok = o.code == PUSH ? q->push(v) : q->bounded_push(v);
            lin::rec_end(ok ? lin::PUSH : lin::PUSH_FULL, &o.a, ok ? 1 : 0);
            break;
        }
        case RPUSH:
        case RBPUSH: {
            std::vector< V >        in;
            std::vector< uint32_t > ids;
            for (uint32_t i = 0; i != o.n; ++i) {
                in.push_back(VA::make(o.a + i));
                ids.push_back(o.a + i);
            }
            lin::rec_begin(o.n);
            size_t k;
            if (o.a & 1) {
                const V *b = in.data(), *e = b + o.n;
                const V* r = ranged_ptr(o.code == RBPUSH, b, e);
                k          = r - b;
            } else {
                typename std::vector< V >::const_iterator r = ranged_it(o.code == RBPUSH, in.begin(), in.end());
                k = r - in.begin();
            }
            if (k > o.n)
                pbt::fail("range-return", "ranged push of %u elements returned an iterator outside of the range", o.n);
            lin::rec_end(k ? lin::PUSH : lin::PUSH_FULL, ids.data(), k, k < o.n);
            break;
        }
        case POP: {
            V v = VA::make(0);
            lin::rec_begin();
            bool ok = q->pop(v);
            result(ok, ok ? VA::id(v) : 0);
            break;
        }
        case POPU: {
            typename VA::out v;
            lin::rec_begin();
            bool ok = q->pop(v);
            result(ok, ok ? VA::id(v) : 0);
            break;
        }
        case CONS1:
        case CONS1C: {
            uint32_t id  = 0;
            bool     hit = false, ok;
            lin::rec_begin();
            if (o.code == CONS1) {
                F1 f = { &id, &hit };
                ok   = q->consume_one(f);
            } else {
                const F1 f = { &id, &hit };
                ok         = q->consume_one(f);
            }
            if (ok != hit)
                pbt::fail("functor-count", "consume_one returned %d but called the functor %d times", ok, hit);
            result(ok, id);
            break;
        }
        case CONSALL:
        case CONSALLC: {
            size_t n0 = own_ops(), n;
            lin::rec_begin();
            if (o.code == CONSALL) {
                F f;
                n = q->consume_all(f);
            } else {
                const FC f;
                n = q->consume_all(f);
            }
            if (n != own_ops() - n0)
                pbt::fail("functor-count", "consume_all returned %zu but called the functor %zu times", n, own_ops() - n0);
            lin::rec_end(lin::POP_EMPTY, nullptr, 0);
            break;
        }
        case TAKE:
        case TAKEC:
        case TAKER:
        case TAKERC: {
            std::vector< uint32_t > out;
            out.reserve(16);
            size_t n;
            lin::rec_begin(1000);
            FL        f  = { &out };
            const FLC fc = { &out };
            if (o.code == TAKE)
                n = q->consume_all_atomic(f);
            else if (o.code == TAKEC)
                n = q->consume_all_atomic(fc);
            else if (o.code == TAKER)
                n = q->consume_all_atomic_reversed(f);
            else
                n = q->consume_all_atomic_reversed(fc);
            if (n != out.size())
                pbt::fail("functor-count", "%s returned %zu but called the functor %zu times", opname[o.code], n, out.size());
            if (out.empty())
                lin::rec_end(lin::POP_EMPTY, nullptr, 0);
            else
                lin::rec_end(o.code == TAKE || o.code == TAKEC ? lin::TAKE_ALL : lin::TAKE_ALL_REV, out.data(), out.size());
            lin::rec_ops().back().hold = (uint32_t)out.size();
            break;
        }
        case RESERVE: {
            vs::yield();
            lin::rec_abandon();
            reserved[vs::self()] += o.a;
            call_reserve(std::integral_constant< bool, NB >(), q, o.a);
            break;
        }
        case EMPTY: {
            lin::rec_begin(0);
            bool e = q->empty();
            lin::rec_end(e ? lin::EMPTY_T : lin::EMPTY_F, nullptr, 0);
            break;
        }
        }
    }
    template < class It >
    static It ranged_it(bool bounded, It b, It e)
    {
        return bounded ? q->bounded_push(b, e) : q->push(b, e);
    }
    static const V* ranged_ptr(bool bounded, const V* b, const V* e) { return bounded ? q->bounded_push(b, e) : q->push(b, e); }

    static std::vector< uint32_t > churn_out, churn_in;
    static void                    take(bool rev, std::vector< uint32_t >& out)
    {
        FL f = { &out };
        if (rev)
            q->consume_all_atomic_reversed(f);
        else
            q->consume_all_atomic(f);
    }
    static void churn()
    {
        vs::native(true);
        uint32_t                id = CHURN_BASE;
        std::vector< uint32_t > own, got;
        uint32_t npush = 0, npop = 0;
        auto push = [&] {
            if (q->bounded_push(VA::make(id))) {
                own.push_back(id);
                churn_in.push_back(id);
                npush++;
            }
            ++id;
        };
        auto pop = [&] {
            V v = VA::make(0);
            if (!q->pop(v)) {
                if (!own.empty())
                    pbt::fail("lost-element", "pop failed although element %u had been pushed", own.back());
                return;
            }
            uint32_t g = VA::id(v);
            npop++;
            churn_out.push_back(g);
            if (!own.empty()) {
                if (g != own.back())
                    pbt::fail("order", "pop returned %u, the last element pushed was %u", g, own.back());
                own.pop_back();
            } else if (g >= CHURN_BASE)
                pbt::fail("duplicated-element", "element %u was handed out twice", g);
        };
        for (uint32_t i = 0; i != (cs->pad ? 1 : cs->churn); ++i) {
            for (int op : cs->cycle) {
                if (op == 0)
                    push();
                else if (op == 1)
                    pop();
                else {
                    got.clear();
                    take(op == 3, got);
                    npop += !got.empty();
                    if (op == 3)
                        std::reverse(got.begin(), got.end());
                    for (uint32_t g : got) {
                        churn_out.push_back(g);
                        if (!own.empty()) {
                            if (g != own.back())
                                pbt::fail("order", "consume_all_atomic returned %u where %u was expected", g, own.back());
                            own.pop_back();
                        } else if (g >= CHURN_BASE)
                            pbt::fail("duplicated-element", "element %u was handed out twice", g);
                    }
                    if (!own.empty())
                        pbt::fail("lost-element", "element %u was not handed out", own.back());
                }
            }
            if (!cs->pad)
                while (own.size() > cs->prefill)
                    pop();
        }
        // neutral pairs until the requested number of removals (or insertions) is reached
        if (cs->pad)
            for (uint32_t i = 0; (cs->pad == 1 ? npop : npush) < cs->churn && i != cs->churn; ++i) {
                push();
                pop();
            }
        vs::native(false);
    }

    static void thread(void* p)
    {
        size_t t = (size_t)p;
        if (cs->churn && t == 1)
            churn();
        for (size_t i = 0; i != cs->prog[t].size(); ++i) {
            exec(cs->prog[t][i]);
            curop[t] = nullptr;
        }
    }

    static void body(pbt::Ctx& cx, Case& c, S* (*make)(uint32_t))
    {
        cs = &c;
        lin::rec_reset();
        memset(reserved, 0, sizeof reserved);
        churn_out.clear();
        churn_in.clear();
        for (auto& x : curop)
            x = nullptr;
        q           = make(c.n);
        size_t mk0  = vs::total_allocs();
        uint32_t id = 1;
        // age: let the nodes move through the free list and change their order
        for (uint32_t i = 0; i != c.age; ++i) {
            uint32_t k = 0;
            for (; k != c.agelen; ++k)
                if (!q->bounded_push(VA::make(id + k)))
                    break;
            std::vector< uint32_t > got;
            if (c.agekind == 0) {
                V v = VA::make(0);
                while (q->pop(v))
                    got.push_back(VA::id(v));
            } else
                take(c.agekind == 2, got);
            if (c.agekind == 2)
                std::reverse(got.begin(), got.end());
            bool ok = got.size() == k;
            for (uint32_t j = 0; ok && j != k; ++j)
                ok = got[j] == id + k - 1 - j;
            if (!ok)
                pbt::fail("aging", "sequential push/pop while aging the stack went wrong");
        }
        lin::Spec sp;
        sp.fifo = false;
        sp.weak = c.weak;
        for (uint32_t i = 0; i != c.prefill; ++i) {
            if (!q->push(VA::make(1 + i)))
                break;
            sp.initial.push_back(1 + i);
        }
        size_t nodes = c.fixed ? c.n : c.n + (vs::total_allocs() - mk0);
        sp.pool      = nodes;
        size_t allocs0 = vs::total_allocs();
        for (size_t t = 0; t != c.prog.size(); ++t)
            vs::spawn(thread, (void*)t);
        vs::cfg.weak = c.weak;
        vs::cfg.spurious16 = c.spurious;
        vs::run(c.pol);
        size_t nallocs = vs::total_allocs() - allocs0;
        size_t unbounded = 0;
        for (auto& p : c.prog)
            for (auto& o : p)
                unbounded += o.code == PUSH ? 1 : o.code == RPUSH ? o.n : 0;
        size_t extra = 0;
        for (uint32_t x : reserved)
            extra += x;
        if (!c.frozen && nallocs < extra && !c.fixed)
            pbt::fail("alloc", "reserve of %zu nodes in total allocated %zu", extra, nallocs);
        if (c.fixed ? nallocs != 0 : nallocs > unbounded + extra)
            pbt::fail("alloc", "%zu nodes were allocated by %zu unbounded pushes", nallocs, c.fixed ? (size_t)0 : unbounded);

        bool all = true;
        for (size_t t = 0; t != c.prog.size(); ++t)
            all = all && vs::finished((int)t);
        if (!c.frozen && !all)
            pbt::fail("no-progress", "a thread did not finish");
        if (!all) {
            sp.has_final = false;
            PBT_LABEL("frozen thread");
            for (size_t t = 0; t != c.prog.size(); ++t)
                if (!vs::finished((int)t) && lin::rec_running((int)t) && curop[t]) {
                    ProgOp&                 o = *curop[t];
                    std::vector< uint32_t > ids;
                    for (uint32_t i = 0; i != o.n; ++i)
                        ids.push_back(o.a + i);
                    switch (o.code) {
                    case PUSH:
                    case BPUSH:
                    case RPUSH:
                    case RBPUSH: lin::rec_pending((int)t, lin::PUSH, ids.data(), ids.size()); break;
                    case TAKE:
                    case TAKEC:
                    case TAKER:
                    case TAKERC: lin::rec_pending((int)t, lin::TAKE_ALL, nullptr, 0); break;
                    case EMPTY:
                    case RESERVE: break;
                    default: lin::rec_pending((int)t, lin::POP, nullptr, 0);
                    }
                }
        }
        std::vector< lin::Op > ops = lin::rec_ops();
        // the idle container is used through the synchronized calls or the others
        uint32_t how = all ? cx.tape.draw(6) : 0;
        if (all) {
            bool was_empty = q->empty();
            std::vector< uint32_t > got;
            if (how >= 3) {
                Rest   rest = { &got };
                size_t n    = how == 3 ? q->consume_all(rest) : how == 4 ? q->consume_all_atomic(rest) : q->consume_all_atomic_reversed(rest);
                if (n != got.size())
                    pbt::fail("functor-count", "consume_all returned %zu after %zu calls", n, got.size());
                if (how == 5)
                    std::reverse(got.begin(), got.end());
            } else
                for (;;) {
                    V v = VA::make(0);
                    if (!(how == 1 ? q->unsynchronized_pop(v) : q->pop(v)))
                        break;
                    got.push_back(VA::id(v));
                    if (got.size() > 4000)
                        pbt::fail("endless", "draining yields more elements than were ever pushed");
                }
            sp.final_.assign(got.rbegin(), got.rend());
            if (was_empty != sp.final_.empty())
                pbt::fail("empty-lies", "empty() said %d on an idle stack holding %zu elements", was_empty, sp.final_.size());
            if (!q->empty())
                pbt::fail("empty-lies", "empty() is false on a drained stack");
        }
        if (c.churn)
            check_churn(sp, ops);
        else {
            lin::Result r = lin::check(ops, sp);
            if (r == lin::NO)
                pbt::fail(lin::blame(ops, sp), "no LIFO order explains the %s", lin::show(ops, sp).c_str());
            if (r == lin::GAVE_UP)
                PBT_LABEL("lin-gave-up");
        }
        if (all) {
            size_t cap = nodes + nallocs, got = 0;
            for (; got <= cap + 2; ++got)
                if (!(how == 2 && (c.fixed || got < cap) ? q->unsynchronized_push(VA::make(1 + (uint32_t)got)) : q->bounded_push(VA::make(1 + (uint32_t)got))))
                    break;
            if (got != cap)
                pbt::fail("capacity", "after the run the stack accepts %zu bounded pushes, it owns %zu nodes", got, cap);
            for (size_t i = got; i-- > 0;) {
                V v = VA::make(0);
                if (i < got / 2)
                    break; // leave some inside for the destructor
                if (!(how == 1 ? q->unsynchronized_pop(v) : q->pop(v)) || VA::id(v) != 1 + i)
                    pbt::fail("capacity", "refilled stack returns wrong elements");
            }
            q->~S();
            if (vs::live_blocks() != 1)
                pbt::fail("leak", "%zu blocks were not returned to the allocator", vs::live_blocks() - 1);
            if (vs::live_elements() != 0)
                pbt::fail("element-leak", "%ld stored elements were never destroyed", vs::live_elements());
        }
        if (vs::switches() > 0)
            cx.nontrivial = true;
        mix_hist(cx);
        cx.mix(vs::switches());
        cx.mix(vs::global_steps());
        if (vs::spurious_failures())
            PBT_LABEL("spurious failures");
        if (vs::stale_reads())
            PBT_LABEL("stale loads");
        if (nallocs)
            PBT_LABEL("allocated during run");
        bool full = false, none = false, take_ = false, part = false;
        for (auto& o : ops) {
            full |= o.kind == lin::PUSH_FULL;
            none |= o.kind == lin::POP_EMPTY;
            take_ |= (o.kind == lin::TAKE_ALL || o.kind == lin::TAKE_ALL_REV) && o.vals.size() > 1;
            part |= o.kind == lin::PUSH && o.short_;
        }
        if (full)
            PBT_LABEL("push failed");
        if (none)
            PBT_LABEL("pop failed");
        if (take_)
            PBT_LABEL("atomic take of several elements");
        if (part)
            PBT_LABEL("partial ranged push");
        if (pbt::want_desc())
            pbt::note("  %s\n", lin::show(ops, sp).c_str());
    }

    static void check_churn(lin::Spec const& sp, std::vector< lin::Op > const& ops)
    {
        std::vector< uint32_t > a = sp.initial, b = churn_out;
        a.insert(a.end(), churn_in.begin(), churn_in.end());
        for (auto& o : ops) {
            if (o.kind == lin::PUSH)
                a.insert(a.end(), o.vals.begin(), o.vals.end());
            if (o.kind == lin::POP || o.kind == lin::TAKE_ALL || o.kind == lin::TAKE_ALL_REV)
                b.insert(b.end(), o.vals.begin(), o.vals.end());
        }
        b.insert(b.end(), sp.final_.begin(), sp.final_.end());
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) {
            for (size_t i = 1; i < b.size(); ++i)
                if (b[i] == b[i - 1])
                    pbt::fail("duplicated-element", "element %u was handed out twice", b[i]);
            pbt::fail("lost-element", "%zu elements pushed, %zu obtained after %u recycling rounds during a suspended operation", a.size(), b.size(), cs->churn);
        }
    }
};
template < class S, class V, bool NB > uint32_t Run< S, V, NB >::reserved[vs::NT];
template < class S, class V, bool NB > S*      Run< S, V, NB >::q;
template < class S, class V, bool NB > Case*   Run< S, V, NB >::cs;
template < class S, class V, bool NB > ProgOp* Run< S, V, NB >::curop[vs::NT];
template < class S, class V, bool NB > std::vector< uint32_t > Run< S, V, NB >::churn_out;
template < class S, class V, bool NB > std::vector< uint32_t > Run< S, V, NB >::churn_in;

template < class S >
static S* make_sized(uint32_t n)
{
    void* p = vs::alloc(sizeof(S), alignof(S));
    return new (p) S(n);
}
template < class S >
static S* make_default(uint32_t)
{
    void* p = vs::alloc(sizeof(S), alignof(S));
    return new (p) S();
}

typedef blf::allocator< vs::Alloc< char > > AL;

template < class V >
static void dispatch(pbt::Ctx& cx, Case& c, int kind)
{
    switch (kind) {
    case 0: Run< blf::stack< V, AL >, V, true >::body(cx, c, make_sized< blf::stack< V, AL > >); break;
    case 1: {
        typedef blf::stack< V, AL, blf::fixed_sized< true > > S;
        Run< S, V >::body(cx, c, make_sized< S >);
        break;
    }
    case 2: {
        typedef blf::stack< V, blf::capacity< 1 > > S;
        c.n = 1;
        Run< S, V >::body(cx, c, make_default< S >);
        break;
    }
    case 3: {
        typedef blf::stack< V, blf::capacity< 2 > > S;
        c.n = 2;
        Run< S, V >::body(cx, c, make_default< S >);
        break;
    }
    case 5: {
        typedef blf::stack< V, blf::capacity< 64 > > S;
        c.n = 64;
        Run< S, V >::body(cx, c, make_default< S >);
        break;
    }
    default: {
        typedef blf::stack< V, blf::capacity< 4 > > S;
        c.n = 4;
        Run< S, V >::body(cx, c, make_default< S >);
        break;
    }
    }
}
#if VAL == 0
typedef PayT< 1 > Elem;
#elif VAL == 1
typedef PayT< 3 > Elem;
#elif VAL == 2
typedef uint16_t Elem;
#else
typedef PayT< 10 > Elem;
#endif
static int registered = (stack_runners[VAL] = dispatch< Elem >, 0);
