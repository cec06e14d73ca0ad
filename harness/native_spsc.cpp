// spsc_queue under two real threads
#include "native.hpp"

#include <boost/lockfree/spsc_queue.hpp>

namespace native { namespace {
namespace blf = boost::lockfree;

// what one side did: `asked` elements wanted, `n` transferred; or an answer about availability
struct Step
{
    uint32_t asked, n;
    bool     answer, front;
    bool     all; // wanted whatever there is
};

template < class C, class T >
struct Run
{
    pbt::Ctx&   cx;
    const char* conf;
    size_t      cap;
    uint64_t    seed;
    uint32_t    steps, delay[2], batch;
    C*          c;

    std::vector< Step >     prod, cons;
    std::vector< uint64_t > got;
    uint64_t                torn, lies, missed, made;
    std::atomic< bool >     done;

    struct Get
    {
        Run* r;
        void operator()(T const& x) const
        {
            pause_somewhere();
            r->take(x);
        }
    };
    void take(T const& x)
    {
        if (!x.intact())
            ++torn;
        got.push_back(x.id());
    }
    void producer(Rng& r)
    {
        uint64_t                        id = 1;
        std::vector< T >                v;
        size_t                          promised = 0;
        for (uint32_t i = 0; i != steps; ++i) {
            Step o = {};
            switch (r.draw(5)) {
            case 0:
                o.answer = true;
                o.n      = (uint32_t)c->write_available();
                promised = o.n;
                prod.push_back(o);
                break;
            case 1:
            case 2: {
                T x     = T::make(id);
                o.asked = 1;
                o.n     = c->push(x);
                break;
            }
            default:
                o.asked = r.draw(batch + 1);
                v.clear();
                for (uint32_t k = 0; k != o.asked; ++k)
                    v.push_back(T::make(id + k));
                if (r.draw(2))
                    o.n = (uint32_t)c->push(v.data(), o.asked);
                else
                    o.n = (uint32_t)(c->push(v.begin(), v.end()) - v.begin());
            }
            if (!o.answer) {
                if (o.n < o.asked && o.n < promised)
                    ++lies;
                promised -= promised < o.n ? promised : o.n;
                id += o.n;
                prod.push_back(o);
            }
            slow_down(r, delay[0]);
        }
        made = id - 1;
        done = true;
    }
    void consumer(Rng& r)
    {
        std::vector< T > v;
        for (uint32_t i = 0; i != 64; ++i)
            v.push_back(T::make(0));
        size_t promised = 0;
        for (uint32_t i = 0; i < steps || !done.load(); ++i) {
            Step o      = {};
            bool finish = done.load();
            size_t before = got.size();
            switch (r.draw(7)) {
            case 0:
                o.answer = true;
                o.n      = (uint32_t)c->read_available();
                promised = o.n;
                if (o.n && r.draw(2)) {
                    T const& x = c->front();
                    if (!x.intact() || x.id() != got.size() + 1)
                        ++torn;
                }
                cons.push_back(o);
                break;
            case 1: {
                T x     = T::make(0);
                o.asked = 1;
                o.n = c->pop(x);
                if (o.n)
                    take(x);
                break;
            }
            case 2: {
                Get g{ this };
                o.asked = 1;
                o.n     = c->consume_one(g);
                break;
            }
            case 3: {
                Get g{ this };
                o.all = true;
                o.n   = (uint32_t)c->consume_all(g);
                break;
            }
            default:
                o.asked = r.draw(batch + 1);
                o.n     = (uint32_t)c->pop(v.data(), o.asked);
                for (uint32_t k = 0; k != o.n; ++k)
                    take(v[k]);
            }
            if (!o.answer) {
                if (got.size() - before != o.n)
                    torn += 1000000;
                if (o.n < promised && (o.all || o.n < o.asked))
                    ++lies;
                // everything has been pushed, and that is known to this thread
                if (finish && (o.all || o.n < o.asked) && got.size() < made)
                    ++missed;
                promised -= promised < o.n ? promised : o.n;
                if (cons.size() < 200000)
                    cons.push_back(o);
            }
            if (finish && i >= steps)
                break;
            if (i > 1000000)
                break;
            slow_down(r, delay[1]);
        }
    }
    void judge()
    {
        if (torn)
            pbt::fail("torn-element", "%s: elements came back changed (%llu)", conf, (unsigned long long)torn);
        for (size_t i = 0; i != got.size(); ++i)
            if (got[i] != i + 1)
                pbt::fail("order", "%s: element %llu came instead of element %zu", conf, (unsigned long long)got[i], i + 1);
        if (got.size() != made)
            pbt::fail(got.size() < made ? "lost-element" : "invented-element", "%s: %zu of %llu elements came back", conf, got.size(), (unsigned long long)made);
        if (lies)
            pbt::fail("broken-promise", "%s: %llu calls transferred less than an earlier answer had promised", conf, (unsigned long long)lies);
        if (missed)
            pbt::fail("spurious-empty", "%s: a call found nothing although the producer had finished and elements were stored", conf);
        // (no checks by the clock: a push may return before its store becomes visible to the other side)
        for (auto& o : prod)
            if (o.answer && o.n > cap)
                pbt::fail("avail-range", "%s: write_available() answers %u of %zu", conf, o.n, cap);
        for (auto& o : cons)
            if (o.answer && o.n > cap)
                pbt::fail("avail-range", "%s: read_available() answers %u of %zu", conf, o.n, cap);
    }
    static void body(void* self, int i, Rng& r)
    {
        if (i == 0)
            static_cast< Run* >(self)->producer(r);
        else
            static_cast< Run* >(self)->consumer(r);
    }
    template < class... A >
    void go(A... a)
    {
        pbt::Tape& t = cx.tape;
        static const uint32_t counts[] = { 20, 100, 400, 1500 };
        steps    = counts[t.draw(4)];
        batch    = t.draw(3) ? 1 + t.draw(8) : 1 + t.draw(60);
        delay[0] = t.draw(3) ? 0 : 1 + t.draw(20);
        delay[1] = t.draw(3) ? 0 : 1 + t.draw(20);
        seed     = t.draw(0x7fffffff) + 1;
        cx.mix(seed);
        cx.mix(cap);
        pbt::note("%s, %zu elements, %u calls on each side, batches up to %u, seed %llu\n", conf, cap, steps, batch, (unsigned long long)seed);
        repeat(cx, [&] {
            long before = live.load();
            broken      = 0;
            {
                std::unique_ptr< C > own(new C(a...));
                c = own.get();
                prod.clear(), cons.clear(), got.clear();
                torn = lies = missed = made = 0;
                done               = false;
                Plan p             = {};
                p.threads = 2, p.seed = seed;
                set_pauses(seed % 3 ? 3 + (uint32_t)(seed % 61) : 0);
                run_threads(p, &Run::body, this);
                // the rest, by this thread
                if (c->read_available() != made - std::min< uint64_t >(made, got.size()))
                    pbt::fail("avail-idle", "%s: read_available() of the idle container is %zu, %llu elements were pushed and %zu obtained", conf, c->read_available(), (unsigned long long)made, got.size());
                if (c->write_available() != cap - c->read_available())
                    pbt::fail("avail-idle", "%s: write_available() of the idle container is %zu with %zu of %zu elements stored", conf, c->write_available(), c->read_available(), cap);
                if (c->empty() != (got.size() == made))
                    pbt::fail("empty-lies", "%s: empty() of the idle container is %d", conf, (int)c->empty());
                Get g{ this };
                c->consume_all(g);
                judge();
                if (seed & 1)
                    c->push(T::make(1));
            }
            if (broken.load())
                pbt::fail("dead-element", "%s: %ld uses of elements that are not alive", conf, broken.load());
            if (live.load() != before)
                pbt::fail("element-leak", "%s: %ld elements survived the container", conf, live.load() - before);
        });
        cx.nontrivial = made > 4;
    }
};

template < class C, class T, class... A >
void with(pbt::Ctx& cx, const char* conf, size_t cap, A... a)
{
    Run< C, T > r{ cx, conf, cap, 0, 0, {}, 0, nullptr, {}, {}, {}, 0, 0, 0, 0, {} };
    r.go(a...);
}
template < class T >
void any(pbt::Ctx& cx)
{
    static const size_t caps[] = { 1, 2, 3, 5, 8, 20, 64 };
    size_t              n      = caps[cx.tape.draw(7)];
    switch (cx.tape.draw(4)) {
    case 0:
    case 1: return with< blf::spsc_queue< T >, T >(cx, "run-time sized", n, n);
    case 2: return with< blf::spsc_queue< T, blf::capacity< 2 > >, T >(cx, "capacity<2>", 2);
    default: return with< blf::spsc_queue< T, blf::capacity< 17 > >, T >(cx, "capacity<17>", 17);
    }
}
}} // namespace native::

PBT_SCENARIO(native_spsc, "a producer and a consumer thread run a generated mix of calls; non-trivial: more than 4 elements went through")
{
    uint32_t k = cx.tape.draw(4);
    cx.mix(k);
    switch (k) {
    case 0: return native::any< native::Elem< 1 > >(cx);
    case 1: return native::any< native::Elem< 3 > >(cx);
    case 2: return native::any< native::Elem< 0 > >(cx);
    default: return native::any< native::Elem< 12 > >(cx);
    }
}
