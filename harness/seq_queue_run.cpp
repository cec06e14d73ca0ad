// queue: executes calls on one configuration; VAL selects the element type.
#include "seq_queue.hpp"
#include <boost/lockfree/queue.hpp>
namespace blf = boost::lockfree;

enum How { SIZED_ALLOC, SIZED, DEFAULT, ALLOC };

template < class T, class Q, int HOW, bool NODEBASED >
struct QBox : Box
{
    Q* q = nullptr;

    void create(uint32_t n, Arena* a, uint32_t) override
    {
        void* p = ::operator new(sizeof(Q), std::align_val_t(alignof(Q)));
        memset(p, 0x5a, sizeof(Q));
        try {
            if constexpr (HOW == SIZED_ALLOC)
                q = new (p) Q(n, typename Q::allocator(Aud< char >(a)));
            else if constexpr (HOW == SIZED)
                q = new (p) Q(n);
            else if constexpr (HOW == DEFAULT)
                q = new (p) Q;
            else
                q = new (p) Q(typename Q::allocator(Aud< char >(a)));
        } catch (...) {
            ::operator delete(p, std::align_val_t(alignof(Q)));
            q = nullptr;
            throw;
        }
        (void)n;
        (void)a;
    }
    void destroy() override
    {
        if (!q)
            return;
        q->~Q();
        ::operator delete(q, std::align_val_t(alignof(Q)));
        q = nullptr;
    }
    template < class U, class F >
    void popping(Outcome& o, F f)
    {
        U u;
        o.ret = f(u);
        if (o.ret)
            o.out.push_back(El< T >::id(u));
    }
    template < class F >
    void popping_t(Outcome& o, F f)
    {
        T    v      = El< T >::make(77);
        uint32_t before = El< T >::id(v);
        o.ret           = f(v);
        uint32_t after  = El< T >::id(v);
        if (o.ret)
            o.out.push_back(after);
        else if (after != before)
            pbt::fail("changed-on-failure", "a failed pop changed its argument");
    }
    void exec(Call const& c, Outcome& o) override
    {
        typedef typename El< T >::implicit_t I;
        typedef typename El< T >::explicit_t X;
        switch (c.code) {
        case PUSH:
        case BPUSH:
        case UPUSH: {
            T const v = El< T >::make(c.ids[0]);
            copy_countdown = c.copy_fault;
            guarded(o, [&] { o.ret = c.code == PUSH ? q->push(v) : c.code == BPUSH ? q->bounded_push(v) : q->unsynchronized_push(v); });
            copy_countdown = 0;
            break;
        }
        case POP: popping_t(o, [&](T& v) { return q->pop(v); }); break;
        case UPOP: popping_t(o, [&](T& v) { return q->unsynchronized_pop(v); }); break;
        case POPI: popping< I >(o, [&](I& v) { return q->pop(v); }); break;
        case POPX: popping< X >(o, [&](X& v) { return q->pop(v); }); break;
        case UPOPI: popping< I >(o, [&](I& v) { return q->unsynchronized_pop(v); }); break;
        case UPOPX: popping< X >(o, [&](X& v) { return q->unsynchronized_pop(v); }); break;
        case CONS1: o.ret = with_functor< T >(c.variant, o.out, [&](auto&& f) { return q->consume_one(std::forward< decltype(f) >(f)); }); break;
        case CONSALL: o.count = (long)with_functor< T >(c.variant, o.out, [&](auto&& f) { return q->consume_all(std::forward< decltype(f) >(f)); }); break;
        case EMPTY: o.ret = const_cast< Q const* >(q)->empty(); break;
        case RESERVE:
        case RESERVEU:
            if constexpr (NODEBASED)
                guarded(o, [&] { c.code == RESERVE ? q->reserve(c.n) : q->reserve_unsafe(c.n); });
            else
                o.skipped = true;
            break;
        case LOCKFREE: o.ret = const_cast< Q const* >(q)->is_lock_free(); break;
        }
    }
};

template < class T, int HOW, bool NB, class... Opt >
static BoxInfo info(const char* name, bool fixed, bool ctime, uint32_t cap, bool audited, bool defctor)
{
    static_assert(std::is_same< typename blf::queue< T, Opt... >::value_type, T >::value, "value_type");
    return BoxInfo { new QBox< T, blf::queue< T, Opt... >, HOW, NB >(), name, fixed, ctime, cap, audited, El< T >::tracked, defctor, &El< T >::canon };
}

#if VAL == 0
typedef uint32_t T;
#elif VAL == 1
typedef uint8_t T;
#elif VAL == 2
typedef double T;
#elif VAL == 3
typedef Bytes< 37, 1 > T;
#elif VAL == 4
typedef QThrow< 24, 8 > T;
#elif VAL == 5
typedef QThrow< 160, 32 > T;
#elif VAL == 6
typedef void* T;
#elif VAL == 7
typedef Bytes< 1024, 64 > T;
#endif

typedef blf::allocator< Aud< T > > AL;
static int make()
{
    // two instances per configuration
    for (int i = 0; i != 2; ++i) {
        auto& b = boxes[VAL];
        b.push_back(info< T, SIZED_ALLOC, true, AL >("queue<T, allocator> (n, alloc)", false, false, 0, true, false));
        b.push_back(info< T, SIZED_ALLOC, false, AL, blf::fixed_sized< true > >("queue<T, allocator, fixed_sized<true>> (n, alloc)", true, false, 0, true, false));
        b.push_back(info< T, DEFAULT, false, blf::capacity< 3 > >("queue<T, capacity<3>>", true, true, 3, false, false));
        b.push_back(info< T, SIZED, true >("queue<T> (n)", false, false, 0, false, false));
        b.push_back(info< T, SIZED, false, blf::fixed_sized< true > >("queue<T, fixed_sized<true>> (n)", true, false, 0, false, false));
#if VAL == 0 || VAL == 4
        b.push_back(info< T, ALLOC, false, blf::capacity< 1 >, AL >("queue<T, capacity<1>, allocator> (alloc)", true, true, 1, true, false));
        b.push_back(info< T, SIZED, true, blf::fixed_sized< false >, AL >("queue<T, fixed_sized<false>, allocator> (n)", false, false, 0, true, true));
        b.push_back(info< T, SIZED, false, blf::fixed_sized< true >, AL >("queue<T, fixed_sized<true>, allocator> (n)", true, false, 0, true, true));
        b.push_back(info< T, DEFAULT, false, blf::fixed_sized< true >, blf::capacity< 7 > >("queue<T, fixed_sized<true>, capacity<7>>", true, true, 7, false, false));
        b.push_back(info< T, DEFAULT, false, blf::capacity< 16 > >("queue<T, capacity<16>>", true, true, 16, false, false));
#endif
    }
    return 0;
}
static int made = make();
