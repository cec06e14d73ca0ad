// stack: executes calls on one configuration; VAL selects the element type.
#include "seq_stack.hpp"
#include <boost/lockfree/stack.hpp>
#include <forward_list>
namespace blf = boost::lockfree;

enum How { SIZED_ALLOC, SIZED, DEFAULT, ALLOC };

template < class T, class S, int HOW, bool NODEBASED >
struct SBox : Box
{
    S* s = nullptr;

    void create(uint32_t n, Arena* a, uint32_t) override
    {
        void* p = ::operator new(sizeof(S), std::align_val_t(alignof(S)));
        memset(p, 0x5a, sizeof(S));
        try {
            if constexpr (HOW == SIZED_ALLOC)
                s = new (p) S(n, typename S::allocator(Aud< char >(a)));
            else if constexpr (HOW == SIZED)
                s = new (p) S(n);
            else if constexpr (HOW == DEFAULT)
                s = new (p) S;
            else
                s = new (p) S(typename S::allocator(Aud< char >(a)));
        } catch (...) {
            ::operator delete(p, std::align_val_t(alignof(S)));
            s = nullptr;
            throw;
        }
        (void)n;
        (void)a;
    }
    void destroy() override
    {
        if (!s)
            return;
        s->~S();
        ::operator delete(s, std::align_val_t(alignof(S)));
        s = nullptr;
    }
    template < class It >
    It range(int code, It b, It e)
    {
        return code == RPUSH ? s->push(b, e) : code == RBPUSH ? s->bounded_push(b, e) : s->unsynchronized_push(b, e);
    }
    template < class It >
    void ranged(Call const& c, Outcome& o, It b, It e)
    {
        copy_countdown = c.copy_fault;
        It r           = b;
        guarded(o, [&] { r = range(c.code, b, e); });
        copy_countdown = 0;
        if (o.threw_alloc || o.threw_copy || o.threw_other)
            return;
        long k = 0;
        for (It i = b; !(i == r); ++i, ++k)
            if (i == e)
                pbt::fail("iterator", "a ranged push returned an iterator that is not in the range");
        o.count = k;
    }
    void exec(Call const& c, Outcome& o) override
    {
        typedef typename El< T >::implicit_t I;
        switch (c.code) {
        case PUSH:
        case BPUSH:
        case UPUSH: {
            Values< T > v(c.ids);
            T const&    x  = *v.p;
            copy_countdown = c.copy_fault;
            guarded(o, [&] { o.ret = c.code == PUSH ? s->push(x) : c.code == BPUSH ? s->bounded_push(x) : s->unsynchronized_push(x); });
            copy_countdown = 0;
            break;
        }
        case RPUSH:
        case RBPUSH:
        case RUPUSH:
            switch (c.variant) {
            default: {
                Values< T > v(c.ids);
                ranged(c, o, (T const*)v.p, (T const*)v.p + v.n);
                break;
            }
            case 1: {
                Values< T > v(c.ids);
                ranged(c, o, v.p, v.p + v.n);
                break;
            }
            case 2: {
                Values< T > v(c.ids);
                ranged(c, o, GenIt< T > { v.p }, GenIt< T > { v.p + v.n });
                break;
            }
            case 3: {
                std::list< T > l;
                for (uint32_t id : c.ids)
                    l.push_back(El< T >::make(id));
                ranged(c, o, l.begin(), l.end());
                break;
            }
            case 4: {
                std::vector< T > l;
                l.reserve(c.ids.size());
                for (uint32_t id : c.ids)
                    l.push_back(El< T >::make(id));
                ranged(c, o, l.cbegin(), l.cend());
                break;
            }
            case 5: {
                std::forward_list< T > l;
                for (size_t i = c.ids.size(); i-- > 0;)
                    l.push_front(El< T >::make(c.ids[i]));
                ranged(c, o, l.cbegin(), l.cend());
                break;
            }
            }
            break;
        case POP:
        case UPOP:
            if constexpr (std::is_copy_assignable< T >::value) {
                T        v      = El< T >::make(77);
                uint32_t before = El< T >::id(v);
                o.ret           = c.code == POP ? s->pop(v) : s->unsynchronized_pop(v);
                uint32_t after  = El< T >::id(v);
                if (o.ret)
                    o.out.push_back(after);
                else if (after != before)
                    pbt::fail("changed-on-failure", "a failed pop changed its argument");
                break;
            }
            [[fallthrough]];
        case POPI:
        case UPOPI: {
            I u;
            o.ret = c.code == POP || c.code == POPI ? s->pop(u) : s->unsynchronized_pop(u);
            if (o.ret)
                o.out.push_back(El< T >::id(u));
            break;
        }
        case CONS1: o.ret = with_functor< T >(c.variant, o.out, [&](auto&& f) { return s->consume_one(std::forward< decltype(f) >(f)); }); break;
        case CONSALL: o.count = (long)with_functor< T >(c.variant, o.out, [&](auto&& f) { return s->consume_all(std::forward< decltype(f) >(f)); }); break;
        case CONSATOMIC: o.count = (long)with_functor< T >(c.variant, o.out, [&](auto&& f) { return s->consume_all_atomic(std::forward< decltype(f) >(f)); }); break;
        case CONSREV: o.count = (long)with_functor< T >(c.variant, o.out, [&](auto&& f) { return s->consume_all_atomic_reversed(std::forward< decltype(f) >(f)); }); break;
        case EMPTY: o.ret = const_cast< S const* >(s)->empty(); break;
        case RESERVE:
        case RESERVEU:
            if constexpr (NODEBASED)
                guarded(o, [&] { c.code == RESERVE ? s->reserve(c.n) : s->reserve_unsafe(c.n); });
            else
                o.skipped = true;
            break;
        case LOCKFREE: o.ret = const_cast< S const* >(s)->is_lock_free(); break;
        }
    }
};

template < class T, int HOW, bool NB, class... Opt >
static BoxInfo info(const char* name, bool fixed, bool ctime, uint32_t cap, bool audited, bool defctor)
{
    static_assert(std::is_same< typename blf::stack< T, Opt... >::value_type, T >::value, "value_type");
    return BoxInfo { new SBox< T, blf::stack< T, Opt... >, HOW, NB >(), name, fixed, ctime, cap, audited, El< T >::tracked, defctor, &El< T >::canon };
}

#if VAL == 0
typedef uint32_t T;
#elif VAL == 1
typedef uint8_t T;
#elif VAL == 2
typedef double T;
#elif VAL == 3
typedef Bytes< 37, 1 > T;
#elif VAL == 4
typedef Tracked< 24, 8, true > T;
#elif VAL == 5
typedef TrackedMin< 40, 4 > T;
#elif VAL == 6
typedef Tracked< 256, 128, false > T;
#elif VAL == 7
typedef TrackedTA< 5, 1 > T;
#endif

typedef blf::allocator< Aud< T > > AL;
static int make()
{
    // two instances per configuration
    for (int i = 0; i != 2; ++i) {
        auto& b = boxes[VAL];
        b.push_back(info< T, SIZED_ALLOC, true, AL >("stack<T, allocator> (n, alloc)", false, false, 0, true, false));
        b.push_back(info< T, SIZED_ALLOC, false, AL, blf::fixed_sized< true > >("stack<T, allocator, fixed_sized<true>> (n, alloc)", true, false, 0, true, false));
        b.push_back(info< T, DEFAULT, false, blf::capacity< 3 > >("stack<T, capacity<3>>", true, true, 3, false, false));
        b.push_back(info< T, SIZED, true >("stack<T> (n)", false, false, 0, false, false));
        b.push_back(info< T, SIZED, false, blf::fixed_sized< true > >("stack<T, fixed_sized<true>> (n)", true, false, 0, false, false));
#if VAL == 0 || VAL == 4
        b.push_back(info< T, ALLOC, false, blf::capacity< 1 >, AL >("stack<T, capacity<1>, allocator> (alloc)", true, true, 1, true, false));
        b.push_back(info< T, SIZED, true, blf::fixed_sized< false >, AL >("stack<T, fixed_sized<false>, allocator> (n)", false, false, 0, true, true));
        b.push_back(info< T, SIZED, false, blf::fixed_sized< true >, AL >("stack<T, fixed_sized<true>, allocator> (n)", true, false, 0, true, true));
        b.push_back(info< T, DEFAULT, false, blf::fixed_sized< true >, blf::capacity< 7 > >("stack<T, fixed_sized<true>, capacity<7>>", true, true, 7, false, false));
        b.push_back(info< T, DEFAULT, false, blf::capacity< 16 > >("stack<T, capacity<16>>", true, true, 16, false, false));
#endif
    }
    return 0;
}
static int made = make();
