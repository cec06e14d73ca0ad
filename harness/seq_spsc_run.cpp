// spsc_queue: executes calls on one configuration; VAL selects the element type.
#include "seq_spsc.hpp"
#include <boost/lockfree/spsc_queue.hpp>
#include <forward_list>
#include <iterator>
namespace blf = boost::lockfree;

enum How { SIZED_ALLOC, SIZED, DEFAULT, ALLOC };

// output iterator that is neither a pointer nor copy assignable through *it more than once
template < class T >
struct OutIt
{
    typedef std::output_iterator_tag iterator_category;
    typedef void                     value_type;
    typedef void                     difference_type;
    typedef void                     pointer;
    typedef void                     reference;
    std::vector< uint32_t >* out;
    struct Ref
    {
        std::vector< uint32_t >* out;
        void operator=(T const& v) { out->push_back(El< T >::id(v)); }
    };
    Ref    operator*() { return Ref { out }; }
    OutIt& operator++() { return *this; }
    OutIt  operator++(int) { return *this; }
};

template < class T >
struct Buffer // n elements that hold a marker, in a block of exactly that size
{
    T*     p;
    size_t n;
    Buffer(size_t k) : p(nullptr), n(k)
    {
        p = (T*)::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
        for (size_t i = 0; i != n; ++i)
            new (p + i) T(El< T >::make(77));
    }
    ~Buffer()
    {
        for (size_t i = 0; i != n; ++i)
            p[i].~T();
        ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    Buffer(Buffer const&) = delete;
    void collect(Outcome& o, size_t got, const char* what)
    {
        if (got > n)
            pbt::fail("wrong-result", "%s claims to have filled %zu elements of a buffer of %zu", what, got, n);
        for (size_t i = 0; i != n; ++i) {
            uint32_t id = El< T >::id(p[i]);
            if (i < got)
                o.out.push_back(id);
            else if (id != El< T >::canon(77))
                pbt::fail("overrun", "%s returned %zu but changed element %zu of the buffer", what, got, i);
        }
    }
};

template < class T, class S, int HOW >
struct PBox : Box
{
    S* s = nullptr;

    void create(uint32_t n, Arena* a, uint32_t) override
    {
        void* p = ::operator new(sizeof(S), std::align_val_t(alignof(S)));
        memset(p, 0x5a, sizeof(S));
        try {
            if constexpr (HOW == SIZED_ALLOC)
                s = new (p) S(n, typename S::allocator(Aud< char >(a)));
            else if constexpr (HOW == SIZED)
                s = new (p) S(n);
            else if constexpr (HOW == DEFAULT)
                s = new (p) S;
            else
                s = new (p) S(typename S::allocator());
        } catch (...) {
            ::operator delete(p, std::align_val_t(alignof(S)));
            s = nullptr;
            throw;
        }
        (void)n;
        (void)a;
    }
    void destroy() override
    {
        if (!s)
            return;
        s->~S();
        ::operator delete(s, std::align_val_t(alignof(S)));
        s = nullptr;
    }
    template < class F >
    void pushing(Call const& c, Outcome& o, F f)
    {
        copy_countdown = c.copy_fault;
        guarded(o, f);
        copy_countdown = 0;
    }
    template < class It >
    void ranged(Call const& c, Outcome& o, It b, It e)
    {
        It r = b;
        pushing(c, o, [&] { r = s->push(b, e); });
        if (o.threw_alloc || o.threw_copy || o.threw_other)
            return;
        long k = 0;
        for (It i = b; !(i == r); ++i, ++k)
            if (i == e)
                pbt::fail("iterator", "a ranged push returned an iterator that is not in the range");
        o.count = k;
    }
    template < size_t N >
    void push_array(Call const& c, Outcome& o)
    {
        struct Arr
        {
            union { T a[N]; };
            Arr(std::vector< uint32_t > const& ids)
            {
                for (size_t i = 0; i != N; ++i)
                    new (a + i) T(El< T >::make(ids[i]));
            }
            ~Arr()
            {
                for (size_t i = 0; i != N; ++i)
                    a[i].~T();
            }
        };
        Arr x(c.ids);
        T const(&ref)[N] = x.a;
        pushing(c, o, [&] { o.count = (long)s->push(ref); });
    }
    template < size_t N >
    void pop_array(Outcome& o)
    {
        Buffer< T > b(N);
        T(&ref)[N] = *reinterpret_cast< T(*)[N] >(b.p);
        o.count    = (long)s->pop(ref);
        b.collect(o, (size_t)o.count, "pop into an array");
    }
    void exec(Call const& c, Outcome& o) override
    {
        typedef typename El< T >::implicit_t I;
        switch (c.code) {
        case PUSH1: {
            Values< T > v(c.ids);
            T const&    x = *v.p;
            pushing(c, o, [&] { o.ret = s->push(x); });
            break;
        }
        case PUSHN: {
            Values< T > v(c.ids);
            pushing(c, o, [&] { o.count = (long)s->push((T const*)v.p, v.n); });
            break;
        }
        case PUSHA:
            switch (array_size(c.variant)) {
            case 1: push_array< 1 >(c, o); break;
            case 2: push_array< 2 >(c, o); break;
            case 3: push_array< 3 >(c, o); break;
            case 5: push_array< 5 >(c, o); break;
            case 19: push_array< 19 >(c, o); break;
            }
            break;
        case PUSHIT:
            switch (c.variant) {
            default: {
                Values< T > v(c.ids);
                ranged(c, o, (T const*)v.p, (T const*)v.p + v.n);
                break;
            }
            case 1: {
                Values< T > v(c.ids);
                ranged(c, o, v.p, v.p + v.n);
                break;
            }
            case 2: {
                Values< T > v(c.ids);
                ranged(c, o, GenIt< T > { v.p }, GenIt< T > { v.p + v.n });
                break;
            }
            case 3: {
                std::list< T > l;
                for (uint32_t id : c.ids)
                    l.push_back(El< T >::make(id));
                ranged(c, o, l.begin(), l.end());
                break;
            }
            case 4: {
                std::vector< T > l;
                l.reserve(c.ids.size());
                for (uint32_t id : c.ids)
                    l.push_back(El< T >::make(id));
                ranged(c, o, l.cbegin(), l.cend());
                break;
            }
            case 5: {
                std::forward_list< T > l;
                for (size_t i = c.ids.size(); i-- > 0;)
                    l.push_front(El< T >::make(c.ids[i]));
                ranged(c, o, l.cbegin(), l.cend());
                break;
            }
            }
            break;
        case POP0: o.ret = s->pop(); break;
        case POP1: {
            T v   = El< T >::make(77);
            o.ret = s->pop(v);
            uint32_t after = El< T >::id(v);
            if (o.ret)
                o.out.push_back(after);
            else if (after != El< T >::canon(77))
                pbt::fail("changed-on-failure", "a failed pop changed its argument");
            break;
        }
        case POPI: {
            I u;
            o.ret = s->pop(u);
            if (o.ret)
                o.out.push_back(El< T >::id(u));
            break;
        }
        case POPN: {
            Buffer< T > b(c.n);
            o.count = (long)s->pop(b.p, b.n);
            b.collect(o, (size_t)o.count, "pop into a buffer");
            break;
        }
        case POPA:
            switch (array_size(c.variant)) {
            case 1: pop_array< 1 >(o); break;
            case 2: pop_array< 2 >(o); break;
            case 3: pop_array< 3 >(o); break;
            case 5: pop_array< 5 >(o); break;
            case 19: pop_array< 19 >(o); break;
            }
            break;
        case POPIT:
            switch (c.variant) {
            default: o.count = (long)s->pop(OutIt< T > { &o.out }); break;
            case 1: {
                std::vector< T > v;
                o.count = (long)s->pop(std::back_inserter(v));
                for (T const& x : v)
                    o.out.push_back(El< T >::id(x));
                break;
            }
            case 2: {
                std::list< T > v;
                for (uint32_t i = 0; i != c.n; ++i)
                    v.push_back(El< T >::make(77));
                o.count = (long)s->pop(v.begin());
                long k  = 0;
                for (T const& x : v) {
                    uint32_t id = El< T >::id(x);
                    if (k++ < o.count)
                        o.out.push_back(id);
                    else if (id != El< T >::canon(77))
                        pbt::fail("overrun", "pop to a list iterator returned %ld but changed more elements", o.count);
                }
                break;
            }
            case 3: {
                Buffer< T > b(c.n);
                o.count = (long)s->pop(b.p);
                b.collect(o, (size_t)o.count, "pop to a pointer");
                break;
            }
            case 4: {
                std::vector< T > v;
                v.reserve(c.n);
                for (uint32_t i = 0; i != c.n; ++i)
                    v.push_back(El< T >::make(77));
                o.count = (long)s->pop(v.begin());
                for (uint32_t i = 0; i != c.n; ++i) {
                    uint32_t id = El< T >::id(v[i]);
                    if ((long)i < o.count)
                        o.out.push_back(id);
                    else if (id != El< T >::canon(77))
                        pbt::fail("overrun", "pop to a vector iterator returned %ld but changed more elements", o.count);
                }
                break;
            }
            }
            break;
        case CONS1: o.ret = with_functor< T >(c.variant, o.out, [&](auto&& f) { return s->consume_one(std::forward< decltype(f) >(f)); }); break;
        case CONSALL: o.count = (long)with_functor< T >(c.variant, o.out, [&](auto&& f) { return s->consume_all(std::forward< decltype(f) >(f)); }); break;
        case FRONT:
            o.out.push_back(c.variant ? El< T >::id(const_cast< S const* >(s)->front()) : El< T >::id(s->front()));
            if (static_cast< T const* >(&const_cast< S const* >(s)->front()) != &s->front())
                pbt::fail("front", "the two overloads of front() refer to different elements");
            break;
        case FRONTMOD: s->front() = El< T >::make(c.ids[0]); break;
        case RESET: s->reset(); break;
        case EMPTY: o.ret = s->empty(); break;
        case RAVAIL: o.count = (long)const_cast< S const* >(s)->read_available(); break;
        case WAVAIL: o.count = (long)const_cast< S const* >(s)->write_available(); break;
        case LOCKFREE: o.ret = const_cast< S const* >(s)->is_lock_free(); break;
        }
    }
};

template < class T, int HOW, class... Opt >
static BoxInfo info(const char* name, bool ctime, uint32_t cap, bool audited, bool defctor)
{
    static_assert(std::is_same< typename blf::spsc_queue< T, Opt... >::value_type, T >::value, "value_type");
    return BoxInfo { new PBox< T, blf::spsc_queue< T, Opt... >, HOW >(), name, true, ctime, cap, audited, El< T >::tracked, defctor, &El< T >::canon };
}

#if VAL == 0
typedef uint32_t T;
#elif VAL == 1
typedef uint8_t T;
#elif VAL == 2
typedef double T;
#elif VAL == 3
typedef Bytes< 37, 1 > T;
#elif VAL == 4
typedef Tracked< 24, 8, true > T;
#elif VAL == 5
typedef void* T;
#elif VAL == 6
typedef Tracked< 256, 128, true > T;
#elif VAL == 7
typedef TrackedTA< 5, 1 > T;
#endif

typedef blf::allocator< Aud< T > > AL;
static int make()
{
    // two instances per configuration
    for (int i = 0; i != 2; ++i) {
        auto& b = boxes[VAL];
        b.push_back(info< T, SIZED_ALLOC, AL >("spsc_queue<T, allocator> (n, alloc)", false, 0, true, false));
        b.push_back(info< T, SIZED >("spsc_queue<T> (n)", false, 0, false, false));
        b.push_back(info< T, DEFAULT, blf::capacity< 3 > >("spsc_queue<T, capacity<3>>", true, 3, false, false));
        b.push_back(info< T, DEFAULT, blf::capacity< 8 > >("spsc_queue<T, capacity<8>>", true, 8, false, false));
        b.push_back(info< T, DEFAULT, blf::capacity< 1 > >("spsc_queue<T, capacity<1>>", true, 1, false, false));
#if VAL == 0 || VAL == 4
        b.push_back(info< T, SIZED, AL >("spsc_queue<T, allocator> (n)", false, 0, true, true));
        b.push_back(info< T, ALLOC, blf::capacity< 5 > >("spsc_queue<T, capacity<5>> (alloc)", true, 5, false, false));
        b.push_back(info< T, DEFAULT, blf::capacity< 63 > >("spsc_queue<T, capacity<63>>", true, 63, false, false));
#endif
    }
    return 0;
}
static int made = make();
