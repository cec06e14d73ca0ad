// Shared by the generated programs of C18 (probes.py). C++11.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <list>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <vector>

struct Tally
{
    long allocs, live, bytes;
};
extern Tally global_tally;

// a stateful allocator that counts; honours the alignment of its type
template < class T >
struct Count
{
    typedef T value_type;
    Tally*    t;
    Count() : t(&global_tally) {}
    explicit Count(Tally* x) : t(x) {}
    template < class U >
    Count(Count< U > const& o) : t(o.t) {}
    T* allocate(std::size_t n)
    {
        void* p = 0;
        if (posix_memalign(&p, alignof(T) < 16 ? 16 : alignof(T), n * sizeof(T) ? n * sizeof(T) : 1))
            std::abort();
        std::memset(p, 0xa5, n * sizeof(T));
        t->allocs++;
        t->live++;
        t->bytes += (long)(n * sizeof(T));
        return (T*)p;
    }
    void deallocate(T* p, std::size_t n)
    {
        t->live--;
        t->bytes -= (long)(n * sizeof(T));
        std::free(p);
    }
    template < class U >
    bool operator==(Count< U > const& o) const { return t == o.t; }
    template < class U >
    bool operator!=(Count< U > const& o) const { return t != o.t; }
};

struct Pod
{
    int  a;
    char b[5];
};
struct Big
{
    long a[17];
};
enum class Color : unsigned char { none, first };
struct alignas(64) Al
{
    int a;
};
struct NoDefault
{
    int a;
    explicit NoDefault(int x) : a(x) {}
    NoDefault(NoDefault const& o) : a(o.a) {}
    NoDefault& operator=(NoDefault const& o)
    {
        a = o.a;
        return *this;
    }
    ~NoDefault() { a = -1; }
};
// convertible from elements, for converting pops
template < class T >
struct From
{
    T v;
    From(T const& x) : v(x) {}
    From& operator=(T const& x)
    {
        v = x;
        return *this;
    }
};

template < class T >
struct Mk
{
    static T    make(int i) { return (T)i; }
    static bool eq(T const& v, int i) { return v == (T)i; }
};
template <>
struct Mk< Pod >
{
    static Pod make(int i)
    {
        Pod p;
        p.a = i;
        std::memset(p.b, i, sizeof p.b);
        return p;
    }
    static bool eq(Pod const& v, int i)
    {
        Pod p = make(i);
        return v.a == p.a && !std::memcmp(v.b, p.b, sizeof p.b);
    }
};
template <>
struct Mk< Big >
{
    static Big make(int i)
    {
        Big p;
        for (int k = 0; k != 17; ++k)
            p.a[k] = (long)i * (k + 1);
        return p;
    }
    static bool eq(Big const& v, int i)
    {
        Big p = make(i);
        return !std::memcmp(v.a, p.a, sizeof p.a);
    }
};
template <>
struct Mk< Al >
{
    static Al make(int i)
    {
        Al p;
        p.a = i;
        return p;
    }
    static bool eq(Al const& v, int i) { return v.a == i && (std::size_t)&v % 64 == 0; }
};
template <>
struct Mk< NoDefault >
{
    static NoDefault make(int i) { return NoDefault(i); }
    static bool      eq(NoDefault const& v, int i) { return v.a == i; }
};
template <>
struct Mk< std::string >
{
    static std::string make(int i) { return "a string that does not fit into the object, number " + std::to_string(i); }
    static bool        eq(std::string const& v, int i) { return v == make(i); }
};
template <>
struct Mk< std::shared_ptr< int > >
{
    static std::shared_ptr< int > make(int i) { return std::make_shared< int >(i); }
    static bool                   eq(std::shared_ptr< int > const& v, int i) { return v && *v == i && v.use_count() >= 1; }
};
template <>
struct Mk< int* >
{
    static int* make(int i) { return (int*)(std::size_t)(i * 4); }
    static bool eq(int* const& v, int i) { return v == make(i); }
};

template < class T >
struct Seen // a functor that compares what it gets with what it is to get
{
    std::vector< int > want;
    std::size_t        at;
    bool               ok;
    Seen(std::initializer_list< int > w) : want(w), at(0), ok(true) {}
    void take(T const& v)
    {
        if (at == want.size() || !Mk< T >::eq(v, want[at]))
            ok = false;
        at++;
    }
    void operator()(T const& v) { take(v); }
    bool done() const { return ok && at == want.size(); }
};
template < class T >
struct ConstSeen // the same for calls through a const reference
{
    Seen< T >* s;
    void operator()(T const& v) const { s->take(v); }
};
template < class T >
Seen< T >*& seen_by_function()
{
    static Seen< T >* s;
    return s;
}
template < class T >
void function(T const& v)
{
    seen_by_function< T >()->take(v);
}

struct Dw
{
    alignas(16) void* p;
    std::size_t t;
};

#define CK(...)                                                              \
    do {                                                                     \
        if (!(__VA_ARGS__)) {                                                \
            std::printf("config %d, line %d: %s\n", CFG, __LINE__, #__VA_ARGS__); \
            return 1;                                                        \
        }                                                                    \
    } while (0)
