// Shared parts of the sequential harnesses: auditing allocator, tracked elements, recorded calls and outcomes.
#pragma once
#include "../engine/pbt.hpp"

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <vector>

namespace sq {

// ---------------------------------------------------------------- faults
struct AllocFault : std::bad_alloc
{
    const char* what() const noexcept override { return "injected allocation failure"; }
};
struct CopyFault
{};
extern long copy_countdown;   // > 0: the copy constructor call that brings it to 0 throws
extern bool copy_fired;

// ---------------------------------------------------------------- allocator
struct Arena
{
    int                                                 id = 0;
    std::map< void*, std::pair< size_t, size_t > >      live;      // address -> (count, object size)
    size_t                                              nodes = 0; // objects allocated so far
    size_t                                              calls = 0;
    long                                                countdown = 0; // > 0: the call that brings it to 0 fails
    bool                                                fired = false;
    bool                                                may_free = false; // container being destroyed or construction failing
    bool                                                early_free = false;
    void*                                               allocate(size_t n, size_t size, size_t align);
    void                                                deallocate(void* p, size_t n, size_t size);
};
extern Arena arenas[4]; // 3: used by default constructed allocators

template < class T >
struct Aud
{
    typedef T         value_type;
    typedef T*        pointer;
    typedef T const*  const_pointer;
    typedef T&        reference;
    typedef T const&  const_reference;
    typedef size_t    size_type;
    typedef ptrdiff_t difference_type;
    template < class U >
    struct rebind
    {
        typedef Aud< U > other;
    };
    Arena* a;
    Aud() : a(&arenas[3]) {}
    explicit Aud(Arena* x) : a(x) {}
    Aud(Aud const&) = default;
    template < class U >
    Aud(Aud< U > const& o) : a(o.a)
    {}
    T*   allocate(size_t n) { return (T*)a->allocate(n, sizeof(T), alignof(T)); }
    void deallocate(T* p, size_t n) { a->deallocate(p, n, sizeof(T)); }
    friend bool operator==(Aud const& x, Aud const& y) { return x.a == y.a; }
    friend bool operator!=(Aud const& x, Aud const& y) { return x.a != y.a; }
};

// ---------------------------------------------------------------- elements
uint32_t mixid(uint32_t id, uint32_t i);

void reg_construct(const void* p, size_t align);
void reg_destroy(const void* p);
void reg_alive(const void* p, const char* what);
extern long live_objects;

inline void copy_point()
{
    if (copy_countdown > 0 && --copy_countdown == 0) {
        copy_fired = true;
        throw CopyFault();
    }
}
inline void aligned_check(const void* p, size_t align)
{
    if ((uintptr_t)p % align)
        pbt::fail("misaligned", "an element with alignment %zu lives at %p", align, p);
}

template < class T >
struct El; // make, id, canon, implicit_t, explicit_t

template < class T >
struct ElInt
{
    typedef uint64_t implicit_t;
    typedef uint64_t explicit_t;
    static const bool tracked = false;
    static uint32_t canon(uint32_t id) { return (uint32_t)(T)id; }
    static T        make(uint32_t id) { return (T)id; }
    template < class X >
    static uint32_t id(X const& v) { return (uint32_t)v; }
};
template <> struct El< uint32_t > : ElInt< uint32_t > {};
template <> struct El< uint16_t > : ElInt< uint16_t > {};
template <> struct El< uint8_t > : ElInt< uint8_t > {};
template <>
struct El< double > // arbitrary bit patterns, including signalling NaNs
{
    struct implicit_t
    {
        double d;
        implicit_t() : d(0) {}
        implicit_t(double const& x) { memcpy(&d, &x, 8); }
    };
    typedef implicit_t explicit_t;
    static const bool tracked = false;
    static uint32_t canon(uint32_t id) { return id; }
    static double   make(uint32_t id)
    {
        uint64_t b = (uint64_t)id << 32 | mixid(id, 1);
        double   d;
        memcpy(&d, &b, 8);
        return d;
    }
    static uint32_t id(double const& v)
    {
        uint64_t b;
        memcpy(&b, &v, 8);
        if ((uint32_t)b != mixid((uint32_t)(b >> 32), 1))
            pbt::fail("altered-element", "a double came back with other bits: %llx", (unsigned long long)b);
        return (uint32_t)(b >> 32);
    }
    static uint32_t id(implicit_t const& v) { return id(v.d); }
};
template <>
struct El< void* > // any address: high bits, odd ones
{
    typedef void const* implicit_t;
    typedef void const* explicit_t;
    static const bool tracked = false;
    static uint32_t canon(uint32_t id) { return id; }
    static void*    make(uint32_t id) { return (void*)((uint64_t)mixid(id, 2) << 32 | id); }
    static uint32_t id(void const* v)
    {
        uint64_t b = (uint64_t)v;
        if (b >> 32 != mixid((uint32_t)b, 2))
            pbt::fail("altered-element", "a pointer came back with other bits: %llx", (unsigned long long)b);
        return (uint32_t)b;
    }
};

// N bytes, alignment A, every byte checked; trivial
template < int N, int A >
struct alignas(A) Bytes
{
    unsigned char b[N];
    template < class X >
    static uint32_t check(X const& v)
    {
        uint32_t id = 0;
        int      k = N < 4 ? N : 4;
        for (int i = 0; i < k; ++i)
            id |= (uint32_t)v.b[i] << 8 * i;
        for (int i = 4; i < N; ++i)
            if (v.b[i] != (unsigned char)mixid(id, i))
                pbt::fail("altered-element", "byte %d of %d of an element came back as %02x instead of %02x", i, N, v.b[i], (unsigned char)mixid(id, i));
        return id;
    }
    void fill(uint32_t id)
    {
        for (int i = 0; i < N; ++i)
            b[i] = i < 4 ? (unsigned char)(id >> 8 * i) : (unsigned char)mixid(id, i);
    }
};
template < class B, int N >
struct ConvB
{
    unsigned char b[N];
    ConvB() {}
    ConvB(B const& o) { memcpy(b, o.b, N); }
};
template < class B, int N >
struct ConvBX
{
    unsigned char b[N];
    ConvBX() {}
    explicit ConvBX(B const& o) { memcpy(b, o.b, N); }
};
template < int N, int A >
struct El< Bytes< N, A > >
{
    typedef ConvB< Bytes< N, A >, N >  implicit_t;
    typedef ConvBX< Bytes< N, A >, N > explicit_t;
    static const bool tracked = false;
    static uint32_t canon(uint32_t id) { return N >= 4 ? id : id & ((1u << 8 * (N & 3)) - 1); }
    static Bytes< N, A > make(uint32_t id)
    {
        Bytes< N, A > x;
        x.fill(id);
        return x;
    }
    template < class X >
    static uint32_t id(X const& v)
    {
        aligned_check(&v, alignof(X));
        return Bytes< N, A >::check(v);
    }
};

// queue elements have trivial destructors and assignment; their copy constructor may throw
template < int N, int A >
struct alignas(A) QThrow
{
    unsigned char b[N];
    QThrow() {}
    QThrow(QThrow const& o)
    {
        aligned_check(this, A);
        copy_point();
        memcpy(b, o.b, N);
    }
    QThrow& operator=(QThrow const&) = default;
};
template < int N, int A >
struct El< QThrow< N, A > >
{
    typedef QThrow< N, A >  T;
    typedef ConvB< T, N >   implicit_t;
    typedef ConvBX< T, N >  explicit_t;
    static const bool tracked = false;
    static uint32_t canon(uint32_t id) { return id; }
    static T make(uint32_t id)
    {
        T x;
        for (int i = 0; i < N; ++i)
            x.b[i] = i < 4 ? (unsigned char)(id >> 8 * i) : (unsigned char)mixid(id, i);
        return x;
    }
    template < class X >
    static uint32_t id(X const& v)
    {
        aligned_check(&v, alignof(X));
        return Bytes< N, 1 >::check(v);
    }
};

// full life cycle: every construction, destruction and access is checked against a registry of live objects
template < int N, int A, bool Def >
struct alignas(A) Tracked
{
    unsigned char b[N];
    struct Made {};
    template < bool D = Def, class = typename std::enable_if< D >::type >
    Tracked()
    {
        reg_construct(this, A);
        memset(b, 0, N);
        for (int i = 4; i < N; ++i)
            b[i] = (unsigned char)mixid(0, i);
    }
    Tracked(Made, uint32_t id)
    {
        reg_construct(this, A);
        for (int i = 0; i < N; ++i)
            b[i] = i < 4 ? (unsigned char)(id >> 8 * i) : (unsigned char)mixid(id, i);
    }
    Tracked(Tracked const& o)
    {
        reg_alive(&o, "copied from");
        copy_point();
        reg_construct(this, A);
        memcpy(b, o.b, N);
    }
    Tracked& operator=(Tracked const& o)
    {
        reg_alive(&o, "assigned from");
        reg_alive(this, "assigned to");
        memcpy(b, o.b, N);
        return *this;
    }
    ~Tracked()
    {
        reg_destroy(this);
        memset(b, 0xdd, N);
    }
};
// neither default constructible nor assignable
template < int N, int A >
struct alignas(A) TrackedMin
{
    unsigned char b[N];
    struct Made {};
    TrackedMin(Made, uint32_t id)
    {
        reg_construct(this, A);
        for (int i = 0; i < N; ++i)
            b[i] = i < 4 ? (unsigned char)(id >> 8 * i) : (unsigned char)mixid(id, i);
    }
    TrackedMin(TrackedMin const& o)
    {
        reg_alive(&o, "copied from");
        copy_point();
        reg_construct(this, A);
        memcpy(b, o.b, N);
    }
    TrackedMin& operator=(TrackedMin const& o) = delete;
    ~TrackedMin()
    {
        reg_destroy(this);
        memset(b, 0xdd, N);
    }
};
// destructor and copy constructor matter, assignment is trivial
template < int N, int A >
struct alignas(A) TrackedTA
{
    unsigned char b[N];
    struct Made {};
    TrackedTA()
    {
        reg_construct(this, A);
        memset(b, 0, N);
        for (int i = 4; i < N; ++i)
            b[i] = (unsigned char)mixid(0, i);
    }
    TrackedTA(Made, uint32_t id)
    {
        reg_construct(this, A);
        for (int i = 0; i < N; ++i)
            b[i] = i < 4 ? (unsigned char)(id >> 8 * i) : (unsigned char)mixid(id, i);
    }
    TrackedTA(TrackedTA const& o)
    {
        reg_alive(&o, "copied from");
        copy_point();
        reg_construct(this, A);
        memcpy(b, o.b, N);
    }
    TrackedTA& operator=(TrackedTA const& o) = default;
    ~TrackedTA()
    {
        reg_destroy(this);
        memset(b, 0xdd, N);
    }
};
template < class TT, int N >
struct ElTracked
{
    typedef ConvB< TT, N > implicit_t;
    typedef ConvBX< TT, N > explicit_t;
    static const bool tracked = true;
    static uint32_t canon(uint32_t id) { return id; }
    static TT       make(uint32_t id) { return TT(typename TT::Made(), id); }
    static uint32_t id(TT const& v)
    {
        reg_alive(&v, "handed out");
        return Bytes< N, 1 >::check(v);
    }
    static uint32_t id(implicit_t const& v) { return Bytes< N, 1 >::check(v); }
    static uint32_t id(explicit_t const& v) { return Bytes< N, 1 >::check(v); }
};
template < int N, int A, bool D >
struct El< Tracked< N, A, D > > : ElTracked< Tracked< N, A, D >, N > {};
template < int N, int A >
struct El< TrackedTA< N, A > > : ElTracked< TrackedTA< N, A >, N > {};
template < int N, int A >
struct El< TrackedMin< N, A > > : ElTracked< TrackedMin< N, A >, N > {};

// ---------------------------------------------------------------- functors
template < class T >
struct Sink
{
    static std::vector< uint32_t >* out;
    static void                     fn(T const& v) { out->push_back(El< T >::id(v)); }
};
template < class T >
std::vector< uint32_t >* Sink< T >::out;

template < class T >
struct FConst // callable only through a const object or reference
{
    std::vector< uint32_t >* out;
    void operator()(T const& v) const { out->push_back(El< T >::id(v)); }
};
template < class T >
struct FMut // callable only on a non-const object; has state of its own
{
    std::vector< uint32_t >* out;
    size_t                   calls;
    void operator()(T const& v)
    {
        ++calls;
        out->push_back(El< T >::id(v));
    }
};
template < class T >
struct FBoth // tells which overload was chosen
{
    std::vector< uint32_t >* out;
    mutable size_t           nconst, nmut;
    void operator()(T const& v)
    {
        ++nmut;
        out->push_back(El< T >::id(v));
    }
    void operator()(T const& v) const
    {
        ++nconst;
        out->push_back(El< T >::id(v));
    }
};
enum { FUNCTORS = 7 };
extern const char* const functor_name[FUNCTORS];

// calls c(f) with the chosen kind of functor; checks that the object itself was called, not a copy
template < class T, class C >
auto with_functor(uint32_t kind, std::vector< uint32_t >& out, C c)
{
    switch (kind) {
    default: {
        auto f = [&](T const& v) { out.push_back(El< T >::id(v)); };
        return c(f);
    }
    case 1: {
        const FConst< T > f = { &out };
        return c(f);
    }
    case 2: {
        size_t b = out.size();
        FMut< T > f = { &out, 0 };
        auto r   = c(f);
        if (f.calls != out.size() - b)
            pbt::fail("functor-copied", "the functor passed by reference was not the object called");
        return r;
    }
    case 3: return c([&](T const& v) { out.push_back(El< T >::id(v)); });
    case 4: {
        Sink< T >::out = &out;
        void (*f)(T const&) = &Sink< T >::fn;
        return c(f);
    }
    case 5: {
        // the element by value
        auto f = [&](T v) { out.push_back(El< T >::id(v)); };
        return c(f);
    }
    case 6: {
        size_t b = out.size();
        FBoth< T > f = { &out, 0, 0 };
        auto r   = c(f);
        if (f.nmut + f.nconst != out.size() - b)
            pbt::fail("functor-copied", "the functor passed by reference was not the object called");
        return r;
    }
    }
}

// ---------------------------------------------------------------- iterators
// forward iterator without random access, converting from ids
template < class T >
struct GenIt
{
    typedef std::forward_iterator_tag iterator_category;
    typedef T                         value_type;
    typedef ptrdiff_t                 difference_type;
    typedef T const*                  pointer;
    typedef T const&                  reference;
    T const* p;
    T const& operator*() const { return *p; }
    GenIt&   operator++()
    {
        ++p;
        return *this;
    }
    GenIt operator++(int)
    {
        GenIt r = *this;
        ++p;
        return r;
    }
    bool operator==(GenIt const& o) const { return p == o.p; }
    bool operator!=(GenIt const& o) const { return p != o.p; }
};

template < class T >
struct Values // n values to push, kept in storage of the exact size so that reading past the end is caught
{
    T*     p;
    size_t n;
    Values(std::vector< uint32_t > const& ids) : p(nullptr), n(ids.size())
    {
        p = (T*)::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
        for (size_t i = 0; i != n; ++i)
            new (p + i) T(El< T >::make(ids[i]));
    }
    ~Values()
    {
        for (size_t i = 0; i != n; ++i)
            p[i].~T();
        ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    Values(Values const&) = delete;
};

// ---------------------------------------------------------------- recorded calls
struct Call
{
    int                     code = 0;
    uint32_t                variant = 0;
    uint32_t                n = 0;         // size argument
    std::vector< uint32_t > ids;           // values to push
    uint32_t                alloc_fault = 0, copy_fault = 0;
    int                     inst = 0;
};
struct Outcome
{
    bool                    skipped = false; // the operation does not exist for this configuration
    bool                    ret = false;
    long                    count = -1;      // returned size or iterator offset; -1: none
    std::vector< uint32_t > out;             // values obtained, in order
    bool                    threw_alloc = false, threw_copy = false, threw_other = false;
    std::string             what;
};

struct Box
{
    virtual ~Box() {}
    virtual void create(uint32_t n, Arena* a, uint32_t how) = 0; // may throw
    virtual void destroy() = 0;
    virtual void exec(Call const& c, Outcome& o) = 0;
};
struct BoxInfo
{
    Box*        box;
    const char* name;
    bool        fixed;     // bounded; never allocates after construction
    bool        ctime;     // capacity given at compile time
    uint32_t    cap;       // that capacity
    bool        audited;   // allocates through Aud
    bool        tracked;   // element life times are observed
    bool        default_alloc_ctor; // the allocator is default constructed (arena 3)
    uint32_t (*canon)(uint32_t);
};

std::string show_ids(std::vector< uint32_t > const& v);
void        reset_world();

template < class F >
void guarded(Outcome& o, F f)
{
    try {
        f();
    } catch (AllocFault const&) {
        o.threw_alloc = true;
    } catch (CopyFault const&) {
        o.threw_copy = true;
    } catch (std::exception const& e) {
        o.threw_other = true;
        o.what        = e.what();
    }
}

} // namespace sq
