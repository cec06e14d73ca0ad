// Pops into other types than the element type, pushes of ranges of other types: the value is the one the language's own
// conversion yields. VAL: 0 queue, 1 stack, 2 spsc_queue.
#include "../engine/pbt.hpp"

#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>

#include <cstring>
#include <deque>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace convert { namespace {
namespace blf = boost::lockfree;
typedef pbt::Tape Tape;

uint64_t bits(Tape& t) { return (uint64_t)t.draw(0x80000000u) << 33 ^ (uint64_t)t.draw(0x80000000u) << 10 ^ t.draw(0x80000000u); }

// what elements may be
template < class T, class = void >
struct Gen;
template < class T >
struct Gen< T, typename std::enable_if< std::is_integral< T >::value && !std::is_same< T, bool >::value >::type >
{
    static T make(Tape& t)
    {
        switch (t.draw(6)) {
        case 0: return (T)t.draw(4);
        case 1: return (T)(-1 - (int)t.draw(4));
        case 2: return (T)(std::numeric_limits< T >::max() - (T)t.draw(3));
        case 3: return (T)(std::numeric_limits< T >::min() + (T)t.draw(3));
        case 4: return (T)(1ull << t.draw(sizeof(T) * 8));
        default: return (T)bits(t);
        }
    }
};
template <>
struct Gen< bool >
{
    static bool make(Tape& t) { return t.draw(2) != 0; }
};
template < class T >
struct Gen< T, typename std::enable_if< std::is_floating_point< T >::value >::type >
{
    static T make(Tape& t)
    {
        T v = (T)((double)t.draw(2000001) - 1000000) / (T)(1 << t.draw(5));
        return t.draw(8) == 7 ? -(T)0 : t.draw(4) == 3 ? v * (T)1e9 : v;
    }
};
enum Colour { red = -3, green = 7, blue = 1000000 };
enum Small : unsigned char { s0 = 0, s1 = 200, s2 = 255 };
template <>
struct Gen< Colour >
{
    static Colour make(Tape& t) { return t.draw(3) == 0 ? red : t.draw(2) ? green : blue; }
};
template <>
struct Gen< Small >
{
    static Small make(Tape& t) { return t.draw(3) == 0 ? s0 : t.draw(2) ? s1 : s2; }
};

// bases at different offsets
struct Left
{
    int l;
    Left(int v = 0) : l(v) {}
    bool operator==(Left const& o) const { return l == o.l; }
};
struct Right
{
    long r;
    Right(long v = 0) : r(v) {}
    bool operator==(Right const& o) const { return r == o.r; }
};
struct Root
{
    int z;
    Root() : z(5) {}
};
struct Both : Left, Right
{
    int more;
    Both(int v = 0) : Left(v), Right(-(long)v * 3), more(v + 1) {}
};
struct Deep : virtual Root, Both
{
    Deep(int v = 0) : Both(v) {}
};
std::vector< Deep >& pool()
{
    static std::vector< Deep > p(64);
    return p;
}
template <>
struct Gen< Both >
{
    static Both make(Tape& t) { return Both((int)t.draw(1000000)); }
};
template < class X >
struct Gen< X*, typename std::enable_if< std::is_base_of< X, Deep >::value || std::is_same< X, void >::value >::type >
{
    static X* make(Tape& t)
    {
        uint32_t k = t.draw(65);
        return k == 64 ? nullptr : &pool()[k];
    }
};
static const char* const texts[] = { "", "a", "boost.lockfree", "a text that is longer than the small string buffer of the standard library" };
template <>
struct Gen< const char* >
{
    static const char* make(Tape& t) { return texts[t.draw(4)]; }
};
template <>
struct Gen< std::string >
{
    static std::string make(Tape& t) { return texts[t.draw(4)]; }
};
template <>
struct Gen< std::shared_ptr< Both > >
{
    static std::shared_ptr< Both > make(Tape& t) { return t.draw(5) == 4 ? nullptr : std::make_shared< Both >((int)t.draw(1000)); }
};

// a type with a conversion operator only
struct Metres
{
    int v;
    Metres(int x = 0) : v(x) {}
    operator double() const { return v * 0.5; }
};
struct Feet
{
    double f;
    Feet() : f(0) {}
    Feet(Metres m) : f(m.v * 3.0) {}
    bool operator==(Feet const& o) const { return f == o.f; }
};
struct Inches // explicit only
{
    double f;
    Inches() : f(0) {}
    explicit Inches(Metres m) : f(m.v * 36.0 + 1) {}
    bool operator==(Inches const& o) const { return f == o.f; }
};
template <>
struct Gen< Metres >
{
    static Metres make(Tape& t) { return Metres((int)t.draw(2000001) - 1000000); }
};

// the language's conversion
template < class U, class T >
U to(T const& t, std::true_type)
{
    U u = t;
    return u;
}
template < class U, class T >
U to(T const& t, std::false_type)
{
    return U(t);
}
template < class U, class T >
U to(T const& t)
{
    return to< U >(t, std::is_convertible< T, U >());
}

template < class U >
bool same(U const& a, U const& b, std::true_type)
{
    return a == b && std::memcmp(&a, &b, sizeof a == 16 ? 10 : sizeof a) == 0; // long double: 10 bytes count
}
template < class U >
bool same(U const& a, U const& b, std::false_type)
{
    return a == b;
}
template < class U >
bool same(U const& a, U const& b)
{
    return same(a, b, std::is_arithmetic< U >());
}
bool same(Metres const& a, Metres const& b) { return a.v == b.v; }
bool same(Both const& a, Both const& b) { return a.l == b.l && a.r == b.r && a.more == b.more; }
bool same(const char* const& a, const char* const& b) { return a == b; }

template < class U >
void check(U const& got, U const& want, const char* what, const char* pair)
{
    if (!same(got, want))
        pbt::fail("wrong-elements", "%s: %s yields another value than the conversion of the element", pair, what);
}
// a target that owns what it got
template < class X, class T >
void check_owner(std::unique_ptr< X >& got, T const& orig, const char* what, const char* pair)
{
    X* p = got.release();
    if (p != orig)
        pbt::fail("wrong-elements", "%s: %s yields another pointer", pair, what);
}
struct Nop
{
    template < class T >
    void operator()(T*) const
    {}
};

#if VAL == 0
#    define NAME "queue"
template < class T > using C0 = blf::queue< T >;
template < class T > using C1 = blf::queue< T, blf::fixed_sized< true > >;
template < class T > using C2 = blf::queue< T, blf::capacity< 6 > >;
#elif VAL == 1
#    define NAME "stack"
template < class T > using C0 = blf::stack< T >;
template < class T > using C1 = blf::stack< T, blf::fixed_sized< true > >;
template < class T > using C2 = blf::stack< T, blf::capacity< 6 > >;
#else
#    define NAME "spsc_queue"
template < class T > using C0 = blf::spsc_queue< T >;
template < class T > using C1 = blf::spsc_queue< T >;
template < class T > using C2 = blf::spsc_queue< T, blf::capacity< 6 > >;
#endif

template < class T, class U >
struct Collect
{
    std::vector< T >* out;
    template < class X >
    void operator()(X const& e) const
    {
        out->push_back(e);
    }
};

// T elements, popped into U; V: type of pushed ranges
template < class T, class U, class V, class C >
void run(pbt::Ctx& cx, C& c, const char* pair)
{
    Tape&           t = cx.tape;
    std::deque< T > model; // first: next to come out
    const size_t    cap = 6;
    unsigned        converted = 0, calls = 2 + t.draw(12);
    for (unsigned k = 0; k != calls; ++k) {
        unsigned op = t.draw(7);
        cx.mix(op);
        switch (op) {
        case 0:
        case 1: {
            T v = Gen< T >::make(t);
            bool got;
            pbt::note("push ");
#if VAL != 2
            if (t.draw(3) == 2)
                got = c.bounded_push(v);
            else if (model.size() == cap) // might allocate
                got = c.bounded_push(v);
            else
                got = t.draw(2) ? c.unsynchronized_push(v) : c.push(v);
#else
            got = c.push(v);
#endif
            if (got != (model.size() < cap))
                pbt::fail("wrong-result", "%s: push with %zu of %zu elements stored returned %d", pair, model.size(), cap, got);
            if (got) {
#if VAL == 1
                model.push_front(v);
#else
                model.push_back(v);
#endif
            }
            break;
        }
        case 2: {
#if VAL != 0
            size_t             n = t.draw(5), want = std::min(n, cap - model.size());
            std::list< V >     l;
            std::vector< V >   a;
            for (size_t i = 0; i != n; ++i)
                l.push_back(Gen< V >::make(t));
            a.assign(l.begin(), l.end());
            pbt::note("push(%zu) ", n);
            size_t stored;
            if (t.draw(2)) {
                std::list< V > const& cl = l;
#    if VAL == 1
                stored = std::distance(cl.begin(), c.bounded_push(cl.begin(), cl.end()));
#    else
                stored = std::distance(cl.begin(), c.push(cl.begin(), cl.end()));
#    endif
            } else {
                std::vector< V > const& ca = a;
#    if VAL == 1
                stored = c.bounded_push(ca.begin(), ca.end()) - ca.begin();
#    else
                stored = c.push(ca.begin(), ca.end()) - ca.begin();
#    endif
            }
            if (stored != want)
                pbt::fail("wrong-result", "%s: a push of %zu with %zu of %zu elements stored, stored %zu", pair, n, model.size(), cap, stored);
            for (size_t i = 0; i != stored; ++i) {
                T v = to< T >(a[i]);
#    if VAL == 1
                model.push_front(v);
#    else
                model.push_back(v);
#    endif
            }
#endif
            break;
        }
        case 3:
        case 4: {
            bool some = t.draw(2);
            U    u    = some ? to< U >(Gen< T >::make(t)) : U();
            U    old  = u;
            bool got;
#if VAL != 2
            pbt::note("%s ", op == 3 ? "pop to another type" : "unsynchronized_pop to another type");
            got = op == 3 ? c.pop(u) : c.unsynchronized_pop(u);
#else
            pbt::note("pop to another type ");
            got = c.pop(u);
#endif
            if (got != !model.empty())
                pbt::fail("wrong-result", "%s: pop with %zu elements stored returned %d", pair, model.size(), got);
            if (!got)
                check(u, old, "a pop that fails", pair);
            else {
                check(u, to< U >(model.front()), "pop", pair);
                model.pop_front();
                ++converted;
            }
            break;
        }
        case 5: {
            T    v   = Gen< T >::make(t), old = v;
            bool got = c.pop(v);
            pbt::note("pop ");
            if (got != !model.empty())
                pbt::fail("wrong-result", "%s: pop with %zu elements stored returned %d", pair, model.size(), got);
            check(v, got ? model.front() : old, "pop to the element type", pair);
            if (got)
                model.pop_front();
            break;
        }
        default: {
            std::vector< T > all(model.begin(), model.end());
#if VAL == 2
            unsigned how = t.draw(3);
            if (how != 0) {
                std::vector< U > out;
                size_t           n;
                pbt::note("pop to iterators of another type ");
                if (how == 1)
                    n = c.pop(std::back_inserter(out));
                else {
                    out.resize(cap);
                    n = c.pop(out.begin());
                    out.resize(n > cap ? 0 : n);
                }
                if (n != all.size() || out.size() != n)
                    pbt::fail("wrong-result", "%s: a pop of everything with %zu elements stored returned %zu", pair, all.size(), n);
                for (size_t i = 0; i != n; ++i)
                    check< U >(out[i], to< U >(all[i]), "pop to iterators", pair);
                converted += (unsigned)n;
                model.clear();
                break;
            }
#endif
            std::vector< T >  out;
            Collect< T, U >   f{ &out };
            pbt::note("consume_all ");
            size_t n = c.consume_all(f);
            if (n != all.size() || out.size() != n)
                pbt::fail("wrong-result", "%s: consume_all with %zu elements stored returned %zu", pair, all.size(), n);
            for (size_t i = 0; i != n; ++i)
                check(out[i], all[i], "consume_all", pair);
            model.clear();
        }
        }
    }
    while (!model.empty()) {
        U u = U();
        if (!c.pop(u))
            pbt::fail("wrong-result", "%s: the last pop failed with %zu elements stored", pair, model.size());
        check(u, to< U >(model.front()), "pop", pair);
        model.pop_front();
        ++converted;
    }
    if (converted >= 2)
        cx.nontrivial = true;
}

template < class T, class U, class V >
void pick(pbt::Ctx& cx, const char* pair)
{
    unsigned conf = cx.tape.draw(3);
    cx.mix(conf);
    pbt::note("" NAME ", %s, %s: ", pair, conf == 0 ? "run-time sized" : conf == 1 ? "fixed-sized" : "compile-time sized");
    if (conf == 0) {
        std::unique_ptr< C0< T > > c(new C0< T >(6));
        run< T, U, V >(cx, *c, pair);
    } else if (conf == 1) {
        std::unique_ptr< C1< T > > c(new C1< T >(6));
        run< T, U, V >(cx, *c, pair);
    } else {
        std::unique_ptr< C2< T > > c(new C2< T >);
        run< T, U, V >(cx, *c, pair);
    }
    PBT_LABEL("converting");
}

#if VAL == 0
// raw pointers handed over to owners (the documented use of explicit conversions)
template < class C >
void owners(pbt::Ctx& cx, C& c)
{
    Tape&                t = cx.tape;
    std::deque< Both* >  model;
    std::vector< std::unique_ptr< Both > > keep;
    unsigned             calls = 2 + t.draw(12), converted = 0;
    for (unsigned k = 0; k != calls; ++k)
        if (t.draw(2) == 0) {
            std::unique_ptr< Both > p(new Both((int)k));
            if (c.bounded_push(p.get()) != (model.size() < 6))
                pbt::fail("wrong-result", "push with %zu of 6 elements stored", model.size());
            if (model.size() < 6)
                model.push_back(p.get()), keep.push_back(std::move(p));
        } else {
            bool got, want = !model.empty();
            Both* p = want ? model.front() : nullptr;
            switch (t.draw(3)) {
            case 0: {
                std::unique_ptr< Both > o(t.draw(2) ? new Both : nullptr);
                Both*                   was = o.get();
                got = c.pop(o);
                if (!got && want == got)
                    p = was, (void)(o.get() == was || (pbt::fail("wrong-elements", "a pop that fails changed its target"), 0)), o.reset(), p = nullptr;
                else
                    check_owner(o, p, "pop", "Both* to unique_ptr");
                break;
            }
            case 1: {
                std::unique_ptr< Both > o;
                got = c.unsynchronized_pop(o);
                check_owner(o, p, "unsynchronized_pop", "Both* to unique_ptr");
                break;
            }
            default: {
                std::unique_ptr< Right, Nop > o;
                got = c.pop(o);
                if (o.get() != static_cast< Right* >(p))
                    pbt::fail("wrong-elements", "pop into a unique_ptr of a base yields another pointer");
            }
            }
            if (got != want)
                pbt::fail("wrong-result", "pop with %zu elements stored returned %d", model.size(), got);
            if (got)
                model.pop_front(), ++converted;
        }
    if (converted >= 2)
        cx.nontrivial = true;
    PBT_LABEL("owners");
}
#endif

typedef void (*fn)(pbt::Ctx&, const char*);
struct Pair
{
    const char* name;
    fn          f;
};
#define P(T, U, V) { #V " -> " #T " -> " #U, pick< T, U, V > }
const Pair pairs[] = {
    P(int, long long, int),
    P(int, float, short),
    P(int, unsigned, int),
    P(unsigned, double, unsigned short),
    P(long long, double, int),
    P(unsigned long long, float, unsigned),
    P(float, double, float),
    P(double, float, int),
    P(float, long double, short),
    P(short, int, signed char),
    P(signed char, unsigned long long, signed char),
    P(unsigned char, signed char, bool),
    P(char, bool, char),
    P(int, bool, int),
    P(bool, int, bool),
    P(int, unsigned short, int),
    P(unsigned long long, unsigned, unsigned long long),
    P(Colour, long, Colour),
    P(Small, int, Small),
    P(Colour, float, Colour),
    P(Both*, Right*, Deep*),
    P(Deep*, Root*, Deep*),
    P(Deep*, Right*, Deep*),
    P(Right*, const Right*, Both*),
    P(Both*, void*, Deep*),
    P(Right*, bool, Right*),
    P(Both, Right, Both),
    P(Both, Left, Both),
    P(Metres, double, Metres),
    P(Metres, Feet, Metres),
#if VAL == 0
    P(Metres, Inches, Metres),
#endif
#if VAL != 0
    P(const char*, std::string, const char*),
    P(std::string, std::string, const char*),
    P(std::shared_ptr< Both >, std::shared_ptr< Right >, std::shared_ptr< Both >),
    P(std::shared_ptr< Both >, std::shared_ptr< void >, std::shared_ptr< Both >),
#endif
};

void one(pbt::Ctx& cx)
{
    const uint32_t n = sizeof pairs / sizeof *pairs;
#if VAL == 0
    uint32_t k = cx.tape.draw(n + 2);
    if (k >= n) {
        unsigned conf = cx.tape.draw(3);
        pbt::note("queue of pointers popped into unique_ptr, configuration %u", conf);
        cx.mix(k), cx.mix(conf);
        if (conf == 0) {
            C0< Both* > c(6);
            owners(cx, c);
        } else if (conf == 1) {
            C1< Both* > c(6);
            owners(cx, c);
        } else {
            C2< Both* > c;
            owners(cx, c);
        }
        pbt::note("\n");
        return;
    }
#else
    uint32_t k = cx.tape.draw(n);
#endif
    cx.mix(k);
    pairs[k].f(cx, pairs[k].name);
    pbt::note("\n");
}
}} // namespace convert

#define RULE "a pair of types out of about 30, up to 14 calls; non-trivial: at least two elements came out converted"
#if VAL == 0
PBT_SCENARIO(queue_convert, RULE) { convert::one(cx); }
#elif VAL == 1
PBT_SCENARIO(stack_convert, RULE) { convert::one(cx); }
#else
PBT_SCENARIO(spsc_convert, RULE) { convert::one(cx); }
#endif
