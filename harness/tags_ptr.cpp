// C15: the versioned pointer (compressed by default, double-width when compiled with DCAS) against a (pointer, version) pair.
#include "../engine/pbt.hpp"
#include <boost/lockfree/detail/atomic.hpp>
#include <boost/lockfree/detail/prefix.hpp>
#include <boost/lockfree/detail/tagged_ptr.hpp>
#include <limits>
#include <vector>
#include <unordered_set>
namespace bld = boost::lockfree::detail;

namespace {
struct T1 { char c; };
struct alignas(8) T8 { long c; };
struct alignas(64) T64 { char c[64]; };

uint64_t bits64(pbt::Tape& t)
{
    uint64_t r = (uint64_t)t.draw(1u << 24) | (uint64_t)t.draw(1u << 24) << 24 | (uint64_t)t.draw(1u << 16) << 48;
    return r;
}

uint64_t gen_word(pbt::Tape& t, unsigned bits)
{
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1, r;
    switch (t.draw(6)) {
    case 0: r = t.draw(16); break;                                   // tiny
    case 1: r = bits64(t); break;                                    // anything
    case 2: r = 1ull << t.draw(bits); break;                         // one bit
    case 3: r = ~(1ull << t.draw(bits)); break;                      // all but one
    case 4: r = mask - t.draw(16); break;                            // close to the top
    default: r = (1ull << t.draw(bits)) - 1 - t.draw(3); break;      // around a power of two
    }
    return r & mask;
}

template < class T >
struct Model
{
    typedef bld::tagged_ptr< T >     P;
    typedef typename P::tag_t        tag_t;
    static const unsigned            tag_bits = std::numeric_limits< tag_t >::digits;

    struct Pair
    {
        uintptr_t p;
        tag_t     t;
    };
    static T*    gen_ptr(pbt::Tape& t) { return (T*)(uintptr_t)(gen_word(t, 47) & ~(uint64_t)(alignof(T) - 1)); }
    static tag_t gen_tag(pbt::Tape& t) { return (tag_t)gen_word(t, tag_bits); }

    static void check(P const& v, Pair const& m, const char* what)
    {
        if ((uintptr_t)v.get_ptr() != m.p)
            pbt::fail("pointer", "after %s the pointer is %p, expected %p (version %llu)", what, (void*)v.get_ptr(), (void*)m.p, (unsigned long long)m.t);
        if (v.get_tag() != m.t)
            pbt::fail("version", "after %s the version is %llu, expected %llu (pointer %p)", what, (unsigned long long)v.get_tag(), (unsigned long long)m.t, (void*)m.p);
        if ((bool)v != (m.p != 0))
            pbt::fail("null", "after %s a reference to %p converts to %d", what, (void*)m.p, (int)(bool)v);
        if ((uintptr_t)v.operator->() != m.p)
            pbt::fail("pointer", "after %s operator-> gives %p, expected %p", what, (void*)v.operator->(), (void*)m.p);
    }
    static void successor(P const& v, Pair const& m)
    {
        tag_t n = v.get_next_tag();
        if (n == m.t)
            pbt::fail("successor", "version %llu is its own successor", (unsigned long long)m.t);
        check(v, m, "get_next_tag");
    }

    static void run(pbt::Ctx& cx)
    {
        pbt::Tape& t = cx.tape;
        P          v[3];
        Pair       m[3];
        bld::atomic< P > a(P((T*)0, 0));
        Pair       am { 0, 0 };
        bool       diff_tag = false, diff_ptr = false;
        for (int i = 0; i != 3; ++i) {
            T*    p  = gen_ptr(t);
            tag_t tg = gen_tag(t);
            bool  one = t.draw(4) == 3;
            if (one)
                tg = 0;
            P f = one ? P(p) : P(p, tg);
            v[i] = f;
            m[i] = Pair { (uintptr_t)p, tg };
            check(v[i], m[i], "construction and assignment");
        }
        int n = (int)t.range(1, 40);
        for (int s = 0; s != n; ++s) {
            int i = t.draw(3), j = t.draw(3);
            uint32_t op = t.draw(12);
            cx.mix(op * 16 + i * 4 + j);
            switch (op) {
            case 0: {
                T* p = gen_ptr(t);
                v[i].set_ptr(p);
                m[i].p = (uintptr_t)p;
                pbt::note("v%d.set_ptr(%p) ", i, (void*)p);
                check(v[i], m[i], "set_ptr");
                break;
            }
            case 1: {
                tag_t g = gen_tag(t);
                v[i].set_tag(g);
                m[i].t = g;
                pbt::note("v%d.set_tag(%llu) ", i, (unsigned long long)g);
                check(v[i], m[i], "set_tag");
                break;
            }
            case 2: {
                T*    p = gen_ptr(t);
                tag_t g = gen_tag(t);
                v[i].set(p, g);
                m[i] = Pair { (uintptr_t)p, g };
                pbt::note("v%d.set(%p,%llu) ", i, (void*)p, (unsigned long long)g);
                check(v[i], m[i], "set");
                break;
            }
            case 3: v[i] = v[j]; m[i] = m[j]; pbt::note("v%d=v%d ", i, j); check(v[i], m[i], "assignment"); break;
            case 4: {
                P c(v[i]);
                check(c, m[i], "copy construction");
                break;
            }
            case 5: { // successor taken over
                tag_t g = v[i].get_next_tag();
                successor(v[i], m[i]);
                v[i].set_tag(g);
                m[i].t = g;
                pbt::note("v%d.next ", i);
                check(v[i], m[i], "set_tag(get_next_tag())");
                break;
            }
            case 6: { // distinct versions have distinct successors
                tag_t g = (tag_t)(m[i].t ^ ((tag_t)1 << t.draw(tag_bits)));
                P     o((T*)m[i].p, g);
                if (o.get_next_tag() == v[i].get_next_tag())
                    pbt::fail("successor", "versions %llu and %llu have the same successor %llu", (unsigned long long)m[i].t, (unsigned long long)g, (unsigned long long)o.get_next_tag());
                break;
            }
            case 7: { // comparison of almost equal references
                Pair q = m[i];
                switch (t.draw(4)) {
                case 0: break;
                case 1: q.t ^= (tag_t)1 << t.draw(tag_bits); diff_tag = true; break;
                case 2: q.p ^= (uintptr_t)1 << t.draw(47); q.p &= ~(uintptr_t)(alignof(T) - 1); diff_ptr = true; break;
                case 3: q = m[j]; break;
                }
                P    o((T*)q.p, q.t);
                bool eq = q.p == m[i].p && q.t == m[i].t;
                if ((v[i] == o) != eq || (v[i] != o) == eq || (o == v[i]) != eq)
                    pbt::fail("equality", "(%p,%llu) and (%p,%llu) compare %s", (void*)m[i].p, (unsigned long long)m[i].t, (void*)q.p, (unsigned long long)q.t, eq ? "unequal" : "equal");
                // const objects and temporaries
                P const &c = v[i], &d = o;
                a.store(o);
                bool lie = (v[i] == P((T*)q.p, q.t)) != eq || (v[i] != P((T*)q.p, q.t)) == eq || (P((T*)q.p, q.t) == v[i]) != eq || (P((T*)m[i].p, m[i].t) == P((T*)q.p, q.t)) != eq
                           || (c == d) != eq || (d != c) == eq || (c == a.load()) != eq || (a.load() != c) == eq;
                am       = q;
                if (lie)
                    pbt::fail("equality", "(%p,%llu) and (%p,%llu), at least one of them a temporary or constant, compare %s", (void*)m[i].p, (unsigned long long)m[i].t, (void*)q.p, (unsigned long long)q.t, eq ? "unequal" : "equal");
                break;
            }
            case 8: a.store(v[i]); am = m[i]; pbt::note("store v%d ", i); break;
            case 9: {
                v[i] = a.load();
                m[i] = am;
                pbt::note("v%d=load ", i);
                check(v[i], m[i], "an atomic store and load");
                break;
            }
            default: { // compare-exchange succeeds exactly if both parts are equal
                Pair q = am;
                switch (t.draw(3)) {
                case 0: break;
                case 1: q.t ^= (tag_t)1 << t.draw(tag_bits); diff_tag = true; break;
                case 2: q.p ^= (uintptr_t)1 << t.draw(47); q.p &= ~(uintptr_t)(alignof(T) - 1); diff_ptr = true; break;
                }
                P    e((T*)q.p, q.t);
                bool eq = q.p == am.p && q.t == am.t;
                bool ok = a.compare_exchange_strong(e, v[i]);
                if (ok != eq)
                    pbt::fail("exchange", "comparing and exchanging (%p,%llu) with expected value (%p,%llu) %s", (void*)am.p, (unsigned long long)am.t, (void*)q.p, (unsigned long long)q.t,
                              ok ? "succeeded" : "failed");
                if (ok)
                    am = m[i];
                else
                    check(e, am, "a failed compare-exchange");
                break;
            }
            }
            for (int k = 0; k != 3; ++k)
                check(v[k], m[k], "an operation on another reference");
            cx.mix(m[i].p);
            cx.mix(m[i].t);
        }
        P f = a.load();
        check(f, am, "all operations on the atomic");
        if (t.draw(tag_bits == 16 ? 60 : 120) == 1) {
            // the successor chain from a generated version
            PBT_LABEL("successor chain");
            P     c((T*)m[0].p, m[0].t);
            tag_t s = c.get_tag();
            if (tag_bits == 16) {
                std::vector< bool > seen(65536);
                for (int k = 0; k != 65536; ++k) {
                    tag_t g = c.get_tag();
                    if (seen[(uint16_t)g])
                        pbt::fail("successor", "starting from version %llu, version %llu comes again after %d steps", (unsigned long long)s, (unsigned long long)g, k);
                    seen[(uint16_t)g] = true;
                    c.set_tag(c.get_next_tag());
                }
                if (c.get_tag() != s)
                    pbt::fail("successor", "starting from version %llu, 65536 steps lead to %llu", (unsigned long long)s, (unsigned long long)c.get_tag());
            } else {
                std::unordered_set< uint64_t > seen;
                for (int k = 0; k != 70000; ++k) {
                    if (!seen.insert((uint64_t)c.get_tag()).second)
                        pbt::fail("successor", "starting from version %llu, version %llu comes again after %d steps", (unsigned long long)s, (unsigned long long)c.get_tag(), k);
                    c.set_tag(c.get_next_tag());
                }
            }
            if ((uintptr_t)c.get_ptr() != m[0].p)
                pbt::fail("pointer", "counting versions changed the pointer to %p", (void*)c.get_ptr());
        }
        if (diff_tag)
            PBT_LABEL("compared references that differ in one version bit");
        if (diff_ptr)
            PBT_LABEL("compared references that differ in one pointer bit");
        cx.nontrivial = n >= 4;
    }
};
} // namespace

PBT_SCENARIO(tagged_ptr_ops, "at least four generated operations on versioned pointers")
{
    switch (cx.tape.draw(3)) {
    case 0: Model< T1 >::run(cx); break;
    case 1: Model< T8 >::run(cx); break;
    default: Model< T64 >::run(cx); break;
    }
}
