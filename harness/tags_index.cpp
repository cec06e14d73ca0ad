// C15: the versioned index of fixed-sized containers against an (index, version) pair.
#include "../engine/pbt.hpp"
#include <boost/lockfree/detail/atomic.hpp>
#include <boost/lockfree/detail/freelist.hpp>
#include <limits>
#include <type_traits>
#include <vector>
namespace bld = boost::lockfree::detail;

namespace {
typedef bld::tagged_index P;
typedef P::tag_t          tag_t;
typedef P::index_t        index_t;
static const unsigned     tag_bits = std::numeric_limits< tag_t >::digits;

uint32_t gen16(pbt::Tape& t)
{
    switch (t.draw(5)) {
    case 0: return t.draw(8);
    case 1: return t.draw(65536);
    case 2: return 1u << t.draw(16);
    case 3: return 65535 - t.draw(8);
    default: return ((1u << t.draw(16)) - 1 - t.draw(2)) & 65535;
    }
}
struct Pair
{
    uint32_t i, t;
};
void check(P const& v, Pair const& m, const char* what)
{
    if (v.get_index() != m.i)
        pbt::fail("index", "after %s the index is %u, expected %u (version %u)", what, (unsigned)v.get_index(), m.i, m.t);
    if (v.get_tag() != m.t)
        pbt::fail("version", "after %s the version is %u, expected %u (index %u)", what, (unsigned)v.get_tag(), m.t, m.i);
}
} // namespace

PBT_SCENARIO(tagged_index_ops, "at least four generated operations on versioned indices")
{
    pbt::Tape& t = cx.tape;
    P          v[3];
    Pair       m[3];
    bld::atomic< P > a(P(0, 0));
    Pair       am { 0, 0 };
    for (int i = 0; i != 3; ++i) {
        m[i] = Pair { gen16(t), gen16(t) };
        if (t.draw(4) == 3)
            m[i].t = 0, v[i] = P((index_t)m[i].i);
        else
            v[i] = P((index_t)m[i].i, (tag_t)m[i].t);
        check(v[i], m[i], "construction and assignment");
    }
    int n = (int)t.range(1, 40);
    for (int s = 0; s != n; ++s) {
        int      i = t.draw(3), j = t.draw(3);
        uint32_t op = t.draw(10);
        cx.mix(op * 16 + i * 4 + j);
        switch (op) {
        case 0: m[i].i = gen16(t); v[i].set_index((index_t)m[i].i); pbt::note("v%d.set_index(%u) ", i, m[i].i); check(v[i], m[i], "set_index"); break;
        case 1: m[i].t = gen16(t); v[i].set_tag((tag_t)m[i].t); pbt::note("v%d.set_tag(%u) ", i, m[i].t); check(v[i], m[i], "set_tag"); break;
        case 2: v[i] = v[j]; m[i] = m[j]; check(v[i], m[i], "assignment"); break;
        case 3: {
            P c(v[i]);
            check(c, m[i], "copy construction");
            break;
        }
        case 4: {
            tag_t g = v[i].get_next_tag();
            if (g == m[i].t)
                pbt::fail("successor", "version %u is its own successor", m[i].t);
            check(v[i], m[i], "get_next_tag");
            v[i].set_tag(g);
            m[i].t = g;
            check(v[i], m[i], "set_tag(get_next_tag())");
            break;
        }
        case 5: {
            tag_t g = (tag_t)(m[i].t ^ (1u << t.draw(tag_bits)));
            if (P((index_t)m[i].i, g).get_next_tag() == v[i].get_next_tag())
                pbt::fail("successor", "versions %u and %u have the same successor", m[i].t, (unsigned)g);
            break;
        }
        case 6: {
            Pair q = m[i];
            switch (t.draw(4)) {
            case 0: break;
            case 1: q.t ^= 1u << t.draw(16); break;
            case 2: q.i ^= 1u << t.draw(16); break;
            case 3: q = m[j]; break;
            }
            P    o((index_t)q.i, (tag_t)q.t);
            bool eq = q.i == m[i].i && q.t == m[i].t;
            P const &c = v[i], &d = o;
            a.store(o);
            bool lie = (v[i] == o) != eq || (v[i] != o) == eq || (o == v[i]) != eq || (v[i] == P((index_t)q.i, (tag_t)q.t)) != eq || (v[i] != P((index_t)q.i, (tag_t)q.t)) == eq || (c == d) != eq
                       || (d != c) == eq || (c == a.load()) != eq || (a.load() != c) == eq;
            am       = q;
            if (lie)
                pbt::fail("equality", "(%u,%u) and (%u,%u) compare %s", m[i].i, m[i].t, q.i, q.t, eq ? "unequal" : "equal");
            break;
        }
        case 7: a.store(v[i]); am = m[i]; break;
        case 8: v[i] = a.load(); m[i] = am; check(v[i], m[i], "an atomic store and load"); break;
        default: {
            Pair q = am;
            switch (t.draw(3)) {
            case 0: break;
            case 1: q.t ^= 1u << t.draw(16); break;
            case 2: q.i ^= 1u << t.draw(16); break;
            }
            P    e((index_t)q.i, (tag_t)q.t);
            bool eq = q.i == am.i && q.t == am.t;
            bool ok = a.compare_exchange_strong(e, v[i]);
            if (ok != eq)
                pbt::fail("exchange", "comparing and exchanging (%u,%u) with expected value (%u,%u) %s", am.i, am.t, q.i, q.t, ok ? "succeeded" : "failed");
            if (ok)
                am = m[i];
            else
                check(e, am, "a failed compare-exchange");
        }
        }
        for (int k = 0; k != 3; ++k)
            check(v[k], m[k], "an operation on another reference");
        cx.mix(m[i].i * 65536ull + m[i].t);
    }
    check(a.load(), am, "all operations on the atomic");
    if (t.draw(60) == 1) {
        PBT_LABEL("successor chain");
        P                   c((index_t)m[0].i, (tag_t)m[0].t);
        std::vector< bool > seen(65536);
        for (int k = 0; k != 65536; ++k) {
            if (seen[c.get_tag()])
                pbt::fail("successor", "starting from version %u, version %u comes again after %d steps", m[0].t, (unsigned)c.get_tag(), k);
            seen[c.get_tag()] = true;
            c.set_tag(c.get_next_tag());
        }
        check(c, m[0], "65536 successors");
    }
    cx.nontrivial = n >= 4;
}
