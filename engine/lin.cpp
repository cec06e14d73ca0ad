#include "lin.hpp"

#include <algorithm>
#include <cstdio>
#include <unordered_map>
#include <unordered_set>

namespace lin {

// Mask: a set of operations
template < class Mask >
struct Search
{
    std::vector<Op>              ops;
    const Spec*                  s;
    std::vector<Mask>            preds;
    std::vector<uint64_t>        held; // nodes overlapping operations may hold
    std::unordered_set<uint64_t> seen;
    uint64_t                     budget = 400000;
    Mask                         all    = 0, must = 0;

    static uint64_t hash(Mask mask, const std::vector<uint32_t>& c)
    {
        uint64_t h = (uint64_t)mask * 0x9e3779b97f4a7c15ull;
        if (sizeof(Mask) > 8) {
            h ^= (uint64_t)(mask >> (sizeof(Mask) > 8 ? 64 : 0));
            h *= 0xd6e8feb86659fd93ull;
            h ^= h >> 32;
        }
        for (uint32_t v : c) {
            h ^= v + 0x7f4a7c15;
            h *= 0xd6e8feb86659fd93ull;
            h ^= h >> 32;
        }
        return h;
    }

    bool apply(size_t i, std::vector<uint32_t>& c)
    {
        const Op& o = ops[i];
        switch (o.kind) {
        case PUSH:
            for (uint32_t v : o.vals)
                c.push_back(v);
            return true;
        case PUSH_FULL:
            return c.size() + o.vals.size() + held[i] >= s->pool;
        case POP:
            if (c.empty())
                return false;
            if (s->fifo) {
                if (!o.pending && c.front() != o.vals[0])
                    return false;
                c.erase(c.begin());
            } else {
                if (!o.pending && c.back() != o.vals[0])
                    return false;
                c.pop_back();
            }
            return true;
        case POP_EMPTY:
        case EMPTY_T:
            return c.empty();
        case EMPTY_F:
            return !c.empty();
        case TAKE_ALL:
            if (!o.pending) {
                if (c.size() != o.vals.size() || !std::equal(o.vals.rbegin(), o.vals.rend(), c.begin()))
                    return false;
            }
            c.clear();
            return true;
        case TAKE_ALL_REV:
            if (!o.pending && c != o.vals)
                return false;
            c.clear();
            return true;
        }
        return false;
    }

    // 1 found, 0 not, -1 gave up
    int dfs(Mask mask, const std::vector<uint32_t>& c)
    {
        if ((mask & must) == must) {
            if (!s->has_final || c == s->final_)
                return 1;
            if (mask == all)
                return 0;
        }
        if (!seen.insert(hash(mask, c)).second)
            return 0;
        if (budget-- == 0)
            return -1;
        for (size_t i = 0; i != ops.size(); ++i) {
            if (mask >> i & 1)
                continue;
            if ((preds[i] & mask) != preds[i])
                continue;
            std::vector<uint32_t> n = c;
            if (ops[i].pending && ops[i].kind == PUSH && ops[i].vals.size() > 1) {
                // stopped for good inside a ranged push: any non-empty prefix may have been stored
                for (uint32_t v : ops[i].vals) {
                    n.push_back(v);
                    int r = dfs(mask | Mask(1) << i, n);
                    if (r)
                        return r;
                }
                continue;
            }
            if (!apply(i, n))
                continue;
            int r = dfs(mask | Mask(1) << i, n);
            if (r)
                return r;
        }
        return 0;
    }
};

template < class Mask >
static Result check_with(const std::vector<Op>& in, const Spec& s)
{
    Search< Mask > q;
    q.s = &s;
    std::vector<uint64_t> held;
    std::vector<std::pair<size_t, size_t>> before_push;
    for (const Op& o : in) {
        if (s.weak && (o.kind == POP_EMPTY || o.kind == PUSH_FULL || o.kind == EMPTY_T || o.kind == EMPTY_F))
            continue;
        if ((o.kind == TAKE_ALL || o.kind == TAKE_ALL_REV) && o.vals.empty() && s.weak && !o.pending)
            continue;
        q.ops.push_back(o);
        // another thread executes one operation at a time
        uint64_t h = 0, most[vs::NT + 1] = {};
        for (const Op& p : in)
            if (&p != &o && p.tid != o.tid && (p.pending || p.end > o.start) && p.start < o.end)
                most[p.tid + 1] = std::max<uint64_t>(most[p.tid + 1], p.hold);
        for (uint64_t m : most)
            h += m;
        held.push_back(h);
        if (o.kind == PUSH && o.short_ && !s.weak) {
            // the pool ran out at some instant of the call before the elements were inserted, with the elements stored
            // already taken out of the pool
            Op f   = o;
            f.kind = PUSH_FULL;
            before_push.push_back(std::make_pair(q.ops.size(), q.ops.size() - 1));
            q.ops.push_back(f);
            held.push_back(h);
        }
    }
    if (q.ops.size() > 8 * sizeof(Mask) - 2)
        return GAVE_UP;
    q.held = held;
    for (size_t i = 0; i != q.ops.size(); ++i) {
        q.all |= Mask(1) << i;
        if (!q.ops[i].pending)
            q.must |= Mask(1) << i;
    }
    for (size_t i = 0; i != q.ops.size(); ++i) {
        Mask m = 0;
        for (size_t j = 0; j != q.ops.size(); ++j) {
            const Op &a = q.ops[j], &b = q.ops[i];
            if (i == j || a.pending)
                continue;
            bool before;
            if (a.tid == b.tid)
                before = a.end <= b.start;
            else if (s.weak)
                before = a.tid >= 0 && b.tid >= 0 && b.svc.c[a.tid] >= a.etime;
            else
                before = a.end < b.start;
            if (before)
                m |= Mask(1) << j;
        }
        q.preds.push_back(m);
    }
    for (auto& p : before_push) {
        q.preds[p.second] |= Mask(1) << p.first;
        // what precedes the push need not precede the full pool, except in real time
        q.preds[p.first] &= ~(Mask(1) << p.second);
    }
    int r = q.dfs(0, s.initial);
    return r > 0 ? YES : r < 0 ? GAVE_UP : NO;
}

Result check(const std::vector<Op>& in, const Spec& s)
{
    return in.size() <= 31 ? check_with< uint64_t >(in, s) : check_with< unsigned __int128 >(in, s);
}

std::string check_fifo_pairs(const std::vector<Op>& ops, const Spec& s, const char** sig)
{
    struct Life
    {
        const Op* push; // null: there from the start
        const Op* pop;  // null: still there at the end
        int       rank; // position among the initial ones
        int       last; // position among the left over ones, -1: was popped
    };
    std::unordered_map<uint32_t, Life> m;
    for (size_t i = 0; i != s.initial.size(); ++i)
        m[s.initial[i]] = Life { nullptr, nullptr, (int)i, -1 };
    for (const Op& o : ops)
        if (o.kind == PUSH)
            for (uint32_t v : o.vals)
                m[v] = Life { &o, nullptr, 0, -1 };
    for (const Op& o : ops)
        if (o.kind == POP) {
            auto i = m.find(o.vals[0]);
            if (i == m.end()) {
                *sig = "invented-element";
                return "element " + std::to_string(o.vals[0]) + " was handed out but never pushed";
            }
            if (i->second.pop) {
                *sig = "duplicated-element";
                return "element " + std::to_string(o.vals[0]) + " was handed out twice";
            }
            i->second.pop = &o;
        }
    for (size_t k = 0; k != s.final_.size(); ++k) {
        auto i = m.find(s.final_[k]);
        if (i == m.end() || i->second.pop || i->second.last >= 0) {
            *sig = i == m.end() ? "invented-element" : "duplicated-element";
            return "element " + std::to_string(s.final_[k]) + " was left over but never pushed, or handed out before";
        }
        i->second.last = (int)k;
    }
    auto before = [&](const Op* a, const Op* b) { // both real operations
        if (a->tid == b->tid)
            return a->end <= b->start;
        if (s.weak)
            return a->tid >= 0 && b->tid >= 0 && b->svc.c[a->tid] >= a->etime;
        return a->end < b->start;
    };
    std::vector<std::pair<uint32_t, Life>> v(m.begin(), m.end());
    std::sort(v.begin(), v.end(), [](const std::pair<uint32_t, Life>& a, const std::pair<uint32_t, Life>& b) { return a.first < b.first; });
    for (auto& x : v) {
        if (!x.second.pop && x.second.last < 0) {
            *sig = "lost-element";
            return "element " + std::to_string(x.first) + " was pushed but never came out";
        }
        if (x.second.push && x.second.pop && before(x.second.pop, x.second.push)) {
            *sig = "invented-element";
            return "element " + std::to_string(x.first) + " was handed out before it was pushed";
        }
    }
    for (auto& x : v)
        for (auto& y : v) {
            if (&x == &y)
                continue;
            const Life &a = x.second, &b = y.second;
            bool        in = !a.push && !b.push ? a.rank < b.rank : !a.push ? true : !b.push ? false : before(a.push, b.push);
            if (!in)
                continue;
            bool inverted = a.pop && b.pop ? before(b.pop, a.pop) : !a.pop && b.pop ? true : !a.pop && !b.pop ? b.last < a.last : false;
            if (inverted) {
                *sig = "order";
                return "element " + std::to_string(x.first) + " was pushed before element " + std::to_string(y.first) + " but came out after it";
            }
        }
    if (!s.weak)
        for (const Op& o : ops)
            if (o.kind == PUSH_FULL) {
                uint64_t used = s.initial.size();
                for (const Op& p : ops)
                    if (&p != &o) {
                        used += p.kind == PUSH && p.start < o.end;
                        used -= p.kind == POP && p.end < o.start;
                        used += p.kind != PUSH && p.start < o.end && o.start < p.end ? p.hold : 0;
                    }
                if (used < s.pool) {
                    *sig = "spurious-full";
                    return show(o) + " although at most " + std::to_string(used) + " of " + std::to_string(s.pool) + " nodes can have been in use";
                }
            }
    if (!s.weak)
        for (const Op& o : ops)
            if (o.kind == POP_EMPTY || o.kind == EMPTY_T)
                for (auto& x : v)
                    if ((!x.second.push || before(x.second.push, &o)) && (!x.second.pop || before(&o, x.second.pop))) {
                        *sig = o.kind == POP_EMPTY ? "spurious-empty" : "empty-lies";
                        return show(o) + " although element " + std::to_string(x.first) + " was in the queue throughout";
                    }
    return "";
}

const char* blame(const std::vector<Op>& ops, const Spec& s)
{
    std::vector<Op> rest;
    for (auto& o : ops)
        if (o.kind != EMPTY_T && o.kind != EMPTY_F)
            rest.push_back(o);
    return rest.size() != ops.size() && check(rest, s) != NO ? "empty-lies" : "not-linearizable";
}

std::string show(const Op& o)
{
    static const char* n[] = { "push", "pop", "pop->empty", "push->full", "take_all", "take_all_reversed", "empty->true", "empty->false" };
    std::string        r = "T" + std::to_string(o.tid) + " [" + std::to_string(o.start) + "," + (o.pending ? "never" : std::to_string(o.end)) + "] " + n[o.kind];
    if (!o.vals.empty() || o.kind == TAKE_ALL || o.kind == TAKE_ALL_REV) {
        r += "(";
        for (size_t i = 0; i != o.vals.size(); ++i)
            r += (i ? "," : "") + std::to_string(o.vals[i]);
        r += ")";
    }
    if (o.short_)
        r += " (pool exhausted)";
    return r;
}
std::string show(const std::vector<Op>& ops, const Spec& s)
{
    std::vector<Op> v = ops;
    std::sort(v.begin(), v.end(), [](const Op& a, const Op& b) { return a.start < b.start; });
    std::string r = "history:";
    r += " initial {";
    for (uint32_t x : s.initial)
        r += std::to_string(x) + " ";
    r += "};";
    for (auto& o : v)
        r += " " + show(o) + ";";
    if (s.has_final) {
        r += " left over {";
        for (uint32_t x : s.final_)
            r += std::to_string(x) + " ";
        r += "}";
    }
    return r;
}

static std::vector<Op> rops;
static Op              running[vs::NT + 1];
static bool            isrun[vs::NT + 1];
static uint64_t        step0[vs::NT + 1];

void rec_reset()
{
    rops.clear();
    for (bool& b : isrun)
        b = false;
}
static void start(int t, uint32_t hold)
{
    Op& o   = running[t + 1];
    o       = Op();
    o.tid   = t;
    o.hold  = hold;
    o.svc   = vs::clock();
    o.start = vs::stamp();
    isrun[t + 1] = true;
    step0[t + 1] = t < 0 ? 0 : vs::own_steps(t);
}
void rec_begin(uint32_t hold)
{
    vs::yield();
    start(vs::self(), hold);
}
void rec_end(int kind, const uint32_t* vals, size_t n, bool short_)
{
    int t   = vs::self();
    Op& o   = running[t + 1];
    o.kind  = kind;
    o.vals.assign(vals, vals + n);
    o.short_ = short_;
    o.etime = vs::own_time();
    o.end   = vs::stamp();
    isrun[t + 1] = false;
    rops.push_back(o);
    if (pbt::want_desc())
        vs::note_event("%s", show(o).c_str());
}
void rec_split(int kind, uint32_t val, uint32_t hold)
{
    rec_end(kind, &val, 1);
    start(vs::self(), hold);
}
void     rec_abandon() { isrun[vs::self() + 1] = false; }
uint64_t rec_steps()
{
    int t = vs::self();
    return t < 0 ? 0 : vs::own_steps(t) - step0[t + 1];
}
std::vector<Op>& rec_ops() { return rops; }
bool             rec_running(int tid) { return isrun[tid + 1]; }
void rec_pending(int tid, int kind, const uint32_t* vals, size_t n)
{
    Op o      = running[tid + 1];
    o.kind    = kind;
    o.pending = true;
    o.vals.assign(vals, vals + n);
    o.end = ~0ull;
    rops.push_back(o);
}

} // namespace lin
