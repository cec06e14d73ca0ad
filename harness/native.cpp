#include "native.hpp"

namespace native {

std::atomic< long >   live;
std::atomic< long >   broken;
Ledger                ledger;
thread_local uint32_t pause_state = 0;
static uint32_t       pause_one_in;

void set_pauses(uint32_t one_in) { pause_one_in = one_in; }
void pause_somewhere()
{
    if (!pause_one_in)
        return;
    pause_state = pause_state * 1664525u + 1013904223u;
    if ((pause_state >> 8) % pause_one_in == 0)
        sched_yield();
}

void slow_down(Rng& r, uint32_t one_in)
{
    if (!one_in || r.draw(one_in))
        return;
    uint32_t n = r.draw(200);
    if (n == 0)
        sched_yield();
    for (volatile uint32_t i = 0; i < n; i = i + 1) {}
}

void draw_plan(pbt::Ctx& cx, Plan& p, bool stack, int max_threads)
{
    pbt::Tape& t = cx.tape;
    p.threads    = 2 + (int)t.draw((uint32_t)max_threads - 1);
    static const int counts[] = { 12, 40, 120, 300 };
    p.ops     = counts[t.draw(4)];
    if (t.draw(40) == 0) // a crowd
        p.threads = 12 + (int)t.draw(110), p.ops = 4 + (int)t.draw(12);
    p.pauses  = t.draw(3) ? 3 + t.draw(60) : 0;
    p.preload = t.draw(4) ? 0 : t.draw(12);
    p.range   = 1 + t.draw(6);
    p.seed    = t.draw(0x7fffffff) + 1;
    pause_one_in = p.pauses;
    for (int i = 0; i != p.threads; ++i) {
        uint32_t* w = p.weight[i];
        std::fill(w, w + NKINDS, 0u);
        uint32_t role = t.draw(4); // mixed, producer, consumer, odd
        if (role == 0 || role == 1)
            w[PUSH] = 4, w[BOUNDED] = t.draw(3);
        if (role == 0 || role == 2)
            w[POP] = 4, w[ONE] = t.draw(3);
        if (role == 3)
            for (int k = 0; k != NKINDS; ++k)
                w[k] = t.draw(4);
        if (t.draw(3) == 0)
            w[ALL] += 1;
        w[EMPTY] += t.draw(2);
        if (stack) {
            w[RANGE] += role < 2 ? t.draw(2) : 0;
            w[ATOMIC] += role != 1 && t.draw(3) == 0;
            w[ATOMIC_REV] += role != 1 && t.draw(3) == 0;
        } else
            w[RANGE] = w[ATOMIC] = w[ATOMIC_REV] = 0;
        uint32_t sum = 0;
        for (int k = 0; k != NKINDS; ++k)
            sum += w[k];
        if (!sum)
            w[PUSH] = w[POP] = 1;
        p.delay[i] = t.draw(3) ? 0 : 1 + t.draw(20);
    }
    cx.mix(p.seed * 31 + (uint64_t)p.threads);
    if (p.threads > 8)
        PBT_LABEL("more than 8 threads");
    pbt::note("%d threads of %d calls, %u stored before, seed %llu", p.threads, p.ops, p.preload, (unsigned long long)p.seed);
}

void run_threads(Plan const& p, void (*body)(void*, int, Rng&), void* arg)
{
    std::atomic< int >         ready(0);
    std::vector< std::thread > ts;
    for (int i = 0; i != p.threads; ++i)
        ts.emplace_back([&, i] {
            Rng r{ p.seed * 0x9e3779b97f4a7c15ull ^ ((uint64_t)(i + 1) << 40) };
            pause_state = (uint32_t)r.next();
            ready.fetch_add(1);
            while (ready.load() < p.threads)
                sched_yield();
            body(arg, i, r);
        });
    for (auto& t : ts)
        t.join();
}

static const char* kind_name(Kind k)
{
    static const char* n[] = { "push", "bounded_push", "pop", "consume_one", "consume_all", "consume_all_atomic", "consume_all_atomic_reversed", "empty", "ranged push", "reserve" };
    return n[k];
}

void judge(pbt::Ctx& cx, std::vector< Log > const& logs, bool stack, size_t limit, const char* conf)
{
    using std::max;
    size_t total = 0, top = 0;
    for (auto& l : logs) {
        if (l.torn)
            pbt::fail("torn-element", "%s: %llu elements came back changed", conf, (unsigned long long)l.torn);
        total += l.ops.size();
        for (auto id : l.ids)
            top = max(top, (size_t)id);
    }
    if (top > 10000000)
        pbt::fail("invented-element", "%s: element %zu was never pushed", conf, top);
    std::vector< Fate > f(top + 1);
    struct Flat
    {
        Op const*       op;
        uint64_t const* ids;
    };
    std::vector< Flat > all;
    for (auto& l : logs)
        for (auto& o : l.ops)
            all.push_back({ &o, l.ids.data() + o.first });
    for (uint32_t k = 0; k != all.size(); ++k) {
        Op const& o    = *all[k].op;
        bool      push = o.kind == PUSH || o.kind == BOUNDED || o.kind == RANGE;
        for (uint32_t i = 0; i != o.n; ++i) {
            uint64_t id = all[k].ids[i];
            Fate&    x  = f[id];
            if (push) {
                x.ps = o.s, x.pe = o.e, x.push_op = k, x.push_pos = i;
                ++x.pushes;
            } else {
                x.os = o.s, x.oe = o.e, x.pop_op = k, x.pop_pos = i;
                ++x.pops;
            }
        }
    }
    for (size_t id = 0; id <= top; ++id) {
        Fate& x = f[id];
        if (x.pops && !x.pushes)
            pbt::fail("invented-element", "%s: element %zu was handed out but never pushed", conf, id);
        if (x.pops > 1)
            pbt::fail("duplicated-element", "%s: element %zu was handed out %d times", conf, id, x.pops);
        if (x.pushes && !x.pops)
            pbt::fail("lost-element", "%s: element %zu was pushed and never came back", conf, id);
        if (x.pushes && x.oe < x.ps)
            pbt::fail("invented-element", "%s: element %zu was handed out before its push began", conf, id);
    }
    std::vector< uint32_t > el;
    for (size_t id = 0; id <= top; ++id)
        if (f[id].pushes)
            el.push_back((uint32_t)id);

    // ---- when was it certainly not empty?
    struct Iv
    {
        uint64_t a, b;
    };
    std::vector< Iv > in;
    for (auto id : el)
        if (f[id].pe < f[id].os)
            in.push_back({ f[id].pe, f[id].os });
    std::sort(in.begin(), in.end(), [](Iv const& x, Iv const& y) { return x.a < y.a; });
    std::vector< Iv > full;
    for (auto& v : in)
        if (!full.empty() && v.a < full.back().b)
            full.back().b = max(full.back().b, v.b);
        else
            full.push_back(v);
    auto never_empty = [&](uint64_t s, uint64_t e) {
        auto it = std::upper_bound(full.begin(), full.end(), s, [](uint64_t x, Iv const& v) { return x < v.a; });
        if (it == full.begin())
            return false;
        --it;
        return it->a < s && e < it->b;
    };
    // ---- when may how many have been stored?
    std::vector< std::pair< uint64_t, int > > ev;
    for (auto id : el) {
        ev.push_back({ f[id].ps, 1 });
        ev.push_back({ f[id].oe + 1, -1 });
    }
    std::sort(ev.begin(), ev.end());
    std::vector< uint64_t > at;
    std::vector< long >     level;
    long                    cur = 0;
    for (size_t i = 0; i != ev.size(); ++i) {
        cur += ev[i].second;
        if (i + 1 == ev.size() || ev[i + 1].first != ev[i].first) {
            at.push_back(ev[i].first);
            level.push_back(cur);
        }
    }
    auto most = [&](uint64_t s, uint64_t e) {
        size_t i = (size_t)(std::upper_bound(at.begin(), at.end(), s) - at.begin());
        long   m = i ? level[i - 1] : 0;
        for (; i < at.size() && at[i] <= e; ++i)
            m = max(m, level[i]);
        return m;
    };
    // certainly stored, at most
    if (limit) {
        std::vector< std::pair< uint64_t, int > > c;
        for (auto& v : in) {
            c.push_back({ v.a, 1 });
            c.push_back({ v.b, -1 });
        }
        std::sort(c.begin(), c.end()); // (removals first at equal times)
        long n = 0;
        for (auto& x : c) {
            n += x.second;
            if (n > (long)limit)
                pbt::fail("capacity", "%s: %ld elements were stored at once, there is room for %zu", conf, n, limit);
        }
    }
    int fails = 0, empties = 0;
    for (auto& x : all) {
        Op const& o = *x.op;
        switch (o.kind) {
        case POP:
        case ONE:
            if (o.n == 0) {
                ++empties;
                if (never_empty(o.s, o.e))
                    pbt::fail("spurious-empty", "%s: a %s failed although the container was never empty during the call", conf, kind_name(o.kind));
            }
            break;
        case ATOMIC:
        case ATOMIC_REV:
            if (o.n == 0 && never_empty(o.s, o.e))
                pbt::fail("spurious-empty", "%s: a %s found nothing although the container was never empty during the call", conf, kind_name(o.kind));
            break;
        case ALL: break; // ends with a failing pop at its end, whose beginning we do not see
        case PUSH:
        case BOUNDED:
        case RANGE:
            if (o.n < o.asked && limit) {
                ++fails;
                if (most(o.s, o.e) < (long)limit - (o.kind == RANGE ? (long)o.asked : 0) && o.kind != RANGE)
                    pbt::fail("spurious-full", "%s: a %s failed although at most %ld of %zu elements were stored during the call", conf, kind_name(o.kind), most(o.s, o.e), limit);
            }
            break;
        case EMPTY:
            if (stack) {
                if (o.ok && never_empty(o.s, o.e))
                    pbt::fail("empty-lies", "%s: empty() answers true although the container was never empty during the call", conf);
                if (!o.ok && most(o.s, o.e) == 0)
                    pbt::fail("empty-lies", "%s: empty() answers false although nothing was stored during the call", conf);
            }
            break;
        default: break;
        }
    }
    // ---- order
    if (!stack) {
        std::vector< uint32_t > byend = el, bystart = el;
        std::sort(byend.begin(), byend.end(), [&](uint32_t a, uint32_t b) { return f[a].pe < f[b].pe; });
        std::sort(bystart.begin(), bystart.end(), [&](uint32_t a, uint32_t b) { return f[a].ps < f[b].ps; });
        uint64_t latest = 0;
        uint32_t who    = 0;
        size_t   i      = 0;
        for (auto b : bystart) {
            for (; i != byend.size() && f[byend[i]].pe < f[b].ps; ++i)
                if (f[byend[i]].os > latest)
                    latest = f[byend[i]].os, who = byend[i];
            if (latest > f[b].oe)
                pbt::fail("order", "%s: element %u was pushed before element %u and handed out after it", conf, who, b);
        }
        // the elements of one call are handed out in the order in which one thread pushed them
        for (auto& x : all)
            for (uint32_t k = 1; k < x.op->n; ++k) {
                Fate &a = f[x.ids[k - 1]], &b = f[x.ids[k]];
                if (x.op->kind == ALL && b.pe < a.ps)
                    pbt::fail("order", "%s: element %llu was pushed before element %llu and handed out after it by one consume_all", conf, (unsigned long long)x.ids[k], (unsigned long long)x.ids[k - 1]);
            }
    } else {
        // b was put on top of a, and a was taken while b lay on it
        size_t n = std::min< size_t >(el.size(), 700);
        for (size_t i = 0; i != n; ++i)
            for (size_t j = 0; j != n; ++j) {
                Fate &a = f[el[i]], &b = f[el[j]];
                if (a.pe < b.ps && b.pe < a.os && a.oe < b.os)
                    pbt::fail("order", "%s: element %u was handed out while element %u lay on top of it", conf, el[i], el[j]);
            }
        for (auto& x : all)
            if (x.op->kind == ATOMIC || x.op->kind == ATOMIC_REV)
                for (uint32_t k = 1; k < x.op->n; ++k) {
                    bool  rev = x.op->kind == ATOMIC_REV;
                    Fate &a = f[x.ids[rev ? k : k - 1]], &b = f[x.ids[rev ? k - 1 : k]]; // a is newer
                    if (a.pe < b.ps)
                        pbt::fail("order", "%s: %s hands out elements %llu and %llu in the wrong order", conf, kind_name(x.op->kind), (unsigned long long)x.ids[k - 1], (unsigned long long)x.ids[k]);
                    if (a.push_op == b.push_op && a.push_pos < b.push_pos)
                        pbt::fail("order", "%s: %s hands out the elements of one ranged push in the wrong order", conf, kind_name(x.op->kind));
                }
    }
    if (fails)
        PBT_LABEL("a push failed");
    if (empties)
        PBT_LABEL("a pop found nothing");
    cx.nontrivial = total > 20 && el.size() > 4;
}

} // namespace native
