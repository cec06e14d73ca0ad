// stack under an owned scheduler and memory model: generators.
#include "conc_stack.hpp"

stack_runner stack_runners[NVAL];
static void  dispatch_value(pbt::Ctx& cx, Case& c, int kind, int val) { stack_runners[val](cx, c, kind); }

static void draw_container(pbt::Tape& t, Case& c, int& kind, int& val)
{
    kind        = t.draw(5);
    val         = draw_val(t, NVAL);
    c.nodebased = kind == 0;
    c.fixed     = kind != 0;
    static const uint32_t cap[] = { 0, 0, 1, 2, 4 };
    c.n         = kind == 0 ? t.draw(5) : kind == 1 ? t.range(1, 5) : cap[kind];
    c.age       = t.draw(3);
    c.agelen    = 1 + t.draw(4);
    c.agekind   = t.draw(3);
    c.prefill   = t.draw(4);
    if (c.fixed && c.prefill > c.n)
        c.prefill = c.n;
}

// some operations of programs on node-based containers become reserve calls
static void add_reserves(pbt::Tape& t, Case& c)
{
    if (c.fixed || t.draw(4) != 3)
        return;
    for (auto& p : c.prog)
        for (auto& o : p)
            if (t.draw(4) == 3) {
                o.code = RESERVE;
                o.a    = t.draw(4);
                o.n    = 0;
            }
}

static void note_case(Case const& c, int kind, int val)
{
    static const char* kn[] = { "node-based", "fixed_sized<true>", "capacity<1>", "capacity<2>", "capacity<4>", "capacity<64>" };
    static const char* vn[] = { "8-byte element", "24-byte element", "uint16_t", "80-byte element" };
    static const char* an[] = { "pop", "consume_all_atomic", "consume_all_atomic_reversed" };
    pbt::note("stack %s n=%u of %s, aged %ux%u by %s, prefilled %u%s\n", kn[kind], c.n, vn[val], c.age, c.agelen, an[c.agekind], c.prefill, c.weak ? ", weak memory" : "");
    note_prog(c.prog, opname);
    note_policy(c.pol);
}

static ProgOp draw_op(pbt::Tape& t, uint32_t& id, int focus)
{
    static const int mixed[] = { PUSH, POP, BPUSH, POP, TAKE, TAKER, RPUSH, CONS1, POPU, CONSALL, CONS1C, TAKEC, TAKERC, RBPUSH, CONSALLC, EMPTY };
    static const int pair[]  = { PUSH, POP, BPUSH, CONS1, PUSH, POP, EMPTY, POPU, PUSH, POP, BPUSH, CONS1C, RPUSH, CONSALL, RBPUSH, CONSALLC };
    static const int take[]  = { PUSH, TAKE, TAKER, RPUSH, TAKEC, TAKERC, POP, RBPUSH, TAKE, TAKER, PUSH, EMPTY, TAKEC, TAKERC, RPUSH, POP };
    const int*       tb      = focus == 0 ? mixed : focus == 1 ? pair : take;
    ProgOp           o       = { tb[t.draw(16)], 0, 0 };
    if (o.code == PUSH || o.code == BPUSH) {
        o.a = id++;
        o.n = 1;
    } else if (o.code == RPUSH || o.code == RBPUSH) {
        o.a = id;
        o.n = 1 + t.draw(4);
        id += o.n;
    }
    return o;
}

static void draw_programs(pbt::Tape& t, Case& c, int threads, int maxops)
{
    uint32_t id    = 20;
    int      focus = t.draw(3);
    c.prog.assign(threads, std::vector< ProgOp >());
    for (int i = 0; i != threads; ++i) {
        int n = 1 + t.draw(maxops);
        for (int k = 0; k != n; ++k)
            c.prog[i].push_back(draw_op(t, id, focus));
    }
}

PBT_SCENARIO(stack_lin, "2-4 threads x 1-4 operations (single, ranged, consuming, atomically taking, empty) on an aged, prefilled stack of any configuration under a generated schedule (and, half the time, generated stale loads); non-trivial: at least one preemption inside the run")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    c.weak = cx.opt("weak") ? t.draw(8) != 0 : cx.opt("sc") ? false : t.draw(2) == 1;
    c.spurious = cx.opt("spurious") ? t.draw(8) : 0;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 2 + t.draw(3), 4);
    add_reserves(t, c);
    vs::draw_policy(t, c.pol, (int)c.prog.size(), 30);
    note_case(c, kind, val);
    if (c.weak)
        PBT_LABEL("weak memory");
    dispatch_value(cx, c, kind, val);
}

PBT_SCENARIO(stack_aba, "one operation suspended at a generated step while another thread recycles the nodes a generated number of times (small, or around multiples of powers of two up to 2^16 in pops), then both continue; non-trivial: the operation was suspended half-way")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    bool big = t.draw(cx.optval("bigevery", 40)) == 1;
    if (big) {
        val = val == 2 ? 0 : val;
        if (kind >= 2)
            kind = 4, c.n = 4;
        if (c.n < 2)
            c.n = 2;
        if (c.prefill > 2)
            c.prefill = 2;
        uint32_t len = 1 + t.draw(5), pops = 0;
        for (uint32_t i = 0; i != len; ++i)
            c.cycle.push_back("\0\3\0\1\3\2"[t.draw(6)]);
        if (std::find(c.cycle.begin(), c.cycle.end(), 0) == c.cycle.end())
            c.cycle.push_back(0);
        for (int x : c.cycle)
            pops += x == 0;
        c.pad      = "\1\2\0\1\2"[t.draw(5)];
        uint32_t b = 3 + t.draw(13), n = 1u << b;
        int      d = (int)t.draw(8);
        d          = d < 5 ? 0 : d - 4;
        if (b < 14)
            n *= 1 + t.draw(2);
        n -= std::min< uint32_t >(d, n - 1);
        // fewer than 2^16 removals in total
        if (!c.pad)
            while (n > 1 && uint64_t(n) * (pops + 4) > 65000)
                n = (n + 1) / 2;
        c.churn = n;
        c.prog.resize(2);
        static const int vop[] = { POP, PUSH, CONS1, BPUSH, TAKE, TAKER };
        ProgOp o = { vop[t.draw(6)], 20, 0 };
        o.n = o.code == PUSH || o.code == BPUSH;
        c.prog[0].push_back(o);
        uint32_t id = 30, tail = t.draw(8);
        tail = tail < 5 ? 0 : tail - 4;
        for (uint32_t i = 0; i != tail; ++i)
            c.prog[1].push_back(draw_op(t, id, t.draw(3)));
        PBT_LABEL("long churn");
    } else {
        draw_programs(t, c, 2 + t.draw(2), 2);
        c.prog[0].resize(1);
        uint32_t id = 60, pairs = 1 + t.draw(8);
        int      focus = t.draw(3);
        for (uint32_t i = 0; i != pairs; ++i)
            c.prog[1].push_back(draw_op(t, id, focus));
    }
    c.pol         = vs::Policy();
    c.pol.kind    = big ? 0 : 1;
    c.pol.runlen  = big ? 2 : t.draw(4);
    c.pol.nsusp   = 1;
    c.pol.susp[0] = vs::Suspension { 0, 1 + t.draw(big ? 9 : 20), 0, 0 };
    c.weak        = !big && t.draw(4) == 3;
    note_case(c, kind, val);
    if (c.churn) {
        static const char* cn[] = { "push", "pop", "take all", "take all reversed" };
        pbt::note("  T1 first repeats {");
        for (int x : c.cycle)
            pbt::note(" %s;", cn[x]);
        if (c.pad)
            pbt::note(" } then push/pop pairs up to %u %s at full speed\n", c.churn, c.pad == 1 ? "removals" : "insertions");
        else
            pbt::note(" } %u times at full speed\n", c.churn);
    }
    dispatch_value(cx, c, kind, val);
}

PBT_SCENARIO(stack_nested, "3 or 4 threads, up to 12 context switches at generated steps or between operations: several operations suspended in each other; non-trivial: at least 2 preemptions inside the run")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 3 + t.draw(2), 3);
    uint32_t id = 60, more = 1 + t.draw(6);
    if (t.draw(4) != 0) {
        // one operation each that may be suspended, and a thread that does the rest
        static const int victims[] = { POP, TAKE, TAKER, CONS1, TAKEC, TAKERC, PUSH, RPUSH, CONS1C, BPUSH };
        static const int rest[]    = { PUSH, POP, BPUSH, CONS1, PUSH, POP, TAKER, RPUSH };
        id = 20;
        for (auto& p : c.prog) {
            bool last = &p == &c.prog.back();
            p.clear();
            for (uint32_t i = 0; i != (last ? more : 1); ++i) {
                ProgOp o = { last ? rest[t.draw(8)] : victims[t.draw(10)], 0, 0 };
                if (o.code == PUSH || o.code == BPUSH || o.code == RPUSH) {
                    o.a = id;
                    o.n = o.code == RPUSH ? 1 + t.draw(3) : 1;
                    id += o.n;
                }
                p.push_back(o);
            }
        }
        if (t.draw(2))
            c.prefill = std::min< uint32_t >(c.n, 2 + t.draw(3));
        vs::draw_interlocked(t, c.pol, (int)c.prog.size(), 14, (int)t.draw(3));
    } else {
        for (uint32_t i = 0; i != more; ++i)
            c.prog[t.draw((uint32_t)c.prog.size())].push_back(draw_op(t, id, 1));
        vs::draw_segments(t, c.pol, (int)c.prog.size(), 14);
    }
    add_reserves(t, c);
    note_case(c, kind, val);
    dispatch_value(cx, c, kind, val);
    if (vs::returned_values())
        PBT_LABEL("a compare-exchange met an old value again");
    if (vs::switches() < 2)
        cx.nontrivial = false;
}

PBT_SCENARIO(stack_progress, "threads stopped forever at generated steps; the survivors must finish and the finished operations must be explainable; non-trivial: a thread was stopped inside an operation")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 2 + t.draw(3), 3);
    int n = (int)c.prog.size();
    add_reserves(t, c);
    vs::draw_policy(t, c.pol, n, 30);
    c.frozen  = true;
    int kills = 1 + t.draw(n - 1 > 3 ? 3 : n - 1);
    c.pol.nsusp = kills;
    for (int i = 0; i != kills; ++i)
        c.pol.susp[i] = vs::Suspension { i, 1 + t.draw(30), 2, 0 };
    vs::cfg.step_limit = 6000;
    note_case(c, kind, val);
    dispatch_value(cx, c, kind, val);
}

PBT_SCENARIO(stack_bulk, "2-4 threads x 1-4 operations, ranged pushes of up to 300 elements, on a stack of up to 300 nodes holding up to 300 elements; non-trivial: at least one preemption inside the run and more than 20 elements involved")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    c.weak = cx.opt("weak") ? true : cx.opt("sc") ? false : t.draw(4) == 3;
    draw_container(t, c, kind, val);
    kind        = kind == 0 ? 0 : kind < 3 ? 1 : 5;
    c.fixed     = kind != 0;
    c.n         = kind == 5 ? 64 : draw_count(t) + (kind == 1);
    c.agelen    = 1 + draw_count(t);
    c.prefill   = draw_count(t);
    if (c.fixed && c.prefill > c.n)
        c.prefill = c.n - t.draw(3) % (c.n + 1);
    draw_programs(t, c, 2 + t.draw(3), 4);
    uint32_t id = 1000, total = 0;
    for (auto& p : c.prog)
        for (auto& o : p) {
            if (o.code == RPUSH || o.code == RBPUSH) {
                o.n = 1 + draw_count(t);
                total += o.n;
            } else if (o.code >= CONSALL && o.code < EMPTY)
                total += c.prefill / 2;
            if (o.code == CONSALL || o.code == CONSALLC) {
                // taking elements one at a time makes as many operations: the search for an order is limited
                if (c.prefill > 10)
                    o.code = o.code == CONSALL ? TAKE : POP;
            }
            if (o.n) {
                o.a = id;
                id += o.n;
            }
            total++;
        }
    add_reserves(t, c);
    vs::draw_policy(t, c.pol, (int)c.prog.size(), 1 + 12 * total / (uint32_t)c.prog.size());
    vs::cfg.step_limit = 400000;
    note_case(c, kind, val);
    if (c.weak)
        PBT_LABEL("weak memory");
    dispatch_value(cx, c, kind, val);
    if (total < 20)
        cx.nontrivial = false;
}

PBT_SCENARIO(stack_harass, "one thread whose every compare-and-swap is preceded by a change of that location through others, for up to 100 attempts in a row; the others repeat a short generated pattern of operations; non-trivial: at least 4 preemptions inside the run")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    if (t.draw(2)) {
        kind    = kind == 0 ? 0 : kind < 3 ? 1 : 5;
        c.nodebased = kind == 0;
        c.fixed     = kind != 0;
        c.n     = kind == 5 ? 64 : 1 + t.draw(12);
        c.prefill = std::min< uint32_t >(c.n, t.draw(8));
    }
    static const uint32_t rounds[] = { 2, 4, 8, 12, 20, 40, 70, 100 };
    c.pol.kind   = 3;
    c.pol.rounds = rounds[t.draw(8)] + t.draw(3);
    c.pol.linger = t.draw(3) ? t.draw(30) : 0;
    c.pol.skip   = t.draw(2) ? t.draw(6) : 0;
    draw_programs(t, c, 2 + t.draw(2), 3);
    uint32_t others = (uint32_t)c.prog.size() - 1, total = std::min(c.pol.rounds * 2 + 4, 110u), id = 100;
    for (uint32_t i = 1; i <= others; ++i) {
        std::vector< ProgOp > pattern = c.prog[i];
        static const int more[] = { PUSH, POP, BPUSH, CONS1 };
        pattern.push_back(ProgOp { more[t.draw(4)], 0, 1 });
        c.prog[i].clear();
        while (c.prog[i].size() < total / others)
            for (auto o : pattern) {
                if (o.code == CONSALL || o.code == CONSALLC)
                    o.code = POP;
                if (o.code == PUSH || o.code == BPUSH || o.code == RPUSH || o.code == RBPUSH) {
                    o.a = id;
                    id += o.n;
                } else
                    o.n = 0;
                c.prog[i].push_back(o);
            }
    }
    note_case(c, kind, val);
    dispatch_value(cx, c, kind, val);
    if (vs::switches() < 4)
        cx.nontrivial = false;
    if (vs::switches() > 60)
        PBT_LABEL("more than 30 failures");
}
