// queue under an owned scheduler and memory model: generators.
#include "conc_queue.hpp"

queue_runner queue_runners[NVAL];
static void dispatch_value(pbt::Ctx& cx, Case& c, int kind, int val) { queue_runners[val](cx, c, kind); }

static void draw_container(pbt::Tape& t, Case& c, int& kind, int& val)
{
    kind        = t.draw(5);
    val         = draw_val(t, NVAL);
    c.nodebased = kind == 0;
    c.fixed     = kind != 0;
    c.n         = kind == 0 ? t.draw(4) : kind == 1 ? t.range(1, 4) : kind - 1;
    c.age       = t.draw(4);
    c.agelen    = 1 + t.draw(4);
    c.prefill   = t.draw(4);
    if (c.fixed && c.prefill > c.n)
        c.prefill = c.n;
}

// some operations of programs on node-based containers become reserve calls
static void add_reserves(pbt::Tape& t, Case& c)
{
    if (c.fixed || t.draw(4) != 3)
        return;
    for (auto& p : c.prog)
        for (auto& o : p)
            if (t.draw(4) == 3) {
                o.code = RESERVE;
                o.a    = t.draw(4);
                o.n    = 0;
            }
}

static void note_case(Case const& c, int kind, int val)
{
    static const char* kn[] = { "node-based", "fixed_sized<true>", "capacity<1>", "capacity<2>", "capacity<3>", "capacity<64>" };
    static const char* vn[] = { "8-byte element", "24-byte element", "uint16_t", "80-byte element" };
    pbt::note("queue %s n=%u of %s, aged %ux%u, prefilled %u%s\n", kn[kind], c.n, vn[val], c.age, c.agelen, c.prefill, c.weak ? ", weak memory" : "");
    note_prog(c.prog, opname);
    note_policy(c.pol);
}

static int draw_op(pbt::Tape& t, bool empties)
{
    static const int table[] = { PUSH, POP, BPUSH, POP, PUSH, POPU, CONS1, CONSALL, POPX, CONS1C, BPUSH, CONSALLC };
    if (empties && t.draw(6) == 5)
        return EMPTY;
    return table[t.draw(12)];
}

static void draw_programs(pbt::Tape& t, Case& c, int threads, int maxops, bool empties)
{
    uint32_t id = 20;
    c.prog.assign(threads, std::vector< ProgOp >());
    for (int i = 0; i != threads; ++i) {
        int n = 1 + t.draw(maxops);
        for (int k = 0; k != n; ++k) {
            ProgOp o = { draw_op(t, empties), 0, 0 };
            if (o.code == PUSH || o.code == BPUSH) {
                o.a = id++;
                o.n = 1;
            }
            c.prog[i].push_back(o);
        }
    }
}

PBT_SCENARIO(queue_lin, "2-4 threads x 1-4 operations on an aged, prefilled queue of any configuration under a generated schedule (and, half the time, generated stale loads); non-trivial: at least one preemption inside the run")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    c.weak = cx.opt("weak") ? t.draw(8) != 0 : cx.opt("sc") ? false : t.draw(2) == 1;
    c.spurious = cx.opt("spurious") ? t.draw(8) : 0;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 2 + t.draw(3), 4, true);
    add_reserves(t, c);
    vs::draw_policy(t, c.pol, (int)c.prog.size(), 45);
    note_case(c, kind, val);
    if (c.weak)
        PBT_LABEL("weak memory");
    dispatch_value(cx, c, kind, val);
}

PBT_SCENARIO(queue_aba, "one operation suspended at a generated step while another thread recycles the nodes a generated number of times (small, or around multiples of powers of two up to 2^16), then both continue; non-trivial: the operation was suspended half-way")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    if (c.fixed && c.n == 1)
        c.n = 1;
    bool big = t.draw(cx.optval("bigevery", 40)) == 1;
    if (big) {
        if (c.prefill == 0)
            c.prefill = 1;
        if (val == 2)
            val = 0; // ids need more than 16 bits
        // the churning thread always needs an element and, on a full fixed queue, its own released node
        uint32_t b = 4 + t.draw(12), m = 1 + t.draw(3);
        uint32_t n = (1u << b) * m;
        int      d = (int)t.draw(5);
        n += (d + 1) / 2 * (d & 1 ? 1 : -1);
        if (n > 65000)
            n = 65000 - t.draw(4);
        c.churn = n;
        c.prog.resize(2);
        // the suspended operation may take one element and one node: leave one of each
        if (c.prefill < 2)
            c.prefill = 2;
        if (kind == 0)
            c.n = std::max(c.n, c.prefill + 1);
        if (kind == 1)
            c.n = std::max(c.n, c.prefill + 1);
        if (kind >= 2)
            kind = 4, c.n = 3, c.prefill = 2;
        c.age             = t.draw(4);
        uint32_t victim   = t.draw(5);
        static const int vop[] = { POP, PUSH, CONS1, BPUSH, POPU };
        ProgOp o = { vop[victim], 20, (uint32_t)(victim == 1 || victim == 3) };
        c.prog[0].push_back(o);
        ProgOp e = { t.draw(2) ? PUSH : POP, 21, 1 };
        c.prog[1].push_back(e);
        PBT_LABEL("long churn");
    } else {
        uint32_t threads = 2 + t.draw(2);
        draw_programs(t, c, threads, 2, false);
        c.prog[0].resize(1);
        // churn: pairs of operations
        uint32_t id = 40, pairs = 1 + t.draw(6);
        for (uint32_t i = 0; i != pairs; ++i) {
            ProgOp a = { POP, 0, 0 }, b = { PUSH, id++, 1 };
            bool   first = t.draw(2);
            c.prog[1].push_back(first ? b : a);
            c.prog[1].push_back(first ? a : b);
        }
    }
    c.pol        = vs::Policy();
    c.pol.kind   = 1;
    c.pol.runlen = big ? 2 : t.draw(4);
    c.pol.nsusp  = 1;
    c.pol.susp[0] = vs::Suspension { 0, 1 + t.draw(30), 0, 0 };
    c.weak       = !big && t.draw(4) == 3;
    if (big) {
        // thread 0 first, up to its suspension
        c.pol.kind = 0;
    }
    note_case(c, kind, val);
    if (c.churn)
        pbt::note("  T1 first recycles %u times at full speed\n", c.churn);
    dispatch_value(cx, c, kind, val);
}

PBT_SCENARIO(queue_nested, "3 or 4 threads, up to 12 context switches at generated steps or between operations: several operations suspended in each other; non-trivial: at least 2 preemptions inside the run")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 3 + t.draw(2), 3, true);
    uint32_t id = 60, more = 1 + t.draw(6);
    bool     inter = t.draw(6) != 0;
    int      coarse = inter ? (int)t.draw(3) : 0;
    if (inter)
        // one operation each that may be suspended, and a thread that does the rest
        for (auto& p : c.prog)
            p.resize(1);
    if (coarse == 1) {
        // mostly pushes that are suspended half-way, and pops that recycle nodes under them
        for (auto& p : c.prog)
            if (t.draw(8) != 7)
                p[0] = &p == &c.prog.back() ? ProgOp { POP, 0, 0 } : ProgOp { PUSH, id++, 1 };
    }
    for (uint32_t i = 0; i != more; ++i) {
        bool push = coarse == 1 ? t.draw(4) == 3 : t.draw(2);
        c.prog[inter ? c.prog.size() - 1 : t.draw((uint32_t)c.prog.size())].push_back(ProgOp { push ? PUSH : POP, push ? id : 0, push });
        id += push;
    }
    if (inter)
        vs::draw_interlocked(t, c.pol, (int)c.prog.size(), 20, coarse);
    else
        vs::draw_segments(t, c.pol, (int)c.prog.size(), 20);
    add_reserves(t, c);
    note_case(c, kind, val);
    dispatch_value(cx, c, kind, val);
    if (vs::returned_values())
        PBT_LABEL("a compare-exchange met an old value again");
    if (vs::switches() < 2)
        cx.nontrivial = false;
}

PBT_SCENARIO(queue_progress, "threads stopped forever at generated steps; the survivors must finish and the finished operations must be explainable; non-trivial: a thread was stopped inside an operation")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 2 + t.draw(3), 3, false);
    int n = (int)c.prog.size();
    add_reserves(t, c);
    vs::draw_policy(t, c.pol, n, 45);
    c.frozen  = true;
    int kills = 1 + t.draw(n - 1 > 3 ? 3 : n - 1);
    c.pol.nsusp = kills;
    for (int i = 0; i != kills; ++i)
        c.pol.susp[i] = vs::Suspension { i, 1 + t.draw(40), 2, 0 };
    vs::cfg.step_limit = 6000;
    note_case(c, kind, val);
    dispatch_value(cx, c, kind, val);
}

PBT_SCENARIO(queue_bulk, "2-6 threads x up to 40 operations on a queue of up to 300 nodes holding up to 300 elements, judged by the pairwise FIFO conditions; non-trivial: at least one preemption inside the run and more than 20 elements travelled")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    c.weak = cx.opt("weak") ? true : cx.opt("sc") ? false : t.draw(4) == 3;
    draw_container(t, c, kind, val);
    c.bulk      = true;
    kind        = kind == 0 ? 0 : kind < 3 ? 1 : 5;
    c.fixed     = kind != 0;
    c.n         = kind == 5 ? 64 : draw_count(t) + (kind == 1);
    c.agelen    = 1 + draw_count(t);
    c.age       = t.draw(3);
    c.prefill   = draw_count(t);
    if (c.fixed && c.prefill > c.n)
        c.prefill = c.n - t.draw(3) % (c.n + 1);
    static const int mo[] = { 4, 12, 40, 20 };
    draw_programs(t, c, 2 + t.draw(5), mo[t.draw(4)], true);
    uint32_t id = 1000, total = 0;
    for (auto& p : c.prog)
        for (auto& o : p) {
            if (o.n)
                o.a = id++;
            total += o.code == CONSALL || o.code == CONSALLC ? c.prefill / 2 + 1 : 1;
        }
    add_reserves(t, c);
    vs::draw_policy(t, c.pol, (int)c.prog.size(), 1 + 12 * total / (uint32_t)c.prog.size());
    vs::cfg.step_limit = 400000;
    note_case(c, kind, val);
    if (c.weak)
        PBT_LABEL("weak memory");
    dispatch_value(cx, c, kind, val);
    if (total < 20)
        cx.nontrivial = false;
}

PBT_SCENARIO(queue_harass, "one thread whose every compare-and-swap is preceded by a change of that location through others, for up to 100 attempts in a row; the others repeat a short generated pattern of operations; non-trivial: at least 4 preemptions inside the run")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    if (t.draw(2)) {
        kind        = kind == 0 ? 0 : kind < 3 ? 1 : 5;
        c.nodebased = kind == 0;
        c.fixed     = kind != 0;
        c.n         = kind == 5 ? 64 : 1 + t.draw(12);
        c.prefill = std::min< uint32_t >(c.n, t.draw(8));
    }
    static const uint32_t rounds[] = { 2, 4, 8, 12, 20, 40, 70, 100 };
    c.pol.kind   = 3;
    c.pol.rounds = rounds[t.draw(8)] + t.draw(3);
    c.pol.linger = t.draw(3) ? t.draw(30) : 0;
    c.pol.skip   = t.draw(2) ? t.draw(6) : 0;
    draw_programs(t, c, 2 + t.draw(2), 3, true);
    uint32_t others = (uint32_t)c.prog.size() - 1, total = std::min(c.pol.rounds * 2 + 4, 110u), id = 100;
    for (uint32_t i = 1; i <= others; ++i) {
        std::vector< ProgOp > pattern = c.prog[i];
        static const int more[] = { PUSH, POP, BPUSH, CONS1 };
        pattern.push_back(ProgOp { more[t.draw(4)], 0, 0 });
        c.prog[i].clear();
        while (c.prog[i].size() < total / others)
            for (auto o : pattern) {
                if (o.code == CONSALL || o.code == CONSALLC)
                    o.code = POP;
                o.n = o.code == PUSH || o.code == BPUSH;
                o.a = o.n ? id++ : 0;
                c.prog[i].push_back(o);
            }
    }
    note_case(c, kind, val);
    dispatch_value(cx, c, kind, val);
    if (vs::switches() < 4)
        cx.nontrivial = false;
    if (vs::switches() > 60)
        PBT_LABEL("more than 30 failures");
}
