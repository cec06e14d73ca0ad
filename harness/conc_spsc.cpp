// spsc_queue under an owned scheduler and memory model: generators.
#include "conc_spsc.hpp"

spsc_runner spsc_runners[NVAL];

static void draw_container(pbt::Tape& t, Case& c, int& kind, int& val)
{
    kind                         = t.draw(4);
    val                          = draw_val(t, NVAL);
    static const uint32_t cap[] = { 0, 1, 2, 5 };
    c.n                          = kind == 0 ? 1 + t.draw(6) : cap[kind];
    c.rot                        = t.draw(c.n + 2);
    c.rotbatch                   = 1 + t.draw(c.n);
    c.prefill                    = t.draw(c.n + 1);
}

static void note_case(Case const& c, int kind, int val)
{
    static const char* vn[] = { "8-byte element", "24-byte element", "16-byte trivially destructible element", "uint64_t", "uint16_t", "80-byte element" };
    pbt::note("spsc_queue %s capacity %u of %s, ring rotated by %u, prefilled %u%s\n", kind ? "compile-time sized" : "run-time sized", c.n, vn[val], c.rot, c.prefill, c.weak ? ", weak memory" : "");
    note_prog(c.prog, opname);
    note_policy(c.pol);
}

// focus: 0 everything, 1 single elements, 2 batches, 3 availability and front
static ProgOp draw_push(pbt::Tape& t, int focus, uint32_t cap)
{
    static const int tb[4][8] = { { PUSH, PUSHN, PUSHR, PUSHA2, PUSHA3, WAVAIL, PUSH, EMPTY },
                                  { PUSH, PUSH, PUSH, PUSH, PUSH, PUSH, WAVAIL, PUSH },
                                  { PUSHN, PUSHR, PUSHA2, PUSHN, PUSHR, PUSHA3, PUSHN, PUSH },
                                  { PUSH, WAVAIL, PUSHN, WAVAIL, PUSH, PUSHR, EMPTY, WAVAIL } };
    ProgOp o = { tb[focus][t.draw(8)], 0, 0 };
    if (o.code == PUSHN || o.code == PUSHR) {
        o.a = 1;
        o.n = t.draw(cap + 3);
    }
    return o;
}
static ProgOp draw_pop(pbt::Tape& t, int focus, uint32_t cap)
{
    static const int tb[4][16] = { { POP, POPN, CONSALL, POPU, CONS1, POPIT, FRONT, RAVAIL, POPV, POPA2, CONS1C, CONSALLC, POPA3, POP, EMPTY, POPN },
                                   { POP, POPU, CONS1, POPV, CONS1C, POP, RAVAIL, FRONT, POP, POPU, CONS1, POPV, CONS1C, POP, POP, EMPTY },
                                   { POPN, POPIT, CONSALL, CONSALLC, POPA2, POPA3, POPN, POPIT, CONSALL, CONSALLC, POPA2, POPA3, POPN, POP, POPN, RAVAIL },
                                   { POP, RAVAIL, FRONT, POPN, RAVAIL, FRONT, CONS1, POPV, RAVAIL, FRONT, EMPTY, CONSALL, POPIT, RAVAIL, FRONT, POPU } };
    ProgOp o = { tb[focus][t.draw(16)], 0, 0 };
    if (o.code == POPN)
        o.n = t.draw(cap + 3);
    if (o.code == FRONT)
        o.n = t.draw(2);
    return o;
}

static void draw_programs(pbt::Tape& t, Case& c, int maxops, int focus = -1)
{
    if (focus < 0)
        focus = t.draw(4);
    c.prog.assign(2, std::vector< ProgOp >());
    int a = 1 + t.draw(maxops), b = 1 + t.draw(maxops);
    for (int i = 0; i != a; ++i)
        c.prog[0].push_back(draw_push(t, focus, c.n));
    for (int i = 0; i != b; ++i)
        c.prog[1].push_back(draw_pop(t, focus, c.n));
}

PBT_SCENARIO(spsc_fifo, "one producer and one consumer with 1-8 generated operations each (single, batch, array, range, iterator, functor, availability, front) on a rotated, prefilled ring of any kind under a generated schedule (and, half the time, generated stale loads); non-trivial: preempted, and both sides transferred elements")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    c.weak = cx.opt("weak") ? t.draw(8) != 0 : cx.opt("sc") ? false : t.draw(2) == 1;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 8, cx.opt("avail") ? 3 : -1);
    vs::draw_policy(t, c.pol, 2, 50);
    note_case(c, kind, val);
    if (c.weak)
        PBT_LABEL("weak memory");
    spsc_runners[val](cx, c, kind);
}

PBT_SCENARIO(spsc_stall, "one side stopped forever at a generated step of a generated operation; every operation of the other side must finish within its own step bound and be correct; non-trivial: a side was stopped and both had transferred elements")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    draw_container(t, c, kind, val);
    draw_programs(t, c, 6);
    vs::draw_policy(t, c.pol, 2, 50);
    c.frozen        = true;
    c.pol.nsusp     = 1;
    c.pol.susp[0]   = vs::Suspension { (int)t.draw(2), 1 + t.draw(60), 2, 0 };
    c.weak          = t.draw(4) == 3;
    vs::cfg.step_limit = 6000;
    note_case(c, kind, val);
    spsc_runners[val](cx, c, kind);
}

PBT_SCENARIO(spsc_bulk, "one producer and one consumer with 1-4 generated operations each, batches of up to the capacity, on a rotated, prefilled ring of up to 300 places (64 at compile time); non-trivial: preempted, and both sides transferred elements")
{
    vs::begin_case();
    pbt::Tape& t = cx.tape;
    Case       c;
    int        kind, val;
    c.weak = cx.opt("weak") ? true : cx.opt("sc") ? false : t.draw(4) == 3;
    draw_container(t, c, kind, val);
    kind       = kind < 2 ? 0 : 4;
    c.n        = kind == 4 ? 64 : 1 + draw_count(t);
    c.rot      = t.draw(c.n + 2);
    c.rotbatch = 1 + t.draw(c.n);
    c.prefill  = t.draw(c.n + 1);
    draw_programs(t, c, 4);
    vs::draw_policy(t, c.pol, 2, 30 + 8 * c.n);
    vs::cfg.step_limit = 400000;
    note_case(c, kind, val);
    if (c.weak)
        PBT_LABEL("weak memory");
    spsc_runners[val](cx, c, kind);
}
