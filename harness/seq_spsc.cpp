// spsc_queue used sequentially against a bounded FIFO model: generators and oracle.
#include "seq_spsc.hpp"
#include "seq_model.hpp"

std::vector< BoxInfo > boxes[NVAL];
const char* const value_name[NVAL] = { "uint32_t", "uint8_t", "double", "37-byte struct", "24-byte class with observed life cycle", "void*", "256-byte class aligned to 128 with observed life cycle", "5-byte class with observed life cycle" };
const char* const iter_name[ITERS]  = { "pointer to const", "pointer", "forward iterator", "list iterator", "vector iterator", "forward_list iterator" };
const char* const out_name[OUTS]    = { "output iterator", "back_inserter", "list iterator", "pointer", "vector iterator" };
static const char* const op_name[NOPS] = { "push", "push(pointer, count)", "push(array)", "push(range)", "pop()", "pop(T&)", "pop(U&)", "pop(pointer, count)", "pop(array)", "pop(output iterator)", "consume_one", "consume_all", "front", "front() = ", "reset", "empty", "read_available", "write_available", "recreate", "is_lock_free" };

static std::string show_call(Call const& c)
{
    std::string s = "#" + std::to_string(c.inst) + "." + op_name[c.code];
    if (c.code <= PUSHIT || c.code == FRONTMOD)
        s += show_ids(c.ids);
    if (c.code == PUSHIT)
        s += std::string(" by ") + iter_name[c.variant];
    if (c.code == POPIT)
        s += std::string(" to ") + out_name[c.variant];
    if (c.code == CONS1 || c.code == CONSALL)
        s += std::string("(") + functor_name[c.variant] + ")";
    if (c.code == POPN || c.code == RECREATE)
        s += " n=" + std::to_string(c.n);
    if (c.code == POPA)
        s += " of " + std::to_string(array_size(c.variant));
    if (c.alloc_fault)
        s += " [allocation " + std::to_string(c.alloc_fault) + " fails]";
    if (c.copy_fault)
        s += " [copy " + std::to_string(c.copy_fault) + " throws]";
    return s;
}

static uint32_t draw_size(pbt::Tape& t)
{
    switch (t.draw(8)) {
    case 6: return t.draw(40);
    case 7: return t.draw(300);
    case 5: return 0;
    default: return t.draw(8);
    }
}

static void destroy(Judge& j, Inst& i)
{
    if (!i.alive)
        return;
    i.arena->may_free = true;
    i.b->box->destroy();
    i.arena->may_free = false;
    i.alive           = false;
    i.q.clear();
    j.after_each("destruction");
    if (i.arena->live.size())
        pbt::fail("leak", "%zu blocks were not returned by the destructor", i.arena->live.size());
}

// returns false if the injected fault made the constructor throw
static bool create(Judge& j, Inst& i, uint32_t n, uint32_t alloc_fault)
{
    Arena& a      = *i.arena;
    size_t calls0 = a.calls;
    a.may_free    = true;
    a.countdown   = alloc_fault;
    a.fired       = false;
    Outcome o;
    guarded(o, [&] { i.b->box->create(n, i.arena, 0); });
    a.countdown = 0;
    a.may_free  = false;
    if (o.threw_alloc || o.threw_other) {
        if (o.threw_other || !a.fired)
            pbt::fail("exception", "constructing %s with n=%u threw %s", i.b->name, n, o.what.c_str());
        i.b->box->destroy();
        if (a.live.size())
            pbt::fail("leak", "the constructor of %s (n=%u) threw because allocation %u failed and leaked %zu blocks", i.b->name, n, alloc_fault, a.live.size());
        j.fault_seen = true;
        j.after_each("a failed construction");
        return false;
    }
    if (a.fired)
        pbt::fail("swallowed", "an allocation failed during construction of %s but no exception was thrown", i.b->name);
    i.alive = true;
    i.q.clear();
    i.n     = n;
    i.nodes = i.b->ctime ? i.b->cap : n;
    if (i.b->audited && a.calls == calls0)
        pbt::fail("wrong-allocator", "constructing %s did not use its allocator", i.b->name);
    j.after_each("construction");
    return true;
}

static bool wrapped(Inst const& i, uint64_t pos, size_t n) { return n && pos % (i.nodes + 1) + n > i.nodes + 1; }
struct Pos
{
    uint64_t w = 0, r = 0;
    bool     wrapped_batch = false;
};
static Pos pos[2];

static void judge(Judge& j, Inst& i, Call const& c, Outcome const& o, size_t calls_before)
{
    std::string txt  = show_call(c);
    const char* what = txt.c_str();
    Arena&      a    = *i.arena;
    Pos&        p    = pos[c.inst];
    if (o.threw_other)
        pbt::fail("exception", "%s threw %s", what, o.what.c_str());
    if (o.threw_alloc)
        pbt::fail("exception", "%s threw an allocation failure out of nowhere", what);
    if (!o.threw_copy && copy_fired)
        pbt::fail("swallowed", "%s: a copy threw but no exception reached the caller", what);
    if (a.calls != calls_before && i.b->audited)
        pbt::fail("allocated", "%s called the allocator", what);
    j.fault_seen |= o.threw_copy;
    auto bools = [&](bool expect) {
        if (o.ret != expect)
            pbt::fail("wrong-result", "%s returned %d with %zu of %u places used, model says %d", what, o.ret, i.q.size(), i.nodes, expect);
    };
    auto count = [&](size_t expect) {
        if (o.count != (long)expect)
            pbt::fail("wrong-result", "%s returned %ld with %zu of %u places used, model says %zu", what, o.count, i.q.size(), i.nodes, expect);
    };
    auto outs = [&](size_t n, bool visible = true) {
        std::vector< uint32_t > e(i.q.begin(), i.q.begin() + n);
        if (visible && o.out != e)
            pbt::fail("wrong-elements", "%s obtained %s, model says %s", what, show_ids(o.out).c_str(), show_ids(e).c_str());
        p.wrapped_batch |= wrapped(i, p.r, n);
        p.r += n;
        i.q.erase(i.q.begin(), i.q.begin() + n);
        j.moved |= n > 0;
        j.bulk |= n > 1;
    };
    j.empty_seen |= c.code >= POP0 && c.code <= CONSALL && i.q.empty();
    switch (c.code) {
    case PUSH1:
    case PUSHN:
    case PUSHA:
    case PUSHIT: {
        size_t room = i.nodes - i.q.size(), want = c.ids.size(), take = want < room ? want : room;
        j.full_seen |= want > room;
        if (o.threw_copy)
            break;
        if (c.code == PUSH1)
            bools(take == 1);
        else
            count(take);
        p.wrapped_batch |= wrapped(i, p.w, take);
        p.w += take;
        j.bulk |= take > 1;
        for (size_t k = 0; k != take; ++k)
            i.q.push_back(i.b->canon(c.ids[k]));
        break;
    }
    case POP0:
        bools(!i.q.empty());
        outs(i.q.empty() ? 0 : 1, false);
        break;
    case POP1:
    case POPI:
    case CONS1:
        bools(!i.q.empty());
        outs(i.q.empty() ? 0 : 1);
        break;
    case POPN:
    case POPA: {
        size_t n = c.code == POPN ? c.n : array_size(c.variant);
        n        = n < i.q.size() ? n : i.q.size();
        count(n);
        outs(n);
        break;
    }
    case POPIT:
    case CONSALL:
        count(i.q.size());
        outs(i.q.size());
        break;
    case FRONT:
        if (o.out[0] != i.q.front())
            pbt::fail("wrong-elements", "%s refers to %u, the oldest element is %u", what, o.out[0], i.q.front());
        break;
    case FRONTMOD: i.q.front() = i.b->canon(c.ids[0]); break;
    case RESET:
        i.q.clear();
        break;
    case EMPTY:
        if (o.ret != i.q.empty())
            pbt::fail("empty-lies", "%s returned %d, %zu elements are stored", what, o.ret, i.q.size());
        break;
    case RAVAIL: count(i.q.size()); break;
    case WAVAIL: count(i.nodes - i.q.size()); break;
    case LOCKFREE:
        if (!o.ret)
            pbt::fail("wrong-result", "is_lock_free() is false");
        break;
    }
}

static bool quiet;
static void run(Judge& j, Call c)
{
    Inst& i = j.inst[c.inst];
    if ((c.code == FRONT || c.code == FRONTMOD) && i.q.empty())
        c.code = RAVAIL; // undefined on an empty queue
    if (c.code == POPIT)
        c.n = (uint32_t)i.q.size() + c.n; // room for everything and a bit more
    if (pbt::want_desc() && !quiet)
        pbt::note("  %s", show_call(c).c_str());
    if (c.code == RECREATE) {
        destroy(j, i);
        pos[c.inst] = Pos();
        if (!create(j, i, c.n, c.alloc_fault))
            create(j, i, c.n, 0);
        j.recreated = true;
        if (pbt::want_desc())
            pbt::note("\n");
        return;
    }
    size_t calls_before = i.arena->calls;
    copy_fired          = false;
    Outcome o;
    i.b->box->exec(c, o);
    copy_countdown = 0;
    if (pbt::want_desc() && !quiet)
        pbt::note(" -> %s%s%s\n", o.threw_copy ? "threw from a copy" : o.count >= 0 ? std::to_string(o.count).c_str() : o.ret ? "true" : "false", o.out.empty() ? "" : " ", o.out.empty() ? "" : show_ids(o.out).c_str());
    judge(j, i, c, o, calls_before);
    j.after_each(op_name[c.code]);
}

static void drive(pbt::Ctx& cx, bool faults, bool soak = false)
{
    pbt::Tape& t = cx.tape;
    reset_world();
    quiet = false;
    pos[0] = pos[1] = Pos();
    Judge    j;
    static const uint32_t thrower[3] = { 4, 6, 7 };
    uint32_t val = faults ? thrower[t.draw(3)] : t.draw(NVAL);
    if (cx.opt("tracked")) { // only element types whose life cycle is observed
        static const uint32_t tr[3] = { 4, 6, 7 };
        val = tr[t.draw(3)];
    }
    if (cx.opt("wide")) { // only element types with a checksum over all their bytes
        static const uint32_t wd[6] = { 2, 3, 4, 5, 6, 7 };
        val = wd[t.draw(6)];
    }
    auto&    bs  = boxes[val];
    uint32_t nb  = (uint32_t)bs.size() / 2;
    uint32_t b0 = t.draw(nb), b1 = t.draw(3) ? b0 : t.draw(nb);
    if (cx.opt("audited") && !bs[b0].audited)
        b0 = 0;
    if (cx.opt("audited") && !bs[b1].audited)
        b1 = 0;
    if (bs[b0].default_alloc_ctor && bs[b1].default_alloc_ctor)
        b1 = 0; // they would share an allocator, which blurs the accounting
    j.inst.resize(2);
    j.inst[0].b = &bs[b0];
    j.inst[1].b = &bs[nb + b1];
    for (int k = 0; k != 2; ++k)
        j.inst[k].arena = j.inst[k].b->default_alloc_ctor ? &arenas[3] : &arenas[k];
    for (int k = 0; k != 2; ++k) {
        uint32_t n = draw_size(t), f = faults && j.inst[k].b->audited && t.draw(4) == 3 ? 1 + t.draw(2) : 0;
        if (pbt::want_desc())
            pbt::note("#%d: %s, n=%u, of %s%s\n", k, j.inst[k].b->name, n, value_name[val], f ? " (allocation failure during construction)" : "");
        if (!create(j, j.inst[k], n, f))
            create(j, j.inst[k], n, 0);
        cx.mix(n + 1000 * (k ? b1 : b0) + val * 100000);
    }
    uint32_t id   = 1;
    uint32_t len  = soak ? t.draw(8) : t.draw(4) == 3 ? t.draw(200) : t.draw(40);
    uint32_t bias = t.draw(3);
    auto gen = [&]() -> Call {
        if (t.draw(12) == 11)
            bias = t.draw(3);
        Call c;
        c.inst     = t.draw(4) == 3;
        uint32_t r = t.draw(20);
        uint32_t capacity = j.inst[c.inst].nodes;
        static const int pushes[] = { PUSH1, PUSHN, PUSHIT, PUSHA };
        static const int pops[]   = { POP1, POPN, CONS1, POP0, POPA, POPI, POPIT, CONSALL };
        static const int misc[]   = { EMPTY, RAVAIL, WAVAIL, FRONT, FRONTMOD, RESET, RECREATE, LOCKFREE };
        if (r < (bias == 0 ? 7u : bias == 1 ? 11u : 4u))
            c.code = pushes[t.draw(4)];
        else if (r < 16)
            c.code = pops[t.draw(8)];
        else
            c.code = misc[t.draw(8)];
        uint32_t k = t.draw(4) == 3 ? t.draw(capacity + 3) : t.draw(6); // batch size
        if (c.code == PUSH1 || c.code == FRONTMOD)
            k = 1;
        if (c.code == PUSHA || c.code == POPA) {
            c.variant = t.draw(5);
            k         = array_size(c.variant);
        }
        if (c.code <= PUSHIT || c.code == FRONTMOD)
            for (uint32_t x = 0; x != k; ++x)
                c.ids.push_back(id++);
        if (c.code == PUSHIT)
            c.variant = t.draw(ITERS);
        if (c.code == POPIT)
            c.variant = t.draw(OUTS);
        if (c.code == FRONT)
            c.variant = t.draw(2);
        if (c.code == CONS1 || c.code == CONSALL)
            c.variant = t.draw(FUNCTORS);
        if (c.code == POPN)
            c.n = k;
        if (c.code == POPIT)
            c.n = t.draw(3);
        if (c.code == RECREATE)
            c.n = draw_size(t);
        if (faults && t.draw(3) == 2) {
            if (c.code == RECREATE)
                c.alloc_fault = j.inst[c.inst].b->audited;
            else if (c.code <= PUSHIT)
                c.copy_fault = 1 + t.draw((uint32_t)c.ids.size() + 1);
        }
        cx.mix(c.code * 977 + c.inst * 31 + c.variant + c.n * 7 + (uint32_t)c.ids.size() * 313 + c.alloc_fault * 100003 + c.copy_fault * 7001);
        return c;
    };
    for (uint32_t s = 0; s != len; ++s)
        run(j, gen());
    if (soak) {
        // the same few calls over and over: counters of 8 and 16 bits overflow
        uint32_t            reps = (1u << (3 + t.draw(15))) + t.draw(9) - 4;
        std::vector< Call > cycle(1 + t.draw(6));
        for (Call& c : cycle) {
            c = gen();
            if (reps > 100 && (c.code == RECREATE))
                c.code = EMPTY;
        }
        size_t work = 0;
        for (Call& c : cycle)
            work += 1 + c.ids.size();
        if (reps > 600000 / work)
            reps = (uint32_t)(600000 / work);
        if (pbt::want_desc()) {
            pbt::note("  %u times in a row:", reps);
            for (Call& c : cycle)
                pbt::note(" %s;", show_call(c).c_str());
            pbt::note("\n");
        }
        quiet = true;
        for (uint32_t r = 0; r != reps; ++r)
            for (Call& c : cycle) {
                for (uint32_t& x : c.ids)
                    x = id++;
                run(j, c);
                if (j.inst[c.inst].q.size() > 1000) {
                    Call d;
                    d.inst = c.inst;
                    d.code = CONSALL;
                    run(j, d);
                }
            }
        quiet = false;
        if (reps > 60000)
            PBT_LABEL("more than 60000 repetitions");
    }
    // fill up and drain
    for (int k = 0; k != 2; ++k)
        if (t.draw(2) == 0) {
            Inst&  i    = j.inst[k];
            size_t room = i.nodes - i.q.size(), got = 0;
            for (; got <= room + 1; ++got) {
                Call c;
                c.inst = k;
                c.code = PUSH1;
                c.ids.push_back(id++);
                Outcome o;
                i.b->box->exec(c, o);
                if (!o.ret)
                    break;
                i.q.push_back(i.b->canon(c.ids[0]));
            }
            if (got != room)
                pbt::fail("capacity", "%s should have room for %zu more elements, it took %zu", i.b->name, room, got);
            j.full_seen = true;
            Call c;
            c.inst = k;
            static const int drains[] = { CONSALL, POPIT, POPN };
            c.code = drains[t.draw(3)];
            c.n    = c.code == POPN ? (uint32_t)i.q.size() : 0;
            run(j, c);
            c.code = EMPTY;
            run(j, c);
        }
    bool wb = pos[0].wrapped_batch || pos[1].wrapped_batch;
    for (auto& i : j.inst)
        destroy(j, i);
    for (auto& a : arenas)
        if (!a.live.empty())
            pbt::fail("leak", "%zu blocks were never returned to allocator %d", a.live.size(), a.id);
    if (j.full_seen)
        PBT_LABEL("ran full");
    if (j.empty_seen)
        PBT_LABEL("ran empty");
    if (j.bulk)
        PBT_LABEL("several elements at once");
    if (wb)
        PBT_LABEL("batch across the wrap-around");
    if (j.recreated)
        PBT_LABEL("destroyed and recreated in between");
    if (j.fault_seen)
        PBT_LABEL("fault hit");
    cx.nontrivial = j.moved && (faults ? j.fault_seen : j.full_seen || wb);
}

PBT_SCENARIO(spsc_model, "a sequence of up to 200 calls on two spsc_queues of generated configuration, element type and size, compared call by call with FIFO models; allocator calls and element life cycles audited; non-trivial: elements travelled and a queue ran full or a batch crossed the wrap-around")
{
    drive(cx, false);
}
PBT_SCENARIO(spsc_faults, "as spsc_model, with throwing copies and failing allocations injected at generated points; non-trivial: elements travelled and a fault fired")
{
    drive(cx, true);
}
PBT_SCENARIO(spsc_soak, "a generated cycle of up to six calls repeated up to 2^17 times on one of two containers, compared call by call with the model; non-trivial: as for spsc_model")
{
    drive(cx, false, true);
}
