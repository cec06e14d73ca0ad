// stack used by one thread against a bounded LIFO model: generators and oracle.
#include "seq_stack.hpp"
#include "seq_model.hpp"
#include <algorithm>

std::vector< BoxInfo > boxes[NVAL];
const char* const value_name[NVAL] = { "uint32_t", "uint8_t", "double", "37-byte struct", "24-byte class with observed life cycle", "40-byte class, not assignable, not default constructible", "256-byte class aligned to 128 with observed life cycle", "5-byte class with observed life cycle" };
const char* const iter_name[ITERS]  = { "pointer to const", "pointer", "forward iterator", "list iterator", "vector iterator", "forward_list iterator" };
static const char* const op_name[NOPS] = { "push", "bounded_push", "unsynchronized_push", "ranged push", "ranged bounded_push", "ranged unsynchronized_push", "pop", "unsynchronized_pop", "pop<U>", "unsynchronized_pop<U>", "consume_one", "consume_all", "consume_all_atomic", "consume_all_atomic_reversed", "empty", "reserve", "reserve_unsafe", "recreate", "is_lock_free" };
static bool is_range(int c) { return c >= RPUSH && c <= RUPUSH; }
static bool is_consume(int c) { return c >= CONS1 && c <= CONSREV; }

static std::string show_call(Call const& c)
{
    std::string s = "#" + std::to_string(c.inst) + "." + op_name[c.code];
    if (!c.ids.empty() || is_range(c.code))
        s += show_ids(c.ids);
    if (is_range(c.code))
        s += std::string(" by ") + iter_name[c.variant];
    if (is_consume(c.code))
        s += std::string("(") + functor_name[c.variant] + ")";
    if (c.code == RESERVE || c.code == RESERVEU || c.code == RECREATE)
        s += "(" + std::to_string(c.n) + ")";
    if (c.alloc_fault)
        s += " [allocation " + std::to_string(c.alloc_fault) + " fails]";
    if (c.copy_fault)
        s += " [copy " + std::to_string(c.copy_fault) + " throws]";
    return s;
}

static uint32_t draw_size(pbt::Tape& t)
{
    switch (t.draw(8)) {
    case 6: return t.draw(40);
    case 7: return t.draw(300);
    case 5: return 0;
    default: return t.draw(6);
    }
}

static void destroy(Judge& j, Inst& i)
{
    if (!i.alive)
        return;
    i.arena->may_free = true;
    i.b->box->destroy();
    i.arena->may_free = false;
    i.alive           = false;
    i.q.clear();
    j.after_each("destruction");
}

// returns false if the injected fault made the constructor throw
static bool create(Judge& j, Inst& i, uint32_t n, uint32_t alloc_fault)
{
    Arena& a       = *i.arena;
    i.alloc_nodes0 = a.nodes;
    size_t live0   = a.live.size();
    size_t calls0  = a.calls;
    a.may_free     = true;
    a.countdown    = alloc_fault;
    a.fired        = false;
    Outcome o;
    guarded(o, [&] { i.b->box->create(n, i.arena, 0); });
    a.countdown = 0;
    a.may_free  = false;
    if (o.threw_alloc || o.threw_other) {
        if (o.threw_other || !a.fired)
            pbt::fail("exception", "constructing %s with n=%u threw %s", i.b->name, n, o.what.c_str());
        i.b->box->destroy();
        if (a.live.size() != live0)
            pbt::fail("leak", "the constructor of %s (n=%u) threw because allocation %u failed and leaked %zu blocks", i.b->name, n, alloc_fault, a.live.size() - live0);
        j.fault_seen = true;
        j.after_each("a failed construction");
        return false;
    }
    if (a.fired)
        pbt::fail("swallowed", "an allocation failed during construction of %s but no exception was thrown", i.b->name);
    i.alive = true;
    i.q.clear();
    i.n     = n;
    i.nodes = i.b->ctime ? i.b->cap : n;
    if (i.b->audited && !i.b->fixed && a.nodes - i.alloc_nodes0 != n)
        pbt::fail("node-count", "constructing %s with n=%u allocated %zu nodes instead of n", i.b->name, n, a.nodes - i.alloc_nodes0);
    if (i.b->audited && i.b->fixed && !i.b->ctime && a.calls == calls0)
        pbt::fail("wrong-allocator", "constructing %s did not use its allocator", i.b->name);
    j.after_each("construction");
    return true;
}

static void judge(Judge& j, Inst& i, Call const& c, Outcome const& o, size_t nodes_before, size_t calls_before)
{
    std::string txt   = show_call(c);
    const char* what  = txt.c_str();
    Arena&      a     = *i.arena;
    size_t      fresh = a.nodes - nodes_before;
    size_t      calls = a.calls - calls_before;
    if (o.threw_other)
        pbt::fail("exception", "%s threw %s", what, o.what.c_str());
    if (o.threw_alloc && !a.fired)
        pbt::fail("exception", "%s threw an allocation failure out of nowhere", what);
    if (!o.threw_alloc && a.fired)
        pbt::fail("swallowed", "%s: an allocation failed but no exception reached the caller", what);
    if (!o.threw_copy && copy_fired)
        pbt::fail("swallowed", "%s: a copy threw but no exception reached the caller", what);
    bool threw = o.threw_alloc || o.threw_copy;
    j.fault_seen |= threw;
    auto bools = [&](bool expect) {
        if (o.ret != expect)
            pbt::fail("wrong-result", "%s returned %d with %zu of %u places used, model says %d", what, o.ret, i.q.size(), i.nodes, expect);
    };
    auto outs = [&](size_t n, bool oldest_first) {
        std::vector< uint32_t > e(i.q.end() - n, i.q.end());
        if (!oldest_first)
            std::reverse(e.begin(), e.end());
        if (o.out != e)
            pbt::fail("wrong-elements", "%s obtained %s, model says %s", what, show_ids(o.out).c_str(), show_ids(e).c_str());
        i.q.erase(i.q.end() - n, i.q.end());
        j.moved |= n > 0;
        j.bulk |= n > 1;
    };
    switch (c.code) {
    case PUSH:
    case BPUSH:
    case UPUSH:
    case RPUSH:
    case RBPUSH:
    case RUPUSH: {
        bool   bounded = i.b->fixed || c.code == BPUSH || c.code == RBPUSH;
        size_t room    = i.nodes - i.q.size(), want = c.ids.size();
        size_t take    = bounded && want > room ? room : want;
        size_t grow    = take > room ? take - room : 0;
        j.full_seen |= want > room;
        if (i.b->audited) {
            if (bounded && calls)
                pbt::fail("allocated", "%s called the allocator %zu times", what, calls);
            if (!grow && calls)
                pbt::fail("allocated", "%s allocated although enough nodes were free", what);
            if (!threw && fresh != grow)
                pbt::fail("node-count", "%s allocated %zu nodes instead of %zu", what, fresh, grow);
            if (fresh > grow)
                pbt::fail("node-count", "%s allocated %zu nodes, at most %zu were missing", what, fresh, grow);
            i.nodes += (uint32_t)fresh;
        } else
            i.nodes += (uint32_t)grow;
        if (threw)
            break; // nothing of the push may be visible: the model stays as it is
        if (is_range(c.code)) {
            if (o.count != (long)take)
                pbt::fail("wrong-result", "%s returned an iterator to position %ld, model says %zu (%zu of %u places used)", what, o.count, take, i.q.size(), i.nodes);
            j.bulk |= take > 1;
        } else
            bools(take == 1);
        for (size_t k = 0; k != take; ++k)
            i.q.push_back(i.b->canon(c.ids[k]));
        break;
    }
    case POP:
    case UPOP:
    case POPI:
    case UPOPI:
    case CONS1:
        j.empty_seen |= i.q.empty();
        bools(!i.q.empty());
        outs(i.q.empty() ? 0 : 1, false);
        break;
    case CONSALL:
    case CONSATOMIC:
    case CONSREV:
        j.empty_seen |= i.q.empty();
        if (o.count != (long)i.q.size())
            pbt::fail("wrong-result", "%s returned %ld, %zu elements were stored", what, o.count, i.q.size());
        outs(i.q.size(), c.code == CONSREV);
        break;
    case EMPTY:
        if (o.ret != i.q.empty())
            pbt::fail("empty-lies", "%s returned %d, %zu elements are stored", what, o.ret, i.q.size());
        break;
    case LOCKFREE:
        if (!o.ret)
            pbt::fail("wrong-result", "is_lock_free() is false");
        break;
    case RESERVE:
    case RESERVEU:
        if (o.skipped)
            break;
        if (i.b->audited) {
            if (!threw && fresh != c.n)
                pbt::fail("node-count", "%s allocated %zu nodes", what, fresh);
            i.nodes += (uint32_t)fresh;
        } else
            i.nodes += c.n;
        break;
    }
    if (c.code >= POP && c.code != RESERVE && c.code != RESERVEU && calls && i.b->audited)
        pbt::fail("allocated", "%s called the allocator", what);
}

static bool quiet;
static void run(Judge& j, Call const& c)
{
    Inst& i = j.inst[c.inst];
    if (pbt::want_desc() && !quiet)
        pbt::note("  %s", show_call(c).c_str());
    if (c.code == RECREATE) {
        destroy(j, i);
        if (i.arena->live.size())
            pbt::fail("leak", "%zu blocks were not returned by the destructor", i.arena->live.size());
        if (!create(j, i, c.n, c.alloc_fault))
            create(j, i, c.n, 0);
        j.recreated = true;
        if (pbt::want_desc())
            pbt::note("\n");
        return;
    }
    Arena& a           = *i.arena;
    size_t nodes_before = a.nodes, calls_before = a.calls;
    a.fired     = false;
    copy_fired  = false;
    a.countdown = c.alloc_fault;
    Outcome o;
    i.b->box->exec(c, o);
    a.countdown    = 0;
    copy_countdown = 0;
    if (pbt::want_desc() && !quiet)
        pbt::note(" -> %s%s%s\n", o.threw_alloc ? "threw bad_alloc" : o.threw_copy ? "threw from a copy" : o.skipped ? "n/a" : o.count >= 0 ? std::to_string(o.count).c_str() : o.ret ? "true" : "false", o.out.empty() ? "" : " ", o.out.empty() ? "" : show_ids(o.out).c_str());
    judge(j, i, c, o, nodes_before, calls_before);
    j.after_each(op_name[c.code]);
}

// the remaining room is exactly what the model says; then everything comes out in order
static void final_check(pbt::Tape& t, Judge& j, uint32_t& id)
{
    for (size_t k = 0; k != j.inst.size(); ++k) {
        Inst& i    = j.inst[k];
        bool  fill = t.draw(2) == 0;
        if (fill) {
            if (pbt::want_desc())
                pbt::note("  fill up #%zu with bounded pushes and drain it\n", k);
            size_t room = i.nodes - i.q.size(), got = 0;
            for (; got <= room + 1; ++got) {
                Call c;
                c.inst = (int)k;
                c.code = BPUSH;
                c.ids.push_back(id++);
                Outcome o;
                i.b->box->exec(c, o);
                if (!o.ret)
                    break;
                i.q.push_back(i.b->canon(c.ids[0]));
            }
            if (got != room)
                pbt::fail("capacity", "%s should have room for %zu more elements without allocating, it took %zu", i.b->name, room, got);
            j.full_seen = true;
            Call c;
            c.inst = (int)k;
            static const int drains[] = { POP, CONSALL, CONSATOMIC, CONSREV };
            c.code = drains[t.draw(4)];
            if (c.code != POP)
                run(j, c);
            else
                while (!i.q.empty())
                    run(j, c);
            c.code = EMPTY;
            run(j, c);
        }
    }
    for (auto& i : j.inst)
        destroy(j, i);
    for (auto& a : arenas)
        if (!a.live.empty())
            pbt::fail("leak", "%zu blocks were never returned to allocator %d", a.live.size(), a.id);
}

static void drive(pbt::Ctx& cx, bool faults, bool capacity, bool soak = false)
{
    pbt::Tape& t = cx.tape;
    reset_world();
    quiet = false;
    Judge    j;
    uint32_t val = faults ? 4 + t.draw(4) : t.draw(NVAL);
    if (cx.opt("tracked")) { // only element types whose life cycle is observed
        static const uint32_t tr[4] = { 4, 5, 6, 7 };
        val = tr[t.draw(4)];
    }
    if (cx.opt("wide")) { // only element types with a checksum over all their bytes
        static const uint32_t wd[6] = { 2, 3, 4, 5, 6, 7 };
        val = wd[t.draw(6)];
    }
    auto&    bs  = boxes[val];
    uint32_t nb  = (uint32_t)bs.size() / 2;
    // two independent containers, the second one mostly of the same configuration
    uint32_t b0 = t.draw(nb), b1 = t.draw(3) ? b0 : t.draw(nb);
    if ((faults || cx.opt("audited")) && !bs[b0].audited)
        b0 = t.draw(2);
    if ((faults || cx.opt("audited")) && !bs[b1].audited)
        b1 = t.draw(2);
    if (bs[b0].default_alloc_ctor && bs[b1].default_alloc_ctor)
        b1 = 2; // they would share an allocator, which blurs the accounting
    j.inst.resize(2);
    j.inst[0].b     = &bs[b0];
    j.inst[1].b     = &bs[nb + b1];
    for (int k = 0; k != 2; ++k)
        j.inst[k].arena = j.inst[k].b->default_alloc_ctor ? &arenas[3] : &arenas[k];
    for (int k = 0; k != 2; ++k) {
        uint32_t n = draw_size(t), f = faults && t.draw(4) == 3 ? 1 + t.draw(n + 2) : 0;
        if (pbt::want_desc())
            pbt::note("#%d: %s, n=%u, of %s%s\n", k, j.inst[k].b->name, n, value_name[val], f ? " (allocation failure during construction)" : "");
        if (!create(j, j.inst[k], n, f))
            create(j, j.inst[k], n, 0);
        cx.mix(n + 1000 * (k ? b1 : b0) + val * 100000);
    }
    uint32_t id  = 1;
    uint32_t len = soak ? t.draw(8) : t.draw(4) == 3 ? t.draw(200) : t.draw(40);
    uint32_t bias = t.draw(3);
    auto gen = [&]() -> Call {
        if (t.draw(12) == 11)
            bias = t.draw(3);
        Call c;
        c.inst     = t.draw(4) == 3;
        uint32_t r = t.draw(16);
        static const int pushes[] = { PUSH, BPUSH, UPUSH, PUSH, RPUSH, RBPUSH, RUPUSH, RPUSH };
        static const int pops[]   = { POP, UPOP, POPI, UPOPI, POP, UPOP, CONS1, CONS1 };
        if (r < (bias == 0 ? 6u : bias == 1 ? 11u : 3u))
            c.code = pushes[t.draw(8)];
        else if (r < 13)
            c.code = pops[t.draw(8)];
        else {
            static const int misc[]    = { EMPTY, CONSALL, CONSATOMIC, CONSREV, RESERVE, RESERVEU, RECREATE, LOCKFREE };
            static const int misc_cap[] = { RESERVE, RESERVEU, CONSREV, CONSALL, RESERVE, RESERVEU, RECREATE, CONSATOMIC };
            c.code                     = capacity ? misc_cap[t.draw(8)] : misc[t.draw(8)];
        }
        if (c.code == PUSH || c.code == BPUSH || c.code == UPUSH)
            c.ids.push_back(id++);
        if (is_range(c.code)) {
            uint32_t k = t.draw(6) == 5 ? t.draw(t.draw(4) == 3 ? 300 : 40) : t.draw(6);
            while (k-- > 0)
                c.ids.push_back(id++);
            c.variant = t.draw(ITERS);
        }
        if (is_consume(c.code))
            c.variant = t.draw(FUNCTORS);
        if (c.code == RESERVE || c.code == RESERVEU)
            c.n = t.draw(5) == 4 ? t.draw(60) : t.draw(5);
        if (c.code == RECREATE)
            c.n = draw_size(t);
        if (faults && t.draw(3) == 2) {
            if (c.code == RESERVE || c.code == RESERVEU || c.code == RECREATE)
                c.alloc_fault = 1 + t.draw(c.n + 2);
            else if (c.code <= RUPUSH) {
                uint32_t k = 1 + t.draw((uint32_t)c.ids.size() + 1);
                if (t.draw(2))
                    c.alloc_fault = k;
                else
                    c.copy_fault = k;
            }
        }
        cx.mix(c.code * 977 + c.inst * 31 + c.variant + c.n * 7 + c.alloc_fault * 100003 + c.copy_fault * 7001);
        return c;
    };
    for (uint32_t s = 0; s != len; ++s)
        run(j, gen());
    if (soak) {
        // the same few calls over and over: counters of 8 and 16 bits overflow
        uint32_t            reps = (1u << (3 + t.draw(15))) + t.draw(9) - 4;
        std::vector< Call > cycle(1 + t.draw(6));
        for (Call& c : cycle) {
            c = gen();
            if (reps > 100 && (c.code == RESERVE || c.code == RESERVEU || c.code == RECREATE))
                c.code = EMPTY;
        }
        size_t work = 0;
        for (Call& c : cycle)
            work += 1 + c.ids.size();
        if (reps > 600000 / work)
            reps = (uint32_t)(600000 / work);
        if (pbt::want_desc()) {
            pbt::note("  %u times in a row:", reps);
            for (Call& c : cycle)
                pbt::note(" %s;", show_call(c).c_str());
            pbt::note("\n");
        }
        quiet = true;
        for (uint32_t r = 0; r != reps; ++r)
            for (Call& c : cycle) {
                for (uint32_t& x : c.ids)
                    x = id++;
                run(j, c);
                if (j.inst[c.inst].q.size() > 1000) {
                    Call d;
                    d.inst = c.inst;
                    d.code = CONSALL;
                    run(j, d);
                }
            }
        quiet = false;
        if (reps > 60000)
            PBT_LABEL("more than 60000 repetitions");
    }
    final_check(t, j, id);
    if (j.full_seen)
        PBT_LABEL("ran full");
    if (j.empty_seen)
        PBT_LABEL("ran empty");
    if (j.bulk)
        PBT_LABEL("several elements at once");
    if (j.recreated)
        PBT_LABEL("destroyed and recreated in between");
    if (j.fault_seen)
        PBT_LABEL("fault hit");
    cx.nontrivial = j.moved && (faults ? j.fault_seen : (j.full_seen || j.empty_seen));
}

PBT_SCENARIO(stack_model, "a sequence of up to 200 calls on two stacks of generated configuration, element type and size, compared call by call with LIFO models; allocator calls audited; non-trivial: elements travelled and a stack was found full or empty")
{
    drive(cx, false, false);
}
PBT_SCENARIO(stack_capacity, "as stack_model, with many reserve calls and refills, judging the exact number of nodes; non-trivial: elements travelled and a stack was found full or empty")
{
    drive(cx, false, true);
}
PBT_SCENARIO(stack_faults, "as stack_model, with allocation failures and throwing copies injected at generated points of construction, reserve and pushes; non-trivial: elements travelled and a fault fired")
{
    drive(cx, true, false);
}
PBT_SCENARIO(stack_soak, "a generated cycle of up to six calls repeated up to 2^17 times on one of two containers, compared call by call with the model; non-trivial: as for stack_model")
{
    drive(cx, false, false, true);
}
