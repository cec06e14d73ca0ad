// Compile-time sized containers shared by real processes that map them at different addresses.
#include "native.hpp"

#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>

#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

namespace native { namespace {
namespace blf = boost::lockfree;

const size_t SEG   = 16384;
const int    PROCS = 4, MAXOPS = 400, MAXIDS = 3000;

struct Side
{
    uint32_t nops, nids;
    uint64_t torn;
    bool     finished;
    Op       ops[MAXOPS];
    uint64_t ids[MAXIDS];
};
struct Control
{
    std::atomic< int >      ready;
    std::atomic< uint64_t > ids;
    std::atomic< int >      done;
    Side                    side[PROCS];
};
int      seg_fd = -1;
Control* ctl;
char*    mine; // the creator's view
void*    hint(int i) { return (void*)(0x10000000000ull * (unsigned)(i + 1) + 0x1230000ull * (unsigned)i); }

void open_segment()
{
    if (ctl)
        return;
    seg_fd = memfd_create("seg", 0);
    if (seg_fd < 0 || ftruncate(seg_fd, (off_t)SEG) != 0)
        abort();
    ctl  = (Control*)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mine = (char*)mmap(nullptr, SEG, PROT_READ | PROT_WRITE, MAP_SHARED, seg_fd, 0);
    if (ctl == MAP_FAILED || mine == MAP_FAILED)
        abort();
}

template < class C, class T, int KIND> // 0 queue, 1 stack, 2 spsc
struct Shared
{
    pbt::Ctx&   cx;
    const char* conf;
    size_t      cap;
    uint32_t    procs, ops, delay[PROCS], role[PROCS];
    uint64_t    seed;
    size_t      off;

    struct Get
    {
        Side* s;
        void operator()(T const& x) const { got(s, x); }
    };
    static void got(Side* s, T const& x)
    {
        if (!x.intact())
            ++s->torn;
        if (s->nids < MAXIDS)
            s->ids[s->nids++] = x.id();
    }
    void work(C* c, int me, Rng& r)
    {
        Side* s = &ctl->side[me];
        for (uint32_t i = 0; i != ops && s->nids + 40 < MAXIDS; ++i) {
            Op& o   = s->ops[s->nops];
            o       = Op();
            o.first = s->nids;
            bool push = role[me] == 0 ? r.draw(2) : role[me] == 1;
            if (push) {
                if (KIND == 2 && r.draw(3) == 0) {
                    T        v[6];
                    uint32_t n  = 1 + r.draw(6);
                    uint64_t id = ctl->ids.load(std::memory_order_relaxed); // one producer
                    for (uint32_t k = 0; k != n; ++k)
                        v[k] = T::make(id + k);
                    o.kind = RANGE, o.asked = n;
                    if constexpr (KIND == 2)
                        o.n = (uint32_t)c->push(v, n);
                    for (uint32_t k = 0; k != o.n; ++k)
                        s->ids[s->nids++] = id + k;
                    ctl->ids.store(id + o.n, std::memory_order_relaxed);
                } else {
                    uint64_t id = ctl->ids.fetch_add(1, std::memory_order_relaxed);
                    T        x  = T::make(id);
                    o.kind = PUSH, o.asked = 1;
                    o.s  = now();
                    o.ok = c->push(x);
                    o.e  = now();
                    o.n  = o.ok;
                    if (o.ok)
                        s->ids[s->nids++] = id;
                    else if (KIND == 2)
                        ctl->ids.store(id, std::memory_order_relaxed);
                }
            } else {
                Get    g{ s };
                T      x = T::make(0);
                size_t n;
                switch (r.draw(6)) {
                case 0:
                    o.kind = ALL, o.s = now();
                    n = c->consume_all(g);
                    break;
                case 1:
                case 2:
                    o.kind = ONE, o.s = now();
                    n = c->consume_one(g);
                    break;
                case 3:
                    if constexpr (KIND == 1) {
                        o.kind = ATOMIC, o.s = now();
                        n = c->consume_all_atomic(g);
                        break;
                    }
                    [[fallthrough]];
                default:
                    o.kind = POP, o.s = now();
                    n = c->pop(x);
                }
                o.e = now();
                if (o.kind == POP && n)
                    got(s, x);
                o.n = s->nids - o.first;
                if (o.n != n)
                    s->torn += 1000000;
            }
            ++s->nops;
            slow_down(r, delay[me]);
        }
        s->finished = true;
    }
    void child(int me)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        void* p = mmap(hint(me), SEG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, seg_fd, 0);
        if (p == MAP_FAILED)
            _exit(3);
        munmap(mine, SEG);
        Rng r{ seed * 0x9e3779b97f4a7c15ull ^ ((uint64_t)(me + 1) << 40) };
        ctl->ready.fetch_add(1);
        while (ctl->ready.load() < (int)procs)
            sched_yield();
        work((C*)((char*)p + off), me, r);
        _exit(0);
    }
    void once()
    {
        memset(mine, 0x5a, SEG);
        new (mine + off) C;
        ctl->ready = 0, ctl->ids = 1, ctl->done = 0;
        for (auto& s : ctl->side)
            s.nops = s.nids = 0, s.torn = 0, s.finished = false;
        pid_t pid[PROCS];
        for (uint32_t i = 0; i != procs; ++i)
            if ((pid[i] = fork()) == 0)
                child((int)i);
        bool bad = false, unable = false;
        int  sig = 0;
        for (uint32_t i = 0; i != procs; ++i) {
            int st = 0;
            if (pid[i] < 0) {
                unable = true;
                continue;
            }
            while (waitpid(pid[i], &st, 0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL)
                bad = true, sig = WTERMSIG(st);
            else if (st != 0)
                unable = true;
        }
        if (bad)
            pbt::fail("crash-in-process", "%s: a process that uses the container through its own mapping died of signal %d", conf, sig);
        if (unable)
            return; // no more processes or address space: says nothing
        C*                 c = (C*)(mine + off);
        std::vector< Log > logs(procs + 1);
        for (uint32_t i = 0; i != procs; ++i) {
            Side& s = ctl->side[i];
            logs[i].ops.assign(s.ops, s.ops + s.nops);
            logs[i].ids.assign(s.ids, s.ids + s.nids);
            logs[i].torn = s.torn;
        }
        // the creator takes the rest
        Log& l = logs[procs];
        struct Rest
        {
            Log* l;
            void operator()(T const& x) const { l->got(x); }
        } rest{ &l };
        Op o     = Op();
        o.kind   = ALL;
        o.s      = now();
        size_t n = c->consume_all(rest);
        o.e      = now();
        o.n      = (uint32_t)l.ids.size();
        if (n != o.n || !c->empty())
            pbt::fail("wrong-result", "%s: consume_all after the processes ended returned %zu and called the functor %u times", conf, n, o.n);
        l.ops.push_back(o);
        if (KIND != 2)
            judge(cx, logs, KIND == 1, cap, conf);
        else {
            uint64_t next = 1;
            for (uint32_t i = 1; i <= procs; ++i) { // the consumer, then the creator
                if (logs[i].torn)
                    pbt::fail("torn-element", "%s: elements came back changed", conf);
                for (auto id : logs[i].ids)
                    if (id != next++)
                        pbt::fail("order", "%s: element %llu came instead of element %llu", conf, (unsigned long long)id, (unsigned long long)next - 1);
            }
            if (next != ctl->ids)
                pbt::fail("lost-element", "%s: %llu of %llu elements came back", conf, (unsigned long long)next - 1, (unsigned long long)ctl->ids - 1);
        }
        for (n = 0; n <= cap; ++n)
            if (!c->push(T::make(n)))
                break;
        if (n != cap)
            pbt::fail("capacity", "%s: after its use by %u processes the container accepts %zu elements of %zu", conf, procs, n, cap);
        c->~C();
        for (size_t i = 0; i != SEG; ++i) {
            if (i == off)
                i += sizeof(C);
            if (mine[i] != 0x5a)
                pbt::fail("outside", "%s: memory outside of the container was modified", conf);
        }
    }
    void go()
    {
        pbt::Tape& t = cx.tape;
        static const uint32_t counts[] = { 10, 40, 150, 400 };
        procs = KIND == 2 ? 2 : 2 + t.draw(PROCS - 1);
        ops   = counts[t.draw(4)];
        off   = (size_t)t.draw(4) * 64 + 64;
        seed  = t.draw(0x7fffffff) + 1;
        for (uint32_t i = 0; i != procs; ++i) {
            role[i]  = KIND == 2 ? 1 + i : t.draw(3);
            delay[i] = t.draw(2) ? 1 + t.draw(20) : 0;
        }
        cx.mix(seed), cx.mix(cap);
        pbt::note("%s, %u processes of %u calls, seed %llu\n", conf, procs, ops, (unsigned long long)seed);
        open_segment();
        repeat(cx, [&] { once(); });
        cx.nontrivial = ctl->ids > 4;
    }
};
template < class C, class T, int KIND >
void with(pbt::Ctx& cx, const char* conf, size_t cap)
{
    static_assert(sizeof(C) < SEG - 512, "");
    Shared< C, T, KIND > s{ cx, conf, cap, 0, 0, {}, {}, 0, 0 };
    s.go();
}
template < class T >
void any(pbt::Ctx& cx)
{
    uint32_t k = cx.tape.draw(9);
    cx.mix(k);
    switch (k) {
    case 0: return with< blf::queue< T, blf::capacity< 2 > >, T, 0 >(cx, "queue with capacity<2>", 2);
    case 1: return with< blf::queue< T, blf::capacity< 6 > >, T, 0 >(cx, "queue with capacity<6>", 6);
    case 2: return with< blf::queue< T, blf::capacity< 50 > >, T, 0 >(cx, "queue with capacity<50>", 50);
    case 3: return with< blf::stack< T, blf::capacity< 2 > >, T, 1 >(cx, "stack with capacity<2>", 2);
    case 4: return with< blf::stack< T, blf::capacity< 6 > >, T, 1 >(cx, "stack with capacity<6>", 6);
    case 5: return with< blf::stack< T, blf::capacity< 50 > >, T, 1 >(cx, "stack with capacity<50>", 50);
    case 6: return with< blf::spsc_queue< T, blf::capacity< 2 > >, T, 2 >(cx, "spsc_queue with capacity<2>", 2);
    case 7: return with< blf::spsc_queue< T, blf::capacity< 6 > >, T, 2 >(cx, "spsc_queue with capacity<6>", 6);
    default: return with< blf::spsc_queue< T, blf::capacity< 50 > >, T, 2 >(cx, "spsc_queue with capacity<50>", 50);
    }
}
}} // namespace native::

PBT_SCENARIO(native_processes, "real processes run a generated mix of calls through mappings of their own; non-trivial: more than 4 elements were pushed")
{
    if (cx.tape.draw(2))
        native::any< native::Elem< 3 > >(cx);
    else
        native::any< native::Elem< 1 > >(cx);
}
