#include "vsched.hpp"

#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <sys/mman.h>

namespace vs {

static char* const  ARENA      = (char*)0x100000000000ull;
static const size_t ARENA_SIZE = 8u << 20;
static const size_t NGRAN      = ARENA_SIZE / 8;
static const size_t STACK      = 128 * 1024;
static const int    DEPTH      = 6;

Config cfg;
void (*on_dealloc)(void*, size_t) = nullptr;

struct Ver
{
    uint64_t val;
    uint8_t  mask;
    int8_t   tid; // -1: initial value
    uint32_t wt;
    bool     hasmsg;
    VC       msg;      // clock passed to an acquiring reader
    VC       wvc;      // clock of the writer at the write
    uint32_t rd[NT];   // first read of this version by each fibre (0: none)
};
struct Loc
{
    uint32_t gran;
    int      n;
    Ver      v[DEPTH];
    // payload bookkeeping
    uint32_t obj;         // granule of the object's start, +1; 0: not a payload word
    uint32_t objn;        // granules of the object
    uint32_t prd[NT];     // latest committed read per fibre since the last write
    bool     live;        // start of a live tracked element
    uint32_t mods[2];     // writes to each half
};

static uint32_t          locidx[NGRAN]; // granule -> index+1 into locs
static std::vector<Loc*> locs;
static size_t            nlocs;
static unsigned char     blk[NGRAN];    // 0 unallocated, 1 live, 2 freed
static size_t            arena_used;
struct Block
{
    char*  p;
    size_t size;
    bool   live;
};
static std::vector<Block> blocks;
static bool               arena_ready;

struct Tentative
{
    uint32_t gran;
    uint32_t time;   // reader's own time
    bool     ordered; // the version read happened before the read
    int8_t   wtid;
    uint32_t wt;
};

struct Fiber
{
    void*    sp;
    char*    stack;
    void (*fn)(void*);
    void*    arg;
    bool     done;
    bool     frozen;     // forever
    bool     suspended;
    int      suspmode;
    uint64_t resume_at;
    VC       vc;
    VC       relfence;
    VC       acqpend;
    uint64_t steps;
    uint64_t stamps;
    struct Seen { const void* p; uint32_t mods; } seen[8]; // what it loaded last
    int      nseen;
    uint64_t counted[3];  // -, successful compare-exchanges, compare-exchanges begun
    int      prio;
    bool     tentative;
    std::vector<Tentative> tent;
    // plain access whose memory effect follows the hook
    bool     pend_write;
    void*    pw_addr;
    uint32_t pw_size;
    int      nrestore;
    struct
    {
        void*    addr;
        uint32_t size;
        unsigned char bytes[16];
    } restore[2];
};
static Fiber    fib[NT];
static int      nfib;
static int      cur = -1;
static bool     model_on;
static void*    main_sp;
static Policy   pol;
static uint64_t gsteps, evno;
static bool     native_on;
static long     nlive;
static int      nswitch, nstale, nspurious;
static uint32_t runleft;
static uint32_t changed;
static char*    watch;      // harass: waiting for a change of this location
static uint32_t patience, lingering;
static int      segno;      // segments
static uint64_t segcount;
static uint32_t nreturned;  // compare-exchanges that succeeded although the value had been replaced in between
static uint32_t segleft;
static uint64_t segstamp;

struct Ev
{
    int8_t      tid;
    char        kind[12];
    const void* addr;
    uint32_t    size;
    uint64_t    val, val2;
    int         mo;
    int         extra;
    char        text[96];
};
static std::vector<Ev> trace;
static bool            tracing;

static const char* moname(int mo)
{
    static const char* n[] = { "rlx", "csm", "acq", "rel", "a/r", "sc" };
    return mo >= 0 && mo < 6 ? n[mo] : "";
}

static void symaddr(const void* p, char* out, size_t n)
{
    const char* c = (const char*)p;
    for (size_t i = 0; i != blocks.size(); ++i)
        if (c >= blocks[i].p && c < blocks[i].p + blocks[i].size) {
            snprintf(out, n, "blk%zu+%ld%s", i, (long)(c - blocks[i].p), blocks[i].live ? "" : "(freed)");
            return;
        }
    snprintf(out, n, "%p", p);
}

static void symval(uint64_t v, char* out, size_t n)
{
    uint64_t ptr = v & 0xffffffffffffull;
    if (ptr >= (uint64_t)ARENA && ptr < (uint64_t)ARENA + ARENA_SIZE) {
        char a[64];
        symaddr((void*)ptr, a, sizeof a);
        snprintf(out, n, "%s#%llu", a, (unsigned long long)(v >> 48));
    } else
        snprintf(out, n, "0x%llx", (unsigned long long)v);
}

static void dump(std::string& out)
{
    if (trace.empty())
        return;
    out += "\n---- interleaving (thread, access, location, value)\n";
    size_t from = trace.size() > 500 ? trace.size() - 500 : 0;
    char   line[400], a[64], v1[80], v2[80];
    for (size_t i = from; i != trace.size(); ++i) {
        Ev& e = trace[i];
        if (e.text[0]) {
            snprintf(line, sizeof line, "  T%d  %s\n", e.tid, e.text);
        } else {
            symaddr(e.addr, a, sizeof a);
            symval(e.val, v1, sizeof v1);
            symval(e.val2, v2, sizeof v2);
            if (!strncmp(e.kind, "cas", 3))
                snprintf(line, sizeof line, "  T%d    %s.%s %s %s -> %s\n", e.tid, e.kind, moname(e.mo), a, v1, v2);
            else
                snprintf(line, sizeof line, "  T%d    %s.%s/%u %s = %s%s\n", e.tid, e.kind, moname(e.mo), e.size, a, v1,
                         e.extra ? "  (stale)" : "");
        }
        out += line;
        if (out.size() > 60000)
            return;
    }
}

static void ev(const char* kind, const void* addr, uint32_t size, uint64_t val, int mo, int extra = 0, uint64_t val2 = 0)
{
    if (!tracing)
        return;
    Ev e;
    memset(&e, 0, sizeof e);
    e.tid = (int8_t)cur;
    snprintf(e.kind, sizeof e.kind, "%s", kind);
    e.addr  = addr;
    e.size  = size;
    e.val   = val;
    e.val2  = val2;
    e.mo    = mo;
    e.extra = extra;
    trace.push_back(e);
}
void note_event(const char* fmt, ...)
{
    if (!tracing)
        return;
    Ev e;
    memset(&e, 0, sizeof e);
    e.tid = (int8_t)cur;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(e.text, sizeof e.text, fmt, ap);
    va_end(ap);
    trace.push_back(e);
}

bool in_arena(const void* p) { return (const char*)p >= ARENA && (const char*)p < ARENA + ARENA_SIZE; }

static Loc* find(uint32_t g)
{
    uint32_t i = locidx[g];
    return i ? locs[i - 1] : nullptr;
}
static uint64_t raw(uint32_t g)
{
    uint64_t v;
    memcpy(&v, ARENA + (size_t)g * 8, 8);
    return v;
}
static Loc* get(uint32_t g)
{
    if (Loc* l = find(g))
        return l;
    if (nlocs == locs.size())
        locs.push_back(new Loc);
    Loc* l    = locs[nlocs++];
    locidx[g] = nlocs;
    l->gran   = g;
    l->n      = 1;
    l->obj    = 0;
    l->objn   = 0;
    l->live   = false;
    l->mods[0] = l->mods[1] = 0;
    memset(l->prd, 0, sizeof l->prd);
    Ver& b = l->v[0];
    memset(&b, 0, sizeof b);
    b.val  = raw(g);
    b.mask = 0xff;
    b.tid  = -1;
    return l;
}

void begin_case()
{
    if (!arena_ready) {
        void* p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != ARENA) {
            perror("arena");
            _Exit(9);
        }
        for (int i = 0; i != NT; ++i)
            fib[i].stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arena_ready = true;
        arena_used  = 0;
        memset(ARENA, 0xA5, 1 << 16);
    }
    for (size_t i = 0; i != nlocs; ++i)
        locidx[locs[i]->gran] = 0;
    nlocs = 0;
    memset(ARENA, 0xA5, arena_used);
    memset(blk, 0, arena_used / 8 + 1);
    arena_used = 64;
    blocks.clear();
    nfib     = 0;
    cur      = -1;
    model_on = false;
    gsteps   = 0;
    nreturned = 0;
    evno     = 1;
    nswitch  = 0;
    nstale = nspurious = 0;
    native_on = false;
    nlive    = 0;
    on_dealloc = nullptr;
    cfg      = Config();
    trace.clear();
    tracing           = pbt::ctx && pbt::ctx->verbose;
    pbt::on_fail_dump = dump;
}

void* alloc(size_t size, size_t align)
{
    arena_used = (arena_used + align - 1) / align * align;
    if (arena_used + size + 64 > ARENA_SIZE)
        throw std::bad_alloc();
    char* p = ARENA + arena_used;
    if (((uintptr_t)(p)) % align)
        abort();
    blocks.push_back(Block { p, size, true });
    memset(p, 0xA5, size + 16);
    memset(blk + arena_used / 8, 1, (size + 7) / 8);
    arena_used += (size + 7) / 8 * 8 + 16; // red zone
    if (model_on)
        note_event("allocate %zu bytes -> blk%zu", size, blocks.size() - 1);
    return p;
}
void dealloc(void* p, size_t size)
{
    if (model_on)
        note_event("deallocate");
    for (Block& b : blocks)
        if (b.p == p) {
            if (!b.live)
                pbt::fail("double-free", "a block was deallocated twice");
            if (b.size != size)
                pbt::fail("dealloc-size", "a block of %zu bytes was deallocated as %zu bytes", b.size, size);
            if (on_dealloc)
                on_dealloc(p, size);
            b.live = false;
            memset(blk + ((char*)p - ARENA) / 8, 2, (size + 7) / 8);
            return;
        }
    pbt::fail("bad-free", "deallocation of a pointer that was never allocated");
}
size_t live_blocks()
{
    size_t n = 0;
    for (Block& b : blocks)
        n += b.live;
    return n;
}
size_t total_allocs() { return blocks.size(); }

// ---------------------------------------------------------------- clocks
static void join(VC& a, const VC& b)
{
    for (int i = 0; i != NT; ++i)
        a.c[i] = std::max(a.c[i], b.c[i]);
}
static uint32_t tick() { return ++fib[cur].vc.c[cur]; }

// ---------------------------------------------------------------- scheduling
extern "C" void vs_switch(void** save, void* to);
asm(".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size vs_switch,.-vs_switch\n");

static void flush();

static const uint32_t RUNLEN[4][8] = {
    { 1, 1, 2, 2, 3, 4, 6, 9 },
    { 1, 2, 3, 5, 8, 13, 20, 40 },
    { 2, 5, 9, 14, 20, 30, 50, 1000 },
    { 1, 1, 1, 1, 1, 60, 60, 100000 },
};

static bool runnable(int i) { return !fib[i].done && !fib[i].frozen && !fib[i].suspended; }

static int pick_random()
{
    int cand[NT], n = 0;
    // the running fibre first: draw 0 keeps it
    if (cur >= 0 && runnable(cur))
        cand[n++] = cur;
    for (int i = 0; i != nfib; ++i)
        if (i != cur && runnable(i))
            cand[n++] = i;
    if (n == 0)
        return -1;
    return n == 1 ? cand[0] : cand[pbt::ctx->tape.draw(n)];
}

static void wake()
{
    for (int i = 0; i != nfib; ++i)
        if (fib[i].suspended && fib[i].suspmode == 1 && gsteps >= fib[i].resume_at)
            fib[i].suspended = false;
    bool any = false;
    for (int i = 0; i != nfib; ++i)
        any |= runnable(i);
    if (!any)
        for (int i = 0; i != nfib; ++i)
            if (fib[i].suspended) {
                fib[i].suspended = false;
                break;
            }
}

// choose the fibre to run next; -1 if none
static void start_segment()
{
    if (segno < pol.nseg) {
        Segment& s = pol.seg[segno];
        segleft    = s.unit ? 0 : s.steps;
        segcount   = s.unit ? fib[s.tid].counted[s.unit] + s.steps : 0;
        segstamp = (fib[pol.seg[segno].tid].stamps + 2) & ~1ull;
    }
}
static void next_segment()
{
    ++segno;
    start_segment();
}

static int choose(bool must)
{
    wake();
    if (pol.kind == 2) {
        int best = -1;
        for (int i = 0; i != nfib; ++i)
            if (runnable(i) && (best < 0 || fib[i].prio > fib[best].prio))
                best = i;
        return best;
    }
    if (pol.kind == 3) {
        bool others = (watch && patience && patience--) || (lingering && lingering--);
        if (!others && runnable(0))
            return 0;
        if (cur > 0 && runnable(cur) && pbt::ctx->tape.draw(16) < 15)
            return cur;
        int cand[NT], n = 0;
        for (int i = 1; i < nfib; ++i)
            if (runnable(i))
                cand[n++] = i;
        if (n)
            return n == 1 ? cand[0] : cand[pbt::ctx->tape.draw(n)];
        watch     = nullptr;
        lingering = 0;
        return runnable(0) ? 0 : -1;
    }
    if (pol.kind == 4) {
        for (; segno < pol.nseg; next_segment()) {
            Segment& s = pol.seg[segno];
            if (!runnable(s.tid))
                continue;
            if (!s.steps ? fib[s.tid].stamps < segstamp : s.unit ? fib[s.tid].counted[s.unit] < segcount : segleft > 0) {
                if (segleft)
                    --segleft;
                return s.tid;
            }
        }
    }
    if (pol.kind == 0 || pol.kind == 4) {
        if (cur >= 0 && runnable(cur))
            return cur;
        for (int i = 0; i != nfib; ++i)
            if (runnable(i))
                return i;
        return -1;
    }
    if (runleft > 0 && cur >= 0 && runnable(cur) && !must)
        return cur;
    int n = pick_random();
    if (n >= 0)
        runleft = RUNLEN[pol.runlen & 3][7 - pbt::ctx->tape.draw(8)];
    return n;
}

static void go(int to)
{
    if (to == cur)
        return;
    int from = cur;
    cur      = to;
    vs_switch(&fib[from].sp, fib[to].sp);
}

static void fiber_main()
{
    Fiber& f = fib[cur];
    f.fn(f.arg);
    flush();
    f.done = true;
    int to = choose(true);
    if (to < 0) {
        void* dummy;
        cur = -1;
        vs_switch(&dummy, main_sp);
    } else {
        void* dummy;
        cur = to;
        vs_switch(&dummy, fib[to].sp);
    }
    abort();
}

// a scheduling point of the running fibre
static void point()
{
    Fiber& f = fib[cur];
    flush();
    gsteps++;
    f.steps++;
    if (gsteps > cfg.step_limit)
        pbt::fail("no-progress", "the operations did not complete within %llu steps", (unsigned long long)cfg.step_limit);
    bool forced = false;
    for (int i = 0; i != pol.nsusp; ++i) {
        Suspension& s = pol.susp[i];
        if (s.tid == cur && s.at == f.steps) {
            note_event("-- suspended%s", s.mode == 2 ? " forever" : "");
            if (s.mode == 2)
                f.frozen = true;
            else {
                f.suspended = true;
                f.suspmode  = s.mode;
                f.resume_at = gsteps + s.len;
            }
            forced = true;
        }
    }
    if (pol.kind == 2)
        for (int i = 0; i != pol.nchange; ++i)
            if (pol.change[i] == gsteps)
                f.prio = -(int)(++changed);
    if (runleft)
        runleft--;
    int to = choose(forced);
    if (to < 0) {
        // only frozen fibres are left
        void** save = &f.sp;
        cur         = -1;
        vs_switch(save, main_sp);
        abort(); // frozen forever
    }
    if (to != cur) {
        nswitch++;
        go(to);
    }
}

int spawn(void (*fn)(void*), void* arg)
{
    int    i = nfib++;
    Fiber& f = fib[i];
    f.fn = fn;
    f.arg = arg;
    f.done = f.frozen = f.suspended = false;
    memset(&f.vc, 0, sizeof f.vc);
    f.vc.c[i] = 1;
    memset(&f.relfence, 0, sizeof f.relfence);
    memset(&f.acqpend, 0, sizeof f.acqpend);
    f.steps     = 0;
    f.stamps    = 0;
    memset(f.counted, 0, sizeof f.counted);
    memset(f.seen, 0, sizeof f.seen);
    f.nseen = 0;
    f.prio      = 0;
    f.tentative = false;
    f.tent.clear();
    f.pend_write = false;
    f.nrestore   = 0;
    uint64_t* s = (uint64_t*)(f.stack + STACK);
    *--s        = 0; // keeps the stack aligned as after a call
    *--s        = (uint64_t)&fiber_main; // return address of vs_switch
    for (int k = 0; k != 6; ++k)
        *--s = 0;
    f.sp = s;
    return i;
}

void run(const Policy& p)
{
    pol     = p;
    runleft = 0;
    changed = 0;
    watch   = nullptr;
    lingering = 0;
    segno     = 0;
    start_segment();
    if (pol.kind == 2) {
        // priorities: a permutation drawn from the tape
        int perm[NT];
        for (int i = 0; i != nfib; ++i)
            perm[i] = i;
        for (int i = nfib - 1; i > 0; --i)
            std::swap(perm[i], perm[i - (int)pbt::ctx->tape.draw(i + 1)]);
        for (int i = 0; i != nfib; ++i)
            fib[i].prio = nfib - perm[i];
    }
    // what happened before is known to every fibre
    for (size_t i = 0; i != nlocs; ++i) {
        Loc* l = locs[i];
        l->n   = 1;
        memset(&l->v[0], 0, sizeof(Ver));
        l->v[0].val  = raw(l->gran);
        l->v[0].mask = 0xff;
        l->v[0].tid  = -1;
        memset(l->prd, 0, sizeof l->prd);
    }
    model_on = true;
    cur      = -1;
    int to   = choose(true);
    if (to >= 0) {
        cur = to;
        vs_switch(&main_sp, fib[to].sp);
    }
    cur      = -1;
    model_on = false;
}

bool     finished(int tid) { return fib[tid].done; }
int      self() { return cur; }
uint64_t stamp()
{
    if (cur >= 0)
        fib[cur].stamps++;
    return ++evno;
}
uint64_t own_steps(int tid) { return fib[tid].steps; }
uint64_t global_steps() { return gsteps; }
int      switches() { return nswitch; }
int      stale_reads() { return nstale; }
int      spurious_failures() { return nspurious; }
bool     active() { return model_on; }

void yield()
{
    if (cur >= 0 && !native_on)
        point();
}
VC clock()
{
    VC v;
    if (cur < 0) {
        memset(&v, 0, sizeof v);
        return v;
    }
    flush();
    return fib[cur].vc;
}
uint32_t own_time() { return cur < 0 ? 0 : fib[cur].vc.c[cur]; }

static void draw_extent(pbt::Tape& t, Segment& s, uint32_t each, bool whole)
{
    s.steps = s.unit = 0;
    if (whole)
        return; // one operation
    switch (t.draw(6)) {
    case 0: s.steps = 1 + t.draw(6); break;
    case 1: s.steps = 1 + t.draw(each); break;
    case 2: s.steps = 1 + t.draw(3), s.unit = 2; break;
    case 3: s.steps = 1, s.unit = 1; break;
    default: s.steps = 2, s.unit = 1;
    }
}

void draw_segments(pbt::Tape& t, Policy& p, int n, uint32_t each)
{
    p.kind = 4;
    p.nseg = 2 + t.draw(11);
    int last = -1;
    for (int i = 0; i != p.nseg; ++i) {
        p.seg[i].tid = t.draw(last < 0 ? n : n - 1);
        if (last >= 0 && p.seg[i].tid >= last)
            p.seg[i].tid++;
        last           = p.seg[i].tid;
        draw_extent(t, p.seg[i], each, t.draw(2));
    }
}

// coarse: suspended right after compare-exchanges that succeeded, 2: or before compare-exchanges
// operations of all fibres but the last one suspended and resumed, perhaps more than once, whole operations of the last fibre in between
void draw_interlocked(pbt::Tape& t, Policy& p, int n, uint32_t each, int coarse)
{
    p        = Policy();
    p.kind   = 4;
    bool began[NT] = {};
    int  open = 0, victims = n - 1, left = victims;
    auto churn = [&] {
        for (uint32_t k = coarse ? t.draw(2) : t.draw(2) ? t.draw(3) : 0; k && p.nseg < 19; --k)
            p.seg[p.nseg++] = Segment { n - 1, 0, 0 };
    };
    auto partly = [&](int v) {
        Segment& s = p.seg[p.nseg++];
        s          = Segment { v, 1, 1 };
        if (coarse)
            s.steps += t.draw(2), s.unit += coarse == 2 && t.draw(2);
        else
            draw_extent(t, s, each, false);
    };
    churn();
    while ((left || open) && p.nseg < 17) {
        // begin the next one or end one that has begun
        int v;
        if (left && (!open || t.draw(2) == 0)) {
            v        = victims - left--;
            began[v] = true;
            ++open;
            partly(v);
        } else {
            uint32_t k = t.draw(open);
            for (v = 0; !began[v] || k--; ++v) {}
            if (t.draw(3) == 0) {
                partly(v); // a bit further only
            } else {
                began[v] = false;
                --open;
                p.seg[p.nseg++] = Segment { v, 0, 0 };
            }
        }
        churn();
    }
}

void draw_policy(pbt::Tape& t, Policy& p, int n, uint32_t each)
{
    p = Policy();
    uint32_t k = t.draw(10);
    if (k >= 8) {
        draw_segments(t, p, n, each);
    } else if (k <= 4) {
        p.kind   = 1;
        p.runlen = 3 - t.draw(4);
    } else {
        p.kind    = 2;
        p.nchange = t.draw(5);
        for (int i = 0; i != p.nchange; ++i)
            p.change[i] = 1 + t.draw(each * n);
    }
    uint32_t s = t.draw(4);
    if (s >= 2) {
        p.nsusp = s - 1;
        for (int i = 0; i != p.nsusp; ++i) {
            p.susp[i].tid  = t.draw(n);
            p.susp[i].at   = 1 + t.draw(each);
            p.susp[i].mode = t.draw(3) == 2 ? 1 : 0;
            p.susp[i].len  = p.susp[i].mode == 1 ? 1 + t.draw(each * n) : 0;
        }
    }
}

// ---------------------------------------------------------------- memory model
static inline bool hooked(const void* p) { return in_arena(p) && model_on && cur >= 0 && !native_on; }
static uint32_t granof(const void* p) { return (uint32_t)(((const char*)p - ARENA) / 8); }

static void check_live(const void* p, uint32_t size, const char* what)
{
    uint32_t g0 = granof(p), g1 = granof((const char*)p + size - 1);
    for (uint32_t g = g0; g <= g1; ++g)
        if (blk[g] != 1)
            pbt::fail(blk[g] == 2 ? "use-after-free" : "wild-access", "thread %d %s memory %s", cur, what,
                      blk[g] == 2 ? "that was returned to the allocator" : "outside of every allocated block");
}

static uint8_t maskof(const void* p, uint32_t size)
{
    uint32_t off = (uintptr_t)p & 7;
    return (uint8_t)(((1u << size) - 1) << off);
}

static bool known(const Ver& w, const VC& vc)
{
    if (w.tid < 0 || w.wt <= vc.c[(int)w.tid])
        return true;
    for (int u = 0; u != NT; ++u)
        if (w.rd[u] && w.rd[u] <= vc.c[u])
            return true;
    return false;
}

// The write of [p,p+size) inside one granule has just become visible with full granule value `val`.
static void add_version(uint32_t g, uint8_t mask, uint64_t val, bool release, bool rmw, const Ver* from)
{
    Loc*   l = get(g);
    Fiber& f = fib[cur];
    uint32_t time = f.vc.c[cur];
    bool     had  = rmw && from->hasmsg;
    VC       old;
    if (had)
        old = from->msg;
    int depth = cfg.weak ? DEPTH : 1;
    if (l->n >= depth) {
        memmove(&l->v[0], &l->v[l->n - depth + 1], sizeof(Ver) * (depth - 1));
        l->n = depth - 1;
    }
    l->mods[0] += (mask & 0x0f) != 0;
    l->mods[1] += (mask & 0xf0) != 0;
    Ver& v = l->v[l->n++];
    memset(&v, 0, sizeof v);
    v.val  = val;
    v.mask = mask;
    v.tid  = (int8_t)cur;
    v.wt   = time;
    v.wvc  = f.vc;
    if (release) {
        v.hasmsg = true;
        v.msg    = f.vc;
    } else {
        v.msg = f.relfence;
        for (int i = 0; i != NT; ++i)
            v.hasmsg |= v.msg.c[i] != 0;
    }
    if (had) {
        v.hasmsg = true;
        join(v.msg, old);
    }
}

static void payload_read_check(Loc* l, const void* p)
{
    Fiber& f = fib[cur];
    Ver&   v = l->v[l->n - 1];
    bool   ord = v.tid < 0 || v.wt <= f.vc.c[(int)v.tid];
    if (f.tentative) {
        Tentative t;
        t.gran    = l->gran;
        t.time    = f.vc.c[cur];
        t.ordered = ord;
        t.wtid    = v.tid;
        t.wt      = v.wt;
        f.tent.push_back(t);
        if (f.tent.size() > 64)
            f.tent.erase(f.tent.begin(), f.tent.begin() + 32);
        return;
    }
    if (!ord)
        pbt::fail("race-read", "thread %d reads element data written by thread %d without happens-before", cur, v.tid);
    l->prd[cur] = f.vc.c[cur];
}
static void payload_write_check(Loc* l, const char* what)
{
    Fiber& f = fib[cur];
    Ver&   v = l->v[l->n - 1];
    if (v.tid >= 0 && v.wt > f.vc.c[(int)v.tid])
        pbt::fail("race-write", "thread %d %s element storage that thread %d wrote, without happens-before", cur, what, v.tid);
    for (int u = 0; u != NT; ++u)
        if (l->prd[u] > f.vc.c[u] && u != cur)
            pbt::fail("race-reuse", "thread %d %s element storage that thread %d was reading, without happens-before", cur, what, u);
}

void tentative(bool on)
{
    if (cur < 0)
        return;
    flush();
    fib[cur].tentative = on;
    fib[cur].tent.clear();
}

void commit_last_object()
{
    if (cur < 0)
        return;
    flush();
    Fiber& f = fib[cur];
    if (f.tent.empty())
        return;
    Loc* last = find(f.tent.back().gran);
    uint32_t obj = last->obj, n = last->objn;
    std::vector<uint32_t> seen;
    for (size_t i = f.tent.size(); i-- > 0;) {
        Tentative& t = f.tent[i];
        Loc*       l = find(t.gran);
        if (l->obj != obj)
            continue;
        if (std::find(seen.begin(), seen.end(), t.gran) != seen.end())
            continue;
        seen.push_back(t.gran);
        if (!t.ordered)
            pbt::fail("race-read", "thread %d returned element data written by thread %d without happens-before", cur, t.wtid);
        // writes since then must be ordered after this read
        Ver& v = l->v[l->n - 1];
        if (v.tid >= 0 && !(v.tid == t.wtid && v.wt == t.wt) && v.tid != cur && v.wvc.c[cur] < t.time)
            pbt::fail("race-reuse", "thread %d overwrote element data that thread %d was reading, without happens-before", v.tid, cur);
        l->prd[cur] = std::max(l->prd[cur], t.time);
        if (seen.size() == n)
            break;
    }
    f.tent.clear();
}

static void mark_live(Loc* l, bool tracked)
{
    if (!tracked)
        return;
    if (l->live)
        pbt::fail("double-construct", "an element was constructed over a live element");
    l->live = true;
    nlive++;
}
long live_elements() { return nlive; }

void payload_construct(const void* p, size_t size, bool tracked)
{
    if (!in_arena(p))
        return;
    uint32_t g0 = granof(p), n = (uint32_t)((size + 7) / 8);
    for (uint32_t i = 0; i != n; ++i)
        if (blk[g0 + i] != 1)
            pbt::fail("wild-access", "an element is constructed outside of the allocated storage");
    if (!model_on || cur < 0 || native_on) {
        for (uint32_t i = 0; i != n; ++i) {
            Loc* l  = get(g0 + i);
            l->obj  = g0 + 1;
            l->objn = n;
        }
        mark_live(find(g0), tracked);
        return;
    }
    flush();
    for (uint32_t i = 0; i != n; ++i) {
        Loc* l = get(g0 + i);
        if (l->obj)
            payload_write_check(l, "constructs an element in");
        l->obj  = g0 + 1;
        l->objn = n;
    }
    mark_live(find(g0), tracked);
}
void payload_destroy(const void* p, size_t size)
{
    if (!in_arena(p))
        return;
    uint32_t g0 = granof(p), n = (uint32_t)((size + 7) / 8);
    if (blk[g0] != 1)
        pbt::fail("wild-access", "an element is destroyed outside of the allocated storage");
    Loc* l0 = get(g0);
    if (!l0->live)
        pbt::fail("double-destroy", "a destructor ran on storage that holds no element");
    l0->live = false;
    nlive--;
    if (!model_on || cur < 0 || native_on)
        return;
    flush();
    tick();
    for (uint32_t i = 0; i != n; ++i) {
        Loc* l = get(g0 + i);
        payload_write_check(l, "destroys an element in");
        add_version(g0 + i, 0xff, raw(g0 + i), false, false, nullptr);
        memset(l->prd, 0, sizeof l->prd);
    }
}

void native(bool on)
{
    if (cur < 0 || on == native_on)
        return;
    flush();
    native_on = on;
    if (on) {
        note_event("-- runs at full speed");
        return;
    }
    note_event("-- end of full speed");
    tick();
    // Whatever changed counts as known to everybody: full speed sections serve the value-level checks only.
    for (size_t i = 0; i != nlocs; ++i) {
        Loc* l = locs[i];
        if (l->v[l->n - 1].val != raw(l->gran) || l->obj) {
            l->n = 1;
            memset(&l->v[0], 0, sizeof(Ver));
            l->v[0].val  = raw(l->gran);
            l->v[0].mask = 0xff;
            l->v[0].tid  = -1;
            memset(l->prd, 0, sizeof l->prd);
        }
    }
}

// bring the model up to date with the plain access announced by the previous hook of this fibre
static void flush()
{
    Fiber& f = fib[cur];
    for (int i = 0; i != f.nrestore; ++i)
        memcpy(f.restore[i].addr, f.restore[i].bytes, f.restore[i].size);
    f.nrestore = 0;
    if (f.pend_write) {
        f.pend_write = false;
        char*    p   = (char*)f.pw_addr;
        uint32_t n   = f.pw_size;
        while (n) {
            uint32_t k = std::min<uint32_t>(n, 8 - ((uintptr_t)p & 7));
            uint32_t g = granof(p);
            Loc*     l = get(g);
            // Link fields are deliberately shared between plain free-list code and atomic loads of the container;
            // such a plain write is treated like a release store (see DESIGN.md).
            add_version(g, maskof(p, k), raw(g), !l->obj, false, nullptr);
            if (l->obj)
                memset(l->prd, 0, sizeof l->prd);
            if (tracing) {
                uint64_t v = 0;
                memcpy(&v, p, k);
                ev("write", p, k, v, -1);
            }
            p += k;
            n -= k;
        }
    }
}

// Choose the version a load of `mask` sees: index into l->v.
static int choose_version(Loc* l, uint8_t mask)
{
    Fiber& f = fib[cur];
    int    top = l->n - 1;
    // newest version writing one of the bytes
    int cand[DEPTH], n = 0;
    for (int i = top; i >= 0; --i) {
        Ver& v = l->v[i];
        if (!(v.mask & mask) && i != 0)
            continue;
        cand[n++] = i;
        if (known(v, f.vc))
            break;
    }
    if (n <= 1)
        return cand[0];
    if (pbt::ctx->tape.draw(16) < 16 - cfg.stale16)
        return cand[0];
    nstale++;
    return cand[1 + pbt::ctx->tape.draw(n - 1)];
}

static void read_version(Loc* l, int i, int mo)
{
    Fiber& f = fib[cur];
    Ver&   v = l->v[i];
    if (!v.rd[cur])
        v.rd[cur] = f.vc.c[cur];
    if (v.hasmsg && mo >= 0) {
        if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
            join(f.vc, v.msg);
        else
            join(f.acqpend, v.msg);
    }
}

// ---- plain accesses
static void plain_read(void* addr, uint32_t size)
{
    point();
    check_live(addr, size, "reads");
    Fiber& f = fib[cur];
    tick();
    char*    p = (char*)addr;
    uint32_t n = size;
    while (n) {
        uint32_t k = std::min<uint32_t>(n, 8 - ((uintptr_t)p & 7));
        uint32_t g = granof(p);
        Loc*     l = find(g);
        int      stale = 0;
        if (l) {
            if (l->obj)
                payload_read_check(l, p);
            else if (cfg.weak && l->n > 1 && f.nrestore < 2) {
                int i = choose_version(l, maskof(p, k));
                read_version(l, i, -1);
                uint32_t off = (uintptr_t)p & 7;
                if (memcmp((char*)&l->v[i].val + off, p, k)) {
                    auto& r = f.restore[f.nrestore++];
                    r.addr  = p;
                    r.size  = k;
                    memcpy(r.bytes, p, k);
                    memcpy(p, (char*)&l->v[i].val + off, k);
                    stale = 1;
                }
            }
        }
        if (tracing) {
            uint64_t v = 0;
            memcpy(&v, p, k);
            ev("read", p, k, v, -1, stale);
        }
        p += k;
        n -= k;
    }
}
static void plain_write(void* addr, uint32_t size)
{
    point();
    check_live(addr, size, "writes");
    Fiber& f = fib[cur];
    tick();
    uint32_t g0 = granof(addr), g1 = granof((char*)addr + size - 1);
    for (uint32_t g = g0; g <= g1; ++g) {
        Loc* l = get(g); // records the old value
        if (l->obj)
            payload_write_check(l, "writes");
    }
    f.pend_write = true;
    f.pw_addr    = addr;
    f.pw_size    = size;
}

// ---- atomics
static bool is_acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// How often [p, p+size) was written. A compare-exchange that succeeds although the location was written since this fibre
// loaded it has met an old value again; nothing may be wrong with that, but the neighbourhood of such a case is worth a look.
static uint32_t writes_to(const void* p, uint32_t size)
{
    Loc* l = find(granof(p));
    if (!l)
        return 0;
    uint8_t m = size > 8 ? 0xff : maskof(p, size);
    return ((m & 0x0f) ? l->mods[0] : 0) + ((m & 0xf0) ? l->mods[1] : 0);
}
static void loaded(const void* p, uint32_t mods)
{
    if (cur < 0)
        return;
    Fiber& f = fib[cur];
    for (auto& s : f.seen)
        if (s.p == p) {
            s.mods = mods;
            return;
        }
    f.seen[f.nseen++ & 7] = { p, mods };
}
uint32_t vs::returned_values() { return nreturned; }

template < class U >
static U atomic_load(const volatile U* a, int mo)
{
    if (!hooked((const void*)a)) {
        U v;
        __atomic_load(const_cast< U* >(a), &v, __ATOMIC_SEQ_CST);
        return v;
    }
    char* p = (char*)a;
    point();
    check_live(p, sizeof(U), "reads");
    tick();
    U v;
    memcpy(&v, p, sizeof(U));
    bool stale = false;
    if (sizeof(U) <= 8) {
        Loc* l = find(granof(p));
        if (l) {
            int i = cfg.weak && mo != __ATOMIC_SEQ_CST && l->n > 1 ? choose_version(l, maskof(p, sizeof(U))) : -1;
            if (i < 0) {
                uint8_t m = maskof(p, sizeof(U));
                i         = l->n - 1;
                while (i > 0 && !(l->v[i].mask & m))
                    --i;
            }
            U w;
            memcpy(&w, (char*)&l->v[i].val + ((uintptr_t)p & 7), sizeof(U));
            stale = memcmp(&w, &v, sizeof(U)) != 0;
            v     = w;
            read_version(l, i, mo);
        }
    } else {
        for (int k = 0; k != 2; ++k)
            if (Loc* l = find(granof(p + 8 * k)))
                read_version(l, l->n - 1, mo);
    }
    loaded(p, stale ? ~0u : writes_to(p, sizeof(U)));
    if (tracing)
        ev("load", p, sizeof(U), (uint64_t)v, mo, stale);
    return v;
}

template < class U >
static void do_store(char* p, U v, bool rel, bool rmw)
{
    // old values first
    int  parts = sizeof(U) > 8 ? 2 : 1;
    Ver  from[2];
    for (int k = 0; k != parts; ++k) {
        Loc* l  = get(granof(p + 8 * k));
        from[k] = l->v[l->n - 1];
    }
    memcpy(p, &v, sizeof(U));
    if (p == watch && cur != 0) {
        watch     = nullptr;
        lingering = pol.linger;
    }
    for (int k = 0; k != parts; ++k) {
        uint32_t g = granof(p + 8 * k);
        add_version(g, sizeof(U) > 8 ? 0xff : maskof(p, sizeof(U)), raw(g), rel, rmw, rmw ? &from[k] : nullptr);
    }
}

template < class U >
static void atomic_store(volatile U* a, U v, int mo)
{
    if (!hooked((const void*)a)) {
        __atomic_store(const_cast< U* >(a), &v, __ATOMIC_SEQ_CST);
        return;
    }
    char* p = (char*)a;
    point();
    check_live(p, sizeof(U), "writes");
    tick();
    do_store(p, v, is_rel(mo), false);
    if (tracing)
        ev("store", p, sizeof(U), (uint64_t)v, mo);
}

template < class U, class F >
static U atomic_rmw(volatile U* a, int mo, const char* name, F fn)
{
    char* p = (char*)a;
    if (!hooked(p)) {
        U old, nv;
        __atomic_load(const_cast< U* >(a), &old, __ATOMIC_SEQ_CST);
        do
            nv = fn(old);
        while (!__atomic_compare_exchange(const_cast< U* >(a), &old, &nv, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
        return old;
    }
    point();
    check_live(p, sizeof(U), "writes");
    tick();
    U old;
    memcpy(&old, p, sizeof(U));
    for (uint32_t k = 0; k < (sizeof(U) + 7) / 8; ++k) {
        Loc* l = get(granof(p + 8 * k));
        read_version(l, l->n - 1, mo);
    }
    U nv = fn(old);
    do_store(p, nv, is_rel(mo), true);
    if (tracing)
        ev(name, p, sizeof(U), (uint64_t)old, mo, 0, (uint64_t)nv);
    return old;
}

void* vs::weak_expected(void* p, size_t size)
{
    static char fake[NT][32];
    if (!cfg.spurious16 || !active() || self() < 0 || size > 32)
        return p;
    if (pbt::ctx->tape.draw(16) < 16 - cfg.spurious16)
        return p;
    ++nspurious;
    char* f = fake[self()];
    for (size_t i = 0; i != size; ++i)
        f[i] = (char)~((char*)p)[i];
    if (tracing)
        ev("spurious", (char*)p, (int)size, 0, 0, 0);
    return f;
}

template < class U >
static U atomic_cas(volatile U* a, U c, U v, int mo, int fmo)
{
    char* p = (char*)a;
    if (!hooked(p)) {
        __atomic_compare_exchange(const_cast< U* >(a), &c, &v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        return c;
    }
    if (pol.kind == 3 && cur == 0 && pol.skip)
        --pol.skip;
    else if (pol.kind == 3 && cur == 0 && pol.rounds) {
        --pol.rounds;
        watch    = p;
        patience = 400;
    }
    if (cur >= 0)
        fib[cur].counted[2]++;
    point();
    check_live(p, sizeof(U), "writes");
    tick();
    U old;
    memcpy(&old, p, sizeof(U));
    bool ok = memcmp(&old, &c, sizeof(U)) == 0;
    for (uint32_t k = 0; k < (sizeof(U) + 7) / 8; ++k) {
        Loc*    l = get(granof(p + 8 * k));
        uint8_t m = sizeof(U) > 8 ? 0xff : maskof(p, sizeof(U));
        int     i = l->n - 1;
        while (i > 0 && !(l->v[i].mask & m))
            --i;
        read_version(l, i, ok ? mo : fmo);
    }
    if (ok) {
        if (cur >= 0)
            fib[cur].counted[1]++;
        uint32_t w = writes_to(p, sizeof(U));
        if (cur >= 0)
            for (auto& s : fib[cur].seen)
                if (s.p == p && s.mods != ~0u && s.mods != w)
                    ++nreturned;
        do_store(p, v, is_rel(mo), true);
    }
    loaded(p, writes_to(p, sizeof(U)));
    if (tracing)
        ev(ok ? "cas" : "cas-fail", p, sizeof(U), (uint64_t)old, ok ? mo : fmo, 0, (uint64_t)v);
    return old;
}

static void fence(int mo)
{
    if (!model_on || cur < 0 || native_on)
        return;
    point();
    Fiber& f = fib[cur];
    tick();
    if (is_acq(mo))
        join(f.vc, f.acqpend);
    if (is_rel(mo))
        f.relfence = f.vc;
    ev("fence", nullptr, 0, 0, mo);
}


// memcpy through the model, 8 bytes at a time
static void copy_range(char* d, const char* s, size_t n)
{
    while (n) {
        size_t k = 8 - ((hooked(s) ? (uintptr_t)s : (uintptr_t)d) & 7);
        if (hooked(s) && hooked(d))
            k = std::min(k, (size_t)(8 - ((uintptr_t)d & 7)));
        k = std::min(k, n);
        unsigned char tmp[8];
        if (hooked(s))
            plain_read((void*)s, (uint32_t)k);
        memcpy(tmp, s, k);
        if (hooked(d))
            plain_write(d, (uint32_t)k);
        memcpy(d, tmp, k);
        d += k;
        s += k;
        n -= k;
    }
}

} // namespace vs

using namespace vs;
typedef unsigned __int128 u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { if (hooked(p)) plain_write(p, 8); }
void __tsan_vptr_read(void** p) { if (hooked(p)) plain_read(p, 8); }
#define RW(N)                                                                             \
    void __tsan_read##N(void* p) { if (hooked(p)) plain_read(p, N); }                       \
    void __tsan_write##N(void* p) { if (hooked(p)) plain_write(p, N); }                     \
    void __tsan_unaligned_read##N(void* p) { if (hooked(p)) plain_read(p, N); }             \
    void __tsan_unaligned_write##N(void* p) { if (hooked(p)) plain_write(p, N); }           \
    void __tsan_volatile_read##N(void* p) { if (hooked(p)) plain_read(p, N); }              \
    void __tsan_volatile_write##N(void* p) { if (hooked(p)) plain_write(p, N); }            \
    void __tsan_read_write##N(void* p) { if (hooked(p)) { plain_read(p, N); plain_write(p, N); } } \
    void __tsan_unaligned_read_write##N(void* p) { if (hooked(p)) { plain_read(p, N); plain_write(p, N); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { for (; n >= 8; n -= 8, p = (char*)p + 8) if (hooked(p)) plain_read(p, 8); }
void __tsan_write_range(void* p, unsigned long n) { for (; n >= 8; n -= 8, p = (char*)p + 8) if (hooked(p)) plain_write(p, 8); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (hooked(d) || hooked(s)) {
        copy_range((char*)d, (const char*)s, n);
        return d;
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if ((hooked(d) || hooked(s)) && ((char*)d + n <= (char*)s || (char*)s + n <= (char*)d)) {
        copy_range((char*)d, (const char*)s, n);
        return d;
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (hooked(d)) {
        // one scheduling point; the words become plain versions
        char* p = (char*)d;
        size_t k = n;
        point();
        check_live(d, (uint32_t)n, "writes");
        tick();
        std::vector<uint32_t> gs;
        for (uint32_t g = granof(p); g <= granof(p + k - 1); ++g)
            get(g);
        memset(d, c, n);
        while (k) {
            uint32_t m = (uint32_t)std::min<size_t>(k, 8 - ((uintptr_t)p & 7));
            uint32_t g = granof(p);
            if (find(g)->obj)
                payload_write_check(find(g), "clears");
            add_version(g, maskof(p, m), raw(g), false, false, nullptr);
            p += m;
            k -= m;
        }
        ev("memset", d, (uint32_t)n, (uint64_t)c, -1);
        return d;
    }
    return memset(d, c, n);
}
#define AT(B, U)                                                                                          \
    U  __tsan_atomic##B##_load(const volatile U* a, int mo) { return atomic_load< U >(a, mo); }           \
    void __tsan_atomic##B##_store(volatile U* a, U v, int mo) { atomic_store< U >(a, v, mo); }            \
    U  __tsan_atomic##B##_exchange(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "xchg", [=](U) { return v; }); } \
    U  __tsan_atomic##B##_fetch_add(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "add", [=](U o) { return (U)(o + v); }); } \
    U  __tsan_atomic##B##_fetch_sub(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "sub", [=](U o) { return (U)(o - v); }); } \
    U  __tsan_atomic##B##_fetch_and(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "and", [=](U o) { return (U)(o & v); }); } \
    U  __tsan_atomic##B##_fetch_or(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "or", [=](U o) { return (U)(o | v); }); }   \
    U  __tsan_atomic##B##_fetch_xor(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "xor", [=](U o) { return (U)(o ^ v); }); } \
    U  __tsan_atomic##B##_fetch_nand(volatile U* a, U v, int mo) { return atomic_rmw< U >(a, mo, "nand", [=](U o) { return (U)~(o & v); }); } \
    U  __tsan_atomic##B##_compare_exchange_val(volatile U* a, U c, U v, int mo, int fmo) { return atomic_cas< U >(a, c, v, mo, fmo); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile U* a, U* c, U v, int mo, int fmo) { U o = atomic_cas< U >(a, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile U* a, U* c, U v, int mo, int fmo) { U o = atomic_cas< U >(a, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
AT(128, u128)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
