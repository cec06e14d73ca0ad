#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static const int    MAXLABEL  = 160;
static const int    MAXWORK   = 64;
static const size_t MAXTAPE   = 1 << 16;
static const int    MAXSAMPLE = 4;

struct LabelTab
{
    std::atomic<int>      n;
    std::atomic<int>      lock;
    char                  name[MAXLABEL][64];
    std::atomic<uint64_t> count[MAXLABEL];
};

struct WorkerShm
{
    std::atomic<uint64_t> cur;       // case being run (+1)
    uint64_t              skip_to;
    int                   failed;    // failure recorded by fail()
    int                   hang;
    char                  sig[128];
    char                  msg[4096];
    char                  desc[65536];
    uint32_t              ntape;
    uint32_t              tape[MAXTAPE];
};

struct Global
{
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> evals, nontriv, distinct, table_full;
    std::atomic<int>      stop;
    std::atomic<int>      nsamples;
    char                  sample[MAXSAMPLE][6000];
    LabelTab              labels;
    std::atomic<int>      nviol;
    char                  viol_sig[8][128];
    char                  viol_msg[8][4096];
    char                  viol_file[8][1024];
    std::atomic<int>      nknown;
    char                  known_sig[32][128];
    std::atomic<uint64_t> unconfirmed, foreign;
    std::atomic<uint64_t> timed_out;
};

static Global*                 G;
static WorkerShm*              W;      // of this process
static std::atomic<uint64_t>*  table;  // distinct case hashes
static const size_t            TABLE = 1u << 26; // distinct counts are lower bounds beyond half of it
Ctx*                           ctx;
void (*on_fail_dump)(std::string&) = nullptr;
static std::vector<Scenario>*  scen;
static std::map<std::string, long> opts;
static std::vector<std::string>    known_sigs, foreign_sigs;
static bool                        in_replay = false;
static volatile int                same_ticks;
static bool                        sampling  = false;

void register_scenario(const char* n, scenario_fn f, const char* r)
{
    if (!scen)
        scen = new std::vector<Scenario>;
    scen->push_back(Scenario { n, f, r });
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i != n; ++i) {
        h ^= c[i];
        h *= 0x100000001b3ull;
    }
    return h;
}

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void Tape::start_random(uint64_t seed)
{
    s_[0]   = splitmix(seed);
    s_[1]   = splitmix(seed);
    replay_ = false;
    ndraws_ = 0;
    W->ntape = 0;
}
void Tape::start_replay(const uint32_t* v, size_t n)
{
    in_     = v;
    nin_    = n;
    replay_ = true;
    ndraws_ = 0;
    W->ntape = 0;
}
uint64_t Tape::next()
{
    uint64_t s1 = s_[0], s0 = s_[1];
    uint64_t r  = s0 + s1;
    s_[0]       = s0;
    s1 ^= s1 << 23;
    s_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
uint32_t Tape::draw(uint32_t n)
{
    uint32_t v;
    if (replay_)
        v = ndraws_ < nin_ ? in_[ndraws_] % n : 0;
    else
        v = (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32);
    ndraws_++;
    if (W->ntape < MAXTAPE)
        W->tape[W->ntape++] = v;
    return v;
}

bool Ctx::opt(const char* name) const { return opts.count(name) && opts[name] != 0; }
long Ctx::optval(const char* name, long d) const { return opts.count(name) ? opts[name] : d; }

int label_id(const char* name)
{
    LabelTab& L = G->labels;
    while (L.lock.exchange(1))
        ;
    int n = L.n.load(), i;
    for (i = 0; i != n; ++i)
        if (!strcmp(L.name[i], name))
            break;
    if (i == n && n < MAXLABEL) {
        snprintf(L.name[n], sizeof L.name[n], "%s", name);
        L.n.store(n + 1);
    }
    L.lock.store(0);
    return i < MAXLABEL ? i : MAXLABEL - 1;
}
void label(int id) { G->labels.count[id].fetch_add(1, std::memory_order_relaxed); }

bool want_desc() { return in_replay || sampling; }
bool replaying() { return in_replay; }
void heartbeat() { same_ticks = 0; }

void note(const char* fmt, ...)
{
    if (!want_desc())
        return;
    char    buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (ctx->desc.size() < 60000)
        ctx->desc += buf;
}

static void record_failure(const char* sig, const char* msg)
{
    W->failed = 1;
    snprintf(W->sig, sizeof W->sig, "%s", sig);
    snprintf(W->msg, sizeof W->msg, "%s", msg);
    if (in_replay) {
        std::string d = ctx->desc;
        if (on_fail_dump)
            on_fail_dump(d);
        snprintf(W->desc, sizeof W->desc, "%s", d.c_str());
    }
}

void fail(const char* sig, const char* fmt, ...)
{
    char    buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    record_failure(sig, buf);
    _exit(41);
}

// ---- hang detection by CPU time of this process
static uint64_t last_cur;
static int      hang_ticks = 8;
static void     on_tick(int)
{
    uint64_t c = W->cur.load(std::memory_order_relaxed);
    if (c == last_cur) {
        if (++same_ticks >= hang_ticks) {
            W->failed = 1;
            W->hang   = 1;
            snprintf(W->sig, sizeof W->sig, "hang");
            snprintf(W->msg, sizeof W->msg, "the case did not finish: an operation never returned (cpu-time watchdog)");
            if (in_replay)
                snprintf(W->desc, sizeof W->desc, "%s", ctx ? ctx->desc.c_str() : "");
            _exit(42);
        }
    } else {
        last_cur   = c;
        same_ticks = 0;
    }
}
static void arm_watchdog(int ticks)
{
    hang_ticks = ticks;
    last_cur   = ~0ull;
    same_ticks = 0;
    static char altstack[65536];
    stack_t     ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp   = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags   = SA_RESTART | SA_ONSTACK;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it;
    it.it_interval.tv_sec  = 1;
    it.it_interval.tv_usec = 0;
    it.it_value            = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static uint64_t case_seed(uint64_t seed, const char* scenario, uint64_t idx)
{
    uint64_t h = hash_bytes(scenario, strlen(scenario), 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull));
    h ^= idx * 0xd6e8feb86659fd93ull;
    uint64_t x = h;
    return splitmix(x);
}

static void insert_distinct(uint64_t h)
{
    if (!h)
        h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - 23);
    for (int probe = 0; probe != 64; ++probe) {
        uint64_t e = table[i].load(std::memory_order_relaxed);
        if (e == h)
            return;
        if (e == 0) {
            if (table[i].compare_exchange_strong(e, h)) {
                G->distinct++;
                return;
            }
            if (e == h)
                return;
        }
        i = (i + 1) & (TABLE - 1);
    }
    G->table_full++;
}

static const Scenario* S;
static uint64_t        SEED;
static std::string     PROP;

// run cases [lo,hi) in this process
static void child_chunk(uint64_t lo, uint64_t hi)
{
    arm_watchdog(10);
    for (uint64_t i = lo; i != hi; ++i) {
        W->cur.store(i + 1, std::memory_order_relaxed);
        Ctx c;
        c.property = PROP;
        ctx        = &c;
        // a few cases of the run are written out in full as samples
        sampling   = (i == 3 || i == 1003 || i == 5003) && G->nsamples.load() < MAXSAMPLE;
        c.tape.start_random(case_seed(SEED, S->name, i));
        S->fn(c);
        G->evals.fetch_add(1, std::memory_order_relaxed);
        if (c.nontrivial) {
            G->nontriv.fetch_add(1, std::memory_order_relaxed);
            insert_distinct(c.hash);
        }
        if (sampling) {
            int k = G->nsamples.fetch_add(1);
            if (k < MAXSAMPLE)
                snprintf(G->sample[k], sizeof G->sample[k], "case %llu: %s", (unsigned long long)i, c.desc.c_str());
        }
        ctx = nullptr;
    }
}

static void silence()
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
}

enum { OK, FAILED, CRASHED };
static int wait_status(pid_t p, int& sigout)
{
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    sigout = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return OK;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 41 || WEXITSTATUS(st) == 42))
        return FAILED;
    sigout = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
    return CRASHED;
}

static void crash_message(int sig)
{
    W->failed = 1;
    if (sig >= 1000) {
        snprintf(W->sig, sizeof W->sig, "crash");
        snprintf(W->msg, sizeof W->msg, "the process was ended by the sanitizer runtime or exit(%d): memory error in the code under test", sig - 1000);
    } else {
        snprintf(W->sig, sizeof W->sig, "crash");
        snprintf(W->msg, sizeof W->msg, "the process died of signal %d (%s)%s", sig, strsignal(sig),
                 sig == SIGABRT ? ": assertion or sanitizer report" : "");
    }
}

// run one tape in a forked child; true if it fails (W holds the details)
static bool run_tape(const std::vector<uint32_t>& t, bool verbose, int ticks)
{
    W->failed = 0;
    W->hang   = 0;
    W->cur    = 0;
    W->desc[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        if (!verbose)
            silence();
        in_replay = true;
        arm_watchdog(ticks);
        Ctx c;
        c.property = PROP;
        c.verbose  = verbose;
        ctx        = &c;
        c.tape.start_replay(t.data(), t.size());
        S->fn(c);
        snprintf(W->desc, sizeof W->desc, "%s", c.desc.c_str());
        _exit(0);
    }
    int sig;
    int r = wait_status(p, sig);
    if (r == OK)
        return false;
    if (r == CRASHED)
        crash_message(sig);
    return true;
}

static double now_s()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, const std::string& sig, double budget, bool hang)
{
    double end   = now_s() + budget;
    int    ticks = hang ? 2 : 5;
    auto   bad   = [&](const std::vector<uint32_t>& t) {
        if (now_s() > end)
            return false;
        return run_tape(t, false, ticks) && sig == W->sig;
    };
    // the recorded tape of a failing run is its effective prefix
    auto accept = [&](std::vector<uint32_t>& b) {
        std::vector<uint32_t> used(W->tape, W->tape + W->ntape);
        if (used.size() < b.size())
            b = used;
    };
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        // truncate
        for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
            while (best.size() > cut) {
                std::vector<uint32_t> t(best.begin(), best.end() - cut);
                if (!bad(t))
                    break;
                best     = t;
                accept(best);
                progress = true;
            }
        }
        // delete blocks
        for (size_t blk : { 64, 32, 16, 8, 6, 5, 4, 3, 2, 1 }) {
            for (size_t i = 0; i + blk <= best.size() && now_s() < end;) {
                std::vector<uint32_t> t = best;
                t.erase(t.begin() + i, t.begin() + i + blk);
                if (bad(t)) {
                    best     = t;
                    accept(best);
                    progress = true;
                } else
                    i += blk > 8 ? blk / 2 : 1;
            }
        }
        // zero blocks
        for (size_t blk : { 16, 8, 4, 2, 1 }) {
            for (size_t i = 0; i + blk <= best.size() && now_s() < end; i += blk) {
                bool nz = false;
                for (size_t k = 0; k != blk; ++k)
                    nz |= best[i + k] != 0;
                if (!nz)
                    continue;
                std::vector<uint32_t> t = best;
                std::fill(t.begin() + i, t.begin() + i + blk, 0);
                if (bad(t)) {
                    best     = t;
                    accept(best);
                    progress = true;
                }
            }
        }
        // lower single values
        for (size_t i = 0; i < best.size() && now_s() < end; ++i) {
            uint32_t lo = 0;
            while (i < best.size() && best[i] > lo) {
                std::vector<uint32_t> t   = best;
                uint32_t              mid = lo + (best[i] - lo) / 2;
                t[i]                      = mid;
                if (bad(t)) {
                    best     = t;
                    progress = true;
                } else
                    lo = mid + 1;
                if (now_s() > end)
                    break;
            }
        }
    }
    return best;
}

static std::string OUTDIR = ".";
static std::string BINPATH;

static void write_replay(const char* path, const std::vector<uint32_t>& tape, uint64_t idx, const std::string& kind,
                         uint64_t lo)
{
    FILE* f = fopen(path, "w");
    if (!f)
        return;
    fprintf(f, "# replay: %s replay --prop %s --scenario %s", BINPATH.c_str(), PROP.c_str(), S->name);
    for (auto& o : opts)
        fprintf(f, " --opt %s=%ld", o.first.c_str(), o.second);
    fprintf(f, " --file %s\n", path);
    fprintf(f, "property %s\nscenario %s\nseed %llu\ncase %llu\nkind %s\nchunk %llu\n", PROP.c_str(), S->name,
            (unsigned long long)SEED, (unsigned long long)idx, kind.c_str(), (unsigned long long)lo);
    for (auto& o : opts)
        fprintf(f, "opt %s %ld\n", o.first.c_str(), o.second);
    fprintf(f, "signature %s\n", W->sig);
    std::string m = W->msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    fprintf(f, "message %s\n", m.c_str());
    fprintf(f, "tape %zu", tape.size());
    for (uint32_t v : tape)
        fprintf(f, " %u", v);
    fprintf(f, "\n");
    if (W->desc[0])
        fprintf(f, "---- the minimised case\n%s\n", W->desc);
    fclose(f);
}

// failures that are a matter of another property: the case is set aside
static bool is_foreign(const char* sig)
{
    for (auto& k : foreign_sigs)
        if (k == sig)
            return true;
    return false;
}

static bool is_known(const char* sig)
{
    for (auto& k : known_sigs)
        if (k == sig)
            return true;
    return false;
}

static int fork_chunk(uint64_t lo, uint64_t hi, int& sig)
{
    W->failed = 0;
    W->hang   = 0;
    W->cur    = lo + 1;
    pid_t p   = fork();
    if (p == 0) {
        if (!getenv("PBT_LOUD"))
            silence();
        child_chunk(lo, hi);
        _exit(0);
    }
    return wait_status(p, sig);
}

static void handle_failure(uint64_t chunk_lo, uint64_t chunk_hi, double shrink_budget)
{
    uint64_t              idx = W->cur.load() - 1;
    std::vector<uint32_t> tape(W->tape, W->tape + W->ntape);
    std::string           sig = W->sig, msg = W->msg;
    bool                  hang = W->hang;
    bool                  killed = sig == "crash" && msg.find("signal 9 ") != std::string::npos;
    if (is_foreign(sig.c_str())) {
        if (G->foreign++ > 30000)
            G->stop = 1; // hardly any case gets far enough to be judged
        return;
    }
    if (is_known(sig.c_str())) {
        while (G->labels.lock.exchange(1))
            ;
        int n = G->nknown.load(), i;
        for (i = 0; i != n; ++i)
            if (sig == G->known_sig[i])
                break;
        if (i == n && n < 32) {
            snprintf(G->known_sig[n], 128, "%s", sig.c_str());
            G->nknown = n + 1;
        }
        G->labels.lock.store(0);
        return;
    }
    // confirm: the tape has to fail three times out of three
    int again = 0;
    for (int i = 0; i != 3; ++i)
        if (run_tape(tape, false, hang ? 5 : 10) && sig == W->sig)
            again++;
    int  k    = -1;
    char path[1000];
    // the schedules of these scenarios are not ours: what was observed once is a fact, the tape only repeats the attempt
    bool real = !strncmp(S->name, "native", 6) && !hang && again != 3 && !killed;
    if (real) {
        G->stop = 1;
        k       = G->nviol.fetch_add(1);
        if (k >= 8)
            return;
        snprintf(W->sig, sizeof W->sig, "%s", sig.c_str());
        snprintf(W->msg, sizeof W->msg, "%s", msg.c_str());
        snprintf(path, sizeof path, "%s/%s-%s-%llu-%llu.replay", OUTDIR.c_str(), PROP.c_str(), S->name,
                 (unsigned long long)SEED, (unsigned long long)idx);
        write_replay(path, tape, idx, "tape", chunk_lo);
    } else if (again == 3) {
        G->stop = 1;
        k       = G->nviol.fetch_add(1);
        if (k >= 8)
            return;
        tape = shrink(tape, sig, hang ? std::min(shrink_budget, 20.0) : shrink_budget, hang);
        run_tape(tape, false, hang ? 5 : 10);
        snprintf(path, sizeof path, "%s/%s-%s-%llu-%llu.replay", OUTDIR.c_str(), PROP.c_str(), S->name,
                 (unsigned long long)SEED, (unsigned long long)idx);
        write_replay(path, tape, idx, "tape", chunk_lo);
    } else {
        // depends on what earlier cases of the chunk left behind (memory contents): the chunk is the replay unit
        int ok = 0, s;
        for (int i = 0; i != 2; ++i)
            if (fork_chunk(chunk_lo, chunk_hi, s) != OK && W->cur.load() - 1 == idx)
                ok++;
        if (ok != 2) {
            G->unconfirmed++;
            return;
        }
        if (!W->failed)
            crash_message(s);
        if (is_known(W->sig) || is_foreign(W->sig))
            return;
        G->stop = 1;
        k       = G->nviol.fetch_add(1);
        if (k >= 8)
            return;
        snprintf(path, sizeof path, "%s/%s-%s-%llu-%llu.replay", OUTDIR.c_str(), PROP.c_str(), S->name,
                 (unsigned long long)SEED, (unsigned long long)idx);
        write_replay(path, tape, idx, "chunk", chunk_lo);
    }
    snprintf(G->viol_sig[k], 128, "%s", W->sig);
    snprintf(G->viol_msg[k], 4096, "%s", W->msg);
    snprintf(G->viol_file[k], 1024, "%s", path);
}

static void* shalloc(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(9);
    }
    return p;
}

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c == '\n')
            fputs("\\n", f);
        else if (c == '\t')
            fputs("\\t", f);
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

static WorkerShm* wshm;

int main_impl(int argc, char** argv)
{
    // same addresses in every run: what a case does to memory it should not touch stays reproducible
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_NOREEXEC")) {
        setenv("PBT_NOREEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    BINPATH = argv[0];
    std::string mode = argc > 1 ? argv[1] : "list", scenario, out, file;
    uint64_t    cases = 1000, chunk = 0, jobs = 1;
    double      maxwall = 600, shrinkb = 40;
    SEED = 1;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto        v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop")
            PROP = v();
        else if (a == "--scenario")
            scenario = v();
        else if (a == "--seed")
            SEED = strtoull(v().c_str(), 0, 10);
        else if (a == "--cases")
            cases = strtoull(v().c_str(), 0, 10);
        else if (a == "--chunk")
            chunk = strtoull(v().c_str(), 0, 10);
        else if (a == "--jobs")
            jobs = strtoull(v().c_str(), 0, 10);
        else if (a == "--out")
            out = v();
        else if (a == "--outdir")
            OUTDIR = v();
        else if (a == "--file")
            file = v();
        else if (a == "--max-wall")
            maxwall = atof(v().c_str());
        else if (a == "--shrink")
            shrinkb = atof(v().c_str());
        else if (a == "--known")
            known_sigs.push_back(v());
        else if (a == "--foreign")
            foreign_sigs.push_back(v());
        else if (a == "--opt") {
            std::string o = v();
            size_t      e = o.find('=');
            opts[o.substr(0, e)] = e == std::string::npos ? 1 : atol(o.c_str() + e + 1);
        }
    }
    if (mode == "list") {
        for (auto& s : *scen)
            printf("%s\t%s\n", s.name, s.rule);
        return 0;
    }
    G     = (Global*)shalloc(sizeof(Global));
    wshm  = (WorkerShm*)shalloc(sizeof(WorkerShm) * MAXWORK);
    table = (std::atomic<uint64_t>*)shalloc(sizeof(uint64_t) * TABLE);
    W     = &wshm[0];

    if (mode == "replay") {
        FILE* f = fopen(file.c_str(), "r");
        if (!f) {
            perror(file.c_str());
            return 2;
        }
        char*                 line = nullptr;
        size_t                cap  = 0;
        std::vector<uint32_t> tape;
        std::string           kind = "tape";
        uint64_t              lo = 0, idx = 0;
        while (getline(&line, &cap, f) > 0) {
            char a[200], b[200];
            long n;
            if (sscanf(line, "property %199s", a) == 1)
                PROP = a;
            else if (sscanf(line, "scenario %199s", a) == 1)
                scenario = a;
            else if (sscanf(line, "seed %199s", a) == 1)
                SEED = strtoull(a, 0, 10);
            else if (sscanf(line, "case %199s", a) == 1)
                idx = strtoull(a, 0, 10);
            else if (sscanf(line, "chunk %199s", a) == 1)
                lo = strtoull(a, 0, 10);
            else if (sscanf(line, "kind %199s", a) == 1)
                kind = a;
            else if (sscanf(line, "opt %199s %199s", a, b) == 2)
                opts[a] = atol(b);
            else if (sscanf(line, "tape %ld", &n) == 1) {
                char* p = line + 5;
                strtol(p, &p, 10);
                for (long i = 0; i < n; ++i)
                    tape.push_back((uint32_t)strtoul(p, &p, 10));
            } else if (!strncmp(line, "----", 4))
                break;
        }
        fclose(f);
        for (auto& s : *scen)
            if (scenario == s.name)
                S = &s;
        if (!S)
            return 2;
        if (kind == "chunk") {
            int s;
            int r = fork_chunk(lo, idx + 1, s);
            if (r == CRASHED)
                crash_message(s);
            if (r == OK) {
                printf("replay: passes\n");
                return 0;
            }
        } else if (!run_tape(tape, true, 10)) {
            printf("%s\nreplay: passes\n", W->desc);
            return 0;
        }
        printf("%s\nreplay: FAILS: [%s] %s\n", W->desc, W->sig, W->msg);
        return 1;
    }

    for (auto& s : *scen)
        if (scenario == s.name)
            S = &s;
    if (!S) {
        fprintf(stderr, "unknown scenario %s\n", scenario.c_str());
        return 2;
    }
    if (!chunk)
        chunk = std::max<uint64_t>(1, std::min<uint64_t>(2000, cases / (jobs * 4) + 1));
    double              t0 = now_s();
    std::vector<pid_t>  ws;
    for (uint64_t j = 0; j != jobs && j < MAXWORK; ++j) {
        pid_t p = fork();
        if (p == 0) {
            W = &wshm[j];
            for (;;) {
                if (G->stop.load())
                    _exit(0);
                if (now_s() - t0 > maxwall) {
                    G->timed_out++;
                    _exit(0);
                }
                uint64_t lo = G->next.fetch_add(chunk);
                if (lo >= cases)
                    _exit(0);
                uint64_t hi = std::min(cases, lo + chunk), pos = lo;
                int      nf = 0;
                while (pos < hi) {
                    int sig;
                    int r = fork_chunk(pos, hi, sig);
                    if (r == OK)
                        break;
                    if (r == CRASHED)
                        crash_message(sig);
                    uint64_t at = W->cur.load(); // = idx + 1
                    if (at <= pos || at > hi)
                        _exit(7); // the child died outside of a case
                    G->evals++;
                    handle_failure(pos, hi, shrinkb);
                    if (G->stop.load())
                        _exit(0);
                    pos = at;
                    if (++nf > 200)
                        break;
                }
            }
        }
        ws.push_back(p);
    }
    int bad = 0;
    for (pid_t p : ws) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
            ;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            bad++;
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"scenario\": ");
    json_str(f, S->name);
    fprintf(f, ", \"rule\": ");
    json_str(f, S->rule);
    fprintf(f, ", \"seed\": %llu, \"cases\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"wall_s\": %.2f, \"timed_out\": %llu, \"unconfirmed\": %llu, \"broken_workers\": %d, \"foreign\": %llu,\n",
            (unsigned long long)SEED, (unsigned long long)cases, (unsigned long long)G->evals.load(),
            (unsigned long long)G->nontriv.load(), (unsigned long long)G->distinct.load(), now_s() - t0,
            (unsigned long long)G->timed_out.load(), (unsigned long long)G->unconfirmed.load(), bad, (unsigned long long)G->foreign.load());
    fprintf(f, "\"labels\": {");
    for (int i = 0, first = 1; i < G->labels.n.load(); ++i) {
        if (!first)
            fprintf(f, ", ");
        first = 0;
        json_str(f, G->labels.name[i]);
        fprintf(f, ": %llu", (unsigned long long)G->labels.count[i].load());
    }
    fprintf(f, "},\n\"samples\": [");
    for (int i = 0; i < std::min(MAXSAMPLE, G->nsamples.load()); ++i) {
        if (i)
            fprintf(f, ",\n");
        json_str(f, G->sample[i]);
    }
    fprintf(f, "],\n\"known\": [");
    for (int i = 0; i < G->nknown.load(); ++i) {
        if (i)
            fprintf(f, ", ");
        json_str(f, G->known_sig[i]);
    }
    fprintf(f, "],\n\"violations\": [");
    for (int i = 0; i < std::min(8, G->nviol.load()); ++i) {
        if (i)
            fprintf(f, ",\n");
        fprintf(f, "{\"signature\": ");
        json_str(f, G->viol_sig[i]);
        fprintf(f, ", \"message\": ");
        json_str(f, G->viol_msg[i]);
        fprintf(f, ", \"replay\": ");
        json_str(f, G->viol_file[i]);
        fprintf(f, "}");
    }
    fprintf(f, "]}\n");
    if (f != stdout)
        fclose(f);
    return bad ? 3 : (G->nviol.load() ? 1 : 0);
}

} // namespace pbt

extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }

int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
