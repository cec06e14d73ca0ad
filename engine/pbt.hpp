// Property-based testing engine.
//
// Every random choice of a case is drawn from a Tape. In generation mode the tape is fed by a PRNG that is a pure
// function of (seed, scenario, case index) and every draw is recorded; in replay mode the draws come from a file.
// A failing tape is shrunk (delete blocks / zero blocks / lower single draws) by re-running it in forked children,
// so crashes and hangs shrink like any other failure. Draw value 0 is always the simplest choice.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>

#define PBT_NOTSAN __attribute__((disable_sanitizer_instrumentation))

namespace pbt {

class Tape
{
public:
    uint32_t draw(uint32_t n);                       // uniform in [0,n), n >= 1
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); } // inclusive
    bool     chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // 0 -> false
    uint32_t draws() const { return ndraws_; }
    // set up by the runner
    void start_random(uint64_t seed);
    void start_replay(const uint32_t* v, size_t n);

private:
    uint64_t        s_[2];
    const uint32_t* in_     = nullptr;
    size_t          nin_    = 0;
    bool            replay_ = false;
    uint32_t        ndraws_ = 0;
    uint64_t        next();
};

struct Ctx
{
    Tape        tape;
    std::string desc;          // human readable description of the case; only kept when wanted (verbose or sampling)
    bool        verbose = false;
    bool        nontrivial = false;
    uint64_t    hash    = 1469598103934665603ull; // identity of the case, used to count distinct cases
    std::string property;

    void mix(uint64_t v)
    {
        hash ^= v + 0x9e3779b97f4a7c15ull;
        hash *= 0x100000001b3ull;
        hash ^= hash >> 29;
    }
    bool opt(const char* name) const;            // --opt name given?
    long optval(const char* name, long dflt) const;
};

// the current case (one per process)
extern Ctx* ctx;

// classification counter
int  label_id(const char* name);
void label(int id);
#define PBT_LABEL(name)                                 \
    do {                                                \
        static int l_ = ::pbt::label_id(name);          \
        ::pbt::label(l_);                               \
    } while (0)

// Report a failure of the current case; never returns. sig identifies the kind of failure (used for known findings
// and to keep the shrinker on the same failure).
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define PBT_CHECK(cond, sig, ...)                       \
    do {                                                \
        if (!(cond))                                    \
            ::pbt::fail(sig, __VA_ARGS__);              \
    } while (0)

void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // append to desc
bool want_desc();
bool replaying();  // not generating: a tape is run again
void heartbeat();  // this case is not hanging

typedef void (*scenario_fn)(Ctx&);
struct Scenario
{
    const char* name;
    scenario_fn fn;
    const char* rule;
};
void register_scenario(const char* name, scenario_fn fn, const char* rule);
struct Registrar
{
    Registrar(const char* n, scenario_fn f, const char* rule) { register_scenario(n, f, rule); }
};
#define PBT_SCENARIO(ident, rule)                                    \
    static void ident(::pbt::Ctx&);                                  \
    static ::pbt::Registrar ident##_reg(#ident, ident, rule);        \
    static void ident(::pbt::Ctx& cx)

int main_impl(int argc, char** argv);

// extra text printed on replay when the case failed (e.g. schedule trace)
extern void (*on_fail_dump)(std::string& out);

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

} // namespace pbt
