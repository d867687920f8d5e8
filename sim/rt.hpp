// Deterministic simulation runtime: one process, one running thread at a time,
// every scheduling / allocation / entropy / clock / file-read decision taken
// from one seed.  See DESIGN.md section "Simulator".
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>

namespace rt {

constexpr int MAXT = 40;
constexpr int MAXSW = 1 << 15;

struct SwitchRec {
    uint32_t step;
    uint8_t from, to;
};

enum Strat { SERIAL = 0, RANDOM = 1, PCT = 2, QUANTUM = 3, CONFLICT = 4, NSTRAT = 5 };
enum AllocMode { LIFO = 0, BUMP = 1, SHUFFLE = 2, NALLOC = 3 };

struct Cfg {
    uint64_t seed = 1;
    int strat = SERIAL;
    uint32_t p1 = 0;           // RANDOM: 1/p1 per step; QUANTUM: steps; PCT: change points; CONFLICT: percent
    uint32_t p2 = 0;           // PCT: horizon in steps
    int team = 1;              // OpenMP team size
    bool team_vary = false;    // every region picks its own size in 1..team
    bool nested = false;       // nested parallel regions get real teams
    int alloc_mode = LIFO;
    int fill = 0;              // 0 zeros 1 0xff(NaN) 2 random 3 large-float pattern
    uint64_t alloc_salt = 0;
    uint64_t entropy = 1;
    int64_t clock_base = 1000000000LL;
    int64_t clock_step = 10;   // virtual ns per step
    int pid = 4242;
    uint64_t max_steps = 300000000ULL;
    bool replay = false;       // use forced switch list instead of a strategy
    int nsw = 0;
    const SwitchRec* sw = nullptr;
};

// ---- shared report (child -> parent) ----
constexpr int NCOUNT = 160;
struct Report {
    int status;                // 0 not finished 1 finished 2 violation 3 internal error
    char cls[96];
    char msg[2048];
    uint64_t steps, dsteps, vtime, hash, sig, ilv;
    uint32_t npreempt, nforced, nthreads, nregions;
    uint64_t allocs, allocfails;
    int ncounters;
    char cname[NCOUNT][48];
    uint64_t cval[NCOUNT];
    uint64_t pc[4];
    int nsw;
    int sw_overflow;
    SwitchRec sw[MAXSW];
};

void init_process(Report* shared);
Report* report();

// Runs body in the simulator to completion (call in the forked child).
void run(const Cfg& cfg, void (*body)(void*), void* arg);

[[noreturn]] void fatal(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// like fatal, only recorded as a violation of the property
#define RT_FAIL(cls, ...) ::rt::fatal(cls, __VA_ARGS__)

void count(const char* name, uint64_t n = 1);
void note(uint64_t v);            // mixes into the run hash (event log digest)
void note_sig(uint64_t v);        // mixes into the coverage signature
bool active();

// Harness code inside the simulation: no preemption, no fault, host allocator.
struct Quiet {
    Quiet();
    ~Quiet();
    Quiet(const Quiet&) = delete;
};
// The opposite, nested inside Quiet.
struct Loud {
    int saved;
    Loud();
    ~Loud();
};

// simulated caller threads
int spawn(std::function<void()> f);
void join(int h);
void yield_point();
int self();
uint64_t now_steps();             // global event sequence number
uint64_t event();                 // fresh, unique event stamp
int64_t vclock();

// allocator faults
void arm_alloc_fail(uint64_t nth, uint64_t howmany = 1);   // nth >= 1 loud allocation from now
void disarm_alloc_fail();
uint64_t alloc_count();           // loud allocations so far
uint64_t live_allocs();           // live arena blocks
uint64_t live_bytes();            // bytes in them
uint64_t peak_bytes(bool reset);  // highest live_bytes since the last reset
uint64_t alloc_failures();        // failures delivered
bool is_arena(const void* p);
void set_alloc(int mode, int fill, uint64_t salt);
void set_alloc_cap(size_t bytes);
void scribble_stack(uint64_t seed);
void allow_stop(bool v);          // process termination inside a parallel region (no exception may leave one) is acceptable
void reuse_hint(bool prefer_same_addr);

// simulated disk / environment
struct FilePlan {
    uint32_t short_pct = 0;       // chance that a read is shortened
    uint32_t eintr_pct = 0;       // chance that a read reports EINTR first
    int64_t eio_at = -1;          // byte offset from which reads fail with EIO (-1 never)
    int64_t cut_at = -1;          // file appears to end here (-1 never)
    int64_t grow_at = -1;         // (unused)
    int open_errno = 0;           // open fails
};
void file_plan(const char* path, const FilePlan& p);
void clear_file_plans();
void set_entropy(uint64_t seed, int mode, int64_t fail_after);  // mode 0 random,1 constant,2 counter; fail_after<0 never
void set_team(int team, bool vary, bool nested);
uint64_t reads_done();
bool entropy_failed();
void race_detection(bool on);

// deterministic stream for scenario-internal decisions in a run
uint64_t rnd();
// idle time (all clocks), and a step of the wall clock alone, which may go back
void advance_clock(int64_t ns, int64_t wall = 0);

}  // namespace rt

// splitmix / xorshift generator used for plans
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
inline uint64_t mix64(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x632BE59BD9B4E019ULL + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
