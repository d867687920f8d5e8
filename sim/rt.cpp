// Simulator runtime.  Not instrumented.  See rt.hpp.
#include "rt.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

namespace rt {

// ---------------------------------------------------------------- raw syscalls
static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void fwait(std::atomic<int>* a, int v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(std::atomic<int>* a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---------------------------------------------------------------- state
constexpr uintptr_t ARENA = 0x200000000000ULL;
constexpr size_t ARENA_SZ = 768ULL << 20;
constexpr uintptr_t STACKS = 0x300000000000ULL;
constexpr size_t STK = 2ULL << 20;

enum TState { UNUSED = 0, RUNNABLE, BLOCKED, DONE, IDLE };

struct Team;
struct Thr {
    int tid = 0;
    int state = UNUSED;
    std::atomic<int> go{0};
    uint32_t vc[MAXT];
    uint32_t lstep = 0;
    int quiet = 0;
    int prio = 0;
    void* wait_on = nullptr;
    int64_t wake_at = -1;
    bool timed_out = false;
    bool notified = false;
    Team* team = nullptr;
    int team_id = 0;
    uint32_t ws_idx = 0;
    uint32_t single_idx = 0;
    long st_iter = 0;
    void* ws_cur = nullptr;
    int nthreads_var = 0;
    // start routine
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    std::function<void()>* cxxfn = nullptr;
    bool detached = false;
    bool is_worker = false;
    // worker job
    void (*job)(void*) = nullptr;
    void* jobdata = nullptr;
    pthread_t real{};
    uint32_t sw_pos = 0;     // replay cursor
    char sigstk[16384];
};

struct WS {
    uint32_t id = 0;
    long start, end, incr, chunk;
    int kind;
    long next;
    int left;
    bool is_ull, up;
    unsigned long ustart, uend, uincr, uchunk, unext;
    int sections, sec_next;
    long ord_next;
};
struct Team {
    int n = 1;
    int done = 0;
    int arrived = 0;
    uint32_t bgen = 0;
    uint32_t bvc[MAXT];
    uint32_t bout[MAXT];
    Team* parent = nullptr;
    int master = 0;
    uint32_t single_taken = 0;
    WS ws[16];
    bool used = false;
    void* copyprivate = nullptr;
};

static Report* R;
static bool g_active = false;
static Thr T[MAXT];
static Thr* cur;
static Team g_teams[64];
static int g_nlive = 0;
static int g_hw = 0;   // highest tid + 1
static uint64_t g_steps, g_dsteps, g_event;
static int64_t g_clock_adv, g_clock_idle, g_clock_wall;
static Cfg C;
static uint64_t g_gap = 0;
static uint64_t g_same = 0;
static bool g_resched = false;
static uint64_t g_pct[64];
static int g_npct, g_pctpos, g_prio_low;
static uint64_t g_rng;
static bool g_allow_stop = false;
static bool g_race_on = true;
static std::atomic<int> g_finished{0};
static uint64_t g_erng;
static uint64_t ernd() {
    uint64_t z = (g_erng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static uint64_t srnd() {
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static uint64_t g_urng;
uint64_t rnd() {
    uint64_t z = (g_urng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static inline bool loud() { return __builtin_expect(g_active, 1) && cur->quiet == 0; }

Report* report() { return R; }
bool active() { return g_active; }
void note(uint64_t v) { if (R) R->hash = mix64(R->hash, v); }
void note_sig(uint64_t v) { if (R) R->sig = mix64(R->sig, v); }

void count(const char* name, uint64_t n) {
    if (!R) return;
    for (int i = 0; i < R->ncounters; i++)
        if (!strcmp(R->cname[i], name)) { R->cval[i] += n; return; }
    if (R->ncounters < NCOUNT) {
        strncpy(R->cname[R->ncounters], name, 47);
        R->cname[R->ncounters][47] = 0;
        R->cval[R->ncounters++] = n;
    }
}

static void finish_report() {
    R->steps = g_steps;
    R->dsteps = g_dsteps;
    R->vtime = (uint64_t)(vclock() - C.clock_base - g_clock_idle);
    R->hash = mix64(R->hash, g_dsteps);
}

[[noreturn]] void fatal(const char* cls, const char* fmt, ...) {
    if (!g_active) {
        va_list ap;
        va_start(ap, fmt);
        fprintf(stderr, "fatal outside simulation: %s: ", cls);
        vfprintf(stderr, fmt, ap);
        fputc('\n', stderr);
        va_end(ap);
        raw_syscall(SYS_exit_group, 9);
        __builtin_unreachable();
    }
    cur->quiet++;
    if (R->status == 0) {
        strncpy(R->cls, cls, sizeof R->cls - 1);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        va_end(ap);
        finish_report();
        for (const char* p = cls; *p; p++) R->hash = mix64(R->hash, *p);
        R->status = 2;
    }
    raw_syscall(SYS_exit_group, 3);
    __builtin_unreachable();
}

int self() { return g_active ? cur->tid : -1; }
uint64_t now_steps() { return g_steps; }
uint64_t event() { return ++g_event; }
int64_t vclock() { return C.clock_base + (int64_t)g_steps * C.clock_step + g_clock_adv + g_clock_idle; }
void advance_clock(int64_t ns, int64_t wall) { g_clock_idle += ns; g_clock_wall += wall; count("fault.clock_jump"); }

Quiet::Quiet() { if (g_active) cur->quiet++; }
Quiet::~Quiet() { if (g_active) cur->quiet--; }
Loud::Loud() : saved(0) { if (g_active) { saved = cur->quiet; cur->quiet = 0; } }
Loud::~Loud() { if (g_active) cur->quiet = saved; }
void race_detection(bool on) { g_race_on = on; }
void allow_stop(bool v) { g_allow_stop = v; }

// ---------------------------------------------------------------- vector clocks
static inline void vjoin(uint32_t* a, const uint32_t* b) {
    for (int i = 0; i < g_hw; i++) if (b[i] > a[i]) a[i] = b[i];
}
struct SyncVar { uintptr_t addr; uint32_t vc[MAXT]; };
constexpr int NSYNC = 2048;
static SyncVar g_sync[NSYNC];
static SyncVar* sync_of(uintptr_t a) {
    uint32_t h = (uint32_t)(mix64(a, 7) % NSYNC);
    for (int i = 0; i < NSYNC; i++) {
        SyncVar* s = &g_sync[(h + i) % NSYNC];
        if (s->addr == a) return s;
        if (s->addr == 0) { s->addr = a; return s; }
    }
    return &g_sync[h];
}
static void acquire(uintptr_t a) { vjoin(cur->vc, sync_of(a)->vc); }
static void release(uintptr_t a) { vjoin(sync_of(a)->vc, cur->vc); cur->vc[cur->tid]++; }

// ---------------------------------------------------------------- race cells
struct Rec { uint32_t clk; uint32_t gen; uint8_t tid, mask, flags; };  // flags 1 write 2 atomic
struct Cell { uintptr_t tag; uintptr_t pc[4]; Rec r[4]; };
constexpr int NCELL = 1 << 15;
static Cell g_cells[NCELL];
static uint32_t g_gen = 1;
static inline Cell* cell_of(uintptr_t a8) { return &g_cells[(uint32_t)((a8 * 0x9E3779B97F4A7C15ULL) >> 40) & (NCELL - 1)]; }

static void clear_cells(uintptr_t a, size_t n) {
    if (g_nlive <= 1) return;
    for (uintptr_t p = a >> 3; p <= (a + n - 1) >> 3; p++) {
        Cell* c = cell_of(p);
        if (c->tag == p) for (auto& r : c->r) r.gen = 0;
    }
}

static bool g_saw_conflict;
static void race_check(uintptr_t a, int size, bool write, bool atomic, uintptr_t pc) {
    uintptr_t a8 = a >> 3;
    int off = a & 7;
    int first = size > 8 - off ? 8 - off : size;
    uint8_t mask = (uint8_t)(((1u << first) - 1) << off);
    Cell* c = cell_of(a8);
    Thr* t = cur;
    if (c->tag != a8) {
        c->tag = a8;
        for (auto& r : c->r) r.gen = 0;
    }
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        Rec& r = c->r[i];
        if (r.gen != g_gen) { if (slot < 0) slot = i; continue; }
        if (r.tid == t->tid) {
            if ((r.flags & 1) == (uint8_t)write && ((r.flags >> 1) & 1) == (uint8_t)atomic) { r.mask |= mask; if (r.clk != t->vc[t->tid]) { r.mask = mask; } slot = i; }
            continue;
        }
        if (!(r.mask & mask)) continue;
        g_saw_conflict = true;
        if (!(r.flags & 1) && !write) continue;
        if ((r.flags & 2) && atomic) continue;
        if (r.clk <= t->vc[r.tid]) { if (slot < 0 && write) slot = i; continue; }
        R->pc[0] = pc;
        R->pc[1] = c->pc[i];
        fatal("data-race", "unsynchronised %s by thread %d and %s by thread %d of the same %d-byte object", write ? "write" : "read", t->tid, (r.flags & 1) ? "write" : "read", r.tid, size);
    }
    if (slot < 0) slot = (int)(ernd() & 3);
    Rec& r = c->r[slot];
    bool same = r.gen == g_gen && r.tid == t->tid && r.clk == t->vc[t->tid] && (r.flags & 1) == (uint8_t)write && ((r.flags >> 1) & 1) == (uint8_t)atomic;
    r.mask = same ? (uint8_t)(r.mask | mask) : mask;
    r.clk = t->vc[t->tid];
    r.gen = g_gen;
    r.tid = (uint8_t)t->tid;
    r.flags = (uint8_t)((write ? 1 : 0) | (atomic ? 2 : 0));
    c->pc[slot] = pc;
    if (first < size) race_check(a + first, size - first, write, atomic, pc);
}

// ---------------------------------------------------------------- scheduler
static int pick_lowest(int except) {
    for (int i = 0; i < g_hw; i++) if (i != except && T[i].state == RUNNABLE) return i;
    return -1;
}
static int pick_random(int except) {
    int l[MAXT], n = 0;
    for (int i = 0; i < g_hw; i++) if (i != except && T[i].state == RUNNABLE) l[n++] = i;
    return n ? l[srnd() % n] : -1;
}
static int pick_rr(int from) {
    for (int k = 1; k <= g_hw; k++) { int i = (from + k) % g_hw; if (i != from && T[i].state == RUNNABLE) return i; }
    return -1;
}
static int pick_prio(int except) {
    int b = -1;
    for (int i = 0; i < g_hw; i++) if (i != except && T[i].state == RUNNABLE && (b < 0 || T[i].prio > T[b].prio)) b = i;
    return b;
}
static void new_gap() {
    switch (C.strat) {
        case RANDOM: {
            uint64_t p = C.p1 ? C.p1 : 10;
            g_gap = 1 + (p > 1 ? srnd() % (2 * p - 1) : 0);
            break;
        }
        case QUANTUM: g_gap = C.p1 ? C.p1 : 1; break;
        case CONFLICT: g_gap = 1 + srnd() % 4000; break;
        default: g_gap = UINT64_MAX;
    }
}
static void record_switch(Thr* f, int to, bool forced, uintptr_t pc) {
    if (R->nsw < MAXSW) R->sw[R->nsw++] = SwitchRec{f->lstep, (uint8_t)f->tid, (uint8_t)to};
    else R->sw_overflow = 1;
    R->hash = mix64(R->hash, ((uint64_t)f->lstep << 16) | (f->tid << 8) | to);
    if (forced) R->nforced++;
    else {
        R->npreempt++;
        R->ilv = mix64(R->ilv, ((uint64_t)(pc & 0xffffff) << 16) | (f->tid << 8) | to);
    }
}
static void wait_go(Thr* t) {
    int spins = 0;
    while (t->go.load(std::memory_order_acquire) == 0) {
        if (spins++ < 40) { __builtin_ia32_pause(); continue; }
        fwait(&t->go, 0);
    }
    t->go.store(0, std::memory_order_relaxed);
}
static void hand_to(int next) {
    cur = &T[next];
    g_same = 0;
    T[next].go.store(1, std::memory_order_release);
    fwake(&T[next].go);
}
static void switch_to(Thr* me, int next) {
    hand_to(next);
    wait_go(me);
}
static void check_limits() {
    if (g_steps > C.max_steps) fatal("hang", "no termination within %llu simulated steps", (unsigned long long)C.max_steps);
}
// replay: next listed target for this thread at its current step, or -1
static int replay_target(Thr* t) {
    while (t->sw_pos < (uint32_t)C.nsw) {
        const SwitchRec& s = C.sw[t->sw_pos];
        if (s.from != t->tid || s.step < t->lstep) { t->sw_pos++; continue; }
        if (s.step == t->lstep) { t->sw_pos++; return s.to; }
        return -1;
    }
    return -1;
}
static void sched_point(uintptr_t pc, bool conflict) {
    Thr* t = cur;
    t->lstep++;
    g_dsteps++;
    g_same++;
    int to = -1;
    if (C.replay) {
        to = replay_target(t);
        if (to >= 0 && (to >= g_hw || to == t->tid || T[to].state != RUNNABLE)) to = -1;
    } else {
        switch (C.strat) {
            case RANDOM:
                if (--g_gap == 0) { new_gap(); to = pick_random(t->tid); }
                break;
            case QUANTUM:
                if (--g_gap == 0) { new_gap(); to = pick_rr(t->tid); }
                break;
            case CONFLICT:
                if (conflict && srnd() % 100 < C.p1) to = pick_random(t->tid);
                else if (--g_gap == 0) { new_gap(); to = pick_random(t->tid); }
                break;
            case PCT:
                if (g_pctpos < g_npct && g_dsteps >= g_pct[g_pctpos]) { g_pctpos++; t->prio = --g_prio_low; g_resched = true; }
                if (g_resched) {
                    g_resched = false;
                    int b = pick_prio(t->tid);
                    if (b >= 0 && T[b].prio > t->prio) to = b;
                }
                break;
            default: break;
        }
    }
    // a run may preempt only so often: past that it goes on cooperatively
    if (to >= 0 && !C.replay && R->npreempt > 100000) to = -1;
    if (to < 0 && g_same > 30000) {
        to = pick_rr(t->tid);
        g_same = 0;
        if (to >= 0 && C.strat == PCT) t->prio = --g_prio_low;
    }
    if (to >= 0) {
        record_switch(t, to, false, pc);
        switch_to(t, to);
    }
}
static void block_here(const char* why) {
    // current thread state already set to something not RUNNABLE
    Thr* t = cur;
    t->lstep++;
    g_dsteps++;
    for (;;) {
        int to = -1;
        if (C.replay) {
            to = replay_target(t);
            if (to >= 0 && (to >= g_hw || T[to].state != RUNNABLE)) to = -1;
            if (to < 0) to = pick_lowest(t->tid);
        } else {
            switch (C.strat) {
                case SERIAL: to = pick_lowest(t->tid); break;
                case PCT: to = pick_prio(t->tid); break;
                case QUANTUM: to = pick_rr(t->tid); break;
                default: to = pick_random(t->tid);
            }
        }
        if (to >= 0) {
            record_switch(t, to, true, 0);
            if (t->state == DONE) { hand_to(to); return; }
            switch_to(t, to);
            return;
        }
        // nobody else runnable: advance virtual time to the earliest sleeper
        int w = -1;
        for (int i = 0; i < g_hw; i++)
            if (T[i].state == BLOCKED && T[i].wake_at >= 0 && (w < 0 || T[i].wake_at < T[w].wake_at)) w = i;
        if (w < 0) fatal("deadlock", "no runnable thread (%s)", why);
        int64_t now = vclock();
        if (T[w].wake_at > now) g_clock_adv += T[w].wake_at - now;
        T[w].state = RUNNABLE;
        T[w].timed_out = true;
        T[w].wake_at = -1;
        T[w].wait_on = nullptr;
        count("time.jump");
        if (w == t->tid) { t->lstep++; return; }
    }
}
static void make_runnable(Thr* t) {
    t->state = RUNNABLE;
    t->wait_on = nullptr;
    t->wake_at = -1;
    g_resched = true;
}
static void block_on(void* what, int64_t wake_at, const char* why) {
    Thr* t = cur;
    t->wait_on = what;
    t->wake_at = wake_at;
    t->timed_out = false;
    t->state = BLOCKED;
    block_here(why);
}
void yield_point() {
    if (!loud() || g_nlive <= 1) return;
    Thr* t = cur;
    t->lstep++;
    g_dsteps++;
    int to;
    if (C.replay) {
        to = replay_target(t);
        if (to >= 0 && (to >= g_hw || to == t->tid || T[to].state != RUNNABLE)) to = -1;
        if (to < 0) return;
    } else if (C.strat == PCT) { t->prio = --g_prio_low; to = pick_prio(t->tid); }
    else to = C.strat == QUANTUM || C.strat == SERIAL ? pick_rr(t->tid) : pick_random(t->tid);
    if (to >= 0) {
        record_switch(t, to, false, 1);
        switch_to(t, to);
    }
}
static void sync_point() {
    if (cur->quiet) return;
    g_steps++;
    check_limits();
    if (g_nlive > 1) sched_point((uintptr_t)2, true);
}

// ---------------------------------------------------------------- allocator
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; Hdr* next; uint64_t pad; };
static_assert(sizeof(Hdr) == 32, "");
static uint8_t* g_shadow;   // 1 byte per 8 arena bytes: number of valid leading bytes
static uintptr_t g_bump;
static Hdr* g_free[64];
static uint64_t g_live_bytes, g_peak_bytes;
static uint64_t g_nalloc, g_live_blocks, g_fail_at, g_fail_n, g_nfail;
static size_t g_cap = 256ULL << 20;
static bool g_prefer = false;

// A bump allocator never reuses an address, until half the arena is gone.
static bool bumping() { return C.alloc_mode == BUMP && g_bump < ARENA + ARENA_SZ / 2; }
bool is_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
static void set_shadow(uintptr_t p, size_t n, bool ok) {
    size_t i = (p - ARENA) >> 3;
    size_t full = n >> 3;
    memset(g_shadow + i, ok ? 8 : 0, full);
    if (n & 7) g_shadow[i + full] = ok ? (uint8_t)(n & 7) : 0;
}
static void fill_bytes(void* p, size_t n, int fill, uint64_t salt) {
    switch (fill) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xff, n); break;
        case 3: { // large finite floats
            uint32_t pat = 0x7f000000u | (uint32_t)(salt & 0xff);
            uint8_t* b = (uint8_t*)p;
            size_t i = 0;
            for (; i + 4 <= n; i += 4) memcpy(b + i, &pat, 4);
            for (; i < n; i++) b[i] = 0x7f;
            break;
        }
        default: {
            uint8_t* b = (uint8_t*)p;
            uint64_t s = salt * 0x9E3779B97F4A7C15ULL + 99;
            size_t i = 0;
            for (; i + 8 <= n; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; memcpy(b + i, &s, 8); }
            for (; i < n; i++) b[i] = (uint8_t)(s >> (8 * (i & 7)));
        }
    }
}
static int class_of(size_t n) {
    int c = 5;
    while (((size_t)1 << c) < n) c++;
    return c;
}
static void* sim_alloc(size_t n, size_t align = 16) {
    g_nalloc++;
    if (g_fail_n && g_fail_at && g_nalloc >= g_fail_at) {
        g_fail_n--;
        g_nfail++;
        count("fault.alloc_failure");
        return nullptr;
    }
    if (n > g_cap) { count("fault.alloc_too_large"); g_nfail++; return nullptr; }
    if (align < 16) align = 16;
    int cls = class_of(n ? n : 1);
    uint8_t* user = nullptr;
    if (align <= 16 && !bumping() && g_free[cls]) {
        Hdr** h = &g_free[cls];
        if (C.alloc_mode == SHUFFLE && !g_prefer) {
            uint64_t r = ernd();
            if (r % 3 == 0) h = nullptr;
            else for (int k = (int)((r >> 8) % 4); k > 0 && (*h)->next; k--) h = &(*h)->next;
        }
        if (h) {
            Hdr* x = *h;
            *h = x->next;
            user = (uint8_t*)(x + 1);
        }
    }
    if (!user) {
        size_t body = bumping() ? ((n + 15) & ~(size_t)15) : ((size_t)1 << cls);
        uintptr_t p = (g_bump + sizeof(Hdr) + align - 1) & ~(align - 1);
        if (C.alloc_mode == SHUFFLE) p += (ernd() % 8) * 16 & ~(align - 1);
        if (p + body + 64 > ARENA + ARENA_SZ) { count("fault.arena_full"); return nullptr; }
        g_bump = p + body + 32;
        user = (uint8_t*)p;
    }
    Hdr* h = (Hdr*)user - 1;
    h->size = n;
    h->cls = (uint32_t)cls;
    h->magic = 0xA110C8ED;
    h->next = nullptr;
    fill_bytes(user, n, C.fill, C.alloc_salt + g_nalloc);
    set_shadow((uintptr_t)user, n, true);
    clear_cells((uintptr_t)user, n ? n : 1);
    g_live_blocks++;
    g_live_bytes += n;
    if (g_live_bytes > g_peak_bytes) g_peak_bytes = g_live_bytes;
    return user;
}
static void range_access(uintptr_t a, size_t n, bool write, uintptr_t pc);
static void sim_free(void* p, uintptr_t pc) {
    Hdr* h = (Hdr*)p - 1;
    if (((uintptr_t)p & 15) || h->magic != 0xA110C8ED) {
        R->pc[0] = pc;
        fatal(h->magic == 0xF4EEF4EE ? "double-free" : "bad-free", "delete of a pointer that is not a live block");
    }
    size_t n = h->size;
    if (g_active && cur->quiet == 0 && g_nlive > 1 && n) range_access((uintptr_t)p, n > 512 ? 512 : n, true, pc);
    set_shadow((uintptr_t)p, n, false);
    fill_bytes(p, n, 2, C.alloc_salt ^ 0xDEADULL);
    h->magic = 0xF4EEF4EE;
    g_live_blocks--;
    g_live_bytes -= n;
    clear_cells((uintptr_t)p, n ? n : 1);
    if (C.alloc_mode != BUMP || (uintptr_t)p > ARENA + ARENA_SZ / 2 + (1 << 20)) { h->next = g_free[h->cls]; g_free[h->cls] = h; }
}
void arm_alloc_fail(uint64_t nth, uint64_t howmany) { g_fail_at = g_nalloc + nth; g_fail_n = howmany; }
void disarm_alloc_fail() { g_fail_at = 0; g_fail_n = 0; }
uint64_t alloc_count() { return g_nalloc; }
uint64_t live_allocs() { return g_live_blocks; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t peak_bytes(bool reset) { uint64_t p = g_peak_bytes; if (reset) g_peak_bytes = g_live_bytes; return p; }
uint64_t alloc_failures() { return g_nfail; }
void set_alloc(int mode, int fill, uint64_t salt) { C.alloc_mode = mode; C.fill = fill; C.alloc_salt = salt; }
void set_alloc_cap(size_t b) { g_cap = b ? b : 256ULL << 20; }   // 0: the default
void reuse_hint(bool b) { g_prefer = b; }
static uint64_t g_procs_salt = 0;
void set_team(int team, bool vary, bool nested) { g_procs_salt = g_procs_salt * 5 + 1; C.team = team; C.team_vary = vary; C.nested = nested; }
__attribute__((noinline)) void scribble_stack(uint64_t seed) {
    volatile uint8_t buf[24000];
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL + 5;
    for (size_t i = 0; i < sizeof buf; i += 8) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        *(volatile uint64_t*)(buf + i) = s;
    }
}

// ---------------------------------------------------------------- access hooks
static inline void check_addr(uintptr_t a, int size, bool write, uintptr_t pc) {
    uintptr_t o = a - ARENA;
    if (__builtin_expect(o < ARENA_SZ, 0)) {
        uint8_t s = g_shadow[o >> 3];
        int off = (int)(a & 7);
        int first = size > 8 - off ? 8 - off : size;
        if (__builtin_expect(off + first > s, 0)) {
            R->pc[0] = pc;
            fatal("bad-memory-access", "%s of %d bytes outside any live allocation", write ? "write" : "read", size);
        }
        if (first < size) check_addr(a + first, size - first, write, pc);
    }
}
static inline void access(uintptr_t a, int size, bool write, uintptr_t pc) {
    if (!loud()) return;
    g_steps++;
    check_addr(a, size, write, pc);
    if (__builtin_expect((g_steps & 0xffff) == 0, 0)) check_limits();
    if (g_nlive <= 1) return;
    if (g_race_on) {
        g_saw_conflict = false;
        if (C.strat == CONFLICT && !C.replay) {
            // look before the access so that a switch can land ahead of it
            Cell* c = cell_of(a >> 3);
            bool conf = false;
            if (c->tag == a >> 3)
                for (auto& r : c->r) if (r.gen == g_gen && r.tid != cur->tid && (write || (r.flags & 1))) conf = true;
            sched_point(pc, conf);
        } else sched_point(pc, false);
        race_check(a, size, write, false, pc);
    } else sched_point(pc, false);
}
static void range_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (!loud() || n == 0) return;
    g_steps += 1 + n / 16;
    if ((a - ARENA) < ARENA_SZ) {
        for (uintptr_t p = a; p < a + n;) {
            int k = (int)(8 - (p & 7));
            if (p + k > a + n) k = (int)(a + n - p);
            check_addr(p, k, write, pc);
            p += k;
        }
    }
    check_limits();
    if (g_nlive <= 1) return;
    sched_point(pc, false);
    if (!g_race_on) return;
    for (uintptr_t p = a; p < a + n;) {
        int k = (int)(8 - (p & 7));
        if (p + k > a + n) k = (int)(a + n - p);
        race_check(p, k, write, false, pc);
        p += k;
    }
}
static inline void atomic_pre(uintptr_t a, int size, uintptr_t pc, bool write) {
    if (!loud()) return;
    g_steps++;
    check_addr(a, size, write, pc);
    check_limits();
    if (g_nlive <= 1) return;
    sched_point(pc, true);
    if (g_race_on) race_check(a, size, write, true, pc);
}
static inline void atomic_sync(uintptr_t a, int mo, bool load, bool store) {
    if (!loud() || g_nlive <= 1) return;
    if (load && mo != 0) acquire(a);
    if (store && mo >= 3) release(a);
}

// ---------------------------------------------------------------- threads
static void install_sigstack(Thr* t) {
    stack_t ss{};
    ss.ss_sp = t->sigstk;
    ss.ss_size = sizeof t->sigstk;
    sigaltstack(&ss, nullptr);
}
static void thread_finish(Thr* t) {
    // joiners
    t->state = DONE;
    g_nlive--;
    for (int i = 0; i < g_hw; i++)
        if (T[i].state == BLOCKED && T[i].wait_on == (void*)t) make_runnable(&T[i]);
    release((uintptr_t)t);
    if (t->tid == 0) {
        g_finished.store(1);
        fwake(&g_finished);
        for (;;) pause();
    }
    block_here("thread exit");
    for (;;) pause();
}
static void* real_main(void* p) {
    Thr* t = (Thr*)p;
    install_sigstack(t);
    wait_go(t);
    if (t->is_worker) {
        for (;;) {
            // activated with a job
            Team* tm = t->team;
            t->job(t->jobdata);
            // implicit end barrier: arrive
            vjoin(tm->bvc, t->vc);
            t->vc[t->tid]++;
            tm->done++;
            t->team = nullptr;
            t->state = IDLE;
            g_nlive--;
            Thr* m = &T[tm->master];
            if (m->state == BLOCKED && m->wait_on == (void*)tm && tm->done == tm->n - 1) make_runnable(m);
            block_here("worker idle");
        }
    }
    if (t->cxxfn) (*t->cxxfn)();
    else t->ret = t->fn(t->arg);
    thread_finish(t);
    return nullptr;
}
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static pthread_t (*real_pthread_self)();
static int (*real_mutex_lock)(pthread_mutex_t*);
static int (*real_mutex_trylock)(pthread_mutex_t*);
static int (*real_mutex_unlock)(pthread_mutex_t*);
static FILE* (*real_fopen64)(const char*, const char*);
static int (*real_rwrd)(pthread_rwlock_t*);
static int (*real_rwwr)(pthread_rwlock_t*);
static int (*real_rwun)(pthread_rwlock_t*);

static Thr* new_thread(bool worker) {
    int id = -1;
    for (int i = 0; i < MAXT; i++) if (T[i].state == UNUSED) { id = i; break; }
    if (id < 0) return nullptr;
    Thr* t = &T[id];
    t->tid = id;
    if (id >= g_hw) g_hw = id + 1;
    memset(t->vc, 0, sizeof t->vc);
    t->vc[id] = 1;
    t->is_worker = worker;
    t->prio = (int)(srnd() % 1000000);
    t->nthreads_var = 0;
    uint8_t* base = (uint8_t*)STACKS + (size_t)id * STK;
    fill_bytes(base + STK - 65536, 65536, C.fill, C.alloc_salt + 31 * id);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, base, STK);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    int rc = real_pthread_create(&t->real, &at, real_main, t);
    pthread_attr_destroy(&at);
    if (rc) { fprintf(stderr, "rt: pthread_create failed %d\n", rc); raw_syscall(SYS_exit_group, 9); }
    R->nthreads++;
    return t;
}
static Thr* start_thread(void* (*fn)(void*), void* arg, std::function<void()>* f) {
    Thr* t = new_thread(false);
    if (!t) return nullptr;
    t->fn = fn;
    t->arg = arg;
    t->cxxfn = f;
    vjoin(t->vc, cur->vc);
    cur->vc[cur->tid]++;
    t->state = RUNNABLE;
    g_nlive++;
    g_resched = true;
    return t;
}
static int join_thread(Thr* t) {
    sync_point();
    while (t->state != DONE) block_on(t, -1, "join");
    acquire((uintptr_t)t);
    if (g_nlive == 1) g_gen++;
    return 0;
}
int spawn(std::function<void()> f) {
    std::function<void()>* heap;
    { Quiet q; heap = new std::function<void()>(std::move(f)); }
    Thr* t;
    { Quiet q; t = start_thread(nullptr, nullptr, heap); }
    if (!t) fatal("internal", "too many threads");
    sync_point();
    return t->tid;
}
void join(int h) { join_thread(&T[h]); }

// ---------------------------------------------------------------- OpenMP teams
static Team* team_alloc() {
    for (auto& t : g_teams) if (!t.used) {
        t.used = true;
        t.n = 1; t.done = 0; t.arrived = 0; t.bgen = 0; t.single_taken = 0;
        memset(t.bvc, 0, sizeof t.bvc);
        memset(t.bout, 0, sizeof t.bout);
        for (auto& w : t.ws) w.id = 0;
        return &t;
    }
    fatal("internal", "too many nested parallel regions");
}
struct TeamCtx { Team* team; int id; uint32_t ws, single; long sti; void* wsc; };
static TeamCtx save_ctx(Thr* t) { return {t->team, t->team_id, t->ws_idx, t->single_idx, t->st_iter, t->ws_cur}; }
static void load_ctx(Thr* t, const TeamCtx& c) { t->team = c.team; t->team_id = c.id; t->ws_idx = c.ws; t->single_idx = c.single; t->st_iter = c.sti; t->ws_cur = c.wsc; }

static Team* region_begin(void (*fn)(void*), void* data, unsigned nt, TeamCtx* saved) {
    Thr* t = cur;
    *saved = save_ctx(t);
    int want;
    bool in_par = false;
    for (Team* p = t->team; p; p = p->parent) if (p->n > 1) in_par = true;
    if (!loud()) want = 1;
    else if (nt) want = (int)nt;
    else {
        int base = t->nthreads_var ? t->nthreads_var : C.team;
        want = C.team_vary ? 1 + (int)(ernd() % (uint64_t)base) : base;
    }
    if (in_par && !C.nested) want = 1;
    if (want > 16) want = 16;
    if (want < 1) want = 1;
    Team* tm = team_alloc();
    tm->parent = t->team;
    tm->master = t->tid;
    Thr* ws[16];
    int n = 1;
    while (n < want) {
        Thr* w = nullptr;
        for (int i = 0; i < g_hw; i++) if (T[i].state == IDLE) { w = &T[i]; break; }
        if (!w) { t->quiet++; w = new_thread(true); t->quiet--; }
        if (!w) break;
        w->state = BLOCKED;   // reserve
        w->wait_on = nullptr; w->wake_at = -1;
        ws[n++] = w;
    }
    tm->n = n;
    for (int i = 1; i < n; i++) {
        Thr* w = ws[i];
        vjoin(w->vc, t->vc);
        w->vc[w->tid]++;
        w->team = tm;
        w->team_id = i;
        w->ws_idx = 0; w->single_idx = 0; w->ws_cur = nullptr; w->st_iter = 0;
        w->quiet = 0;
        w->job = fn;
        w->jobdata = data;
        w->state = RUNNABLE;
    }
    if (n > 1) {
        t->vc[t->tid]++;
        g_nlive += n - 1;
        g_resched = true;
        R->nregions++;
        count("omp.parallel_region");
    } else if (loud()) count("omp.serial_region");
    t->team = tm;
    t->team_id = 0;
    t->ws_idx = 0; t->single_idx = 0; t->ws_cur = nullptr; t->st_iter = 0;
    if (n > 1) sync_point();
    return tm;
}
static void region_end(Team* tm, const TeamCtx& saved) {
    Thr* t = cur;
    if (tm->n > 1) {
        sync_point();
        while (tm->done < tm->n - 1) block_on(tm, -1, "end of parallel region");
        vjoin(t->vc, tm->bvc);
        t->vc[t->tid]++;
        if (g_nlive == 1) g_gen++;
    }
    load_ctx(t, saved);
    tm->used = false;
}
static void team_barrier() {
    Thr* t = cur;
    Team* tm = t->team;
    if (!tm || tm->n == 1) return;
    sync_point();
    vjoin(tm->bvc, t->vc);
    t->vc[t->tid]++;
    uint32_t g = tm->bgen;
    if (++tm->arrived == tm->n) {
        tm->arrived = 0;
        tm->bgen++;
        memcpy(tm->bout, tm->bvc, sizeof tm->bvc);
        for (int i = 0; i < g_hw; i++)
            if (T[i].state == BLOCKED && T[i].wait_on == (void*)&tm->bgen) make_runnable(&T[i]);
        count("omp.barrier");
    } else {
        while (tm->bgen == g) block_on(&tm->bgen, -1, "barrier");
    }
    vjoin(t->vc, tm->bout);
}

// ---------------------------------------------------------------- locks
struct Mx { uintptr_t addr; int owner; int count; int readers; };
static Mx g_mx[1024];
static Mx* mx_of(uintptr_t a) {
    uint32_t h = (uint32_t)(mix64(a, 3) % 1024);
    for (int i = 0; i < 1024; i++) {
        Mx* m = &g_mx[(h + i) % 1024];
        if (m->addr == a) return m;
        if (!m->addr) { m->addr = a; m->owner = -1; m->count = 0; m->readers = 0; return m; }
    }
    fatal("internal", "lock table full");
}
static int lock_acquire(uintptr_t a, bool recursive, bool tryit, bool errorcheck) {
    sync_point();
    Mx* m = mx_of(a);
    for (;;) {
        if (m->owner < 0) break;
        if (m->owner == cur->tid) {
            if (recursive) { m->count++; return 0; }
            if (tryit) return EBUSY;
            if (errorcheck) return EDEADLK;
            fatal("deadlock", "thread %d locks a mutex it already holds", cur->tid);
        }
        if (tryit) { count("lock.try_failed"); return EBUSY; }
        count("lock.contended");
        block_on(m, -1, "mutex");
    }
    m->owner = cur->tid;
    m->count = 1;
    acquire(a);
    return 0;
}
static int lock_release(uintptr_t a) {
    Mx* m = mx_of(a);
    if (m->owner != cur->tid) return EPERM;
    if (--m->count > 0) return 0;
    release(a);
    m->owner = -1;
    for (int i = 0; i < g_hw; i++)
        if (T[i].state == BLOCKED && T[i].wait_on == (void*)m) make_runnable(&T[i]);
    sync_point();
    return 0;
}
static int rw_lock(uintptr_t a, bool wr, bool tryit) {
    sync_point();
    Mx* m = mx_of(a);
    while (wr ? (m->owner >= 0 || m->readers > 0) : m->owner >= 0) {
        if (tryit) return EBUSY;
        count("lock.contended");
        block_on(m, -1, "rwlock");
    }
    if (wr) { m->owner = cur->tid; acquire(a); acquire(a + 1); }
    else { m->readers++; acquire(a); }
    return 0;
}
static int rw_unlock(uintptr_t a) {
    Mx* m = mx_of(a);
    if (m->owner == cur->tid) { m->owner = -1; release(a); }
    else if (m->readers > 0) { m->readers--; release(a + 1); }
    for (int i = 0; i < g_hw; i++)
        if (T[i].state == BLOCKED && T[i].wait_on == (void*)m) make_runnable(&T[i]);
    sync_point();
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    Thr* t = cur;
    uintptr_t ma = (uintptr_t)m;
    Mx* x = mx_of(ma);
    release(ma);
    x->owner = -1;
    x->count = 0;
    for (int i = 0; i < g_hw; i++)
        if (T[i].state == BLOCKED && T[i].wait_on == (void*)x) make_runnable(&T[i]);
    t->notified = false;
    bool spurious = ernd() % 16 == 0 && g_nlive > 1;
    if (spurious) { count("fault.spurious_wakeup"); yield_point(); }
    else block_on(c, deadline, "condition variable");
    bool to = t->timed_out && !spurious;
    lock_acquire(ma, false, false, false);
    acquire((uintptr_t)c);
    return to ? ETIMEDOUT : 0;
}
static void cond_wake(pthread_cond_t* c, bool all) {
    release((uintptr_t)c);
    for (;;) {
        int l[MAXT], n = 0;
        for (int i = 0; i < g_hw; i++) if (T[i].state == BLOCKED && T[i].wait_on == (void*)c) l[n++] = i;
        if (!n) break;
        make_runnable(&T[l[all ? 0 : ernd() % n]]);
        if (!all) break;
    }
    sync_point();
}

// ---------------------------------------------------------------- disk
struct FP { char path[256]; FilePlan p; bool used; };
static FP g_fp[16];
struct FD { int fd; int plan; int eintr_left; };
static FD g_fd[64];
static uint64_t g_reads;
void file_plan(const char* path, const FilePlan& p) {
    for (auto& f : g_fp) if (f.used && !strcmp(f.path, path)) { f.p = p; return; }
    for (auto& f : g_fp) if (!f.used) { f.used = true; strncpy(f.path, path, 255); f.path[255] = 0; f.p = p; return; }
}
void clear_file_plans() { for (auto& f : g_fp) f.used = false; }
uint64_t reads_done() { return g_reads; }
static int plan_of(const char* path) {
    if (!path) return -1;
    for (int i = 0; i < 16; i++) if (g_fp[i].used && !strcmp(g_fp[i].path, path)) return i;
    return -1;
}
static void reg_fd(int fd, int plan) {
    for (auto& f : g_fd) if (f.fd == fd + 1) { f.plan = plan; f.eintr_left = 3; return; }
    for (auto& f : g_fd) if (f.fd == 0) { f.fd = fd + 1; f.plan = plan; f.eintr_left = 3; return; }
}
static void unreg_fd(int fd) { for (auto& f : g_fd) if (f.fd == fd + 1) f.fd = 0; }
static FD* fd_of(int fd) { for (auto& f : g_fd) if (f.fd == fd + 1) return &f; return nullptr; }

// decides the fate of one read of n bytes at offset off; returns bytes allowed, or -1 with errno
static ssize_t shape_read(FD* f, int64_t off, size_t n) {
    const FilePlan& p = g_fp[f->plan].p;
    g_reads++;
    g_clock_adv += 20000 + (int64_t)(ernd() % 3000000);
    if (p.eintr_pct && f->eintr_left > 0 && ernd() % 100 < p.eintr_pct) {
        f->eintr_left--;
        count("fault.read_eintr");
        errno = EINTR;
        return -1;
    }
    f->eintr_left = 3;
    if (n == 0) return 0;
    if (p.cut_at >= 0) {
        if (off >= p.cut_at) { count("fault.read_truncated"); return 0; }
        if ((int64_t)n > p.cut_at - off) n = (size_t)(p.cut_at - off);
    }
    if (p.eio_at >= 0) {
        if (off >= p.eio_at) { count("fault.read_eio"); errno = EIO; return -1; }
        if ((int64_t)n > p.eio_at - off) n = (size_t)(p.eio_at - off);
    }
    if (p.short_pct && n > 1 && ernd() % 100 < p.short_pct) {
        size_t m = ernd() % 3 == 0 ? 1 : 1 + ernd() % (n - 1 > 64 ? 64 : n - 1);
        if (m < n) { n = m; count("fault.read_short"); }
    }
    return (ssize_t)n;
}

// ---------------------------------------------------------------- entropy
static uint64_t g_ent;
static int g_ent_mode;
static int64_t g_ent_left = -1;
static bool g_ent_failed;
static uint64_t g_ent_ctr;
void set_entropy(uint64_t seed, int mode, int64_t fail_after) { g_ent = seed; g_ent_mode = mode; g_ent_left = fail_after; g_ent_failed = false; g_ent_ctr = 0; }
bool entropy_failed() { return g_ent_failed; }
static bool ent_next(uint32_t* v) {
    count("env.entropy_draw");
    if (g_ent_left >= 0) {
        if (g_ent_left == 0) { g_ent_failed = true; count("fault.entropy_unavailable"); return false; }
        g_ent_left--;
    }
    g_ent_ctr++;
    switch (g_ent_mode) {
        case 1: *v = (uint32_t)g_ent; break;
        case 2: *v = (uint32_t)(g_ent + g_ent_ctr); break;
        default: *v = (uint32_t)mix64(g_ent, g_ent_ctr);
    }
    return true;
}

// ---------------------------------------------------------------- process setup
static void on_signal(int sig, siginfo_t* si, void* uc) {
    if (g_active) {
        cur->quiet++;
        if (sig == SIGABRT && g_allow_stop && cur->team) { finish_report(); R->status = 1; count("outcome.process_stopped"); raw_syscall(SYS_exit_group, 0); }
        const char* nm = sig == SIGSEGV ? "crash-segv" : sig == SIGABRT ? "crash-abort" : sig == SIGFPE ? "crash-fpe" : sig == SIGBUS ? "crash-bus" : sig == SIGILL ? "crash-ill" : sig == SIGXCPU || sig == SIGPROF ? "hang" : "crash-signal";
        R->pc[0] = uc ? (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP] : 0;
        if (sig == SIGABRT && R->msg[0]) fatal(nm, "process aborted: %.1500s", std::string(R->msg).c_str());
        fatal(nm, "signal %d at address %s", sig, (uintptr_t)si->si_addr < 4096 ? "near null" : "elsewhere");
    }
    raw_syscall(SYS_exit_group, 9);
}
static void on_terminate() {
    const char* what = "";
    const char* type = "none";
    if (g_active) cur->quiet++;
    std::string hold;
    if (auto e = std::current_exception()) {
        std::type_info* ti = abi::__cxa_current_exception_type();
        if (ti) type = ti->name();
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { hold = x.what(); what = hold.c_str(); }
        catch (...) {}
    }
    if (g_active) {
        if (g_allow_stop && cur->team) { finish_report(); R->status = 1; count("outcome.process_stopped"); raw_syscall(SYS_exit_group, 0); }
        fatal("crash-terminate", "std::terminate with exception %s: %s", type, what);
    }
    fprintf(stderr, "terminate: %s %s\n", type, what);
    abort();
}

template <class F> static void res(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); }
static void resolve() {
    static bool done = false;
    if (done) return;
    done = true;
    res(real_pthread_create, "pthread_create");
    res(real_pthread_join, "pthread_join");
    res(real_pthread_detach, "pthread_detach");
    res(real_pthread_self, "pthread_self");
    res(real_mutex_lock, "pthread_mutex_lock");
    res(real_mutex_trylock, "pthread_mutex_trylock");
    res(real_mutex_unlock, "pthread_mutex_unlock");
    res(real_fopen64, "fopen64");
    res(real_rwrd, "pthread_rwlock_rdlock");
    res(real_rwwr, "pthread_rwlock_wrlock");
    res(real_rwun, "pthread_rwlock_unlock");
}

void init_process(Report* shared) {
    resolve();
    R = shared;
    if (!g_shadow) {
        void* a = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void* s = mmap((void*)STACKS, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void* h = mmap(nullptr, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a != (void*)ARENA || s != (void*)STACKS || h == MAP_FAILED) { fprintf(stderr, "rt: cannot map simulator memory\n"); exit(9); }
        g_shadow = (uint8_t*)h;
    }
}

struct MainArg { void (*body)(void*); void* arg; };
static void* main_tramp(void* p) { MainArg* m = (MainArg*)p; m->body(m->arg); return nullptr; }

void run(const Cfg& cfg, void (*body)(void*), void* arg) {
    C = cfg;
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = 25;    // CPU seconds
    setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
    g_rng = mix64(cfg.seed, 0x5C4ED);
    g_erng = mix64(cfg.seed, 0xE17);
    g_urng = mix64(cfg.seed, 0xA11CE);
    g_bump = ARENA + 4096 + (cfg.alloc_salt % 64) * 16;
    g_ent = cfg.entropy;
    g_prio_low = 0;
    if (cfg.strat == PCT) {
        g_npct = (int)(cfg.p1 > 60 ? 60 : cfg.p1);
        uint64_t hz = cfg.p2 ? cfg.p2 : 1000;
        for (int i = 0; i < g_npct; i++) g_pct[i] = 1 + srnd() % hz;
        for (int i = 0; i < g_npct; i++)
            for (int j = i + 1; j < g_npct; j++) if (g_pct[j] < g_pct[i]) { uint64_t x = g_pct[i]; g_pct[i] = g_pct[j]; g_pct[j] = x; }
    }
    new_gap();
    MainArg ma{body, arg};
    cur = &T[0];
    Thr* t = new_thread(false);
    t->fn = main_tramp;
    t->arg = &ma;
    t->state = RUNNABLE;
    g_nlive = 1;
    g_active = true;
    hand_to(0);
    while (!g_finished.load()) fwait(&g_finished, 0);
    cur->quiet++;
    finish_report();
    if (R->status == 0) R->status = 1;
    raw_syscall(SYS_exit_group, 0);
}

}  // namespace rt

using namespace rt;
#define PC ((uintptr_t)__builtin_return_address(0))

// Failed library assertions are memory errors of the code under test.
namespace std { void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept; }
void std::__glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept {
    (void)line;
    const char* b = file ? strrchr(file, '/') : nullptr;
    fatal("library-assertion", "%s: %s: %s", b ? b + 1 : "?", func ? func : "?", cond ? cond : "?");
}
extern "C" void __assert_fail(const char* e, const char* file, unsigned, const char*) noexcept {
    const char* b = strrchr(file, '/');
    
    fatal("crash-assert", "%s: %s", b ? b + 1 : file, e);
}
// ================================================================ C++ allocation
static void* op_new(size_t n, size_t al, bool nothrow) {
    if (g_active && cur->quiet == 0) {
        void* p = sim_alloc(n, al);
        if (!p) {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        return p;
    }
    void* p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) & ~(al - 1));
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void op_delete(void* p, uintptr_t pc) {
    if (!p) return;
    if (is_arena(p)) sim_free(p, pc);
    else free(p);
}
void* operator new(size_t n) { return op_new(n, 16, false); }
void* operator new[](size_t n) { return op_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { op_delete(p, PC); }
void operator delete[](void* p) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }

extern "C" {
// ================================================================ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { range_access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { range_access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }

#define ATOM(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty* a, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, false); ty v = *a; atomic_sync((uintptr_t)a, mo, true, false); return v; } \
    void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); atomic_sync((uintptr_t)a, mo, false, true); *a = v; } \
    ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = v; return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = o + v; return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = o - v; return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = o & v; return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = o | v; return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = o ^ v; return o; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int mo) { atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; atomic_sync((uintptr_t)a, mo, true, true); *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* e, ty v, int mo, int) { \
        atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; bool ok = o == *e; \
        atomic_sync((uintptr_t)a, mo, true, ok); if (ok) *a = v; else *e = o; return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* e, ty v, int mo, int) { \
        atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; bool ok = o == *e; \
        if (ok && loud() && g_nlive > 1 && ernd() % 16 == 0) { count("fault.weak_cas_failure"); return 0; } \
        atomic_sync((uintptr_t)a, mo, true, ok); if (ok) *a = v; else *e = o; return ok; } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty e, ty v, int mo, int) { \
        atomic_pre((uintptr_t)a, sizeof(ty), PC, true); ty o = *a; bool ok = o == e; \
        atomic_sync((uintptr_t)a, mo, true, ok); if (ok) *a = v; return o; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (g_active) { range_access((uintptr_t)s, n, false, PC); range_access((uintptr_t)d, n, true, PC); }
    return memmove(d, s, n);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (g_active) { range_access((uintptr_t)s, n, false, PC); range_access((uintptr_t)d, n, true, PC); }
    return memcpy(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (g_active) range_access((uintptr_t)d, n, true, PC);
    return memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (g_active) { range_access((uintptr_t)a, n, false, PC); range_access((uintptr_t)b, n, false, PC); }
    return memcmp(a, b, n);
}

// ================================================================ libgomp
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    if (!g_active) { fn(data); return; }
    TeamCtx s;
    Team* tm = region_begin(fn, data, nt, &s);
    fn(data);
    region_end(tm, s);
}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned fl) { GOMP_parallel(fn, data, nt, fl); return 1; }
void GOMP_barrier() { if (g_active) team_barrier(); }
bool GOMP_barrier_cancel() { if (g_active) team_barrier(); return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
static int g_crit, g_atom;
void GOMP_critical_start() { if (loud()) lock_acquire((uintptr_t)&g_crit, false, false, false); }
void GOMP_critical_end() { if (loud()) lock_release((uintptr_t)&g_crit); }
void GOMP_critical_name_start(void** p) { if (loud()) lock_acquire((uintptr_t)p, false, false, false); }
void GOMP_critical_name_end(void** p) { if (loud()) lock_release((uintptr_t)p); }
void GOMP_atomic_start() { if (loud()) lock_acquire((uintptr_t)&g_atom, false, false, false); }
void GOMP_atomic_end() { if (loud()) lock_release((uintptr_t)&g_atom); }

static WS* ws_enter(bool* first) {
    Thr* t = cur;
    Team* tm = t->team;
    static WS lone[8];
    static int lone_i;
    uint32_t id = ++t->ws_idx;
    WS* w;
    if (!tm) { w = &lone[lone_i++ & 7]; *first = true; w->id = id; w->left = 1; t->ws_cur = w; return w; }
    w = &tm->ws[id % 16];
    sync_point();
    if (w->id != id) { *first = true; w->id = id; w->left = tm->n; }
    else *first = false;
    t->ws_cur = w;
    t->st_iter = 0;
    return w;
}
enum { K_STATIC, K_DYN, K_GUIDED };
static bool loop_next(long* is, long* ie) {
    Thr* t = cur;
    WS* w = (WS*)t->ws_cur;
    int n = t->team ? t->team->n : 1;
    sync_point();
    long total = w->incr > 0 ? (w->end - w->start + w->incr - 1) / w->incr : (w->start - w->end - w->incr - 1) / -w->incr;
    if (w->incr > 0 ? w->start >= w->end : w->start <= w->end) return false;
    long a, b;
    if (w->kind == K_STATIC) {
        if (w->chunk <= 0) {
            if (t->st_iter) return false;
            long q = total / n, r = total % n;
            a = t->team_id * q + (t->team_id < r ? t->team_id : r);
            b = a + q + (t->team_id < r ? 1 : 0);
        } else {
            a = (t->st_iter * n + t->team_id) * w->chunk;
            b = a + w->chunk;
        }
        t->st_iter++;
        if (a >= total || a >= b) return false;
        if (b > total) b = total;
    } else {
        if (w->next >= total) return false;
        long c = w->chunk > 0 ? w->chunk : 1;
        if (w->kind == K_GUIDED) { long g = (total - w->next + n - 1) / n; if (g > c) c = g; }
        a = w->next;
        b = a + c > total ? total : a + c;
        w->next = b;
    }
    *is = w->start + a * w->incr;
    *ie = b == total ? w->end : w->start + b * w->incr;
    return true;
}
static bool loop_start(int kind, long s, long e, long inc, long chunk, long* is, long* ie) {
    bool first;
    WS* w = ws_enter(&first);
    if (first) { w->start = s; w->end = e; w->incr = inc; w->chunk = chunk; w->kind = kind; w->next = 0; w->ord_next = 0; }
    return loop_next(is, ie);
}
static bool ull_start(int kind, bool up, unsigned long s, unsigned long e, unsigned long inc, unsigned long chunk, unsigned long* is, unsigned long* ie) {
    (void)up;
    return loop_start(kind, (long)s, (long)e, (long)inc, (long)chunk, (long*)is, (long*)ie);
}
#define LOOPN(name, kind) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(kind, s, e, i, c, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) { return ull_start(kind, up, s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return loop_next((long*)a, (long*)b); } \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(kind, s, e, i, c, a, b); } \
    bool GOMP_loop_ordered_##name##_next(long* a, long* b) { return loop_next(a, b); }
LOOPN(static, K_STATIC)
LOOPN(dynamic, K_DYN)
LOOPN(guided, K_GUIDED)
LOOPN(nonmonotonic_dynamic, K_DYN)
LOOPN(nonmonotonic_guided, K_GUIDED)
#define LOOPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loop_start(K_DYN, s, e, i, 1, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long* a, unsigned long* b) { return ull_start(K_DYN, up, s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return loop_next((long*)a, (long*)b); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { if (g_active) team_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { if (g_active) team_barrier(); return false; }

struct PL { void (*fn)(void*); void* data; long s, e, i, c; int kind; };
static void pl_member(void* p) {
    PL* l = (PL*)p;
    bool first;
    WS* w = ws_enter(&first);
    if (first) { w->start = l->s; w->end = l->e; w->incr = l->i; w->chunk = l->c; w->kind = l->kind; w->next = 0; }
    l->fn(l->data);
}
static void par_loop2(void (*fn)(void*), void* data, unsigned nt, int kind, long s, long e, long i, long c) {
    if (!g_active) { fprintf(stderr, "rt: work-shared loop outside the simulation\n"); abort(); }
    PL l{fn, data, s, e, i, c, kind};
    TeamCtx sv;
    Team* tm = region_begin(pl_member, &l, nt, &sv);
    pl_member(&l);
    region_end(tm, sv);
}
#define PLOOP(name, kind) \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { par_loop2(fn, d, nt, kind, s, e, i, c); }
PLOOP(static, K_STATIC)
PLOOP(dynamic, K_DYN)
PLOOP(guided, K_GUIDED)
PLOOP(nonmonotonic_dynamic, K_DYN)
PLOOP(nonmonotonic_guided, K_GUIDED)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop2(fn, d, nt, K_DYN, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop2(fn, d, nt, K_DYN, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop2(fn, d, nt, K_DYN, s, e, i, 1); }

static unsigned sec_next() {
    WS* w = (WS*)cur->ws_cur;
    sync_point();
    if (w->sec_next >= w->sections) return 0;
    return (unsigned)++w->sec_next;
}
unsigned GOMP_sections_start(unsigned n) {
    bool first;
    WS* w = ws_enter(&first);
    if (first) { w->sections = (int)n; w->sec_next = 0; }
    return sec_next();
}
unsigned GOMP_sections_next() { return sec_next(); }
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() {}
struct PS { void (*fn)(void*); void* data; unsigned n; };
static void ps_member(void* p) {
    PS* l = (PS*)p;
    bool first;
    WS* w = ws_enter(&first);
    if (first) { w->sections = (int)l->n; w->sec_next = 0; }
    l->fn(l->data);
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
    PS l{fn, d, n};
    TeamCtx sv;
    Team* tm = region_begin(ps_member, &l, nt, &sv);
    ps_member(&l);
    region_end(tm, sv);
}
bool GOMP_single_start() {
    if (!g_active || !cur->team || cur->team->n == 1) return true;
    sync_point();
    uint32_t id = ++cur->single_idx;
    if (cur->team->single_taken < id) { cur->team->single_taken = id; return true; }
    return false;
}
void* GOMP_single_copy_start() {
    if (GOMP_single_start()) return nullptr;
    team_barrier();
    void* r = cur->team->copyprivate;
    return r;
}
void GOMP_single_copy_end(void* d) {
    if (!cur->team) return;
    cur->team->copyprivate = d;
    team_barrier();
}
bool GOMP_masked_start(unsigned f) { return !g_active || !cur->team || cur->team_id == (int)f; }
void GOMP_ordered_start() { if (loud()) lock_acquire((uintptr_t)&g_crit + 2, false, false, false); }
void GOMP_ordered_end() { if (loud()) lock_release((uintptr_t)&g_crit + 2); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (cpy) {
        char* buf = (char*)malloc((size_t)(size + align));
        char* a = (char*)(((uintptr_t)buf + (uintptr_t)align - 1) & ~((uintptr_t)align - 1));
        cpy(a, data);
        fn(a);
        free(buf);
    } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { yield_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return g_active && cur->team ? cur->team_id : 0; }
int omp_get_num_threads() { return g_active && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return !g_active ? 1 : cur->nthreads_var ? cur->nthreads_var : C.team; }
// the machine's processor count has nothing to do with the team size
static int sim_procs() { static const int n[] = {1, 2, 3, 4, 6, 8, 12}; return n[(C.entropy >> 7 ^ C.entropy >> 29 ^ g_procs_salt) % 7]; }
int omp_get_num_procs() { return g_active ? sim_procs() : 1; }
unsigned _ZNSt6thread20hardware_concurrencyEv() { return g_active ? (unsigned)sim_procs() : 1; }
int get_nprocs() { return g_active ? sim_procs() : 1; }
int get_nprocs_conf() { return g_active ? sim_procs() : 1; }
int sched_getcpu() { return g_active ? (int)(ernd() % (uint64_t)sim_procs()) : 0; }
long sysconf(int name) {
    static long (*real)(int) = nullptr;
    if (g_active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return sim_procs();
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}
int omp_in_parallel() { return g_active && cur->team && cur->team->n > 1; }
void omp_set_num_threads(int n) { if (g_active) cur->nthreads_var = n > 0 ? n : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return C.nested; }
void omp_set_nested(int n) { C.nested = n; }
int omp_get_max_active_levels() { return C.nested ? 8 : 1; }
void omp_set_max_active_levels(int n) { C.nested = n > 1; }
int omp_get_thread_limit() { return 64; }
int omp_get_level() { int n = 0; if (g_active) for (Team* t = cur->team; t; t = t->parent) n++; return n; }
int omp_get_active_level() { int n = 0; if (g_active) for (Team* t = cur->team; t; t = t->parent) n += t->n > 1; return n; }
double omp_get_wtime() { return (double)vclock() * 1e-9; }
double omp_get_wtick() { return 1e-9; }
typedef struct { void* p; } omp_lk;
void omp_init_lock(omp_lk*) {}
void omp_destroy_lock(omp_lk*) {}
void omp_set_lock(omp_lk* l) { if (loud()) lock_acquire((uintptr_t)l, false, false, false); }
void omp_unset_lock(omp_lk* l) { if (loud()) lock_release((uintptr_t)l); }
int omp_test_lock(omp_lk* l) { return loud() ? lock_acquire((uintptr_t)l, false, true, false) == 0 : 1; }
void omp_init_nest_lock(omp_lk*) {}
void omp_destroy_nest_lock(omp_lk*) {}
void omp_set_nest_lock(omp_lk* l) { if (loud()) lock_acquire((uintptr_t)l, true, false, false); }
void omp_unset_nest_lock(omp_lk* l) { if (loud()) lock_release((uintptr_t)l); }

// ================================================================ pthreads
constexpr pthread_t MAGIC = 0x51A0000000000ULL;
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    resolve();
    if (!loud()) return real_pthread_create(out, at, fn, arg);
    cur->quiet++;
    Thr* t = start_thread(fn, arg, nullptr);
    cur->quiet--;
    if (!t) return EAGAIN;
    *out = MAGIC + (pthread_t)t->tid;
    count("thread.created");
    sync_point();
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    resolve();
    if (th - MAGIC < MAXT) {
        Thr* t = &T[th - MAGIC];
        join_thread(t);
        if (ret) *ret = t->ret;
        return 0;
    }
    return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
    resolve();
    if (th - MAGIC < MAXT) return 0;
    return real_pthread_detach(th);
}
pthread_t pthread_self() {
    resolve();
    if (g_active) return MAGIC + (pthread_t)cur->tid;
    return real_pthread_self();
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static bool mrec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 1; }
static bool merr(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 2; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g_active) { resolve(); return real_mutex_lock(m); }
    if (!loud()) return 0;
    return lock_acquire((uintptr_t)m, mrec(m), false, merr(m));
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g_active) { resolve(); return real_mutex_trylock(m); }
    if (!loud()) return 0;
    return lock_acquire((uintptr_t)m, mrec(m), true, false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g_active) { resolve(); return real_mutex_unlock(m); }
    if (!loud()) return 0;
    return lock_release((uintptr_t)m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!g_active) { resolve(); return real_rwrd(m); } if (!loud()) return 0; return rw_lock((uintptr_t)m, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!g_active) { resolve(); return real_rwwr(m); } if (!loud()) return 0; return rw_lock((uintptr_t)m, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!loud()) return 0; return rw_lock((uintptr_t)m, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!loud()) return 0; return rw_lock((uintptr_t)m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!g_active) { resolve(); return real_rwun(m); } if (!loud()) return 0; return rw_unlock((uintptr_t)m); }
int pthread_spin_lock(pthread_spinlock_t* m) { if (!loud()) return 0; return lock_acquire((uintptr_t)m, false, false, false); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (!loud()) return 0; return lock_release((uintptr_t)m); }
int pthread_spin_trylock(pthread_spinlock_t* m) { if (!loud()) return 0; return lock_acquire((uintptr_t)m, false, true, false); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!loud()) return 0; return cond_wait(c, m, -1); }
static int64_t ts_ns(const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!loud()) return 0; return cond_wait(c, m, ts_ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { if (!loud()) return 0; return cond_wait(c, m, ts_ns(t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (loud()) cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (loud()) cond_wake(c, true); return 0; }
struct BarSt { uintptr_t a; unsigned n, arrived; uint32_t gen; };
static BarSt g_bar[64];
static BarSt* bar_of(uintptr_t a) { for (auto& b : g_bar) { if (b.a == a) return &b; if (!b.a) { b.a = a; return &b; } } return &g_bar[0]; }
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { BarSt* s = bar_of((uintptr_t)b); s->n = n; s->arrived = 0; return 0; }
int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int pthread_barrier_wait(pthread_barrier_t* b) {
    if (!loud()) return 0;
    sync_point();
    BarSt* s = bar_of((uintptr_t)b);
    release((uintptr_t)s);
    uint32_t g = s->gen;
    if (++s->arrived == s->n) {
        s->arrived = 0; s->gen++;
        for (int i = 0; i < g_hw; i++) if (T[i].state == BLOCKED && T[i].wait_on == (void*)s) make_runnable(&T[i]);
        acquire((uintptr_t)s);
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    while (s->gen == g) block_on(s, -1, "pthread barrier");
    acquire((uintptr_t)s);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    // 0 fresh, 1 running, 2 done
    if (!loud() || g_nlive <= 1) {
        if (*o == 2) return 0;
        *o = 1;
        try { f(); } catch (...) { *o = 0; throw; }
        *o = 2;
        return 0;
    }
    sync_point();
    for (;;) {
        if (*o == 2) { acquire((uintptr_t)o); return 0; }
        if (*o == 0) break;
        block_on(o, -1, "once");
    }
    *o = 1;
    try { f(); }
    catch (...) {
        *o = 0;
        for (int i = 0; i < g_hw; i++) if (T[i].state == BLOCKED && T[i].wait_on == (void*)o) make_runnable(&T[i]);
        throw;
    }
    *o = 2;
    release((uintptr_t)o);
    for (int i = 0; i < g_hw; i++) if (T[i].state == BLOCKED && T[i].wait_on == (void*)o) make_runnable(&T[i]);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* g) {
    uint8_t* b = (uint8_t*)g;
    if (!g_active) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (loud() && g_nlive > 1) sync_point();
    for (;;) {
        if (b[0]) { if (loud()) acquire((uintptr_t)g); return 0; }
        if (!b[1]) break;
        if (!loud()) break;
        block_on(g, -1, "static initialisation");
    }
    b[1] = 1;
    return 1;
}
static void guard_wake(long long* g) {
    if (!g_active) return;
    for (int i = 0; i < g_hw; i++) if (T[i].state == BLOCKED && T[i].wait_on == (void*)g) make_runnable(&T[i]);
}
void __cxa_guard_release(long long* g) {
    uint8_t* b = (uint8_t*)g;
    if (g_active && loud()) release((uintptr_t)g);
    b[0] = 1; b[1] = 0;
    guard_wake(g);
}
void __cxa_guard_abort(long long* g) {
    ((uint8_t*)g)[1] = 0;
    guard_wake(g);
}
int sched_yield() { if (loud()) yield_point(); return 0; }
static int sim_sleep(int64_t ns) {
    count("time.sleep");
    if (g_nlive <= 1) { g_clock_adv += ns; return 0; }
    block_on((void*)&g_clock_adv, vclock() + ns, "sleep");
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) { if (!loud()) return (int)raw_syscall(SYS_nanosleep, (long)t, 0); return sim_sleep(ts_ns(t)); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
    if (!loud()) return (int)raw_syscall(SYS_nanosleep, (long)t, 0);
    return sim_sleep(flags & TIMER_ABSTIME ? ts_ns(t) - vclock() : ts_ns(t));
}
int usleep(useconds_t u) { if (!loud()) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)raw_syscall(SYS_nanosleep, (long)&t, 0); } return sim_sleep((int64_t)u * 1000); }
int clock_gettime(clockid_t id, struct timespec* t) {
    if (!g_active) return (int)raw_syscall(SYS_clock_gettime, id, (long)t);
    int64_t n = vclock();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = std::max(n + g_clock_wall, (int64_t)0);
    if (cur->quiet == 0) count("env.clock_read");
    t->tv_sec = n / 1000000000LL;
    t->tv_nsec = n % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
pid_t getpid() { if (g_active) return C.pid; return (pid_t)raw_syscall(SYS_getpid); }
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (loud()) {
        if (n == SYS_futex) {
            int op = (int)b & 127;
            int* addr = (int*)a;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                sync_point();
                if (*addr != (int)c) { errno = EAGAIN; return -1; }
                int64_t dl = -1;
                if (d) dl = op == FUTEX_WAIT ? vclock() + ts_ns((struct timespec*)d) : ts_ns((struct timespec*)d);
                block_on(addr, dl, "futex");
                acquire((uintptr_t)addr);
                if (cur->timed_out) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                release((uintptr_t)addr);
                long k = 0;
                for (int i = 0; i < g_hw && k < c; i++) if (T[i].state == BLOCKED && T[i].wait_on == (void*)addr) { make_runnable(&T[i]); k++; }
                sync_point();
                return k;
            }
        }
        if (n == SYS_gettid) return C.pid + cur->tid;
        if (n == SYS_getrandom) {
            for (size_t i = 0; i < (size_t)b; i++) { uint32_t v; if (!ent_next(&v)) { errno = EIO; return -1; } ((uint8_t*)a)[i] = (uint8_t)v; }
            return b;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
ssize_t getrandom(void* buf, size_t n, unsigned) {
    if (!g_active) return raw_syscall(SYS_getrandom, (long)buf, (long)n, 0);
    for (size_t i = 0; i < n; i++) { uint32_t v; if (!ent_next(&v)) { errno = EIO; return -1; } ((uint8_t*)buf)[i] = (uint8_t)v; }
    return (ssize_t)n;
}
int getentropy(void* buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
unsigned arc4random() { uint32_t v = 0; if (g_active) ent_next(&v); else raw_syscall(SYS_getrandom, (long)&v, 4, 0); return v; }

// ================================================================ files
static int do_open(const char* path, int flags, int mode) {
    long r = raw_syscall(SYS_openat, AT_FDCWD, (long)path, flags, mode);
    if (r < 0) { errno = (int)-r; return -1; }
    return (int)r;
}
static int sim_open(const char* path, int flags, int mode) {
    int pl = loud() ? plan_of(path) : -1;
    if (pl >= 0 && g_fp[pl].p.open_errno) { count("fault.open_failure"); errno = g_fp[pl].p.open_errno; return -1; }
    int fd = do_open(path, flags, mode);
    if (fd >= 0) { if (pl >= 0) reg_fd(fd, pl); else unreg_fd(fd); }   // the number may be recycled
    return fd;
}
int open(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return sim_open(path, flags, m); }
int open64(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return sim_open(path, flags, m); }
FILE* fopen64(const char* path, const char* mode) {
    resolve();
    int pl = loud() ? plan_of(path) : -1;
    if (pl >= 0 && g_fp[pl].p.open_errno) { count("fault.open_failure"); errno = g_fp[pl].p.open_errno; return nullptr; }
    FILE* f = real_fopen64(path, mode);
    if (f) { if (pl >= 0) reg_fd(fileno(f), pl); else unreg_fd(fileno(f)); }
    return f;
}
FILE* fopen(const char* path, const char* mode) { return fopen64(path, mode); }
int close(int fd) { unreg_fd(fd); long r = raw_syscall(SYS_close, fd); if (r < 0) { errno = (int)-r; return -1; } return 0; }
ssize_t read(int fd, void* buf, size_t n) {
    FD* f = loud() ? fd_of(fd) : nullptr;
    if (f) {
        int64_t off = raw_syscall(SYS_lseek, fd, 0, SEEK_CUR);
        ssize_t k = shape_read(f, off, n);
        if (k <= 0) return k;
        n = (size_t)k;
    }
    long r = raw_syscall(SYS_read, fd, (long)buf, (long)n);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
ssize_t pread64(int fd, void* buf, size_t n, off64_t off) {
    FD* f = loud() ? fd_of(fd) : nullptr;
    if (f) {
        ssize_t k = shape_read(f, off, n);
        if (k <= 0) return k;
        n = (size_t)k;
    }
    long r = raw_syscall(SYS_pread64, fd, (long)buf, (long)n, off);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
}  // extern "C"

// std::random_device: the operating system's entropy, behind the simulator
namespace rt_rd {
struct RD;
extern "C" {
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) { if (g_active) { count("env.random_device"); if (g_ent_left == 0 && g_ent_mode >= 0 && g_ent_failed) {} } }
void _ZNSt13random_device7_M_initERKSs(void*, const void*) {}
void _ZNSt13random_device7_M_finiEv(void*) {}
unsigned _ZNSt13random_device9_M_getvalEv(void*) {
    uint32_t v = 0;
    if (!g_active) { raw_syscall(SYS_getrandom, (long)&v, 4, 0); return v; }
    if (!ent_next(&v)) throw std::runtime_error("random_device: entropy source failed (simulated)");
    return v;
}
double _ZNKSt13random_device13_M_getentropyEv(const void*) { return 32.0; }
}
}  // namespace rt_rd
