#include "harness.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace std;
static Scenario S;
static string g_scratch;
string scratch_dir() { return g_scratch; }

static double wall() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

void gen_env(Rng& r, Plan& p, int what) {
    p.set("simseed", (int64_t)(r.next() >> 2));
    // scheduling strategy
    int st = (int)r.below(10);
    if (st < 1) { p.set("strat", rt::SERIAL); }
    else if (st < 4) {
        static const int ps[] = {1, 2, 3, 5, 10, 30, 100, 400, 2000};
        p.set("strat", rt::RANDOM);
        p.set("p1", r.pick(ps));
    } else if (st < 6) {
        static const int ds[] = {1, 2, 3, 5};
        static const int hs[] = {30, 100, 300, 1000, 5000, 30000};
        p.set("strat", rt::PCT);
        p.set("p1", r.pick(ds));
        p.set("p2", r.pick(hs));
    } else if (st < 7) {
        static const int qs[] = {1, 2, 5, 20, 100, 1000};
        p.set("strat", rt::QUANTUM);
        p.set("p1", r.pick(qs));
    } else {
        static const int cs[] = {10, 30, 60};
        p.set("strat", rt::CONFLICT);
        p.set("p1", r.pick(cs));
    }
    if (what & ENV_TEAM) {
        static const int ts[] = {1, 2, 2, 3, 3, 4, 5, 8};
        p.set("team", r.pick(ts));
        p.set("team_vary", r.chance(1, 3));
        p.set("nested", r.chance(1, 4));
    } else p.set("team", 1);
    if (what & ENV_ALLOC) {
        p.set("alloc", (int64_t)r.below(rt::NALLOC));
        p.set("salt", (int64_t)r.below(1 << 20));
    }
    if (what & ENV_FILL) p.set("fill", (int64_t)r.below(4));
    p.set("entropy", (int64_t)(r.next() >> 2));
    p.set("clock", (int64_t)r.below(4000000000ULL) * 1000000000LL);
    p.set("pid", r.range(2, 4000000));
}
static rt::Cfg cfg_of(const Plan& p) {
    rt::Cfg c;
    c.seed = (uint64_t)p.get("simseed", 1);
    c.strat = (int)p.in("strat", 0, rt::NSTRAT - 1);
    c.p1 = (uint32_t)p.get("p1", 1);
    c.p2 = (uint32_t)p.get("p2", 1000);
    c.team = (int)p.in("team", 1, 16);
    c.team_vary = p.get("team_vary") != 0;
    c.nested = p.get("nested") != 0;
    c.alloc_mode = (int)p.in("alloc", 0, rt::NALLOC - 1);
    c.fill = (int)p.in("fill", 0, 3);
    c.alloc_salt = (uint64_t)p.get("salt");
    c.entropy = (uint64_t)p.get("entropy", 1);
    c.clock_base = p.get("clock", 1000000000LL);
    c.pid = (int)p.get("pid", 4242);
    return c;
}

struct Sched {
    bool use = false;
    vector<rt::SwitchRec> sw;
};
struct Outcome {
    int status = 0;     // 1 ok 2 violation 3 error
    string cls, msg;
    uint64_t hash = 0;
};

struct BodyArg { const Plan* p; };
static void body(void* a) { S.run(*((BodyArg*)a)->p); }

static void reset_report(rt::Report* r) {
    size_t off = offsetof(rt::Report, sw);
    memset(r, 0, off);
}

static Outcome run_child(const Plan& p, const Sched* sc, rt::Report* rep) {
    reset_report(rep);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rt::init_process(rep);
        rt::Cfg c = cfg_of(p);
        if (sc && sc->use) {
            c.replay = true;
            c.nsw = (int)sc->sw.size();
            c.sw = sc->sw.data();
        }
        BodyArg ba{&p};
        rt::run(c, body, &ba);
        _exit(0);
    }
    if (pid < 0) { Outcome o; o.status = 3; o.msg = "fork failed"; return o; }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.hash = rep->hash;
    if (rep->status == 1) o.status = 1;
    else if (rep->status == 2) { o.status = 2; o.cls = rep->cls; o.msg = rep->msg; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { o.status = 2; o.cls = "crash-killed"; o.msg = "killed by signal " + to_string(WTERMSIG(st)); }
    else { o.status = 3; o.msg = "run ended without a report, wait status " + to_string(st); }
    return o;
}

// ---------------------------------------------------------------- text form
static string plan_text(const Plan& p) {
    ostringstream o;
    for (auto& kv : p.args) o << "arg " << kv.first << " " << kv.second << "\n";
    for (auto& op : p.ops) {
        o << "op " << (op.k >= 0 && op.k < (int)S.opnames.size() ? S.opnames[op.k] : "?");
        for (auto v : op.a) o << " " << v;
        o << "\n";
    }
    return o.str();
}
static string one_line(string s) {
    for (auto& c : s) if (c == '\n') c = ' ';
    return s;
}
static bool load_replay(const string& path, Plan& p, Sched& sc, string& cls, uint64_t& hash) {
    ifstream f(path);
    string line;
    if (!getline(f, line) || line.rfind("dst-replay", 0) != 0) return false;
    while (getline(f, line)) {
        istringstream is(line);
        string k;
        is >> k;
        if (k == "class") is >> cls;
        else if (k == "hash") is >> hash;
        else if (k == "arg") { string n; int64_t v; is >> n >> v; p.args[n] = v; }
        else if (k == "op") {
            Op o;
            string n;
            is >> n;
            o.k = -1;
            for (size_t i = 0; i < S.opnames.size(); i++) if (n == S.opnames[i]) o.k = (int)i;
            int64_t v;
            while (is >> v) o.a.push_back(v);
            p.ops.push_back(o);
        } else if (k == "schedule") { string m; is >> m; sc.use = m == "list"; }
        else if (k == "sw") { int f2, t; uint32_t s; is >> f2 >> s >> t; sc.sw.push_back({s, (uint8_t)f2, (uint8_t)t}); }
    }
    return true;
}

// ---------------------------------------------------------------- batch
constexpr int MAXW = 16;
constexpr int MAXSIG = 400000;
struct WorkerShm {
    rt::Report rep;
    uint64_t runs, ok, errors, rechecks, mismatches, max_steps, max_steps_at, steps, dsteps, vtime, preempts, switches, nontrivial, multi;
    uint64_t mismatch_index;
    int64_t violation;      // index or -1
    char cls[96];
    char msg[1024];
    char err[256];
    int ncounters;
    char cname[rt::NCOUNT][48];
    uint64_t cval[rt::NCOUNT];
    uint64_t cruns[rt::NCOUNT];
    uint32_t nsig;
    uint64_t sig[MAXSIG];
    uint32_t nilv;
    uint64_t ilv[MAXSIG];
};
struct Shared {
    atomic<int64_t> min_violation;
    WorkerShm w[MAXW];
};

static uint64_t run_seed(uint64_t seed, uint64_t i) {
    uint64_t h = 1469598103934665603ULL;
    for (const char* c = S.prop; *c; c++) h = (h ^ (uint64_t)*c) * 1099511628211ULL;
    return mix64(mix64(seed, h), i);
}
static Plan plan_for(uint64_t seed, uint64_t i) {
    Rng r(run_seed(seed, i));
    Plan p;
    S.gen(r, p);
    return p;
}

static void worker(Shared* sh, int w, int W, uint64_t seed, uint64_t runs, double deadline, uint64_t start) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    long nc = sysconf(_SC_NPROCESSORS_ONLN);
    cpu_set_t have;
    if (sched_getaffinity(0, sizeof have, &have) == 0) {
        int k = 0, n = CPU_COUNT(&have), want = n ? w % n : 0;
        for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &have) && k++ == want) { CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); break; }
    }
    (void)nc;
    WorkerShm& me = sh->w[w];
    me.violation = -1;
    unordered_set<uint64_t> sigs, ilvs;
    for (uint64_t i = start + (uint64_t)w; i < start + runs; i += (uint64_t)W) {
        if (wall() > deadline) break;
        if ((int64_t)i > sh->min_violation.load()) break;
        Plan p = plan_for(seed, i);
        Outcome o = run_child(p, nullptr, &me.rep);
        if (o.status == 3) {
            o = run_child(p, nullptr, &me.rep);
            if (o.status == 3) { me.errors++; snprintf(me.err, sizeof me.err, "index %llu: %s", (unsigned long long)i, o.msg.c_str()); continue; }
        }
        me.runs++;
        rt::Report& r = me.rep;
        me.steps += r.steps;
        if (r.steps > me.max_steps) { me.max_steps = r.steps; me.max_steps_at = i; }
        me.dsteps += r.dsteps;
        me.vtime += r.vtime;
        me.preempts += r.npreempt;
        me.switches += r.npreempt + r.nforced;
        if (r.nthreads > 1) me.multi++;
        bool nontriv = r.npreempt > 0;
        uint64_t fh = 0;
        for (int k = 0; k < r.ncounters; k++) {
            if (!strncmp(r.cname[k], "fault.", 6) || !strncmp(r.cname[k], "hist.", 5)) { nontriv = true; for (char* c = r.cname[k]; *c; c++) fh = mix64(fh, *c); fh = mix64(fh, r.cval[k]); }
            int j = 0;
            for (; j < me.ncounters; j++) if (!strcmp(me.cname[j], r.cname[k])) break;
            if (j == me.ncounters && j < rt::NCOUNT) { strcpy(me.cname[j], r.cname[k]); me.cval[j] = 0; me.cruns[j] = 0; me.ncounters++; }
            if (j < rt::NCOUNT) { me.cval[j] += r.cval[k]; me.cruns[j]++; }
        }
        if (nontriv) {
            me.nontrivial++;
            uint64_t s = mix64(mix64(r.sig, r.ilv), fh);
            uint64_t ph = 0;
            for (auto& op : p.ops) { ph = mix64(ph, op.k); for (auto v : op.a) ph = mix64(ph, (uint64_t)v); }
            s = mix64(s, ph);
            if (sigs.size() < MAXSIG && sigs.insert(s).second) me.sig[me.nsig++] = s;
            if (r.npreempt && ilvs.size() < MAXSIG && ilvs.insert(r.ilv).second) me.ilv[me.nilv++] = r.ilv;
        }
        if (o.status == 2) {
            me.violation = (int64_t)i;
            snprintf(me.cls, sizeof me.cls, "%s", o.cls.c_str());
            snprintf(me.msg, sizeof me.msg, "%s", o.msg.c_str());
            int64_t cur = sh->min_violation.load();
            while ((int64_t)i < cur && !sh->min_violation.compare_exchange_weak(cur, (int64_t)i)) {}
            break;
        }
        me.ok++;
        if (me.runs % 40 == 1) {
            uint64_t h = o.hash;
            Outcome o2 = run_child(p, nullptr, &me.rep);
            me.rechecks++;
            if (o2.hash != h || o2.status != o.status) { me.mismatches++; me.mismatch_index = i; }
        }
    }
    _exit(0);
}

static string jesc(const string& s) {
    string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

struct Min {
    rt::Report* rep;
    double deadline;
    string cls;
    int tries = 0;
    // does p (under its own strategy, or a few other seeds) still violate with the same class?
    bool still(Plan& p) {
        if (wall() > deadline) return false;
        for (int k = 0; k < 6; k++) {
            Plan q = p;
            if (k) q.set("simseed", (int64_t)(mix64((uint64_t)p.get("simseed"), (uint64_t)k) >> 2));
            tries++;
            Outcome o = run_child(q, nullptr, rep);
            if (o.status == 2 && o.cls == cls) { p = q; return true; }
            if (q.get("strat") == rt::SERIAL) break;
            if (wall() > deadline) return false;
        }
        return false;
    }
    bool still_list(const Plan& p, const Sched& s) {
        if (wall() > deadline) return false;
        tries++;
        Outcome o = run_child(p, &s, rep);
        return o.status == 2 && o.cls == cls;
    }
};

static void minimise_ops(Plan& p, Min& m) {
    size_t chunk = max<size_t>(1, p.ops.size() / 2);
    while (!p.ops.empty()) {
        bool any = false;
        for (size_t i = 0; i < p.ops.size();) {
            Plan q = p;
            size_t n = min(chunk, q.ops.size() - i);
            q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)(i + n));
            if (m.still(q)) { p = q; any = true; }
            else i += n;
            if (wall() > m.deadline) return;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > 1) chunk = max<size_t>(1, chunk / 2);
    }
}
static void minimise_ints(Plan& p, Min& m) {
    static const char* keep[] = {"simseed", "strat", "p1", "p2"};
    auto try_val = [&](auto setter, int64_t cur) {
        int64_t best = cur;
        for (int64_t cand : {int64_t(0), int64_t(1), int64_t(2), cur / 4, cur / 2, cur - 1}) {
            if (cand == best || llabs(cand) >= llabs(best)) continue;
            Plan q = p;
            setter(q, cand);
            if (m.still(q)) { p = q; best = cand; break; }
            if (wall() > m.deadline) return;
        }
    };
    vector<string> names;
    for (auto& kv : p.args) names.push_back(kv.first);
    for (auto& n : names) {
        bool skip = false;
        for (auto k : keep) if (n == k) skip = true;
        if (skip) continue;
        try_val([&](Plan& q, int64_t v) { q.args[n] = v; }, p.args[n]);
        if (wall() > m.deadline) return;
    }
    for (size_t i = 0; i < p.ops.size(); i++)
        for (size_t j = 0; j < p.ops[i].a.size(); j++) {
            try_val([&](Plan& q, int64_t v) { q.ops[i].a[j] = v; }, p.ops[i].a[j]);
            if (wall() > m.deadline) return;
        }
}
static void minimise_sched(const Plan& p, Sched& s, Min& m) {
    size_t chunk = max<size_t>(1, s.sw.size() / 2);
    while (!s.sw.empty()) {
        bool any = false;
        for (size_t i = 0; i < s.sw.size();) {
            Sched q = s;
            size_t n = min(chunk, q.sw.size() - i);
            q.sw.erase(q.sw.begin() + (long)i, q.sw.begin() + (long)(i + n));
            if (m.still_list(p, q)) { s = q; any = true; }
            else i += n;
            if (wall() > m.deadline) return;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > 1) chunk = max<size_t>(1, chunk / 2);
    }
}

static string write_replay(const string& dir, const Plan& p, const Sched& sc, const Outcome& o, rt::Report* rep, uint64_t seed, int64_t index, const char* exe) {
    char name[512];
    snprintf(name, sizeof name, "%s/%s-seed%llu-run%lld.replay", dir.c_str(), S.prop, (unsigned long long)seed, (long long)index);
    ofstream f(name);
    f << "dst-replay 1\nproperty " << S.prop << "\nclass " << o.cls << "\nmessage " << one_line(o.msg) << "\nhash " << o.hash << "\nverif_seed " << seed << "\nrun_index " << index << "\n";
    f << "# replay with: /verif/bin/check " << S.prop << " --replay <this file>\n";
    f << plan_text(p);
    f << "schedule " << (sc.use ? "list" : "strategy") << "\n";
    if (sc.use) for (auto& s : sc.sw) f << "sw " << (int)s.from << " " << s.step << " " << (int)s.to << "\n";
    for (int i = 0; i < 2; i++) if (rep->pc[i]) {
        char cmd[600], out[512] = "";
        snprintf(cmd, sizeof cmd, "addr2line -C -f -p -i -e %s 0x%llx 2>/dev/null | head -3", exe, (unsigned long long)rep->pc[i] - 1);
        FILE* a = popen(cmd, "r");
        if (a) { while (fgets(out, sizeof out, a)) f << "# at " << out; pclose(a); }
    }
    return name;
}

static void rm_tree(const string& d) {
    if (d.empty() || d.find("/vsim.") == string::npos) return;
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (auto* e = readdir(h)) {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        string q = d + "/" + n;
        struct stat st;
        if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(q);
        else unlink(q.c_str());
    }
    closedir(h);
    rmdir(d.c_str());
}
static pid_t g_owner;
static void cleanup() { if (!g_scratch.empty() && getpid() == g_owner) rm_tree(g_scratch); }

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC")) {
        if (personality((unsigned)pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("VSIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    S = scenario();
    string mode = argc > 1 ? argv[1] : "";
    map<string, string> opt;
    vector<string> pos;
    for (int i = 2; i < argc; i++) {
        string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i];
        else pos.push_back(a);
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? atof(opt[k].c_str()) : d; };
    uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
    char exe[512] = "";
    ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (el > 0) exe[el] = 0;
    char tmpl[] = "/tmp/vsim.XXXXXX";
    g_owner = getpid();
    if (char* d = mkdtemp(tmpl)) g_scratch = d;
    atexit(cleanup);
    rt::Report* rep = (rt::Report*)mmap(nullptr, sizeof(rt::Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    // the library under test prints progress; keep it away from our stdout
    int keep_out = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    FILE* out = fdopen(keep_out, "w");
    rt::init_process(rep);

    if (mode == "replay") {
        Plan p;
        Sched sc;
        string cls;
        uint64_t hash = 0;
        if (pos.empty() || !load_replay(pos[0], p, sc, cls, hash)) { fprintf(out, "cannot read replay file\n"); fflush(out); return 2; }
        Outcome o = run_child(p, &sc, rep);
        if (o.status == 2) fprintf(out, "REPLAY class=%s hash=%llu expected_class=%s exact=%s\n%s\n", o.cls.c_str(), (unsigned long long)o.hash, cls.c_str(), o.hash == hash ? "yes" : "no", o.msg.c_str());
        else fprintf(out, "REPLAY no violation (status %d %s)\n", o.status, o.msg.c_str());
        fflush(out);
        return o.status == 2 && o.cls == cls ? 1 : o.status == 3 ? 2 : 0;
    }
    if (mode == "show") {
        for (uint64_t i = (uint64_t)num("from", 0), e = i + (uint64_t)num("n", 1); i < e; i++) {
            Plan p = plan_for(seed, i);
            fprintf(out, "--- %llu\n%s", (unsigned long long)i, plan_text(p).c_str());
            if (opt.count("norun")) continue;
            double t0 = wall();
            Outcome o = run_child(p, nullptr, rep);
            fprintf(out, "=> status %d %s: %s hash %llx steps %llu dsteps %llu preempt %u forced %u threads %u regions %u allocs %d  %.1f ms\n", o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, (unsigned long long)rep->steps, (unsigned long long)rep->dsteps, rep->npreempt, rep->nforced, rep->nthreads, rep->nregions, 0, (wall() - t0) * 1e3);
            for (int z = 0; z < 4; z++) if (rep->pc[z]) {
                char cmd[600], o2[512] = "";
                snprintf(cmd, sizeof cmd, "addr2line -C -f -p -i -e %s 0x%llx 2>/dev/null | head -8", exe, (unsigned long long)rep->pc[z] - 1);
                FILE* a = popen(cmd, "r");
                if (a) { while (fgets(o2, sizeof o2, a)) fprintf(out, "   # pc%d %s", z, o2); pclose(a); }
            }
            for (int k = 0; k < rep->ncounters; k++) fprintf(out, "   %s %llu\n", rep->cname[k], (unsigned long long)rep->cval[k]);
        }
        fflush(out);
        return 0;
    }
    if (mode == "selftest") {   // determinism: every run twice, in two different processes
        uint64_t n = (uint64_t)num("n", 200), bad = 0;
        for (uint64_t i = 0; i < n; i++) {
            Plan p = plan_for(seed, i);
            Outcome a = run_child(p, nullptr, rep);
            uint64_t s1 = rep->steps;
            Outcome b = run_child(p, nullptr, rep);
            Outcome c = a;
            if (a.status == 1) { Sched sc; sc.use = true; sc.sw.assign(rep->sw, rep->sw + rep->nsw); if (!rep->sw_overflow) c = run_child(p, &sc, rep); }
            if (a.hash != b.hash || a.status != b.status || c.hash != a.hash) {
                bad++;
                fprintf(out, "MISMATCH index %llu %llx %llx list %llx steps %llu %llu\n", (unsigned long long)i, (unsigned long long)a.hash, (unsigned long long)b.hash, (unsigned long long)c.hash, (unsigned long long)s1, (unsigned long long)rep->steps);
            }
        }
        fprintf(out, "selftest %s: %llu runs, %llu mismatches\n", S.prop, (unsigned long long)n, (unsigned long long)bad);
        fflush(out);
        return bad ? 1 : 0;
    }
    if (mode != "batch") { fprintf(out, "usage: batch|replay|show|selftest\n"); fflush(out); return 2; }

    double t0 = wall();
    uint64_t runs = (uint64_t)num("runs", 1000);
    double budget = num("wall", 20);
    double minbudget = num("minwall", 40);
    int W = (int)num("workers", 8);
    if (W > MAXW) W = MAXW;
    string rdir = opt.count("replaydir") ? opt["replaydir"] : ".";
    set<string> known;
    { istringstream is(opt["known"]); string k; while (getline(is, k, ',')) if (!k.empty()) known.insert(k); }

    int rc = 0;
    vector<string> lines, samples;
    string vjson = "null";
    uint64_t directed_runs = 0, known_hits = 0;
    auto report_violation = [&](Plan p, const string& cls, int64_t index) -> bool {
        // gate 1: same plan, same seed, twice
        Outcome a = run_child(p, nullptr, rep);
        Outcome b = run_child(p, nullptr, rep);
        if (a.status != 2 || b.status != 2 || a.cls != b.cls || a.hash != b.hash) {
            lines.push_back("gate: violation candidate " + cls + " did not reproduce exactly (index " + to_string(index) + ")");
            if (a.status != 2 || b.status != 2 || a.cls != b.cls) return false;
        }
        Min m{rep, wall() + minbudget, a.cls};
        size_t ops0 = p.ops.size();
        minimise_ops(p, m);
        minimise_ints(p, m);
        minimise_ops(p, m);
        Outcome f = run_child(p, nullptr, rep);
        Sched sc;
        size_t sw0 = 0;
        if (f.status == 2 && f.cls == a.cls && !rep->sw_overflow) {
            sc.sw.assign(rep->sw, rep->sw + rep->nsw);
            sc.use = true;
            sw0 = sc.sw.size();
            m.deadline = max(m.deadline, wall() + 5);
            if (!m.still_list(p, sc)) { sc.use = false; sc.sw.clear(); }
            else { m.deadline = wall() + minbudget / 2; minimise_sched(p, sc, m); }
        }
        f = run_child(p, &sc, rep);
        if (f.status != 2) { lines.push_back("gate: minimised run lost the violation"); return false; }
        string path = write_replay(rdir, p, sc, f, rep, seed, index, exe);
        vjson = "{\"class\":\"" + jesc(f.cls) + "\",\"message\":\"" + jesc(f.msg) + "\",\"index\":" + to_string(index) + ",\"replay\":\"" + jesc(path) + "\",\"ops_before\":" + to_string(ops0) + ",\"ops_after\":" + to_string(p.ops.size()) + ",\"switches_before\":" + to_string(sw0) + ",\"switches_after\":" + to_string(sc.sw.size()) + ",\"minimise_runs\":" + to_string(m.tries) + "}";
        return true;
    };

    bool violated = false;
    if (S.directed) {
        int k = 0;
        for (auto& d : S.directed()) {
            directed_runs++;
            Outcome o = run_child(d.plan, nullptr, rep);
            if (o.status == 3) o = run_child(d.plan, nullptr, rep);
            k++;
            if (o.status == 2) {
                if (known.count(d.key)) { known_hits++; lines.push_back("KNOWN-FINDING: property=" + string(S.prop) + " " + d.key + ": " + d.what + " (" + o.cls + ": " + one_line(o.msg) + ")"); }
                else if (!violated) violated = report_violation(d.plan, o.cls, -k);
            }
        }
    }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t start = 0;
    uint64_t tot_runs = 0, tot_ok = 0, tot_err = 0, rechecks = 0, mism = 0, longest = 0, longest_at = 0, steps = 0, dsteps = 0, vtime = 0, preempts = 0, switches = 0, nontriv = 0, multi = 0;
    map<string, pair<uint64_t, uint64_t>> ctr;
    unordered_set<uint64_t> sigs, ilvs;
    string err;
    double search_t0 = wall();
    double deadline = search_t0 + budget;
    uint64_t left = runs;
    int attempts = 0;
    while (!violated && left > 0) {
        memset((void*)sh, 0, offsetof(Shared, w));
        sh->min_violation.store(INT64_MAX);
        for (int w = 0; w < W; w++) {
            WorkerShm& x = sh->w[w];
            memset((char*)&x + offsetof(WorkerShm, runs), 0, offsetof(WorkerShm, sig) - offsetof(WorkerShm, runs));
            x.nilv = 0;
            x.violation = -1;
        }
        vector<pid_t> kids;
        for (int w = 0; w < W; w++) {
            pid_t k = fork();
            if (k == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(sh, w, W, seed, left, deadline, start); }
            kids.push_back(k);
        }
        for (auto k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} }
        int64_t vi = INT64_MAX;
        int vw = -1;
        for (int w = 0; w < W; w++) {
            WorkerShm& x = sh->w[w];
            tot_runs += x.runs; tot_ok += x.ok; tot_err += x.errors; rechecks += x.rechecks; mism += x.mismatches;
            if (x.max_steps > longest) { longest = x.max_steps; longest_at = x.max_steps_at; }
            steps += x.steps; dsteps += x.dsteps; vtime += x.vtime; preempts += x.preempts; switches += x.switches; nontriv += x.nontrivial; multi += x.multi;
            if (x.err[0]) err = x.err;
            if (x.mismatches) lines.push_back("determinism: re-execution differed at index " + to_string(x.mismatch_index));
            for (int k = 0; k < x.ncounters; k++) { ctr[x.cname[k]].first += x.cval[k]; ctr[x.cname[k]].second += x.cruns[k]; }
            for (uint32_t k = 0; k < x.nsig; k++) sigs.insert(x.sig[k]);
            for (uint32_t k = 0; k < x.nilv; k++) ilvs.insert(x.ilv[k]);
            if (x.violation >= 0 && x.violation < vi) { vi = x.violation; vw = w; }
        }
        if (vw < 0) break;
        Plan p = plan_for(seed, (uint64_t)vi);
        if (report_violation(p, sh->w[vw].cls, vi)) { violated = true; break; }
        if (++attempts > 20) break;
        left -= min<uint64_t>(left, (uint64_t)vi + 1 - start);
        start = (uint64_t)vi + 1;
    }
    double search_s = wall() - search_t0;
    for (uint64_t i = 0; i < 3; i++) {
        Plan p = plan_for(seed, i * 7 + 1);
        samples.push_back(plan_text(p));
    }
    if (violated) rc = 1;
    else if (attempts > 0) rc = 2;                       // candidates that would not replay
    else if (tot_err > 0 && tot_err * 20 > tot_runs) rc = 2;
    else if (tot_runs == 0) rc = 2;

    string of = opt.count("out") ? opt["out"] : "";
    FILE* j = of.empty() ? out : fopen(of.c_str(), "w");
    if (j) {
        fprintf(j, "{\"property\":\"%s\",\"seed\":%llu,\"rc\":%d,\"runs\":%llu,\"ok\":%llu,\"errors\":%llu,\"error_text\":\"%s\",\"rechecks\":%llu,\"mismatches\":%llu,\"longest_run_steps\":%llu,\"longest_run_index\":%llu,\"steps\":%llu,\"decision_steps\":%llu,\"virtual_ns\":%llu,\"preemptions\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"multithreaded_runs\":%llu,\"distinct\":%zu,\"distinct_interleavings\":%zu,\"search_s\":%.3f,\"wall_s\":%.3f,\"workers\":%d,\"directed\":%llu,\"known_hits\":%llu,\"gate_rejections\":%d,\"violation\":%s,",
                S.prop, (unsigned long long)seed, rc, (unsigned long long)tot_runs, (unsigned long long)tot_ok, (unsigned long long)tot_err, jesc(err).c_str(), (unsigned long long)rechecks, (unsigned long long)mism, (unsigned long long)longest, (unsigned long long)longest_at, (unsigned long long)steps, (unsigned long long)dsteps, (unsigned long long)vtime, (unsigned long long)preempts, (unsigned long long)switches, (unsigned long long)nontriv, (unsigned long long)multi, sigs.size(), ilvs.size(), search_s, wall() - t0, W, (unsigned long long)directed_runs, (unsigned long long)known_hits, attempts, vjson.c_str());
        fprintf(j, "\"counters\":{");
        bool first = true;
        for (auto& kv : ctr) { fprintf(j, "%s\"%s\":{\"total\":%llu,\"runs\":%llu}", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second.first, (unsigned long long)kv.second.second); first = false; }
        fprintf(j, "},\"rule\":\"%s\",\"real\":\"%s\",\"stub\":\"%s\",\"samples\":[", jesc(S.rule).c_str(), jesc(S.real).c_str(), jesc(S.stub).c_str());
        for (size_t i = 0; i < samples.size(); i++) fprintf(j, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
        fprintf(j, "],\"lines\":[");
        for (size_t i = 0; i < lines.size(); i++) fprintf(j, "%s\"%s\"", i ? "," : "", jesc(lines[i]).c_str());
        fprintf(j, "]}\n");
        if (j != out) fclose(j);
    }
    fflush(out);
    cleanup();
    g_scratch.clear();
    return rc;
}
