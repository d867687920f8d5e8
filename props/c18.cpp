// C18: memory is bounded by live state and returned when objects die.
#include "models.hpp"
#include "mnist.hpp"
#include <dirent.h>

enum { W_TRAIN, W_PREDICT, W_MODE, W_RECOMPILE, W_LOAD, W_TENSOR, W_LAYER, W_MODEL, W_EPOCHS, W_STEP, W_SWEEP, NW };
static const char* const NM[NW] = {"train", "predict", "mode", "recompile", "load", "tensor", "layer", "model", "epochs", "manual_step", "sweep"};
// disturbance of one piece of work
enum { F_NONE, F_PROBE, F_BADX, F_BADY, F_SIZES, F_ALLOC, F_FILE, NF };
static constexpr int CYC = 14;          // repetitions of the same work
static constexpr int WARM = 3;          // the state has settled after these

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 3) p.set("team", 3);
    gen_arch(r, p);
    for (const char* k : {"in", "hid", "rows", "out"}) if (p.get(k) > 5) p.set(k, 5);
    p.set("drop", r.chance(1, 4));
    p.set("threads", r.chance(1, 6) ? 2 : 1);
    if (p.get("threads") > 1) p.set("team", 1);
    p.set("nfiles", r.range(1, 6));
    p.set("batch", r.range(1, 4));
    p.set("keep_loader", r.chance(1, 2));
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; i++) {   // only sweeps, every now and then
        int k = n == 4 ? W_SWEEP : r.chance(1, 4) ? W_TRAIN : r.chance(1, 4) ? W_SWEEP : (int)r.below(NW);
        if (n > 1 && r.chance(1, 8)) k = W_LOAD;
        int f = k == W_LOAD && r.chance(1, 2) ? (int)F_FILE : r.chance(1, 3) ? (int)F_NONE : r.chance(1, 2) ? (int)F_ALLOC : k == W_LOAD ? (int)F_FILE : (int)r.range(F_PROBE, F_SIZES);
        int64_t hi = r.chance(1, 3) ? 30 : r.chance(1, 2) ? 300 : 2500;
        // kind of work, variant, disturbance, where, allocation, seed, kernel dimensions
        p.op(k, {(int64_t)r.below(40), f, (int64_t)r.below(k == W_LOAD ? 11 : 6), r.range(1, hi), (int64_t)r.below(1000), r.range(1, 4), r.range(1, 4), r.range(1, 4), r.range(1, 3)});
    }
}

static int open_files() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
// Everything one round of work lives in; persistent across the cycles.
struct World {
    Arch a;
    Ctl c;
    std::unique_ptr<SmartDNN<float>> m;
    std::unique_ptr<MNISTLoader<float>> ld;
    Files f;
    std::unique_ptr<FullyConnectedLayer<float>> fc;
    std::unique_ptr<BatchNormalizationLayer<float>> bn;
    std::unique_ptr<DropoutLayer<float>> dr;
    std::unique_ptr<Optimizer<float>> opt;
    bool multi = false;
};
static void setup(World& w, const Plan& p, int t) {
    w.a = gen_arch_from(p);
    w.a.drop = p.get("drop") != 0 && !w.a.kind && !w.a.rank1;
    w.a.seed += (uint64_t)t;
    w.f.n = w.f.nl = (int)p.in("nfiles", 1, 8);
    w.f.rows = 2;
    w.f.cols = 3;
    compose(w.f);
    string b = scratch_dir() + "/" + std::to_string((long)getpid()) + "-" + std::to_string(t);
    w.f.ipath = b + ".images";
    w.f.lpath = b + ".labels";
    store(w.f.ipath, w.f.ibytes);
    store(w.f.lpath, w.f.lbytes);
    string e = attempt([&] {
        w.m.reset(new SmartDNN<float>());
        build_model(*w.m, w.a, &w.c);
        if (p.get("keep_loader")) w.ld.reset(new MNISTLoader<float>(w.f.ipath, w.f.lpath, (int)p.in("batch", 1, 8), -1));
        w.fc.reset(new FullyConnectedLayer<float>(3, 2));
        w.bn.reset(new BatchNormalizationLayer<float>(3));
        w.dr.reset(new DropoutLayer<float>(0.5f));
        w.opt.reset(new_opt(w.a.opt));
    });
    if (!e.empty()) RT_FAIL("unexpected-exception", "building the objects threw: %s", e.c_str() + 1);
}
static void teardown(World& w) {
    unstore(w.f);
    unlink((w.f.ipath + ".bad").c_str());
    unlink((w.f.lpath + ".bad").c_str());
    Loud l;
    // objects die in the order of a program's scopes
    w.m.reset();
    w.ld.reset();
    w.fc.reset();
    w.bn.reset();
    w.dr.reset();
    w.opt.reset();
}
static void work(World& w, const Op& o, const Plan& p, int round) {   // round 0: undisturbed
    if (o.k == W_SWEEP) return;
    int v = (int)o.in(0, 0, 39), f = round ? (int)o.in(1, 0, NF - 1) : (int)F_NONE, where = (int)o.in(2, 0, 10);
    uint64_t sd = (uint64_t)o.at(4), at = (uint64_t)o.in(3, 1, 5000) + (uint64_t)(round > 1 ? round - 1 : 0) * (sd % 4);
    if (w.multi && f == F_ALLOC) f = F_NONE;      // the counter is the process's, not the thread's
    bool model_work = o.k == W_TRAIN || o.k == W_PREDICT || o.k == W_EPOCHS || o.k == W_STEP;
    if (f == F_PROBE && model_work) {
        int st = where % NSTAGE;
        w.c.arm(st, st >= ST_COMPUTE ? 0 : (int)(at % (uint64_t)w.a.nprobe), 1 + at % 3);
    }
    uint64_t nf = rt::alloc_failures();
    if (f == F_ALLOC) rt::allow_stop(true);
    auto strike = [&] { if (f == F_ALLOC) rt::arm_alloc_fail(at, 1); };
    bool may = f != F_NONE;
    string e = attempt([&] {
        switch (o.k) {
            case W_TRAIN: case W_EPOCHS: {
                vector<TF> xs, ys;
                int n = 1 + v % 3;
                for (int i = 0; i < n; i++) {
                    vector<int> dx = in_dims(w.a), dy = out_dims(w.a);
                    bool bad = i + 1 == n;
                    if (bad && f == F_BADX && !w.a.kind) dx.back() += 1;
                    if (bad && f == F_BADY) { dy.back() += 1; if (dy.size() == 1) dy.push_back(2); }
                    xs.push_back(make(dx, sd + (uint64_t)i, 2));
                    ys.push_back(make(dy, sd + 50 + (uint64_t)i, 2));
                }
                if (f == F_SIZES) ys.pop_back();
                strike();
                w.m->train(xs, ys, o.k == W_EPOCHS ? 4 : 1 + v % 2);
                break;
            }
            case W_PREDICT: {
                vector<TF> xs;
                for (int i = 0; i < 1 + v % 3; i++) xs.push_back(make(in_dims(w.a), sd + (uint64_t)i, 2));
                if (f == F_BADX && !w.a.kind) xs.push_back(make({w.a.in + 1}, 3, 2));
                strike();
                if (v % 2) { vector<TF> r = w.m->predict(xs); }
                else for (auto& x : xs) TF r = w.m->predict(x);
                break;
            }
            case W_STEP: {
                TF x = make(in_dims(w.a), sd, 2), g = make(out_dims(w.a), sd + 1, 2);
                strike();
                TF y = w.m->predict(x);
                w.m->backward(g);
                w.m->updateWeights();
                break;
            }
            case W_MODE: if (v % 2) w.m->evalMode(); w.m->trainingMode(); break;
            case W_RECOMPILE: strike(); w.m->compile(ProbeLoss(&w.c, new MSELoss<float>()), ProbeOpt(&w.c, new_opt(v))); break;
            case W_LOAD: {
                bool miss = f == F_FILE && where == 0;
                rt::FilePlan fp;
                if (f == F_FILE && where == 1) fp.cut_at = (int64_t)(at % w.f.ibytes.size());
                if (f == F_FILE && where == 2) fp.eio_at = (int64_t)(at % w.f.ibytes.size());
                if (f == F_FILE && where == 3) fp.open_errno = EMFILE;
                if (f == F_FILE) { Quiet q; if (where < 4) rt::file_plan(((at & 1) ? w.f.lpath : w.f.ipath).c_str(), fp); rt::count(where < 6 ? "fault.file" : "fault.damaged_file"); }
                std::unique_ptr<MNISTLoader<float>> own;
                string ip = miss ? w.f.ipath + ".absent" : w.f.ipath, lp = w.f.lpath;
                if (f == F_FILE && where >= 6) {      // a damaged header or label
                    Quiet q;
                    string b = where == 8 || (where == 10 && (at & 1)) ? w.f.ibytes : w.f.lbytes;
                    if (where == 6) b[at % 4] = (char)(b[at % 4] ^ 0x41);
                    else if (where == 7) b[at & 1 ? 7 : 4] = (char)(b[at & 1 ? 7 : 4] ^ 0x81);
                    else if (where == 8) { static const size_t pos[] = {0, 1, 2, 3, 4, 7, 8, 11, 12, 15}; b[pos[at % 10]] = (char)(b[pos[at % 10]] ^ 0x81); }
                    else if (where == 10) b.resize(at / 2 % (at & 4 ? 8 : b.size()));
                    else b[8 + at % (b.size() - 8)] = (char)(10 + at % 246);
                    string& path = where == 8 || (where == 10 && (at & 1)) ? ip : lp;
                    path += ".bad";
                    store(path, b);
                    miss = true;
                }
                int ask = f == F_FILE && where == 4 ? w.f.n + 2 : f == F_FILE && where == 5 ? -7 : -1;
                strike();
                if (!w.ld || miss || ask != -1) own.reset(new MNISTLoader<float>(ip, lp, (int)p.in("batch", 1, 8), ask));
                MNISTLoader<float>& l = own ? *own : *w.ld;
                auto r = l.loadData();
                break;
            }
            case W_TENSOR: {
                Op k;
                k.k = v % NKERN;
                k.a = {(int64_t)(v % 16), (int64_t)sd, o.in(5, 1, 6), o.in(6, 1, 6), o.in(7, 1, 6), o.in(8, 1, 4)};
                KOut K;
                strike();
                run_kern(k, K);
                Quiet q;
                K = KOut();
                break;
            }
            case W_LAYER: {
                TF x = make({2 + (int)(sd % 2), f == F_BADX ? 4 : 3}, sd, 2);
                strike();
                switch (v % 3) {
                    case 0: { TF y = w.fc->forward(x); TF g = w.fc->backward(f == F_BADY ? make({2, 5}, sd, 2) : y); w.fc->updateWeights(*w.opt); break; }
                    case 1: { TF y = w.bn->forward(x); TF g = w.bn->backward(f == F_BADY ? make({2, 5}, sd, 2) : y); w.bn->updateWeights(*w.opt); break; }
                    default: { if (v % 2) w.dr->setTrainingMode(v % 4 < 2); TF y = w.dr->forward(x); if (v % 2 == 0) TF g = w.dr->backward(f == F_BADY ? make({2, 5}, sd, 2) : y); break; }
                }
                break;
            }
            default: {   // W_MODEL: one built, used and thrown away
                Arch a = w.a;
                strike();
                SmartDNN<float> m;
                build_model(m, a, &w.c);
                vector<TF> xs, ys;
                xs.push_back(sample_x(a, sd % 20));
                ys.push_back(sample_y(a, sd % 20));
                if (f == F_SIZES) ys.pop_back();
                m.train(xs, ys, 1);
                break;
            }
        }
    });
    rt::disarm_alloc_fail();
    if (f == F_ALLOC) rt::allow_stop(false);
    bool fired = f == F_ALLOC && rt::alloc_failures() > nf;
    w.c.clear();
    rt::clear_file_plans();
    if (f == F_ALLOC) may = fired;
    if (!e.empty() && !may) RT_FAIL("unexpected-exception", "%s threw: %s", NM[o.k], e.c_str() + 1);
    if (!e.empty()) rt::count("hist.failed_work");
    rt::count("hist.work");
}
// The most memory in use during training must not depend on the number of epochs or of
// times a sample is seen.
static void peak(World& w, const Op& o) {
    int n = 1 + (int)o.in(0, 0, 39) % 3;
    uint64_t sd = (uint64_t)o.at(4), pk[3] = {0, 0, 0};
    rt::set_team(1, false, false);
    uint64_t base = 0;
    for (int r = 0; r < 4; r++) {
        string e = attempt([&] {
            vector<TF> xs, ys;
            for (int i = 0; i < (r == 3 ? n * 16 : n); i++) { xs.push_back(make(in_dims(w.a), sd + (uint64_t)i, 2)); ys.push_back(make(out_dims(w.a), sd + 50 + (uint64_t)i, 2)); }
            rt::peak_bytes(true);
            base = rt::live_bytes();
            w.m->train(xs, ys, r == 2 ? 24 : 2);
        });
        if (!e.empty()) RT_FAIL("unexpected-exception", "training threw: %s", e.c_str() + 1);
        if (r) pk[r - 1] = rt::peak_bytes(false) - base;
    }
    if (pk[2] > pk[0] + 512) RT_FAIL("memory-grows-with-samples", "training on %d samples needed %llu bytes beyond the samples themselves, on %d samples %llu", n, (unsigned long long)pk[0], n * 16, (unsigned long long)pk[2]);
    if (pk[1] > pk[0] + 512) RT_FAIL("memory-grows-with-epochs", "training %d samples for 2 epochs needed %llu bytes, for 24 epochs %llu", n, (unsigned long long)pk[0], (unsigned long long)pk[1]);
    rt::count("hist.peaks");
}
// Work without any state of its own, with the failure point moved on by one each time:
// whatever failed, nothing stays behind.
static void sweep(World& w, const Op& o, const Plan& p) {
    int v = (int)o.in(0, 0, 39);
    uint64_t from = (uint64_t)o.in(3, 1, 5000), sd = (uint64_t)o.at(4);
    Op k;
    k.k = (v + (int)sd) % NKERN;
    k.a = {(int64_t)(v % 16), (int64_t)sd, o.in(5, 1, 6), o.in(6, 1, 6), o.in(7, 1, 6), o.in(8, 1, 4)};
    int kind = v % 8 < 5 ? 0 : v % 8 < 7 ? 1 : 2;
    if (kind < 2 && from > 40) from = from % 40 + 1;
    rt::set_team(1, false, false);
    uint64_t live = 0, bytes = 0;
    int fds = 0;
    int again = 0;
    for (uint64_t at = 0; at < 60; at++) {
        uint64_t nf = rt::alloc_failures();
        rt::allow_stop(true);
        string e = attempt([&] {
            if (at) rt::arm_alloc_fail(from + at - 1, 1);
            if (kind == 0) { KOut K; run_kern(k, K); Quiet q; K = KOut(); }
            else if (kind == 1) { MNISTLoader<float> l(w.f.ipath, w.f.lpath, (int)p.in("batch", 1, 8), -1); auto r = l.loadData(); }
            else {
                Arch a = w.a;
                SmartDNN<float> m;
                build_model(m, a, &w.c);
                vector<TF> xs, ys;
                xs.push_back(sample_x(a, sd % 20));
                ys.push_back(sample_y(a, sd % 20));
                m.train(xs, ys, 1);
            }
        });
        rt::disarm_alloc_fail();
        rt::allow_stop(false);
        bool fired = rt::alloc_failures() > nf;
        if (!e.empty() && !fired) RT_FAIL("unexpected-exception", "%s threw: %s", kind == 0 ? KNAME[k.k] : kind == 1 ? "loading" : "a small model", e.c_str() + 1);
        if (!at) { live = rt::live_allocs(); bytes = rt::live_bytes(); fds = open_files(); continue; }
        if (rt::live_allocs() > live || rt::live_bytes() > bytes) {
            // what is left behind by the first failure only is no leak
            if (again++ < 3) { live = rt::live_allocs(); bytes = rt::live_bytes(); at--; continue; }
            RT_FAIL("leak", "%s with allocation %llu failing: %llu live allocations (%llu bytes) afterwards, %llu (%llu) before", kind == 0 ? KNAME[k.k] : kind == 1 ? "loading" : "a small model",
                    (unsigned long long)(from + at - 1), (unsigned long long)rt::live_allocs(), (unsigned long long)rt::live_bytes(), (unsigned long long)live, (unsigned long long)bytes);
        }
        again = 0;
        if (open_files() > fds) RT_FAIL("leak", "an operation with allocation %llu failing left a file open", (unsigned long long)(from + at - 1));
        rt::count("hist.sweep");
        if (!fired) break;
    }
}
static void run(const Plan& p) {
    Quiet q;
    int nt = (int)p.in("threads", 1, 2);
    // blocks and bytes that outlive all objects: settled after the first life
    uint64_t blocks = 0, bytes = 0;
    int fds = 0;
    for (int life = 0; life < 2; life++) {
        World W[2];
        for (int t = 0; t < nt; t++) { W[t].multi = nt > 1; setup(W[t], p, t); }
        uint64_t hiA = 0, hiB = 0, byA = 0, byB = 0;
        int fdA = 0, fdB = 0, cycles = life ? 2 : CYC;
        for (int c = 0; c < cycles; c++) {
            // Every cycle ends with an undisturbed round: what a failure may leave behind
            // legitimately (a layer between two calls) is the same each time.
            auto round = [&](int t, int k) { for (auto& o : p.ops) if (nt == 1 || (int)(o.at(4) % 2) == t) work(W[t], o, p, k); };
            if (!c && !life && nt == 1) for (auto& o : p.ops) if (o.k == W_SWEEP) { sweep(W[0], o, p); rt::set_team((int)p.in("team", 1, 16), p.get("team_vary") != 0, p.get("nested") != 0); }
            auto all = [&](int t) { if (c) round(t, c); round(t, 0); };
            if (nt > 1) {
                vector<int> hs;
                for (int t = 0; t < nt; t++) hs.push_back(rt::spawn([&, t] { Quiet q2; all(t); }));
                for (int h : hs) rt::join(h);
            } else all(0);
            uint64_t lb = rt::live_allocs(), by = rt::live_bytes();
            int fd = open_files();
            if (c >= 1 && c < WARM) { hiA = std::max(hiA, lb); byA = std::max(byA, by); fdA = std::max(fdA, fd); }
            if (c >= WARM) { hiB = std::max(hiB, lb); byB = std::max(byB, by); fdB = std::max(fdB, fd); }
        }
        if (!life) {
            string what;
            for (auto& o : p.ops) what += string(what.empty() ? "" : ", ") + NM[o.k];
            if (hiB > hiA) RT_FAIL("leak", "repeating {%s}: %llu live allocations after %d repetitions, %llu after %d", what.c_str(), (unsigned long long)hiA, WARM, (unsigned long long)hiB, CYC);
            if (byB > byA) RT_FAIL("growth", "repeating {%s}: %llu live bytes after %d repetitions, %llu after %d", what.c_str(), (unsigned long long)byA, WARM, (unsigned long long)byB, CYC);
            if (fdB > fdA) RT_FAIL("leak", "repeating {%s}: %d open files after %d repetitions, %d after %d", what.c_str(), fdA, WARM, fdB, CYC);
            if (nt == 1) { if (!p.ops.empty() && p.ops[0].at(4) % 3 == 0) peak(W[0], p.ops[0]); rt::set_team((int)p.in("team", 1, 16), p.get("team_vary") != 0, p.get("nested") != 0); }
        }
        for (int t = 0; t < nt; t++) teardown(W[t]);
        if (!life) { blocks = rt::live_allocs(); bytes = rt::live_bytes(); fds = open_files(); }
        else {
            if (rt::live_allocs() > blocks || rt::live_bytes() > bytes)
                RT_FAIL("leak", "after all objects died %llu allocations (%llu bytes) remain, %llu (%llu) the first time", (unsigned long long)rt::live_allocs(), (unsigned long long)rt::live_bytes(), (unsigned long long)blocks, (unsigned long long)bytes);
            if (open_files() > fds) RT_FAIL("leak", "after all objects died %d files remain open, %d the first time", open_files(), fds);
        }
        rt::note(rt::live_allocs());
    }
    rt::count("hist.lives");
}
Scenario scenario() {
    Scenario s;
    s.prop = "C18";
    s.opnames.assign(NM, NM + NW);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is 1-4 pieces of work (training, prediction, manual steps, mode changes, recompilation, loading, tensor computations, single layers, whole short-lived models, computations with every allocation in turn failing), most of them with a fault at a fixed point (failing participant, malformed data, n-th allocation, unreadable or damaged file), repeated 14 times on the same objects by one or two threads, each time followed by an undisturbed round, then all objects die and everything is repeated; live allocations, live bytes and open files are compared between early and late repetitions and between the two lives, and peak memory between 2 and 24 epochs and between few and many samples.";
    s.real = "all of smart_dnn";
    s.stub = "threads, OpenMP runtime, file reads and operator new are the simulator's";
    return s;
}
