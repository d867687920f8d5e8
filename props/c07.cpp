// C07: a training step that fails leaves no trace in the parameters or the optimizer.
#include "models.hpp"

enum { T_TRAIN, T_PREDICT, NT_ };
static const char* const NM[NT_] = {"train", "predict"};
// kinds of disturbance of one train call
enum { F_NONE, F_PROBE, F_BADX, F_BADY, F_SIZES, F_ALLOC, NF };

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 4) p.set("team", 4);
    gen_arch(r, p);
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 6)) { p.op(T_PREDICT, {(int64_t)r.below(20), (int64_t)r.below(3), r.range(1, 40)}); continue; }
        // samples, first, fault, where, stage, double, allocation, epochs
        p.op(T_TRAIN, {r.range(1, 4), (int64_t)r.below(20), r.chance(1, 4) ? (int64_t)F_NONE : r.chance(1, 2) ? (int64_t)F_ALLOC : (int64_t)r.below(NF), r.range(1, 4), (int64_t)r.below(NSTAGE), (int64_t)r.below(5), r.range(1, r.chance(1, 3) ? 60 : r.chance(1, 2) ? 500 : 4000), r.chance(1, 5) ? 2 : 1});
    }
}
static void run(const Plan& p) {
    Quiet q;
    Arch a = gen_arch_from(p), b = a;
    Ctl c, ct;
    std::unique_ptr<SmartDNN<float>> M, T;
    string e0 = attempt([&] {
        M.reset(new SmartDNN<float>());
        T.reset(new SmartDNN<float>());
        build_model(*M, a, &c);
        build_model(*T, b, &ct);
    });
    if (!e0.empty()) RT_FAIL("unexpected-exception", "building a model threw: %s", e0.c_str() + 1);
    size_t L = layer_count(a);
    uint64_t per = 0;             // optimizer calls of one whole step
    vector<Snap> now = params(*T, L);
    for (auto& o : p.ops) {
        if (o.k == T_PREDICT) {
            uint64_t nf = rt::alloc_failures();
            rt::allow_stop(true);
            bool f = o.at(1) == 1;
            if (o.at(1) == 2) c.arm(ST_FORWARD, (int)o.in(2, 0, a.nprobe - 1), 1);
            string e = attempt([&] { TF x = sample_x(a, (uint64_t)o.at(0)); if (f) rt::arm_alloc_fail((uint64_t)o.in(2, 1, 100), 1); M->predict(x); });
            rt::disarm_alloc_fail();
            rt::allow_stop(false);
            c.clear();
            (void)nf;
            rt::count("hist.predict");
            vector<Snap> g = params(*M, L);
            for (size_t i = 0; i < g.size(); i++) expect_same("changed-by-predict", "parameter " + std::to_string(i), g[i], now[i]);
            continue;
        }
        int n = (int)o.in(0, 1, 4), fault = (int)o.in(2, 0, NF - 1), epochs = (int)o.in(7, 1, 2);
        uint64_t first = (uint64_t)o.in(1, 0, 30);
        int where = (int)o.in(3, 1, 4);
        if (where > n) where = n;
        vector<TF> xs, ys;
        string es = attempt([&] {
            for (int i = 0; i < n; i++) {
                bool bad = i + 1 == where;
                vector<int> dx = in_dims(a), dy = out_dims(a);
                if (bad && fault == F_BADX) { if (a.kind) dx = {2, 16}; else dx.back() += 1; }
                if (bad && fault == F_BADY) { dy.back() += 1; if (dy.size() == 1) dy.push_back(2); }
                xs.push_back(bad && fault == F_BADX && a.kind == 0 ? make(dx, 3, 2) : sample_x(a, first + (uint64_t)i));
                ys.push_back(bad && fault == F_BADY ? make(dy, 3, 2) : sample_y(a, first + (uint64_t)i));
            }
            if (fault == F_SIZES) ys.pop_back();
        });
        if (!es.empty()) RT_FAIL("unexpected-exception", "making samples threw: %s", es.c_str() + 1);
        // a bad target for a convolutional model too; a bad image would stop in an assertion
        int eff = fault;
        if (fault == F_BADX && a.kind) eff = F_NONE;
        if (eff == F_PROBE) c.arm((int)o.in(4, 0, NSTAGE - 1), o.in(4, 0, NSTAGE - 1) >= ST_COMPUTE ? 0 : (int)o.in(5, 0, a.nprobe - 1), (uint64_t)where);
        uint64_t s0 = c.samples, od0 = c.opt_done, os0 = c.n[ST_OPTIMIZE], nf0 = rt::alloc_failures();
        if (eff == F_ALLOC) rt::allow_stop(true);
        string e = attempt([&] {
            if (eff == F_ALLOC) rt::arm_alloc_fail((uint64_t)o.in(6, 1, 5000), 1);
            M->train(xs, ys, epochs);
        });
        rt::disarm_alloc_fail();
        rt::allow_stop(false);
        bool armed = c.fail_stage >= 0;
        c.clear();
        bool must = eff == F_BADX || eff == F_BADY || eff == F_SIZES || (eff == F_PROBE && !armed);
        bool may = must || (eff == F_ALLOC && rt::alloc_failures() > nf0);
        if (must && e.empty()) RT_FAIL("failure-swallowed", "training reported success although a %s failed", eff == F_PROBE ? STN[o.in(4, 0, NSTAGE - 1)] : "malformed sample");
        if (!may && !e.empty()) RT_FAIL("unexpected-exception", "training threw: %s", e.c_str() + 1);
        if (eff == F_BADX || eff == F_BADY || eff == F_SIZES) rt::count("fault.malformed_sample");
        // follow with the undisturbed twin
        uint64_t begun = c.samples - s0, opts = c.opt_done - od0, optst = c.n[ST_OPTIMIZE] - os0;
        if (begun > (uint64_t)n * (uint64_t)epochs) RT_FAIL("wrong-step-count", "%llu samples were processed, %d were given", (unsigned long long)begun, n * epochs);
        rt::count("hist.steps", begun);
        vector<Snap> got = params(*M, L), prev = now;
        uint64_t whole = 0, odt = ct.opt_done;
        auto twin = [&](uint64_t i) {
            vector<TF> x1, y1;
            string et = attempt([&] {
                // the sample the main model saw at this position
                uint64_t k = i % (uint64_t)n;
                x1.push_back(sample_x(a, first + k));
                y1.push_back(sample_y(a, first + k));
                T->train(x1, y1, 1);
            });
            if (!et.empty()) RT_FAIL("unexpected-exception", "training the twin threw: %s", et.c_str() + 1);
            prev = now;
            now = params(*T, L);
            if (!per) per = ct.opt_done - odt;
        };
        if (e.empty()) {
            if (begun != (uint64_t)n * (uint64_t)epochs) RT_FAIL("wrong-step-count", "training succeeded with %llu of %d samples", (unsigned long long)begun, n * epochs);
            for (uint64_t i = 0; i < begun; i++) twin(i);
            for (size_t i = 0; i < got.size(); i++) expect_close("wrong-trajectory", "parameter " + std::to_string(i) + " after training", got[i], now[i], 1e-5);
            continue;
        }
        rt::count("hist.failed_training");
        if (!per) {
            // learn how many optimizer calls a step makes, from a throw-away model
            Ctl cx;
            Arch ax = b;
            string et = attempt([&] { SmartDNN<float> X; build_model(X, ax, &cx); vector<TF> x1, y1; x1.push_back(sample_x(a, 0)); y1.push_back(sample_y(a, 0)); X.train(x1, y1, 1); });
            if (!et.empty()) RT_FAIL("unexpected-exception", "training a fresh model threw: %s", et.c_str() + 1);
            per = cx.opt_done;
        }
        if (!per) RT_FAIL("wrong-step-count", "training a sample made no optimizer call");
        whole = opts / per;
        bool mid = optst > whole * per || (eff == F_PROBE && o.in(4, 0, NSTAGE - 1) == ST_UPDATE);    // the failing step had begun to update
        // a pass that fails is no update: nothing may have been changed for it
        if (eff == F_PROBE && o.in(4, 0, NSTAGE - 1) != ST_UPDATE && o.in(4, 0, NSTAGE - 1) != ST_OPTIMIZE) mid = false;
        if (whole > begun || begun - whole > 1) RT_FAIL("wrong-step-count", "%llu samples begun, %llu updated", (unsigned long long)begun, (unsigned long long)whole);
        // the sample that failed before its update, or was refused, has made no update
        bool early = eff == F_BADX || eff == F_BADY || (eff == F_PROBE && o.in(4, 0, NSTAGE - 1) != ST_UPDATE && o.in(4, 0, NSTAGE - 1) != ST_OPTIMIZE);
        if (early && whole >= (uint64_t)where) RT_FAIL("trace-of-failure", "sample %d failed (%s) but %llu updates were made", where, e.c_str() + 1, (unsigned long long)whole);
        if (eff == F_SIZES && whole) RT_FAIL("trace-of-failure", "%llu updates were made for lists of different length", (unsigned long long)whole);
        for (uint64_t i = 0; i < whole; i++) twin(i);
        if (!mid) {
            for (size_t i = 0; i < got.size(); i++)
                expect_close("trace-of-failure", "parameter " + std::to_string(i) + " after step " + std::to_string(whole + 1) + " failed (" + e.substr(1, 60) + ")", got[i], now[i], 1e-5);
            rt::count("hist.failed_before_update");
            continue;
        }
        // failed while updating: every parameter is wholly old or wholly new
        vector<Snap> old = now;
        if (begun == whole) { rt::count("hist.failed_at_step_end"); }
        if (eff == F_BADX || eff == F_BADY) RT_FAIL("trace-of-failure", "a refused sample reached the update");
        twin(whole < (uint64_t)n * (uint64_t)epochs ? whole : 0);
        for (size_t i = 0; i < got.size(); i++)
            if (diff(got[i], old[i], 1e-5) != -1 && diff(got[i], now[i], 1e-5) != -1)
                RT_FAIL("torn-update", "parameter %zu holds neither its old nor its new value after an update failed (%s)", i, e.c_str() + 1);
        rt::count("hist.failed_in_update");
        return;
    }
    for (auto& s : now) note_snap(s);
    Loud l;
    M.reset();
    T.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C07";
    s.opnames.assign(NM, NM + NT_);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a model (dense or convolutional, any activation, optional batch normalisation, five optimizers) and 1-6 training or prediction calls, each disturbed or not: a layer, loss or optimizer that throws at a chosen sample and stage, a malformed sample or target, sample counts that differ, or the n-th allocation failing; an undisturbed twin trained on the completed steps gives the expected parameters.";
    s.real = "training loop, layers, loss, optimizers, tensors";
    s.stub = "pass-through layers, loss and optimizer wrappers that throw on demand; OpenMP runtime and operator new are the simulator's";
    return s;
}
