// C14: training and prediction follow the protocol: every epoch, sample, layer and update exactly once, in order.
#include "kernels.hpp"
#include <iostream>
#include <memory>
#include <stdexcept>

enum { T_TRAIN, T_PREDICT, T_PREDICTN, T_MODE, T_COMPILE, T_ADD, T_BACKWARD, T_UPDATE, T_FAULT, T_ALLOC, NT_ };
static const char* const NM[NT_] = {"train", "predict", "predict_list", "mode", "compile", "add_layer", "backward", "update", "faulty_train", "alloc_train"};
enum Ev { E_F, E_B, E_U, E_O, E_C, E_G, NE };
static const char* const EN[NE] = {"forward", "backward", "update", "optimize", "loss", "loss gradient"};

struct Rec { int ev, id; Snap a, b, r; int mode = -1; };
struct Log {
    vector<Rec> v;
    int fail_ev = -1, fail_id = 0;
    uint64_t fail_at = 0;
    uint64_t losses = 0, nan_at = 0;   // this computed loss is no number
    int zero = -2;             // this layer's gradient (-1: the loss's) is all zeros
    void enter(int ev, int id) {
        if (ev == fail_ev && (ev > E_U || id == fail_id) && fail_at && --fail_at == 0) {
            fail_ev = -1;
            rt::count((string("fault.") + EN[ev]).c_str());
            throw std::runtime_error("injected failure");
        }
    }
};
struct SpyLayer : Layer<float> {
    Log* L;
    int id;
    TF w, g;
    SpyLayer(Log* L, int id) : L(L), id(id), w(Shape({1, 2}), 1.0f), g(Shape({1, 2}), 1.0f) {}
    bool mode() const { return trainingMode; }
    TF forward(const TF& x) override {
        { Quiet q; L->enter(E_F, id); }
        TF y = x * (1.0f + 0.25f * (float)(id % 3)) + (float)(id + 1);
        Quiet q;
        L->v.push_back({E_F, id, snap(x), Snap(), snap(y), trainingMode});
        return y;
    }
    TF backward(const TF& gr) override {
        { Quiet q; L->enter(E_B, id); }
        TF y = id == L->zero ? gr * 0.0f : gr * (0.5f + (float)(id % 2)) + 0.125f * (float)id;
        Quiet q;
        L->v.push_back({E_B, id, snap(gr), Snap(), snap(y), trainingMode});
        return y;
    }
    void updateWeights(Optimizer<float>& o) override {
        { Quiet q; L->enter(E_U, id); L->v.push_back({E_U, id, Snap(), Snap(), Snap(), trainingMode}); }
        if (id % 4 != 3) o.optimize({std::ref(w)}, {std::ref(g)});      // some layers have no parameters
    }
};
struct SpyLoss : Loss<float> {
    Log* L;
    int id;
    SpyLoss(Log* L, int id) : L(L), id(id) {}
    TF compute(const TF& p, const TF& t) override {
        { Quiet q; L->enter(E_C, id); }
        TF r{Shape({1}), 0.0f};
        Quiet q;
        Snap a = snap(p), b = snap(t);
        r.getData().data()[0] = 0.5f * b.v[0] + 0.25f * (float)id;
        if (++L->losses == L->nan_at) r.getData().data()[0] = std::nanf("");
        L->v.push_back({E_C, id, a, b, snap(r)});
        return r;
    }
    TF gradient(const TF& p, const TF& t) override {
        { Quiet q; L->enter(E_G, id); }
        TF r = L->zero == -1 ? p * 0.0f : p * 0.5f + (float)id;
        Quiet q;
        L->v.push_back({E_G, id, snap(p), snap(t), snap(r)});
        return r;
    }
};
struct SpyOpt : Optimizer<float> {
    Log* L;
    int id;
    SpyOpt(Log* L, int id) : L(L), id(id) {}
    void optimize(const std::vector<std::reference_wrapper<TF>>& w, const std::vector<std::reference_wrapper<TF>>& g, float lr) override {
        (void)lr;
        Quiet q;
        L->enter(E_O, id);
        Rec r{E_O, id, Snap(), Snap(), Snap()};
        if (w.size() == 1 && g.size() == 1) { r.a = snap(w[0].get()); r.b = snap(g[0].get()); }
        L->v.push_back(r);
        if (w.size() == 1) w[0].get().getData().data()[0] += 1.0f;
    }
};

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    p.set("nan", r.chance(1, 10) ? r.range(1, 20) : 0);
    if (p.get("team") > 3) p.set("team", 3);
    p.set("zero", r.chance(1, 4) ? r.range(-1, 5) : -2);
    p.set("layers", r.chance(1, 12) ? 0 : r.chance(1, 30) ? r.range(7, 40) : r.range(1, 6));
    p.set("threads", r.chance(1, 5) ? 2 : 1);
    if (p.get("threads") == 2) p.set("team", 1);
    int n = (int)r.range(2, 9);
    for (int i = 0; i < n; i++) {
        int w = (int)r.below(24);
        int k = w < 8 ? T_TRAIN : w < 10 ? T_PREDICT : w < 12 ? T_PREDICTN : w < 15 ? T_MODE : w < 16 ? T_COMPILE : w < 18 ? T_ADD : w < 19 ? T_BACKWARD : w < 20 ? T_UPDATE : w < 23 ? T_FAULT : T_ALLOC;
        // samples, epochs, data, fault stage, layer, at; model
        bool many = r.chance(1, 14), huge = r.chance(1, 60);
        p.op(k, {r.chance(1, 8) ? 0 : huge ? r.range(60, r.chance(1, 8) ? 1100 : 280) : many ? r.range(6, 40) : r.range(1, 5), r.chance(1, 10) ? 0 : huge ? 1 : many && r.chance(1, 2) ? r.range(4, r.chance(1, 4) ? 120 : 15) : r.range(1, 3), (int64_t)r.below(1000), r.range(0, NE - 1), r.range(0, 6), r.range(1, 8), (int64_t)r.below(2)});
    }
}

struct Model {
    std::unique_ptr<SmartDNN<float>> m;
    Log log;
    int nlayers = 0, comp = 0;
    bool training = true;
    bool uniform = true;       // layers added since the last mode change start in training mode
    vector<char> mode;
};
static void add(Model& M) {     // loud
    SpyLayer s(&M.log, M.nlayers);
    if (M.nlayers % 2) M.m->addLayer(s);
    else M.m->addLayer(std::move(s));
    Quiet q;
    M.nlayers++;
    M.mode.push_back(1);
}
static SpyLayer* spy(Model& M, int i) { return dynamic_cast<SpyLayer*>(M.m->getLayer((size_t)i)); }
static void check_modes(Model& M, const char* after) {
    for (int i = 0; i < M.nlayers; i++) {
        SpyLayer* s = spy(M, i);
        if (!s || s->id != i) RT_FAIL("wrong-layer", "layer %d of the model is not the one added as number %d", i, i);
        if ((s->mode() ? 1 : 0) != M.mode[(size_t)i]) RT_FAIL("wrong-mode", "after %s, layer %d of %d is in %s mode", after, i, M.nlayers, s->mode() ? "training" : "evaluation");
    }
}
// A cursor over the recorded calls.  Returns false when the record ends early.
struct Cur {
    Model& M;
    size_t at;
    bool ends() { return at >= M.log.v.size(); }
    const Rec& cur() { return M.log.v[at]; }
};
static string rs(const Rec& r) { return string(EN[r.ev]) + " of number " + std::to_string(r.id); }

// one training step from the cursor; partial: the record may end anywhere. true when complete
static bool step(Cur& c, const Snap& x, const Snap& y, bool partial, const char* what, vector<double>& loss) {
    Model& M = c.M;
    auto ended = [&](const char* next) {
        if (!c.ends()) return false;
        if (!partial) RT_FAIL("missing-call", "%s: the record ends where a %s is due", what, next);
        return true;
    };
    Snap v = x;
    for (int i = 0; i < M.nlayers; i++) {
        if (ended("forward")) return false;
        const Rec& r = c.cur();
        if (r.ev != E_F || r.id != i) RT_FAIL("wrong-order", "%s: %s where the forward call of layer %d is due", what, rs(r).c_str(), i);
        expect_same("wrong-value", string(what) + ": input of layer " + std::to_string(i), r.a, v);
        v = r.r;
        c.at++;
    }
    bool haveC = false, haveG = false, needgap = false;
    (void)needgap;
    Snap g;
    int bleft = M.nlayers;
    vector<int> upd((size_t)M.nlayers, 0);
    int uleft = M.nlayers, owed = -1;
    for (;;) {
        if (haveC && haveG && bleft == 0 && uleft == 0 && owed < 0) return true;
        if (ended("call")) return false;
        const Rec& r = c.cur();
        if (owed >= 0) {
            if (r.ev != E_O) RT_FAIL("wrong-order", "%s: %s instead of the optimizer call of layer %d", what, rs(r).c_str(), owed);
            if (r.id != M.comp) RT_FAIL("wrong-optimizer", "%s: optimizer %d was used, compiled last was %d", what, r.id, M.comp);
            owed = -1;
            c.at++;
            continue;
        }
        switch (r.ev) {
            case E_C:
            case E_G:
                if (r.ev == E_C ? haveC : haveG) RT_FAIL("extra-call", "%s: second %s for one sample", what, EN[r.ev]);
                if (r.id != M.comp) RT_FAIL("wrong-loss", "%s: loss %d was used, compiled last was %d", what, r.id, M.comp);
                expect_same("wrong-value", string(what) + ": prediction seen by the " + EN[r.ev], r.a, v);
                expect_same("wrong-value", string(what) + ": target seen by the " + EN[r.ev], r.b, y);
                if (r.ev == E_C) { haveC = true; loss.push_back(r.r.v[0]); }
                else { haveG = true; g = r.r; }
                break;
            case E_B:
                if (!haveG || r.id != bleft - 1) RT_FAIL("wrong-order", "%s: %s where the backward call of layer %d is due", what, rs(r).c_str(), bleft - 1);
                expect_same("wrong-value", string(what) + ": gradient passed to layer " + std::to_string(r.id), r.a, g);
                g = r.r;
                bleft--;
                break;
            case E_U:
                if (bleft || !haveG) RT_FAIL("wrong-order", "%s: layer %d updated before the backward pass was complete", what, r.id);
                if (r.id < 0 || r.id >= M.nlayers || upd[(size_t)r.id]) RT_FAIL("extra-call", "%s: layer %d updated twice for one sample", what, r.id);
                upd[(size_t)r.id] = 1;
                uleft--;
                if (r.id % 4 != 3) owed = r.id;
                break;
            default:
                RT_FAIL("wrong-order", "%s: unexpected %s", what, rs(r).c_str());
        }
        c.at++;
    }
}
static void forward_only(Cur& c, const Snap& x, Snap* out, bool partial, const char* what) {
    Snap v = x;
    for (int i = 0; i < c.M.nlayers; i++) {
        if (c.ends()) { if (partial) return; RT_FAIL("missing-call", "%s: layer %d was not run", what, i); }
        const Rec& r = c.cur();
        if (r.ev != E_F || r.id != i) RT_FAIL("wrong-order", "%s: %s where the forward call of layer %d is due", what, rs(r).c_str(), i);
        expect_same("wrong-value", string(what) + ": input of layer " + std::to_string(i), r.a, v);
        v = r.r;
        c.at++;
    }
    if (out) *out = v;
}
static void no_more(Cur& c, const char* what) {
    if (!c.ends()) RT_FAIL("extra-call", "%s: %s is one call too many", what, rs(c.cur()).c_str());
}

static void do_op(Model& M, const Op& o, bool single) {
    Log& L = M.log;
    L.v.clear();
    L.fail_ev = -1;
    int n = (int)o.in(0, 0, 1100), ep = (int)o.in(1, 0, 120);
    uint64_t s = (uint64_t)o.at(2);
    vector<int> d = s % 3 == 0 ? vector<int>{2} : s % 3 == 1 ? vector<int>{2, 3} : vector<int>{1, 2, 2};
    Cur c{M, 0};
    switch (o.k) {
        case T_TRAIN: case T_FAULT: case T_ALLOC: {
            vector<Snap> X, Y;
            // repeated samples are samples: some or all may be the same, or share the input only
            int rep = s % 7 == 1 ? 2 : s % 7 == 2 ? 3 : s % 7 == 3 ? 100 : 1;
            for (int i = 0; i < n; i++) { X.push_back(make_snap(d, s * 31 + (uint64_t)(i / rep), 1)); int j = s % 5 ? i / rep : i; Y.push_back(make_snap({1 + j % 2, 2}, s * 57 + (uint64_t)j, 1)); }
            if (o.k == T_FAULT) { L.fail_ev = (int)o.in(3, 0, NE - 1); L.fail_id = M.nlayers ? (int)o.at(4) % M.nlayers : 0; L.fail_at = (uint64_t)o.in(5, 1, 8); }
            uint64_t nf = rt::alloc_failures();
            std::ostringstream out;
            std::streambuf* old = nullptr;
            if (single) { Quiet q; old = std::cout.rdbuf(out.rdbuf()); }
            if (o.k == T_ALLOC) rt::allow_stop(true);
            string e = attempt([&] {
                vector<TF> xs, ys;
                for (int i = 0; i < n; i++) { xs.push_back(make(X[(size_t)i])); ys.push_back(make(Y[(size_t)i])); }
                if (o.k == T_ALLOC) rt::arm_alloc_fail((uint64_t)(o.at(4) * 60 + o.at(5) * 7 + 1), 1);
                M.m->train(xs, ys, ep);
                rt::disarm_alloc_fail();
                Quiet q;
                for (int i = 0; i < n; i++) {
                    expect_same("input-modified", "a training sample", snap(xs[(size_t)i]), X[(size_t)i]);
                    expect_same("input-modified", "a training target", snap(ys[(size_t)i]), Y[(size_t)i]);
                }
            });
            rt::disarm_alloc_fail();
            rt::allow_stop(false);
            if (single) std::cout.rdbuf(old);
            bool fired = (o.k == T_FAULT && L.fail_ev < 0) || rt::alloc_failures() > nf;
            L.fail_ev = -1;
            // an empty data set may be refused
            if (!e.empty() && !fired && n) RT_FAIL("unexpected-exception", "training threw: %s", e.c_str() + 1);
            if (e.empty() && o.k == T_FAULT && fired) RT_FAIL("swallowed-failure", "a failing step did not stop training");
            bool partial = !e.empty();
            vector<double> mean;
            bool done = true;
            for (int k = 0; k < ep && done; k++) {
                vector<double> loss;
                for (int i = 0; i < n && done; i++) {
                    string w = "training sample " + std::to_string(i) + " in epoch " + std::to_string(k);
                    done = step(c, X[(size_t)i], Y[(size_t)i], partial, w.c_str(), loss);
                }
                double t = 0;
                for (double v : loss) t += v;
                mean.push_back(n ? t / n : 0);
            }
            no_more(c, "training");
            rt::count("hist.trained_samples", (uint64_t)(n * ep));
            if (single && !fired && n) {
                // the reported loss of every epoch, if reported, is the mean over its samples
                string t = out.str(), line;
                std::istringstream is(t);
                int k = 0;
                while (std::getline(is, line)) {
                    size_t at = line.find("oss");
                    if (at == string::npos) continue;
                    at = line.find_first_of("-0123456789.nN", at);
                    if (at == string::npos) continue;
                    double v = atof(line.c_str() + at);
                    if (k < ep && std::isnan(mean[(size_t)k])) {
                        if (std::isfinite(v)) RT_FAIL("wrong-loss", "epoch %d reported a loss of %g although the loss of one of its samples was not a number", k, v);
                    } else if (k < ep && !near1(v, mean[(size_t)k], 1e-4, 1)) RT_FAIL("wrong-loss", "epoch %d reported a loss of %g, the mean over its %d samples is %g", k, v, n, mean[(size_t)k]);
                    k++;
                }
                if (k != ep) RT_FAIL("wrong-loss", "%d losses reported for %d epochs", k, ep);
            }
            break;
        }
        case T_PREDICT: {
            Snap x = make_snap(d, s + 5, 1), y, w;
            string e = attempt([&] { TF r = M.m->predict(make(x)); Quiet q; y = snap(r); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "prediction threw: %s", e.c_str() + 1);
            forward_only(c, x, &w, false, "prediction");
            no_more(c, "prediction");
            expect_same("wrong-value", "result of a prediction", y, w);
            rt::count("hist.predictions");
            break;
        }
        case T_PREDICTN: {
            vector<Snap> y;
            uint64_t rep = s % 4 == 1 ? 2 : s % 4 == 2 ? 100 : 1;
            string e = attempt([&] {
                vector<TF> xs;
                for (int i = 0; i < n; i++) xs.push_back(make(d, s * 3 + (uint64_t)i / rep, 1));
                vector<TF> r = M.m->predict(xs);
                Quiet q;
                for (auto& t : r) y.push_back(snap(t));
            });
            if (!e.empty()) RT_FAIL("unexpected-exception", "predicting a list threw: %s", e.c_str() + 1);
            if ((int)y.size() != n) RT_FAIL("wrong-value", "%zu predictions for %d inputs", y.size(), n);
            for (int i = 0; i < n; i++) {
                Snap w;
                forward_only(c, make_snap(d, s * 3 + (uint64_t)i / rep, 1), &w, false, "prediction in a list");
                expect_same("wrong-value", "prediction " + std::to_string(i) + " of a list", y[(size_t)i], w);
            }
            no_more(c, "predicting a list");
            rt::count("hist.predictions");
            break;
        }
        case T_MODE: {
            bool tr = s % 2;
            string e = attempt([&] { if (tr) M.m->trainingMode(); else M.m->evalMode(); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "changing the mode threw: %s", e.c_str() + 1);
            for (auto& x : M.mode) x = tr;
            no_more(c, "changing the mode");
            rt::count("hist.mode_changes");
            break;
        }
        case T_COMPILE: {
            int id = M.comp + 1;
            string e = attempt([&] {
                if (s % 2) { SpyLoss l(&L, id); SpyOpt op(&L, id); M.m->compile(l, op); }
                else M.m->compile(SpyLoss(&L, id), SpyOpt(&L, id));
            });
            if (!e.empty()) RT_FAIL("unexpected-exception", "compiling threw: %s", e.c_str() + 1);
            M.comp = id;
            rt::count("hist.recompiled");
            break;
        }
        case T_ADD: {
            if (M.nlayers >= 42) break;
            string e = attempt([&] { add(M); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "adding a layer threw: %s", e.c_str() + 1);
            rt::count("hist.layers_added");
            break;
        }
        case T_BACKWARD: {
            Snap g = make_snap(d, s + 9, 1);
            string e = attempt([&] { M.m->backward(make(g)); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "backward threw: %s", e.c_str() + 1);
            for (int i = M.nlayers - 1; i >= 0; i--) {
                if (c.ends()) RT_FAIL("missing-call", "the backward pass did not reach layer %d", i);
                if (c.cur().ev != E_B || c.cur().id != i) RT_FAIL("wrong-order", "%s where the backward call of layer %d is due", rs(c.cur()).c_str(), i);
                expect_same("wrong-value", "gradient passed to layer " + std::to_string(i), c.cur().a, g);
                g = c.cur().r;
                c.at++;
            }
            no_more(c, "backward");
            break;
        }
        case T_UPDATE: {
            string e = attempt([&] { M.m->updateWeights(); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "updating threw: %s", e.c_str() + 1);
            vector<int> u((size_t)M.nlayers, 0);
            for (; !c.ends(); c.at++) {
                const Rec& r = c.cur();
                if (r.ev == E_U) {
                    if (u[(size_t)r.id]++) RT_FAIL("extra-call", "layer %d updated twice", r.id);
                } else if (r.ev != E_O || r.id != M.comp) RT_FAIL("wrong-optimizer", "unexpected %s while updating", rs(r).c_str());
            }
            for (int i = 0; i < M.nlayers; i++) if (!u[(size_t)i]) RT_FAIL("missing-call", "layer %d was not updated", i);
            break;
        }
        default: break;
    }
    // modes hold while a call works, not just around it
    for (auto& r : L.v)
        if (r.mode >= 0 && r.id < M.nlayers && r.mode != M.mode[(size_t)r.id]) RT_FAIL("wrong-mode", "during %s, %s of layer %d ran in %s mode", NM[o.k], EN[r.ev], r.id, r.mode ? "training" : "evaluation");
    check_modes(M, NM[o.k]);
    for (auto& r : L.v) { rt::note((uint64_t)(r.ev * 100 + r.id)); }
}
static void run(const Plan& p) {
    Quiet q;
    int nt = (int)p.in("threads", 1, 2);
    Model M[2];
    for (int k = 0; k < nt; k++) {
        M[k].log.nan_at = (uint64_t)p.in("nan", 0, 1000);
        M[k].log.zero = (int)p.in("zero", -2, 5);
        string e = attempt([&] {
            M[k].m.reset(new SmartDNN<float>());
            for (int i = 0; i < (int)p.in("layers", 0, 40); i++) add(M[k]);
            M[k].m->compile(SpyLoss(&M[k].log, 0), SpyOpt(&M[k].log, 0));
        });
        if (!e.empty()) RT_FAIL("unexpected-exception", "building a model threw: %s", e.c_str() + 1);
    }
    if (nt == 1) for (auto& o : p.ops) do_op(M[0], o, true);
    else {
        vector<int> hs;
        for (int k = 0; k < 2; k++)
            hs.push_back(rt::spawn([&, k] { Quiet q2; for (auto& o : p.ops) if ((int)o.in(6, 0, 1) == k && o.k != T_ALLOC) do_op(M[k], o, false); }));
        for (int h : hs) rt::join(h);
        rt::count("hist.concurrent_models");
    }
    Loud l;
    for (int k = 0; k < nt; k++) M[k].m.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C14";
    s.opnames.assign(NM, NM + NT_);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is one or two models (two threads) of 0-42 recording layers with a recording loss and optimizer, and 2-9 calls: training on 0-1100 samples for 0-120 epochs (mostly few), predictions, mode changes, recompilation, added layers, direct backward and update calls, losses that are not a number, participants that throw at a chosen call, failing allocations; the recorded calls and tensors are checked against the protocol.";
    s.real = "SmartDNN (training loop, prediction, modes, compile), tensors";
    s.stub = "layers, loss and optimizer are recording doubles; OpenMP runtime, threads and operator new are the simulator's";
    return s;
}
