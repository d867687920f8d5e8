// C11: inference in evaluation mode is a pure, repeatable function of parameters and input.
#include "models.hpp"

enum { I_TRAIN, I_ONE, I_MANY, I_BADX, I_FAULT, I_ALLOC, I_TOGGLE, I_DRAW, I_SETW, I_STEP, NI };
static const char* const NM[NI] = {"train", "predict", "predict_many", "bad_input", "layer_fault", "alloc_fault", "toggle", "draw", "set_weights", "step"};
static constexpr int NX = 4;

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 4) p.set("team", 4);
    gen_arch(r, p);
    p.set("drop", r.chance(1, 2));
    if (r.chance(1, 2)) p.set("bn", 1);
    p.set("alike", r.chance(1, 3));
    p.set("rowsvary", p.get("alike") ? 0 : r.chance(1, 2));
    int n = (int)r.range(2, 9);
    if (r.chance(3, 4)) p.op(I_TRAIN, {r.range(1, 3), (int64_t)r.below(9), (int64_t)r.below(1000)});
    for (int i = 0; i < n; i++) {
        int w = (int)r.below(20);
        int k = w < 5 ? I_ONE : w < 8 ? I_MANY : w < 9 ? I_BADX : w < 10 ? I_FAULT : w < 12 ? I_ALLOC : w < 13 ? I_TOGGLE : w < 14 ? I_DRAW : w < 16 ? I_TRAIN : w < 18 ? I_SETW : I_STEP;
        p.op(k, {k == I_TRAIN ? r.range(1, 3) : (int64_t)r.below(NX), k == I_MANY && r.chance(1, 8) ? r.range(9, 40) : (int64_t)r.below(9), (int64_t)r.below(1000), r.range(1, 80)});
    }
}
static Arch arch_of(const Plan& p) {
    Arch a = gen_arch_from(p);
    a.drop = p.get("drop") != 0 && !a.kind;
    return a;
}
static void train(SmartDNN<float>& m, const Arch& a, const Op& o) {
    // call loud
    vector<TF> xs, ys;
    int n = (int)o.in(0, 1, 3);
    for (int i = 0; i < n; i++) { xs.push_back(sample_x(a, (uint64_t)o.at(1) + (uint64_t)i)); ys.push_back(sample_y(a, (uint64_t)o.at(1) + (uint64_t)i)); }
    RandomEngine::setSeed((unsigned)o.at(2));
    m.trainingMode();
    m.train(xs, ys, 1);
    m.evalMode();
}
// the other ways to change parameters: through a layer, and a training step by hand
static void change(SmartDNN<float>& m, const Arch& a, const Op& o) {
    if (o.k == I_TRAIN) { train(m, a, o); return; }
    if (o.k == I_SETW) {
        size_t L = layer_count(a), at = (size_t)o.at(2) % L;
        for (size_t i = 0; i < L; i++) {
            Layer<float>* l = m.getLayer((at + i) % L);
            uint64_t sd = 900 + (uint64_t)o.at(2);
            auto set = [&](auto* t) {
                if (o.at(1) % 3 != 1) { TF w = make(t->getWeights().getShape().getDimensions(), sd, 1); t->setWeights(w); }
                if (o.at(1) % 3 != 2) { TF w = make(t->getBiases().getShape().getDimensions(), sd + 1, 1); t->setBiases(w); }
            };
            if (auto* f = dynamic_cast<FullyConnectedLayer<float>*>(l)) { set(f); return; }
            if (auto* c = dynamic_cast<Conv2DLayer<float>*>(l)) { set(c); return; }
        }
        return;
    }
    bool eval = !a.bn && !a.drop && o.at(1) % 2;
    RandomEngine::setSeed((unsigned)o.at(2));
    if (!eval) m.trainingMode();
    for (int k = 0; k < 1 + (int)o.at(1) % 3; k++) {
        TF y = m.predict(sample_x(a, 500 + (uint64_t)o.in(0, 0, NX - 1)));
        m.backward(make(y.getShape().getDimensions(), 77 + (uint64_t)o.at(2), 1));
        m.updateWeights();
    }
    if (!eval) m.evalMode();
}
static void run(const Plan& p) {
    Quiet q;
    Arch a = arch_of(p), b = a;
    Ctl c;
    size_t L = layer_count(a);
    std::unique_ptr<SmartDNN<float>> M(new SmartDNN<float>());
    string e0 = attempt([&] { build_model(*M, b, &c); M->evalMode(); });
    if (!e0.empty()) RT_FAIL("unexpected-exception", "building a model threw: %s", e0.c_str() + 1);
    vector<const Op*> hist;
    vector<Snap> want, P;
    vector<Snap> X;
    for (int i = 0; i < NX; i++) { Loud l; TF t = sample_x(a, 500 + (uint64_t)i); Quiet q2; X.push_back(snap(t)); }
    if (p.get("rowsvary") && (a.kind || !a.rank1))     // batches of different sizes
        for (int i = 1; i < NX; i++) {
            vector<int> d = X[0].d;
            d[0] = 1 + (d[0] + i * (1 + i % 2)) % 5;
            X[(size_t)i] = make_snap(d, 700 + (uint64_t)i + a.seed, 2);
            rt::count("hist.batch_sizes");
        }
    if (p.get("alike")) {        // inputs that are easily mistaken for each other: they differ at the end, or only in order
        for (int i = 1; i < NX; i++) X[(size_t)i] = X[0];
        X[1].v.back() += 1.5f;
        X[2].v[X[2].v.size() / 2] -= 2.0f;
        std::reverse(X[3].v.begin(), X[3].v.end());
        // the same numbers as a vector and as a batch of one
        if (!a.kind && !a.bn && a.act != 4 && X[0].d[0] > 0 && (X[0].d.size() == 1 || X[0].d[0] == 1)) {
            X[2] = X[0];
            if (X[0].d.size() == 1) X[2].d.insert(X[2].d.begin(), 1);
            else X[2].d.erase(X[2].d.begin());
        }
    }
    // expectations from a model that only went through the training so far
    auto oracle = [&] {
        want.clear();
        Ctl cx;
        Arch ax = a;
        string e = attempt([&] {
            SmartDNN<float> E;
            build_model(E, ax, &cx);
            E.evalMode();
            for (auto* o : hist) change(E, ax, *o);
            { Quiet q2; P = params(E, L); }
            for (int i = 0; i < NX; i++) { TF y = E.predict(make(X[(size_t)i])); Quiet q2; want.push_back(snap(y)); }
        });
        if (!e.empty()) RT_FAIL("unexpected-exception", "training and predicting threw: %s", e.c_str() + 1);
        vector<Snap> g = params(*M, L);
        for (size_t i = 0; i < g.size(); i++) expect_close("wrong-parameters", "parameter " + std::to_string(i) + " with predictions in between", g[i], P[i], 1e-5);
    };
    oracle();
    auto judge = [&](const Snap& y, int i, const char* how) { expect_close("impure-inference", string(how) + " of input " + std::to_string(i), y, want[(size_t)i], 1e-5); note_snap(y); };
    for (auto& o : p.ops) {
        int i = (int)o.in(0, 0, NX - 1);
        switch (o.k) {
            case I_TRAIN: case I_SETW: case I_STEP: {
                string e = attempt([&] { change(*M, b, o); });
                if (!e.empty()) RT_FAIL("unexpected-exception", "%s threw: %s", NM[o.k], e.c_str() + 1);
                hist.push_back(&o);
                rt::count(o.k == I_TRAIN ? "hist.trained" : "hist.changed");
                oracle();
                break;
            }
            case I_ONE: {
                string e = attempt([&] {
                    TF x = make(X[(size_t)i]);
                    TF y = M->predict(x);
                    Quiet q2;
                    judge(snap(y), i, "prediction");
                    expect_same("input-modified", "the input of a prediction", snap(x), X[(size_t)i]);
                });
                if (!e.empty()) RT_FAIL("unexpected-exception", "prediction threw: %s", e.c_str() + 1);
                rt::count("hist.predictions");
                break;
            }
            case I_MANY: {
                string e = attempt([&] {
                    vector<TF> xs;
                    int n = (int)o.in(1, 0, 40);
                    for (int k = 0; k < n; k++) xs.push_back(make(X[(size_t)((i + k * (1 + (int)o.at(2) % 3)) % NX)]));
                    vector<TF> ys = M->predict(xs);
                    Quiet q2;
                    if ((int)ys.size() != n) RT_FAIL("impure-inference", "%zu predictions for %d inputs", ys.size(), n);
                    for (int k = 0; k < n; k++) {
                        int j = (i + k * (1 + (int)o.at(2) % 3)) % NX;
                        judge(snap(ys[(size_t)k]), j, "prediction in a list");
                        expect_same("input-modified", "an input in a list", snap(xs[(size_t)k]), X[(size_t)j]);
                    }
                });
                if (!e.empty()) RT_FAIL("unexpected-exception", "predicting a list threw: %s", e.c_str() + 1);
                rt::count("hist.predictions");
                break;
            }
            case I_BADX: {
                if (a.kind) break;       // a wrong image shape stops in an assertion
                string e = attempt([&] { vector<int> d = in_dims(a); d.back()++; M->predict(make(d, 3, 2)); });
                if (e.empty()) RT_FAIL("bad-input-accepted", "an input with one feature too many was predicted");
                rt::count("fault.bad_input");
                break;
            }
            case I_FAULT: {
                c.arm(ST_FORWARD, (int)o.in(1, 0, b.nprobe - 1), 1 + (uint64_t)o.at(2) % 2);
                attempt([&] { vector<TF> xs; xs.push_back(make(X[0])); xs.push_back(make(X[1])); M->predict(xs); });
                c.clear();
                break;
            }
            case I_ALLOC: {
                rt::allow_stop(true);
                attempt([&] { TF x = make(X[(size_t)i]); rt::arm_alloc_fail((uint64_t)o.in(3, 1, 400), 1); M->predict(x); });
                rt::disarm_alloc_fail();
                rt::allow_stop(false);
                break;
            }
            case I_TOGGLE: {
                string e = attempt([&] { for (int k = 0; k < 1 + (int)o.at(1) % 3; k++) { M->trainingMode(); M->evalMode(); } });
                if (!e.empty()) RT_FAIL("unexpected-exception", "changing the mode threw: %s", e.c_str() + 1);
                break;
            }
            case I_DRAW: {
                // inference takes nothing from the random stream
                float f1 = 0, f2 = 0;
                string e = attempt([&] {
                    TF x = make(X[(size_t)i]);
                    RandomEngine::setSeed((unsigned)o.at(2));
                    f1 = RandomEngine::getRand();
                    RandomEngine::setSeed((unsigned)o.at(2));
                    M->predict(x);
                    f2 = RandomEngine::getRand();
                });
                if (!e.empty()) RT_FAIL("unexpected-exception", "prediction threw: %s", e.c_str() + 1);
                if (f1 != f2) RT_FAIL("random-inference", "inference consumed random numbers: the next draw is %g instead of %g", (double)f2, (double)f1);
                break;
            }
            default: break;
        }
        if (o.k != I_TRAIN && o.k != I_SETW && o.k != I_STEP) {
            vector<Snap> g = params(*M, L);
            for (size_t k = 0; k < g.size(); k++) expect_close("wrong-parameters", "parameter " + std::to_string(k) + " after " + NM[o.k], g[k], P[k], 1e-5);
        }
    }
    for (int i = 0; i < NX; i++) {
        string e = attempt([&] { TF y = M->predict(make(X[(size_t)i])); Quiet q2; judge(snap(y), i, "last prediction"); });
        if (!e.empty()) RT_FAIL("unexpected-exception", "prediction threw: %s", e.c_str() + 1);
    }
    Loud l;
    M.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C11";
    s.opnames.assign(NM, NM + NI);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a model (dense or convolutional, with or without dropout and batch normalisation) and a history of training calls, hand-made training steps, replaced weights, single and list predictions, refused inputs, layers that throw, failing allocations and mode changes; every prediction is compared with that of a model that went through the training only.";
    s.real = "SmartDNN, layers, tensors, optimizers";
    s.stub = "pass-through layers that throw on demand; OpenMP runtime and operator new are the simulator's";
    return s;
}
