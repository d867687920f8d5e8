// C13: a layer's results depend on the matching call only, not on what it did before.
#include "kernels.hpp"
#include <memory>

enum { H_FWD, H_BWD, H_BADFWD, H_BADBWD, H_AFWD, H_ABWD, H_UPD, H_COPY, H_SETW, H_MODE, NH };
static const char* const NM[NH] = {"forward", "backward", "bad_forward", "bad_backward", "alloc_forward", "alloc_backward", "update", "copy", "set_weights", "mode"};
enum { L_FC, L_CONV, L_FLAT, L_POOL, L_DROP, L_BN2, L_BN4, L_ACT0, NLK = L_ACT0 + 7 };
static const char* const LN[NLK] = {"fully connected", "convolution", "flatten", "max pooling", "dropout", "batch normalization", "batch normalization (4-D)",
                                    "ReLU", "sigmoid", "tanh", "leaky ReLU", "softmax", "swish", "mish"};
static constexpr int NL = 3;

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 3) p.set("team", 3);
    int k0 = (int)r.below(NLK);
    static const int hot[] = {L_FC, L_CONV, L_FLAT, L_POOL, L_BN2, L_BN4, L_DROP};
    for (int i = 0; i < NL; i++) {
        char b[8];
        snprintf(b, 8, "k%d", i);
        p.set(b, r.chance(1, 2) ? k0 : r.chance(2, 3) ? r.pick(hot) : (int)r.below(NLK));
        snprintf(b, 8, "c%d", i);
        p.set(b, r.range(0, r.chance(1, 12) ? 127 : 63));
    }
    int n = (int)r.range(3, 12), li = 0;
    if (r.chance(5, 6)) for (int i = 0; i < NL; i++) if (i == 0 || r.chance(1, 2)) p.op(H_FWD, {i, (int64_t)r.below(64), (int64_t)r.below(1000), 1});
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 3)) li = (int)r.range(0, NL - 1);
        int w = (int)r.below(30);
        if (!p.ops.empty() && p.ops.back().k == H_BWD && r.chance(1, 4)) w = r.chance(1, 2) ? 25 : 10;
        int k = w < 8 ? H_FWD : w < 18 ? H_BWD : w < 20 ? H_BADFWD : w < 21 ? H_BADBWD : w < 23 ? H_AFWD : w < 24 ? H_ABWD : w < 26 ? H_UPD : w < 28 ? H_COPY : w < 29 ? H_SETW : H_MODE;
        if (i == 0 && r.chance(1, 6)) k = H_BWD;
        p.op(k, {li, (int64_t)r.below(r.chance(1, 10) ? r.chance(1, 4) ? 192 : 128 : 64), (int64_t)r.below(1000), r.chance(1, 2) ? r.range(1, 40) : r.range(40, 300)});
    }
}

struct Lay {
    int kind = 0, a = 1, b = 1, c = 1;     // features / channels, sizes
    std::unique_ptr<Layer<float>> l;
    Snap W, B;                             // parameters of FC and convolution
    int fstate = 0;                        // 0 never, 1 known input, 2 vague
    Snap x, y;
    uint64_t dseed = 0;
    int gstate = 0;                        // parameter gradients: 0 none 1 known 2 vague
    Snap gw, gb;
};
static bool has_params(const Lay& L) { return L.kind == L_FC || L.kind == L_CONV; }

static std::unique_ptr<Layer<float>> fresh(const Lay& L) {   // loud
    std::unique_ptr<Layer<float>> r;
    switch (L.kind) {
        case L_FC: { auto* f = new FullyConnectedLayer<float>(L.a, L.b); r.reset(f); f->setWeights(make(L.W)); f->setBiases(make(L.B)); break; }
        case L_CONV: { auto* f = new Conv2DLayer<float>(L.c, L.a, L.b); r.reset(f); f->setWeights(make(L.W)); f->setBiases(make(L.B)); break; }
        case L_FLAT: r.reset(new FlattenLayer<float>()); break;
        case L_POOL: r.reset(new MaxPooling2DLayer<float>(L.a, L.b)); break;
        case L_DROP: r.reset(new DropoutLayer<float>(0.25f * (float)L.b)); break;
        case L_BN2: case L_BN4: r.reset(new BatchNormalizationLayer<float>(L.a)); break;
        case L_ACT0 + 0: r.reset(new ActivationLayer<float>(ReLU<float>())); break;
        case L_ACT0 + 1: r.reset(new ActivationLayer<float>(Sigmoid<float>())); break;
        case L_ACT0 + 2: r.reset(new ActivationLayer<float>(Tanh<float>())); break;
        case L_ACT0 + 3: r.reset(new ActivationLayer<float>(LeakyReLU<float>())); break;
        case L_ACT0 + 4: r.reset(new ActivationLayer<float>(Softmax<float>())); break;
        case L_ACT0 + 5: r.reset(new ActivationLayer<float>(Swish<float>())); break;
        default: r.reset(new ActivationLayer<float>(Mish<float>())); break;
    }
    return r;
}
static void init(Lay& L, int kind, int c, uint64_t seed) {
    L.kind = kind;
    L.a = 1 + c % 4;
    L.b = 1 + c / 4 % 4;
    // wide layers
    if (c >= 64 && kind == L_FC) (c & 1 ? L.a : L.b) = c & 2 ? 9 + c % 60 : 70 + c * 7 % 530;
    if (c >= 64 && (kind == L_BN2 || kind == L_BN4)) L.a = c & 2 ? 5 + c % 30 : 40 + c % 90;
    if (kind == L_CONV) { L.a = 1 + c % 2 + (c >= 64 ? 2 + c % 7 : 0); L.b = 1 + c / 4 % 3; L.c = 1 + c / 16 % 2; L.W = make_snap({L.a, L.c, L.b, L.b}, seed, 1); L.B = make_snap({L.a, 1}, seed + 1, 1); }
    if (kind == L_FC) { L.W = make_snap({L.a, L.b}, seed, 1); L.B = make_snap({1, L.b}, seed + 1, 1); }
    if (kind == L_POOL) { L.a = 1 + c % 3; L.b = 1 + c / 4 % 2; }
    if (kind == L_DROP) L.b = 1 + c % 3;
}
static vector<int> shape_for(const Lay& L, int v) {
    int r = 1 + v % 4, h = 3 + v / 4 % 4, w = 3 + v / 16 % 4;
    if (v >= 128) (v & 8 ? r : v & 16 ? h : w) += 60 + v * 13 % (L.kind == L_BN2 || L.kind == L_BN4 || L.kind == L_CONV || L.kind == L_POOL ? 120 : 600);
    else if (v >= 64) (v & 8 ? r : v & 16 ? h : w) += 14 + v % 41;     // one long dimension
    switch (L.kind) {
        case L_FC: return v % 5 == 4 ? vector<int>{L.a} : vector<int>{r, L.a};
        case L_CONV: return {1 + v % 2, L.c, h, w};
        case L_FLAT: return v % 3 == 0 ? vector<int>{r, h} : v % 3 == 1 ? vector<int>{r, h, w} : vector<int>{r, 2, h, w};
        case L_POOL: return {1 + v % 2, 1 + v / 2 % 2, h, w};
        case L_BN2: return {1 + r, L.a};
        case L_BN4: return {1 + v % 3, L.a, 1 + v / 4 % 3, 1 + v / 16 % 3};
        case L_ACT0 + 4: return v % 2 ? vector<int>{r, h} : vector<int>{r, 2, w};
        default: return v % 4 == 0 ? vector<int>{h * w} : v % 4 == 1 ? vector<int>{r, h} : v % 4 == 2 ? vector<int>{r, 2, w} : vector<int>{1, 2, h, w};
    }
}
static bool bad_shape(const Lay& L, int v, vector<int>& d) {
    switch (L.kind) {
        case L_FC: d = {1 + v % 4, L.a + 1}; return true;
        case L_FLAT: d = {3 + v % 4}; return true;
        case L_POOL: d = {3, 4}; return true;
        case L_BN2: case L_BN4: if (v % 2) d = {2, L.a, 2}; else d = {2, L.a + 1}; return true;
        case L_ACT0 + 4: d = {4}; return true;
        default: return false;
    }
}
static void mode(Layer<float>& l, int m) { if (m) l.setTrainingMode(true); }

static void run(const Plan& p) {
    Quiet q;
    Lay Ls[NL];
    for (int i = 0; i < NL; i++) {
        char b1[8], b2[8];
        snprintf(b1, 8, "k%d", i);
        snprintf(b2, 8, "c%d", i);
        init(Ls[i], (int)p.in(b1, 0, NLK - 1), (int)p.in(b2, 0, 127), 31 * (uint64_t)i + 7);
        Loud l;
        Ls[i].l = fresh(Ls[i]);
    }
    for (auto& o : p.ops) {
        int li = (int)o.in(0, 0, NL - 1), v = (int)o.in(1, 0, 191);
        uint64_t s = (uint64_t)o.at(2);
        Lay& L = Ls[li];
        string nm = string(LN[L.kind]) + " layer " + std::to_string(li);
        bool faulty = o.k == H_AFWD || o.k == H_ABWD;
        uint64_t nf = rt::alloc_failures();
        auto arm = [&] { if (faulty) rt::arm_alloc_fail((uint64_t)o.in(3, 1, 300), 1); };
        switch (o.k) {
            case H_FWD: case H_AFWD: case H_BADFWD: {
                vector<int> d = shape_for(L, v);
                if (o.k == H_BADFWD && !bad_shape(L, v, d)) break;
                Snap x = make_snap(d, s * 7 + (uint64_t)v, 1), y, yt;
                // sometimes an input that is easily mistaken for the one before
                if (o.k == H_FWD && L.fstate == 1 && s % 4 == 0 && L.x.v.size() > 1) {
                    x = L.x;
                    d = x.d;
                    switch (s / 4 % 5) {
                        case 0: x.v.back() += 1.25f; break;
                        case 1: x.v[0] -= 1.5f; break;
                        case 2: std::reverse(x.v.begin(), x.v.end()); break;
                        case 3: x.v[x.v.size() / 2] += 0.75f; x.v[(x.v.size() / 2 + 1) % x.v.size()] -= 0.75f; break;
                        default: break;       // the very same
                    }
                    rt::count("hist.alike_inputs");
                }
                unsigned ds = (unsigned)(s + 1);
                if (faulty) rt::allow_stop(true);
                string e = attempt([&] {
                    TF t = make(x);
                    RandomEngine::setSeed(ds);
                    arm();
                    TF r = L.l->forward(t);
                    rt::disarm_alloc_fail();
                    Quiet q2;
                    y = snap(r);
                    expect_same("input-modified", "the input of a " + nm, snap(t), x);
                });
                rt::disarm_alloc_fail();
                rt::allow_stop(false);
                if (!e.empty()) {
                    if (o.k == H_FWD || (faulty && rt::alloc_failures() == nf)) RT_FAIL("unexpected-exception", "%s: forward of shape %s threw: %s", nm.c_str(), dim_str(d).c_str(), e.c_str() + 1);
                    L.fstate = 2;
                    rt::count("hist.failed_forward");
                    break;
                }
                if (o.k == H_BADFWD) RT_FAIL("bad-input-accepted", "%s: forward accepted shape %s", nm.c_str(), dim_str(d).c_str());
                string et = attempt([&] {
                    auto T = fresh(L);
                    RandomEngine::setSeed(ds);
                    TF r = T->forward(make(x));
                    Quiet q2;
                    yt = snap(r);
                });
                if (!et.empty()) RT_FAIL("unexpected-exception", "fresh %s: forward threw: %s", nm.c_str(), et.c_str() + 1);
                expect_close("depends-on-history", "output of a used " + nm + " against a fresh one", y, yt, 1e-5);
                note_snap(y);
                L.fstate = 1;
                L.x = x;
                L.y = yt;
                L.dseed = ds;
                rt::count("hist.forward");
                break;
            }
            case H_BWD: case H_ABWD: {
                if (L.fstate == 2) break;
                Snap g = make_snap(L.fstate == 1 ? L.y.d : shape_for(L, v), s * 5 + 3, 1), y, yt, gw, gb, gwt, gbt;
                if (faulty) rt::allow_stop(true);
                string e = attempt([&] {
                    TF t = make(g);
                    arm();
                    TF r = L.l->backward(t);
                    rt::disarm_alloc_fail();
                    Quiet q2;
                    y = snap(r);
                    expect_same("input-modified", "the gradient passed to a " + nm, snap(t), g);
                });
                rt::disarm_alloc_fail();
                rt::allow_stop(false);
                if (L.fstate == 0) {
                    if (e.empty()) RT_FAIL("backward-first", "%s: backward before any forward was accepted", nm.c_str());
                    rt::count("hist.backward_first");
                    break;
                }
                if (!e.empty()) {
                    if (!faulty || rt::alloc_failures() == nf) RT_FAIL("unexpected-exception", "%s: backward threw: %s", nm.c_str(), e.c_str() + 1);
                    L.gstate = 2;
                    break;
                }
                string et = attempt([&] {
                    auto T = fresh(L);
                    RandomEngine::setSeed((unsigned)L.dseed);
                    T->forward(make(L.x));
                    TF r = T->backward(make(g));
                    if (L.kind == L_FC) {
                        auto *f = (FullyConnectedLayer<float>*)L.l.get(), *ft = (FullyConnectedLayer<float>*)T.get();
                        TF a = f->getWeightGradients(), b = f->getBiasGradients(), c = ft->getWeightGradients(), d = ft->getBiasGradients();
                        Quiet q2;
                        gw = snap(a); gb = snap(b); gwt = snap(c); gbt = snap(d);
                    } else if (L.kind == L_CONV) {
                        auto *f = (Conv2DLayer<float>*)L.l.get(), *ft = (Conv2DLayer<float>*)T.get();
                        TF a = f->getWeightGradients(), b = f->getBiasGradients(), c = ft->getWeightGradients(), d = ft->getBiasGradients();
                        Quiet q2;
                        gw = snap(a); gb = snap(b); gwt = snap(c); gbt = snap(d);
                    }
                    Quiet q2;
                    yt = snap(r);
                });
                if (!et.empty()) RT_FAIL("unexpected-exception", "fresh %s: backward threw: %s", nm.c_str(), et.c_str() + 1);
                expect_close("depends-on-history", "gradient from a used " + nm + " against a fresh one", y, yt, 1e-5);
                if (y.d != L.x.d) RT_FAIL("wrong-shape", "%s: gradient of shape %s for an input of shape %s", nm.c_str(), dim_str(y.d).c_str(), dim_str(L.x.d).c_str());
                if (has_params(L)) {
                    expect_close("depends-on-history", "weight gradient of a used " + nm + " against a fresh one", gw, gwt, 1e-5);
                    expect_close("depends-on-history", "bias gradient of a used " + nm + " against a fresh one", gb, gbt, 1e-5);
                    L.gw = gwt;
                    L.gb = gbt;
                }
                L.gstate = 1;
                note_snap(y);
                rt::count("hist.backward");
                break;
            }
            case H_BADBWD: {
                if (L.fstate != 1) break;
                if (L.kind != L_FC && L.kind != L_FLAT && L.kind != L_DROP) break;
                vector<int> d = L.y.d;
                if (L.kind == L_FC) { if (d.size() < 2) break; d = {d[0] + 1, d[1]}; }
                else d.push_back(2);
                string e = attempt([&] { L.l->backward(make(d, s, 1)); });
                if (e.empty()) RT_FAIL("bad-input-accepted", "%s: backward accepted a gradient of shape %s for an output of shape %s", nm.c_str(), dim_str(d).c_str(), dim_str(L.y.d).c_str());
                L.gstate = 2;
                rt::count("hist.bad_backward");
                break;
            }
            case H_UPD: {
                if (!has_params(L) || L.gstate != 1) break;
                string e = attempt([&] { SGDOptions<float> so; so.learningRate = 0.125f; SGDOptimizer<float> op(so); L.l->updateWeights(op); });
                if (!e.empty()) RT_FAIL("unexpected-exception", "%s: update threw: %s", nm.c_str(), e.c_str() + 1);
                for (size_t i = 0; i < L.W.v.size(); i++) L.W.v[i] -= 0.125f * L.gw.v[i];
                for (size_t i = 0; i < L.B.v.size(); i++) L.B.v[i] -= 0.125f * L.gb.v[i];
                L.gstate = 2;          // whether an update consumes the gradients is left open
                rt::count("hist.update");
                break;
            }
            case H_COPY: {
                // layers are handed over by copy or move when a model is built
                string e = attempt([&] {
                    std::unique_ptr<Layer<float>> n;
                    bool mv = s & 1;
#define SUCC(TY) { auto* f = (TY*)L.l.get(); if (mv) n.reset(new TY(std::move(*f))); else n.reset(new TY(*f)); }
                    switch (L.kind) {
                        case L_FC: SUCC(FullyConnectedLayer<float>) break;
                        case L_CONV: SUCC(Conv2DLayer<float>) break;
                        case L_FLAT: SUCC(FlattenLayer<float>) break;
                        case L_POOL: SUCC(MaxPooling2DLayer<float>) break;
                        case L_DROP: SUCC(DropoutLayer<float>) break;
                        case L_BN2: case L_BN4: SUCC(BatchNormalizationLayer<float>) break;
                        default: { auto* f = (ActivationLayer<float>*)L.l.get(); n.reset(new ActivationLayer<float>(std::move(*f))); break; }
                    }
                    // the copy must not hang on the original: use the original before it goes
                    if (!mv && s % 4 == 0 && L.kind < L_ACT0) { RandomEngine::setSeed(5); L.l->forward(make(shape_for(L, v ^ 21), s + 17, 1)); }
                    L.l = std::move(n);
                });
                if (!e.empty()) RT_FAIL("unexpected-exception", "copying a %s threw: %s", nm.c_str(), e.c_str() + 1);
                rt::count("hist.copy");
                break;
            }
            case H_SETW: {
                if (!has_params(L)) break;
                L.W = make_snap(L.W.d, s + 400, 1);
                L.B = make_snap(L.B.d, s + 401, 1);
                string e = attempt([&] {
                    if (L.kind == L_FC) { auto* f = (FullyConnectedLayer<float>*)L.l.get(); f->setWeights(make(L.W)); f->setBiases(make(L.B)); }
                    else { auto* f = (Conv2DLayer<float>*)L.l.get(); f->setWeights(make(L.W)); f->setBiases(make(L.B)); }
                });
                if (!e.empty()) RT_FAIL("unexpected-exception", "%s: setting weights threw: %s", nm.c_str(), e.c_str() + 1);
                break;
            }
            case H_MODE: {
                // an excursion to evaluation mode; what it leaves behind for backward is the layer's business
                Snap x = make_snap(shape_for(L, v), s + 3, 1), y;
                string e = attempt([&] { L.l->setTrainingMode(false); TF r = L.l->forward(make(x)); L.l->setTrainingMode(true); Quiet q2; y = snap(r); });
                if (!e.empty()) RT_FAIL("unexpected-exception", "%s: evaluation threw: %s", nm.c_str(), e.c_str() + 1);
                if (L.kind == L_DROP || L.kind == L_BN2 || L.kind == L_BN4) L.fstate = 2;
                else { L.fstate = 1; L.x = x; L.y = y; }
                rt::count("hist.evaluation");
                break;
            }
            default: break;
        }
        // parameters move only by updates and setters
        for (int i = 0; i < NL; i++) if (has_params(Ls[i])) {
            Snap w, b;
            string e = attempt([&] {
                TF a = Ls[i].kind == L_FC ? ((FullyConnectedLayer<float>*)Ls[i].l.get())->getWeights() : ((Conv2DLayer<float>*)Ls[i].l.get())->getWeights();
                TF c = Ls[i].kind == L_FC ? ((FullyConnectedLayer<float>*)Ls[i].l.get())->getBiases() : ((Conv2DLayer<float>*)Ls[i].l.get())->getBiases();
                Quiet q2;
                w = snap(a);
                b = snap(c);
            });
            if (!e.empty()) RT_FAIL("unexpected-exception", "reading parameters threw: %s", e.c_str() + 1);
            expect_close("parameters-changed", string("weights of a ") + LN[Ls[i].kind] + " layer after " + NM[o.k], w, Ls[i].W, 1e-5);
            expect_close("parameters-changed", string("biases of a ") + LN[Ls[i].kind] + " layer after " + NM[o.k], b, Ls[i].B, 1e-5);
        }
    }
    Loud l;
    for (int i = 0; i < NL; i++) Ls[i].l.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C13";
    s.opnames.assign(NM, NM + NH);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is three layers (fully connected, convolution, flatten, pooling, dropout, batch normalization, seven activations, often the same kind) and 3-12 calls: forward and backward with changing shapes, malformed inputs and gradients, failing allocations, updates, copies and moves of the layer, excursions to evaluation mode; each result is compared with that of a fresh layer.";
    s.real = "all layers, activations, tensors, SGD";
    s.stub = "OpenMP runtime and operator new are the simulator's";
    return s;
}
