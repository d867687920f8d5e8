// C15: training follows the gradient-descent trajectory of the loss, in parallel as in sequence.
#include "kernels.hpp"
#include <memory>

enum { G_TRAIN, G_PREDICT, G_STEP, NG };
static const char* const NM[NG] = {"train", "predict", "step"};

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (r.chance(1, 2) && p.get("team") < 2) p.set("team", r.range(2, 6));
    bool big = r.chance(1, 8);
    if (big && p.get("team") > 3) p.set("team", 3);
    p.set("conv", !big && r.chance(1, 5));
    p.set("n", r.range(1, 3));
    int mx = big ? 16 : 6;
    for (const char* k : {"d0", "d1", "d2", "d3"}) p.set(k, r.range(1, mx));
    for (const char* k : {"a0", "a1", "a2"}) p.set(k, r.range(0, 7));
    bool tall = !big && r.chance(1, 6);      // many rows, little else
    if (tall) for (const char* k : {"d0", "d1", "d2", "d3"}) p.set(k, r.range(1, 3));
    bool wide = !big && !tall && r.chance(1, 12);      // one long layer
    if (wide) { for (const char* k : {"d0", "d1", "d2", "d3"}) p.set(k, r.range(1, 3)); static const char* const K[] = {"d0", "d1", "d2", "d3"}; p.set(K[r.below(4)], r.chance(1, 2) ? r.range(17, 80) : r.range(80, 400)); }
    p.set("rows", r.chance(1, 3) ? 1 : tall ? r.range(16, 140) : r.range(1, big ? 12 : 5));
    p.set("rank1", r.chance(1, 5));
    p.set("lr", r.range(0, 3));
    p.set("mom", r.range(0, 2));
    p.set("img", r.range(0, 63));
    p.set("wseed", r.range(1, 100000));
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) {
        int k = r.chance(3, 5) ? G_TRAIN : r.chance(1, 2) ? G_PREDICT : G_STEP;
        if (i == 0) k = r.chance(3, 4) ? G_TRAIN : G_STEP;
        p.op(k, {r.range(1, big || tall ? 2 : 4), r.range(1, big || tall ? 2 : 3), (int64_t)r.below(1000)});
    }
}

// ---- the reference: plain loops in double precision ----
typedef vector<double> V;
struct RT { vector<int> d; V v; };
static double actf(int a, double x) {
    switch (a) {
        case 0: return x > 0 ? x : 0;
        case 1: return 1 / (1 + std::exp(-x));
        case 2: return std::tanh(x);
        case 3: return x > 0 ? x : 0.01 * x;
        case 5: return x / (1 + std::exp(-x));
        case 6: return x * std::tanh(std::log1p(std::exp(x)));
        default: return x;
    }
}
static double actd(int a, double x) {
    double s = 1 / (1 + std::exp(-x));
    switch (a) {
        case 0: return x > 0 ? 1 : 0;
        case 1: return s * (1 - s);
        case 2: return 1 - std::tanh(x) * std::tanh(x);
        case 3: return x > 0 ? 1 : 0.01;
        case 5: return s * (1 + x * (1 - s));
        case 6: { double t = std::tanh(std::log1p(std::exp(x))); return t + x * (1 - t * t) * s; }
        default: return 1;
    }
}
enum { R_FC, R_ACT, R_CONV, R_POOL, R_FLAT };
struct RL {
    int type, a = 0, b = 0;      // FC in,out; activation kind; kernel size; pool size, stride
    V W, B, gW, gB, mW, mB;
    RT x;
};
static bool kink;                 // too close to a point where the derivative jumps
static RT fwd(RL& L, const RT& x) {
    L.x = x;
    RT y;
    switch (L.type) {
        case R_FC: {
            int rows = x.d.size() == 1 ? 1 : x.d[0];
            y.d = x.d.size() == 1 ? vector<int>{L.b} : vector<int>{rows, L.b};
            y.v.assign((size_t)(rows * L.b), 0);
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < L.b; j++) {
                    double s = L.B[(size_t)j];
                    for (int k = 0; k < L.a; k++) s += x.v[(size_t)(i * L.a + k)] * L.W[(size_t)(k * L.b + j)];
                    y.v[(size_t)(i * L.b + j)] = s;
                }
            break;
        }
        case R_ACT: {
            y = x;
            if (L.a == 4) {
                int rows = x.d[0], c = (int)x.v.size() / rows;
                for (int i = 0; i < rows; i++) {
                    double m = -1e300, s = 0;
                    for (int j = 0; j < c; j++) m = std::max(m, x.v[(size_t)(i * c + j)]);
                    for (int j = 0; j < c; j++) s += y.v[(size_t)(i * c + j)] = std::exp(x.v[(size_t)(i * c + j)] - m);
                    for (int j = 0; j < c; j++) y.v[(size_t)(i * c + j)] /= s;
                }
            } else
                for (auto& v : y.v) { if ((L.a == 0 || L.a == 3) && std::fabs(v) < 1e-4) kink = true; v = actf(L.a, v); }
            break;
        }
        case R_CONV: {
            int h = x.d[2] - L.b + 1, w = x.d[3] - L.b + 1;
            y.d = {1, 1, h, w};
            y.v.assign((size_t)(h * w), L.B[0]);
            for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) for (int k = 0; k < L.b; k++) for (int l = 0; l < L.b; l++)
                y.v[(size_t)(i * w + j)] += x.v[(size_t)((i + k) * x.d[3] + j + l)] * L.W[(size_t)(k * L.b + l)];
            break;
        }
        case R_POOL: {
            int h = (x.d[2] - L.a) / L.b + 1, w = (x.d[3] - L.a) / L.b + 1;
            y.d = {1, 1, h, w};
            y.v.assign((size_t)(h * w), -1e300);
            for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) {
                double best = -1e300, second = -1e300;
                for (int k = 0; k < L.a; k++) for (int l = 0; l < L.a; l++) {
                    double v = x.v[(size_t)((i * L.b + k) * x.d[3] + j * L.b + l)];
                    if (v > best) { second = best; best = v; } else second = std::max(second, v);
                }
                if (best - second < 1e-4) kink = true;
                y.v[(size_t)(i * w + j)] = best;
            }
            break;
        }
        default: y = x; y.d = {x.d[0], (int)x.v.size() / x.d[0]}; break;
    }
    return y;
}
static RT bwd(RL& L, const RT& g) {
    RT r = L.x;
    std::fill(r.v.begin(), r.v.end(), 0.0);
    const RT& x = L.x;
    switch (L.type) {
        case R_FC: {
            int rows = x.d.size() == 1 ? 1 : x.d[0];
            L.gW.assign(L.W.size(), 0);
            L.gB.assign(L.B.size(), 0);
            for (int i = 0; i < rows; i++) for (int j = 0; j < L.b; j++) {
                double t = g.v[(size_t)(i * L.b + j)];
                L.gB[(size_t)j] += t;
                for (int k = 0; k < L.a; k++) {
                    L.gW[(size_t)(k * L.b + j)] += x.v[(size_t)(i * L.a + k)] * t;
                    r.v[(size_t)(i * L.a + k)] += L.W[(size_t)(k * L.b + j)] * t;
                }
            }
            break;
        }
        case R_ACT:
            if (L.a == 4) {
                RT y = fwd(L, x);
                int rows = x.d[0], c = (int)x.v.size() / rows;
                for (int i = 0; i < rows; i++) {
                    double dot = 0;
                    for (int j = 0; j < c; j++) dot += y.v[(size_t)(i * c + j)] * g.v[(size_t)(i * c + j)];
                    for (int j = 0; j < c; j++) r.v[(size_t)(i * c + j)] = y.v[(size_t)(i * c + j)] * (g.v[(size_t)(i * c + j)] - dot);
                }
            } else
                for (size_t i = 0; i < r.v.size(); i++) r.v[i] = actd(L.a, x.v[i]) * g.v[i];
            break;
        case R_CONV: {
            int h = g.d[2], w = g.d[3];
            L.gW.assign(L.W.size(), 0);
            L.gB.assign(1, 0);
            for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) {
                double t = g.v[(size_t)(i * w + j)];
                L.gB[0] += t;
                for (int k = 0; k < L.b; k++) for (int l = 0; l < L.b; l++) {
                    size_t at = (size_t)((i + k) * x.d[3] + j + l);
                    L.gW[(size_t)(k * L.b + l)] += x.v[at] * t;
                    r.v[at] += L.W[(size_t)(k * L.b + l)] * t;
                }
            }
            break;
        }
        case R_POOL: {
            int h = g.d[2], w = g.d[3];
            for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) {
                double best = -1e300;
                size_t at = 0;
                for (int k = 0; k < L.a; k++) for (int l = 0; l < L.a; l++) {
                    size_t q = (size_t)((i * L.b + k) * x.d[3] + j * L.b + l);
                    if (x.v[q] > best) { best = x.v[q]; at = q; }
                }
                r.v[at] += g.v[(size_t)(i * w + j)];
            }
            break;
        }
        default: r.v = g.v; break;
    }
    return r;
}
struct Ref {
    vector<RL> L;
    double lr = 0.1, mom = 0;
    RT predict(RT x) { for (auto& l : L) x = fwd(l, x); return x; }
    void sgd(V& w, const V& g, V& m) {
        if (w.empty()) return;
        if (m.empty()) m.assign(w.size(), 0);
        for (size_t i = 0; i < w.size(); i++) {
            m[i] = mom * m[i] + g[i];
            w[i] -= lr * (mom > 0 ? m[i] : g[i]);
        }
    }
    void step(const RT& x, const RT& t) {
        RT y = predict(x), g = y;
        for (size_t i = 0; i < g.v.size(); i++) g.v[i] = 2 * (y.v[i] - t.v[i]) / (double)g.v.size();
        for (size_t i = L.size(); i-- > 0;) g = bwd(L[i], g);
        for (auto& l : L) { sgd(l.W, l.gW, l.mW); sgd(l.B, l.gB, l.mB); }
    }
};
static RT rt_of(const Snap& s) { RT r; r.d = s.d; r.v.assign(s.v.begin(), s.v.end()); return r; }
static Snap snap_of(const RT& r) { Snap s; s.d = r.d; for (double v : r.v) s.v.push_back((float)v); return s; }
static V dbl(const Snap& s) { return V(s.v.begin(), s.v.end()); }

static void add_act(SmartDNN<float>& m, int v) {
    switch (v) {
        case 0: m.addLayer(ActivationLayer<float>(ReLU<float>())); break;
        case 1: m.addLayer(ActivationLayer<float>(Sigmoid<float>())); break;
        case 2: m.addLayer(ActivationLayer<float>(Tanh<float>())); break;
        case 3: m.addLayer(ActivationLayer<float>(LeakyReLU<float>())); break;
        case 4: m.addLayer(ActivationLayer<float>(Softmax<float>())); break;
        case 5: m.addLayer(ActivationLayer<float>(Swish<float>())); break;
        default: m.addLayer(ActivationLayer<float>(Mish<float>())); break;
    }
}
static void run(const Plan& p) {
    Quiet q;
    kink = false;
    bool conv = p.get("conv") != 0, rank1 = p.get("rank1") != 0 && !conv;
    int n = (int)p.in("n", 1, 3), rows = conv || rank1 ? 1 : (int)p.in("rows", 1, 160);
    static const float LR[] = {0.1f, 0.02f, 0.3f, 0.5f}, MO[] = {0.0f, 0.5f, 0.9f};
    uint64_t ws = (uint64_t)p.in("wseed", 1, 100000);
    vector<int> dims;
    for (const char* k : {"d0", "d1", "d2", "d3"}) dims.push_back((int)p.in(k, 1, 400));
    int img = (int)p.in("img", 0, 63), H = 4 + img % 3, W = 4 + img / 4 % 3, ks = 1 + img / 16 % 3, ps = 1 + img / 16 % 2, st = 1 + img % 2;
    Ref R;
    R.lr = LR[p.in("lr", 0, 3)];
    R.mom = MO[p.in("mom", 0, 2)];
    SGDOptions<float> so;
    so.learningRate = (float)R.lr;
    so.momentum = (float)R.mom;
    R.mom = so.momentum;
    R.lr = so.learningRate;
    std::unique_ptr<SmartDNN<float>> M;
    vector<size_t> pl;            // layer indices with parameters
    vector<int> ind;
    string e = attempt([&] {
        M.reset(new SmartDNN<float>());
        size_t at = 0;
        auto note = [&](RL l) { Quiet q2; R.L.push_back(l); at++; };
        if (conv) {
            M->addLayer(Conv2DLayer<float>(1, 1, ks));
            auto* l = dynamic_cast<Conv2DLayer<float>*>(M->getLayer(at));
            Snap w, b;
            { Quiet q2; w = make_snap({1, 1, ks, ks}, ws + 50, 1); for (auto& v : w.v) v *= 0.4f; b = make_snap({1, 1}, ws + 51, 1); }
            l->setWeights(make(w));
            l->setBiases(make(b));
            { Quiet q2; pl.push_back(at); RL x{R_CONV}; x.b = ks; x.W = dbl(w); x.B = dbl(b); note(x); }
            int a = (int)p.in("a2", 0, 7);
            if (a != 7) { int k = a == 4 ? 2 : a; add_act(*M, k); RL x{R_ACT}; x.a = k; note(x); }
            M->addLayer(MaxPooling2DLayer<float>(ps, st));
            { RL x{R_POOL}; x.a = ps; x.b = st; note(x); }
            M->addLayer(FlattenLayer<float>());
            { RL x{R_FLAT}; note(x); }
            int ch = (H - ks + 1 - ps) / st + 1, cw = (W - ks + 1 - ps) / st + 1;
            dims[0] = ch * cw;
            if (n > 2) n = 2;
        }
        for (int i = 0; i < n; i++) {
            int a = dims[(size_t)i], b = dims[(size_t)i + 1];
            M->addLayer(FullyConnectedLayer<float>(a, b));
            auto* l = dynamic_cast<FullyConnectedLayer<float>*>(M->getLayer(at));
            Snap w, bb;
            { Quiet q2; w = make_snap({a, b}, ws + (uint64_t)i, 1); for (auto& v : w.v) v *= a > 6 ? 0.2f : 0.5f; bb = make_snap({1, b}, ws + 9 + (uint64_t)i, 1); }
            l->setWeights(make(w));
            l->setBiases(make(bb));
            { Quiet q2; pl.push_back(at); RL x{R_FC}; x.a = a; x.b = b; x.W = dbl(w); x.B = dbl(bb); note(x); }
            string key = "a" + std::to_string(i);
            int act = (int)p.in(key.c_str(), 0, 7);
            if (act == 4 && rank1) act = 1;
            if (act != 7) { add_act(*M, act); RL x{R_ACT}; x.a = act; note(x); }
        }
        M->compile(MSELoss<float>(), SGDOptimizer<float>(so));
    });
    if (!e.empty()) RT_FAIL("unexpected-exception", "building a model threw: %s", e.c_str() + 1);
    vector<int> xd = conv ? vector<int>{1, 1, H, W} : rank1 ? vector<int>{dims[0]} : vector<int>{rows, dims[0]};
    vector<int> yd = rank1 ? vector<int>{dims[(size_t)n]} : vector<int>{rows, dims[(size_t)n]};
    auto xs = [&](uint64_t s) { return make_snap(xd, s * 11 + 3, 1); };
    auto ys = [&](uint64_t s) { return make_snap(yd, s * 13 + 4, 2); };
    // a second reference with parameters off by a float's rounding tells how far rounding can carry
    Ref R2 = R;
    for (size_t i : pl) {
        for (size_t k = 0; k < R2.L[i].W.size(); k++) R2.L[i].W[k] *= 1 + 6e-7 * (mix64(ws + i, k) & 1 ? 1 : -1);
        for (size_t k = 0; k < R2.L[i].B.size(); k++) R2.L[i].B[k] += 3e-7 * (mix64(ws + i, k + 999) & 1 ? 1 : -1);
    }
    auto spread = [&] {
        double d = 0;
        // a diverging run amplifies rounding, to the point of overflow
        for (size_t i : pl) for (const V* w : {&R.L[i].W, &R.L[i].B, &R2.L[i].W, &R2.L[i].B}) for (double t : *w) if (!(std::fabs(t) < 50)) return 1e9;
        for (size_t i : pl) {
            for (size_t k = 0; k < R.L[i].W.size(); k++) d = std::max(d, std::fabs(R.L[i].W[k] - R2.L[i].W[k]));
            for (size_t k = 0; k < R.L[i].B.size(); k++) d = std::max(d, std::fabs(R.L[i].B[k] - R2.L[i].B[k]));
        }
        return d;
    };
    auto judge = [&](const char* when) {
        if (kink) return false;
        double sp = spread();
        if (!(sp < 2e-5)) return false;                // a run that amplifies rounding tells nothing
        double tol = 5e-5 + 60 * sp;
        for (size_t i : pl) {
            Snap w, b;
            string e2 = attempt([&] {
                if (auto* l = dynamic_cast<FullyConnectedLayer<float>*>(M->getLayer(i))) { TF a = l->getWeights(), c = l->getBiases(); Quiet q2; w = snap(a); b = snap(c); }
                else { auto* l2 = dynamic_cast<Conv2DLayer<float>*>(M->getLayer(i)); TF a = l2->getWeights(), c = l2->getBiases(); Quiet q2; w = snap(a); b = snap(c); }
            });
            if (!e2.empty()) RT_FAIL("unexpected-exception", "reading parameters threw: %s", e2.c_str() + 1);
            Snap rw = w, rb = b;
            for (size_t k = 0; k < rw.v.size(); k++) rw.v[k] = (float)R.L[i].W[k];
            for (size_t k = 0; k < rb.v.size(); k++) rb.v[k] = (float)R.L[i].B[k];
            expect_close("wrong-trajectory", string("weights of layer ") + std::to_string(i) + " " + when, w, rw, tol);
            expect_close("wrong-trajectory", string("biases of layer ") + std::to_string(i) + " " + when, b, rb, tol);
            note_snap(w);
        }
        return true;
    };
    bool ok = true;
    for (auto& o : p.ops) {
        int ns = (int)o.in(0, 1, 4), ep = (int)o.in(1, 1, 3);
        uint64_t s = (uint64_t)o.at(2);
        switch (o.k) {
            case G_TRAIN: {
                string e2 = attempt([&] {
                    vector<TF> X, Y;
                    for (int i = 0; i < ns; i++) { X.push_back(make(xs(s + (uint64_t)i))); Y.push_back(make(ys(s + (uint64_t)i))); }
                    M->train(X, Y, ep);
                });
                if (!e2.empty()) RT_FAIL("unexpected-exception", "training threw: %s", e2.c_str() + 1);
                for (int k = 0; k < ep; k++) for (int i = 0; i < ns; i++) { R.step(rt_of(xs(s + (uint64_t)i)), rt_of(ys(s + (uint64_t)i))); R2.step(rt_of(xs(s + (uint64_t)i)), rt_of(ys(s + (uint64_t)i))); }
                ok = judge("after training");
                rt::count("hist.training_steps", (uint64_t)(ns * ep));
                break;
            }
            case G_STEP: {
                // one step made by hand with the public pieces
                string e2 = attempt([&] {
                    MSELoss<float> loss;
                    TF y = M->predict(make(xs(s)));
                    TF g = loss.gradient(y, make(ys(s)));
                    M->backward(g);
                    M->updateWeights();
                });
                if (!e2.empty()) RT_FAIL("unexpected-exception", "a step threw: %s", e2.c_str() + 1);
                R.step(rt_of(xs(s)), rt_of(ys(s)));
                R2.step(rt_of(xs(s)), rt_of(ys(s)));
                ok = judge("after a step");
                rt::count("hist.training_steps");
                break;
            }
            case G_PREDICT: {
                Snap y;
                string e2 = attempt([&] { TF r = M->predict(make(xs(s))); Quiet q2; y = snap(r); });
                if (!e2.empty()) RT_FAIL("unexpected-exception", "prediction threw: %s", e2.c_str() + 1);
                RT w = R.predict(rt_of(xs(s)));
                RT w2 = R2.predict(rt_of(xs(s)));
                double sp = 0;
                for (size_t i = 0; i < w.v.size(); i++) { double t = std::fabs(w.v[i] - w2.v[i]); if (!(t <= sp)) sp = t; }
                if (!kink && sp < 2e-5) expect_close("wrong-prediction", "prediction after training", y, snap_of(w), 5e-5 + 60 * sp);
                break;
            }
            default: break;
        }
        if (!ok || kink) { rt::count(kink ? "skipped.kink" : "skipped.diverged"); break; }
    }
    Loud l;
    M.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C15";
    s.opnames.assign(NM, NM + NG);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a network (1-3 fully connected layers of 1-16 units, any activation or none, optionally behind a one-channel convolution and pooling), data, SGD with or without momentum and 1-3 training calls, manual steps or predictions, under a team of 1-8 threads; parameters and predictions are compared with a double-precision reference after each. Runs that come within 1e-4 of a kink of ReLU or pooling, or diverge, are cut short.";
    s.real = "training loop, layers, activations, loss, SGD, tensors, compiled with OpenMP on";
    s.stub = "OpenMP runtime, thread scheduler and operator new are the simulator's";
    return s;
}
