// Small models with observable, fault-injecting doubles around the real layers.
#pragma once
#include "kernels.hpp"
#include <stdexcept>

enum Stage { ST_FORWARD, ST_BACKWARD, ST_UPDATE, ST_COMPUTE, ST_GRADIENT, ST_OPTIMIZE, NSTAGE };
static const char* const STN[NSTAGE] = {"forward", "backward", "update", "loss", "gradient", "optimize"};

struct Call { int stage, id; };
struct Ctl {
    bool record = false;
    vector<Call> log;
    uint64_t n[NSTAGE] = {0};          // calls made, all doubles together
    uint64_t samples = 0;              // forward calls of double 0: samples begun
    uint64_t opt_done = 0;             // optimizer calls completed
    int fail_stage = -1, fail_id = 0;  // armed failure
    uint64_t fail_at = 0;              // counts down calls of that stage and double
    void enter(int stage, int id) {
        Quiet q;
        n[stage]++;
        if (stage == ST_FORWARD && id == 0) samples++;
        if (record) log.push_back({stage, id});
        if (stage == fail_stage && id == fail_id && fail_at && --fail_at == 0) {
            fail_stage = -1;
            rt::count((string("fault.") + STN[stage]).c_str());
            throw std::runtime_error("injected failure");
        }
    }
    void arm(int stage, int id, uint64_t at) { fail_stage = stage; fail_id = id; fail_at = at; }
    void clear() { fail_stage = -1; fail_at = 0; }
};
struct ProbeLayer : Layer<float> {
    Ctl* c;
    int id;
    ProbeLayer(Ctl* c, int id) : c(c), id(id) {}
    TF forward(const TF& x) override { c->enter(ST_FORWARD, id); return x; }
    TF backward(const TF& g) override { c->enter(ST_BACKWARD, id); return g; }
    void updateWeights(Optimizer<float>&) override { c->enter(ST_UPDATE, id); }
};
struct ProbeLoss : Loss<float> {
    Ctl* c;
    std::unique_ptr<Loss<float>> in;
    ProbeLoss(Ctl* c, Loss<float>* l) : c(c), in(l) {}
    TF compute(const TF& p, const TF& t) override { c->enter(ST_COMPUTE, 0); return in->compute(p, t); }
    TF gradient(const TF& p, const TF& t) override { c->enter(ST_GRADIENT, 0); return in->gradient(p, t); }
};
struct ProbeOpt : Optimizer<float> {
    Ctl* c;
    std::unique_ptr<Optimizer<float>> in;
    ProbeOpt(Ctl* c, Optimizer<float>* o) : c(c), in(o) {}
    void optimize(const std::vector<std::reference_wrapper<TF>>& w, const std::vector<std::reference_wrapper<TF>>& g, float lr) override {
        c->enter(ST_OPTIMIZE, 0);
        in->optimize(w, g, lr);
        c->opt_done++;
    }
};
inline Optimizer<float>* new_opt(int v) {
    switch (v % 5) {
        case 0: { SGDOptions<float> o; o.learningRate = 0.1f; return new SGDOptimizer<float>(o); }
        case 1: { SGDOptions<float> o; o.learningRate = 0.05f; o.momentum = 0.9f; return new SGDOptimizer<float>(o); }
        case 2: { AdamOptions<float> o; o.learningRate = 0.02f; return new AdamOptimizer<float>(o); }
        case 3: { RMSPropOptions<float> o; o.learningRate = 0.01f; return new RMSPropOptimizer<float>(o); }
        default: { RMSPropOptions<float> o; o.learningRate = 0.01f; o.momentum = 0.5f; return new RMSPropOptimizer<float>(o); }
    }
}

struct Arch {
    int kind = 0;          // 0 dense 1 convolutional
    int in = 2, hid = 2, out = 1, rows = 2, act = 1, opt = 0;
    bool bn = false, rank1 = false, deep = false, probes = true, drop = false;
    uint64_t seed = 1;
    int nprobe = 0;
};
inline Arch gen_arch_from(const Plan& p) {
    Arch a;
    a.kind = (int)p.in("kind", 0, 1);
    a.in = (int)p.in("in", 1, 600);
    a.hid = (int)p.in("hid", 1, 600);
    a.out = (int)p.in("out", 1, 80);
    a.rows = (int)p.in("rows", 1, 300);
    a.act = (int)p.in("act", 0, 6);
    a.opt = (int)p.in("opt", 0, 4);
    a.bn = p.get("bn") != 0;
    a.rank1 = p.get("rank1") != 0;
    a.deep = p.get("deep") != 0 && a.hid <= 48;
    a.seed = (uint64_t)p.in("mseed", 1, 1000);
    if (a.kind) { a.bn = a.rank1 = false; a.rows = 1; }
    if (a.rank1) { a.bn = false; if (a.act == 4) a.act = 1; }
    if (a.bn && a.rows < 2) a.rows = 2;
    return a;
}
inline void gen_arch(Rng& r, Plan& p) {
    p.set("kind", r.chance(1, 4));
    p.set("in", r.range(1, 5));
    p.set("hid", r.range(1, 5));
    p.set("out", r.range(1, 3));
    p.set("rows", r.range(1, 4));
    if (r.chance(1, 12)) {      // one wide dimension: thresholds, blocks and chunks live there
        static const char* const k[] = {"in", "hid", "rows", "out"};
        int at = (int)r.below(4);
        bool far = r.chance(1, 6);
        p.set(k[at], at == 3 ? r.range(4, far ? 80 : 20) : r.range(6, far ? at == 2 ? 300 : 600 : 48));
    }
    p.set("act", r.range(0, 6));
    p.set("opt", r.range(0, 4));
    p.set("bn", r.chance(1, 4));
    p.set("rank1", r.chance(1, 4));
    p.set("deep", r.chance(1, 3));
    p.set("mseed", r.range(1, 1000));
}
inline void add_act(SmartDNN<float>& m, int v) {
    switch (v % 7) {
        case 0: m.addLayer(ActivationLayer<float>(ReLU<float>())); break;
        case 1: m.addLayer(ActivationLayer<float>(Sigmoid<float>())); break;
        case 2: m.addLayer(ActivationLayer<float>(Tanh<float>())); break;
        case 3: m.addLayer(ActivationLayer<float>(LeakyReLU<float>())); break;
        case 4: m.addLayer(ActivationLayer<float>(Softmax<float>())); break;
        case 5: m.addLayer(ActivationLayer<float>(Swish<float>())); break;
        default: m.addLayer(ActivationLayer<float>(Mish<float>())); break;
    }
}
// Call loud.  Layer order: probe 0, ..., probe n-1, with the real layers between.
inline void build_model(SmartDNN<float>& m, Arch& a, Ctl* c) {
    int id = 0, at = 0;
    uint64_t s = a.seed;
    auto probe = [&] { if (a.probes) { m.addLayer(ProbeLayer(c, id++)); at++; } };
    auto fc = [&](int i, int o) {
        m.addLayer(FullyConnectedLayer<float>(i, o));
        auto* l = dynamic_cast<FullyConnectedLayer<float>*>(m.getLayer((size_t)at++));
        TF w = make({i, o}, s++, 1);
        w *= 0.5f;
        l->setWeights(w);
        l->setBiases(make({1, o}, s++, 2));
    };
    probe();
    if (a.kind) {
        m.addLayer(Conv2DLayer<float>(1, 1, 2));
        auto* l = dynamic_cast<Conv2DLayer<float>*>(m.getLayer((size_t)at++));
        l->setWeights(make({1, 1, 2, 2}, s++, 1));
        l->setBiases(make({1, 1}, s++, 2));
        add_act(m, a.act == 4 ? 0 : a.act);
        at++;
        probe();
        m.addLayer(MaxPooling2DLayer<float>(2, 1));
        m.addLayer(FlattenLayer<float>());
        at += 2;
        probe();
        fc(4, a.out);
    } else {
        fc(a.in, a.hid);
        if (a.bn) { m.addLayer(BatchNormalizationLayer<float>(a.hid)); at++; }
        add_act(m, a.act);
        at++;
        if (a.drop) { m.addLayer(DropoutLayer<float>(0.3f)); at++; }
        probe();
        if (a.deep) { fc(a.hid, a.hid); add_act(m, 1); at++; probe(); }
        fc(a.hid, a.out);
    }
    probe();
    a.nprobe = id;
    m.compile(ProbeLoss(c, new MSELoss<float>()), ProbeOpt(c, new_opt(a.opt)));
}
inline vector<int> in_dims(const Arch& a) { return a.kind ? vector<int>{1, 1, 4, 4} : a.rank1 ? vector<int>{a.in} : vector<int>{a.rows, a.in}; }
inline vector<int> out_dims(const Arch& a) { return a.rank1 && !a.kind ? vector<int>{a.out} : vector<int>{a.kind ? 1 : a.rows, a.out}; }
inline TF sample_x(const Arch& a, uint64_t k) { return make(in_dims(a), 1000 + a.seed * 17 + k, 2); }
inline TF sample_y(const Arch& a, uint64_t k) { return make(out_dims(a), 5000 + a.seed * 13 + k, 2); }

inline vector<Snap> params(const SmartDNN<float>& m, size_t layers) {
    vector<Snap> v;
    for (size_t i = 0; i < layers; i++) {
        if (auto* l = dynamic_cast<FullyConnectedLayer<float>*>(m.getLayer(i))) { v.push_back(snap(l->getWeights())); v.push_back(snap(l->getBiases())); }
        else if (auto* l2 = dynamic_cast<Conv2DLayer<float>*>(m.getLayer(i))) { v.push_back(snap(l2->getWeights())); v.push_back(snap(l2->getBiases())); }
    }
    return v;
}
inline size_t layer_count(const Arch& a) {
    int n = a.probes ? 1 : 0, pr = a.probes ? 1 : 0;
    if (a.kind) n += 2 + pr + 2 + pr + 1 + pr;
    else n += 1 + (a.bn ? 1 : 0) + 1 + (a.drop ? 1 : 0) + pr + (a.deep ? 2 + pr : 0) + 1 + pr;
    return (size_t)n;
}
inline bool all_same(const vector<Snap>& a, const vector<Snap>& b, double tol) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (diff(a[i], b[i], tol) != -1) return false;
    return true;
}
